prop = "C31"
file = "helpers.py"
edits = [("    return _html_stripper.transform_string(tokens[0])\n", "    return _html_stripper.transform_string(tokens[0].strip())\n")]
needs = "a text with blanks at its ends"
breaks = "blanks that are no part of a tag are removed"
demo = """
from mo_parsing.helpers import stripHTMLTags

assert stripHTMLTags([" <b>x</b> y "], 0, "") == " x y "
"""
