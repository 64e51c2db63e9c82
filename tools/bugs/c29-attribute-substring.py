prop = "C29"
file = "helpers.py"
edits = [("                and tokens[name] != expected_value\n", "                and not str(tokens[name].value() if hasattr(tokens[name], 'value') else tokens[name]).lower() == str(expected_value).lower()\n")]
needs = "an attribute value that differs from the expected one in case only"
breaks = "attribute values are compared caselessly"
demo = """
from mo_parsing import *
from mo_parsing.helpers import makeHTMLTags, with_attribute

o, c = makeHTMLTags("div")
e = o / with_attribute(id="x")
e.parse('<div id="x">')
assert not e.matches('<div id="X">')
"""
