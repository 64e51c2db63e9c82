prop = "C29"
file = "helpers.py"
edits = [('                expected_value != with_attribute.ANY_VALUE\n                and tokens[name] != expected_value\n', '                expected_value != with_attribute.ANY_VALUE\n                and tokens[name] and tokens[name] != expected_value\n')]
needs = "a tag with the attribute, but the empty text for its value"
breaks = "an empty value is taken for any"
demo = """
from mo_parsing import *
from mo_parsing.helpers import makeHTMLTags, with_attribute

o, c = makeHTMLTags("div")
assert not (o / with_attribute(id="x")).matches('<div id="">')
"""
