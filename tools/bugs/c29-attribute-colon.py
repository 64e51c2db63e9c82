prop = "C29"
file = "helpers.py"
edits = [('    tagAttrName = Word(alphas, alphanums + "_-:")', '    tagAttrName = Word(alphas, alphas + "_-:")')]
needs = "an attribute with a digit in its name"
breaks = "tags with such an attribute are not matched"
demo = """
from mo_parsing import *
from mo_parsing.helpers import makeHTMLTags

o, c = makeHTMLTags("div")
o.parse('<div data-1="x">')
"""
