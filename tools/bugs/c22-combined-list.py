prop = "C22"
file = "infix.py"
edits = [('        return Combine(expr + ZeroOrMore(separator + expr, whitespaces.CURRENT))', '        return Combine(expr + ZeroOrMore(separator + expr, whitespaces.NO_WHITESPACE))')]
needs = "a combined delimited list with spaces around a separator, three or more items"
breaks = "a combined list ends at whitespace"
demo = """
from mo_parsing import *
from mo_parsing.utils import alphas
from mo_parsing.infix import delimited_list

assert delimited_list(Word(alphas), combine=True).parse("a , b , c", parse_all=True).as_list() == ["a,b,c"]
"""
