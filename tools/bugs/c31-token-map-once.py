prop = "C31"
file = "helpers.py"
edits = [("        return [func(tokn, *args) for tokn in t]\n", "        done = {}\n        return [done.setdefault(str(tokn), func(tokn, *args)) for tokn in t]\n")]
needs = "a function that does not give the same each time, or tokens of different types that look the same"
breaks = "equal looking tokens get the result of the first"
demo = """
from mo_parsing import *
from mo_parsing.utils import nums, alphas
from mo_parsing.helpers import token_map

n = [0]


def count(x):
    n[0] += 1
    return x + str(n[0])


e = OneOrMore(Word(alphas)) / token_map(count)
assert e.parse("a b a").as_list() == ["a1", "b2", "a3"], e.parse("a b a").as_list()
"""
