prop = "C13"
file = "whitespaces.py"
edits = [("        if string is self.content:\n", "        if self.content is not None and (string is self.content or (len(string) == len(self.content) and string[:start + 1] == self.content[:start + 1])):\n")]
needs = "two inputs of equal length, parsed one after another, that are equal up to the start of some whitespace but have a different amount of it"
breaks = "the place where whitespace ends is remembered from the other string"
demo = '''
from mo_parsing import *
from mo_parsing.utils import alphas, nums, alphanums

e = OneOrMore(Word(alphas))
assert e.parse("a   b", parse_all=True).as_list() == ["a", "b"]
assert e.parse("a bcd", parse_all=True).as_list() == ["a", "bcd"]
'''
