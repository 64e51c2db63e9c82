prop = "C28"
file = "enhancement.py"
edits = [("    acc = tokens.tokens\n    for tok in list(tokens):\n", "    acc = tokens.tokens[0].tokens if len(tokens.tokens) == 1 and isinstance(tokens.tokens[0], ParseResults) else tokens.tokens\n    for tok in list(tokens):\n")]
needs = "a Dict over one group, not over a repetition"
breaks = "the key is added to the entry and not found in the table"
demo = """
from mo_parsing import *
from mo_parsing.utils import alphas, nums

r = (Dict(Group(Word(alphas) + Word(nums))) + ";").parse("a 1;")[0]
assert r["a"] == "1" or list(r["a"]) == ["1"], r["a"]
"""
