prop = "C20"
file = "infix.py"
edits = [("    rest = list(sorted([s for s in symbols if len(s) != 1], key=lambda s: -len(s)))\n", "    rest = list(sorted([s for s in symbols if len(s) != 1], key=lambda s: (-min(len(s), 4), s)))\n")]
needs = "choices of four or more characters, of which one starts with another"
breaks = "the shorter one masks the longer one"
demo = """
from mo_parsing import *
from mo_parsing.infix import one_of

assert one_of("abcd abcde").parse("abcde").as_list() == ["abcde"]
"""
