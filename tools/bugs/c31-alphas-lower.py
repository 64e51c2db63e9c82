prop = "C31"
file = "utils.py"
edits = [("                ret.extend(range(rr[0], rr[-1] + 1))\n", "                ret.extend(range(rr[0], rr[-1] + (1 if len(cc._ranges) < 9 else len(rr) - 1)))\n")]
needs = "a character that is alone in its range, in a set with many ranges"
breaks = "single characters between the ranges are missing"
demo = """
from mo_parsing.utils import parsing_unicode

assert chr(0x1F59) in parsing_unicode.Greek.alphas
"""
