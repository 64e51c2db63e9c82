prop = "C20"
file = "tokens.py"
edits = [('                    if len(mismatches) > max_mismatches:\n                        break', '                    if len(mismatches) > (max_mismatches or 1):\n                        break')]
needs = "CloseMatch with max_mismatches=0"
breaks = "one mismatch is allowed when none is"
demo = """
from mo_parsing import *

assert not CloseMatch("abc", 0).matches("abd")
"""
