prop = "C07"
file = "core.py"
edits = [("        for t, s, e in self._scan_string(string, max_matches=maxsplit):\n            yield string[last:s]\n            if include_separators:", "        for t, s, e in self._scan_string(string, max_matches=maxsplit):\n            yield string[last:s]\n            if include_separators and e > s:")]
needs = "splitting at empty matches, with separators"
breaks = "separators that matched the empty text are not given"
demo = """
from mo_parsing import *
from mo_parsing.utils import alphas
from mo_parsing.whitespaces import NO_WHITESPACE

sep = LookAhead(Literal("b"))
assert len(list(sep.split("abc", include_separators=True))) == 3
"""
