prop = "C22"
file = "helpers.py"
edits = [('                            + ~Literal(opener)\n                            + ~Literal(closer)\n                            + CharsNotIn(ignore_chars, exact=1)\n                        ))\n                        / scrub\n                    )\n                else:', '                            + ~Literal(opener)\n                            + CharsNotIn(ignore_chars + closer[:1], exact=1)\n                        ))\n                        / scrub\n                    )\n                else:')]
needs = "nested_expr with delimiters of two characters, and content with the first character of the closer"
breaks = "the first character of the closer can not be part of the content"
demo = """
from mo_parsing import *
from mo_parsing.helpers import nested_expr

assert nested_expr("<<", ">>").parse("<< a>b >>").as_list() == [["a>b"]], nested_expr("<<", ">>").parse("<< a>b >>").as_list()
"""
