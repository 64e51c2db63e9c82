prop = "C27"
file = "tokens.py"
edits = [("(CharsNotIn(word_chars, exact=1)).__regex__()[1]})|^)(?=", "(CharsNotIn(word_chars + '\\n', exact=1)).__regex__()[1]})|^)(?=")]
needs = "a word that begins at the start of a line that is not the first"
breaks = "WordStart does not match there"
demo = """
from mo_parsing import *
from mo_parsing.utils import alphas
from mo_parsing.whitespaces import NO_WHITESPACE

with NO_WHITESPACE:
    e = (Literal("a\\n") + WordStart(alphas) + Literal("b")).finalize()
e.parse("a\\nb")
"""
