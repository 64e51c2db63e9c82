prop = "C05"
file = "expressions.py"
edits = [("and f.parser_config.whitespace is self.parser_config.whitespace", "and f.parser_config.whitespace.white_chars == self.parser_config.whitespace.white_chars")]
needs = "a sequence built in a context that ignores comments, used inside a sequence built where the white characters are the same but nothing is ignored"
breaks = "the inner sequence is merged into the outer one, and takes the outer rules for what is skipped"
demo = '''
from mo_parsing import *
from mo_parsing.whitespaces import Whitespace

with Whitespace() as w:
    w.add_ignore(Regex("#[^\\\\n]*"))
    inner = Literal("a") + Literal("b")
outer = inner + Literal("c")
assert outer.parse("a #x\\n b c", parse_all=True).as_list() == ["a", "b", "c"]
'''
