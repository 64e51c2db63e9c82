prop = "C05"
file = "whitespaces.py"
edits = [("        output.keyword_chars = self.keyword_chars\n", "")]
needs = "a context whose keyword characters were changed, entered again (`with w:`) before keywords are made in it"
breaks = "keywords made in the re-entered context use the default keyword characters"
demo = '''
from mo_parsing import *
from mo_parsing.utils import alphas, nums, alphanums
from mo_parsing.whitespaces import Whitespace

with Whitespace() as w:
    w.set_keyword_chars(alphanums + "-")
    with w:
        k = Keyword("a")
assert k.matches("a")
assert not k.matches("a-b", parse_all=False)
'''
