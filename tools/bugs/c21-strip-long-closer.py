prop = "C21"
file = "helpers.py"
edits = [('            ret = ret[len(quote_char) : -len(end_quote_char)]', '            ret = ret[len(quote_char) : -len(quote_char)]')]
needs = "a closing quote of another length than the opening one"
breaks = "too much or too little is stripped"
demo = """
from mo_parsing import *
from mo_parsing.helpers import QuotedString

assert QuotedString("<<", end_quote_char=">").parse("<<ab>").as_list() == ["ab"]
"""
