prop = "C24"
file = "debug.py"
edits = [('        self.previous_parse = ParserElement._parse\n        ParserElement._parse = _debug_parse(self)', '        self.previous_parse = ParserElement._parse if self.was_debugging is None else self.was_debugging.previous_parse\n        ParserElement._parse = _debug_parse(self)')]
needs = "a Debugger inside another Debugger, and then parsing in the outer one"
breaks = "the outer debugger stops working when the inner one ends"
demo = """
from mo_parsing import *
from mo_parsing.debug import Debugger

with Debugger(silent=True) as d:
    with Debugger(silent=True):
        pass
    Literal("a").parse("a")
    assert d.parse_count > 0
"""
