prop = "C24"
file = "debug.py"
edits = [('        if self.parse_action and (do_actions or self.parser_config.callDuringTry):', '        if self.parse_action and do_actions:')]
needs = "an action with callDuringTry in a place that is only tried"
breaks = "while debugging, the condition is not checked when trying"
demo = """
from mo_parsing import *
from mo_parsing.utils import nums
from mo_parsing.debug import Debugger

n = Word(nums).add_condition(lambda t: t[0] != "1", callDuringTry=True)
e = SkipTo(n) + n
with Debugger(silent=True):
    assert e.parse("x 1 y 2").as_list() == ["x 1 y", "2"]
"""
