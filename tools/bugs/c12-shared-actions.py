prop = "C12"
file = "core.py"
edits = [("        output.parse_action = self.parse_action[:]\n", "        output.parse_action = self.parse_action\n"),
 ("            output.parse_action.append(wrap_parse_action(func))\n", "            output.parse_action = output.parse_action + [wrap_parse_action(func)]\n"),
 ("        output.parse_action += list(map(wrap_parse_action, fns))\n", "        output.parse_action = output.parse_action + list(map(wrap_parse_action, fns))\n"),
]
needs = "a condition added to an expression, and the original expression used afterwards"
breaks = "the copy shares its list of actions, and a condition is added to that list: the original gets the condition, too"
demo = '''
from mo_parsing import *
from mo_parsing.utils import alphas, nums, alphanums

a = Word(nums)
b = a.add_condition(lambda t: False)
assert a.parse("12").as_list() == ["12"]
'''
