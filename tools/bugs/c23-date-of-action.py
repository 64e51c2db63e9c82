prop = "C23"
file = "helpers.py"
edits = [("    return cvt_fn\n\n\niso8601_date = (\n    Regex(r\"(?P<year>\\d{4})(?:-(?P<month>\\d\\d)(?:-(?P<day>\\d\\d))?)?\")", "    return cvt_fn\n\n\niso8601_date = (\n    Regex(r\"(?P<year>\\d{4})(?:-(?P<month>\\d\\d)(?:-(?P<day>\\d\\d?))?)?\")")]
needs = "a date with a day of one digit"
breaks = "it is accepted as an ISO-8601 date"
demo = """
from mo_parsing import *
from mo_parsing.helpers import iso8601_date

assert not iso8601_date.matches("2020-01-1")
"""
