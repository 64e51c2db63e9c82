"""Write known_findings.json (run: python3 tools/known.py)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = []
# subject of the fix commit -> property, what failed
FIXED = {
    "repetition of a zero-width match must end": ("C25", "ZeroOrMore(Optional('a')) on 'b' never ended"),
    "negative lookahead must respect whitespace, conditions and elements without a regex": ("C01", "~(Literal('a') + 'b') did not see 'a b'; ~ of an element with a condition ignored the condition; ~ of some elements crashed"),
    "StringStart must return ParseResults": ("C27", "StringStart() + 'a' crashed"),
    "White must fail at end of string, and provide one token": ("C19", "White() at the end of the input crashed, and gave a token per character"),
    "CharsNotIn must honour min, max and exact": ("C19", "CharsNotIn('a', min=2, max=3) ignored the bounds"),
    "Word with max=1 is one initial character": ("C19", "Word('a', 'b', max=1) could not be made or matched more"),
    "caseless matching of punctuation, and of characters that change length": ("C20", "CaselessLiteral('[') or 'ß' made a wrong regex"),
    "Char(as_keyword=True) must not crash": ("C19", "Char('a', as_keyword=True) crashed"),
    "character ranges that end just before the bell character": ("C19", "regex_range used the bell character as a sentinel"),
    "fast alternatives must choose the same alternative as one-by-one matching": ("C02", "alternatives were skipped or reordered by the first-character lookup"),
    "Or must choose the longest alternative, and accept a single alternative": ("C03", "shorter alternatives were chosen; Or of one alternative crashed"),
    "SkipTo must not match when fail_on is found first": ("C26", "SkipTo(fail_on=...) matched beyond the fail expression"),
    "scan_string must not report the same match twice": ("C07", "scan_string(overlap=True) gave a match twice when it began with whitespace"),
    "minimum length of forwards and lookaheads decides left recursion": ("C25", "left recursion behind a lookahead or reference was not refused"),
    "assigning to an existing name must keep the name": ("C30", "result['a'] = 'x' lost the name"),
    "skip whitespace after a lookbehind": ("C27", "no whitespace was skipped after a lookbehind"),
    "Combine must run the parse actions of its expression": ("C11", "actions of the expression inside Combine did not run"),
    "original_text_for and located_expr end where the expression ends": ("C10", "the end included the whitespace that follows"),
    "debugger must give parse actions the same location": ("C24", "actions were given the position before whitespace under a Debugger"),
    "matchOnlyAtCol must use the order of parse action arguments": ("C11", "matchOnlyAtCol crashed"),
    "capture_groups must number all groups, and see the context of the match": ("C16", "groups from 10 on, nested groups and lookbehind were wrong"),
    "Regex must accept all patterns that re accepts, and skip leading whitespace": ("C16", "valid patterns were refused"),
    "Regex.sub must see the context of the match": ("C16", "sub() of a pattern with lookaround failed"),
    "replace_with must accept parameters": ("C16", "replace_with('\\\\1') crashed"),
    "as_list must not group the result of a Forward twice": ("C08", "as_list() nested the group of a Forward once more than iteration"),
    "suppressed Group has no output": ("C08", "Group(x).suppress() gave an empty group"),
    "suppressed group must have no output": ("C08", "Group(x).suppress() gave an empty group"),
    "lookahead tokens must not show in a named value": ("C09", "(LookAhead('a') + 'a')('n') had the value ['a', 'a']"),
    "zero-width matches count as required repetitions": ("C25", "follow-up of 50feed5: Many(Optional('a'), exact=2) on 'b'"),
    "bounded repetitions in MatchAll count their matches, wherever they are": ("C04", "Many('a', min_match=2) & 'b' never matched; Many('a', max_match=2) & Optional('b') & ZeroOrMore('c') refused 'a c a'"),
}
EXTRA = os.path.join(HERE, "tools", "known_extra.json")
if os.path.exists(EXTRA):
    with open(EXTRA) as f:
        extra = json.load(f)
    FINDINGS += extra.get("findings", [])
    FIXED.update({k: tuple(v) for k, v in extra.get("fixed", {}).items()})

log = subprocess.check_output(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "log", "--reverse", "--format=%h %s"], text=True).splitlines()
fixed = []
for line in log:
    commit, subject = line.split(" ", 1)
    if not subject.startswith("fix: "):
        continue
    key = subject[5:]
    if key not in FIXED:
        print("no entry for:", line)
        continue
    prop, what = FIXED[key]
    fixed.append(f"fixed: property={prop} {commit} {what}")
with open(os.path.join(HERE, "known_findings.json"), "w") as f:
    json.dump({"findings": FINDINGS, "fixed": fixed}, f, indent=1)
    f.write("\n")
print(len(FINDINGS), "findings", len(fixed), "fixed")
