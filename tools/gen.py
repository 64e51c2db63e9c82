"""Write properties.jsonl and MANIFEST.json from the table below (run: python3 tools/gen.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE, ENH, EXP, TOK, RES, RGX, WHI, HLP, INF, EXC, UTL, DBG = (
    "mo_parsing/%s.py" % n
    for n in "core enhancement expressions tokens results regex whitespaces helpers infix exceptions utils debug".split()
)
PBT = "generated-input search (Hypothesis, shrinking) against "
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, na=None):
    P.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier={"over": over, "text": " ".join(text.split())},
        why_tests_cant=" ".join(why.split()),
        anchors={
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": observe,
            "hook_needed": None,
        },
        technique=technique, note=" ".join(note.split()), na=na,
    ))


prop(
    "C01", "Composed grammars mean what their parts mean",
    """For any grammar composed from literals, words, character classes, keywords and regexes with sequence, ordered
    choice, longest choice, repetition, option, lookahead, negative lookahead, grouping, suppression, combining and
    recursive (not left recursive) references, parsing any string accepts exactly when a direct recursive-descent
    reading of the documented meaning of each construct accepts, and then gives the same nested list of tokens and the
    same matched prefix. The answer does not depend on how the same grammar is spelled (operators, constructors, plain
    strings for literals), nor on whether the expression was copied, streamlined or finalized first.
    Whitespace between the parts of a sequence or repetition is skipped, never inside a token.""",
    ["programs", "inputs"],
    "all grammars over the listed constructs (repetition bodies consume input), all spellings of them, all input strings",
    """The tests pin hand-written grammars on a few strings each; the flattening of nested sequences and choices, the
    prefix-table choice and cached regexes interact over the space of grammars, which a sample of examples cannot cover.""",
    [CORE, ENH, EXP, TOK],
    [("streamline (flattening, de-duplication)", "expressions.py ParseExpression.streamline, And.streamline"),
     ("faster / Fast prefix table", "expressions.py"), ("parse_impl of each construct", "expressions.py, enhancement.py, tokens.py")],
    ["ParserElement.parse", "ParseResults.as_list", "ParseResults.end"],
    PBT + "a reference interpreter of grammars",
    """Random grammars and inputs; trusts the reference interpreter in pbt/gram.py. Ends are compared modulo
    trailing whitespace.""",
)
prop(
    "C02", "Ordered choice equals trying the alternatives one by one",
    """However many alternatives an ordered choice has, and whatever characters they share, match caselessly or can start
    with, parsing any string gives exactly the result (tokens, names, matched text) of the first alternative, in the
    given order, that matches at that point by itself. It fails exactly when none of them matches by itself.""",
    ["programs", "inputs"],
    "all lists of alternatives (tokens, regexes, sequences, options, lookarounds, nested choices, references, actions) and all strings",
    """Choices are rewritten into a lookup on the first characters; whether the lookup can skip or reorder an alternative
    depends on relations between all the alternatives (prefixes, case, empty matches) that the tests' fixed lists do not vary.""",
    [EXP, TOK, ENH, RGX],
    [("faster, Fast.__init__, get_short_list", "expressions.py"), ("expecting() of each element", "all modules")],
    ["ParserElement.parse"],
    PBT + "the alternatives parsed one by one (differential)",
    "Random alternative lists including irregular Unicode case pairs; each alternative parsed alone is the oracle.",
)
prop(
    "C03", "Longest choice picks the longest match, first on ties",
    """A longest-match choice (the ^ operator, or Or) gives the result of the alternative that by itself matches the most
    characters at that point, the first of them when several match equally far, and fails exactly when no alternative
    matches by itself. Alternatives that are rejected by their own conditions do not count as matching.""",
    ["programs", "inputs"],
    "all lists of 1..8 alternatives with and without conditions, nested in sequences and other choices, all strings",
    """The tests have a handful of two or three alternative cases; the result depends on the relative lengths, ties,
    conditions and on the prefix lookup shared with ordered choice.""",
    [EXP],
    [("Or.parse_impl, Or.streamline", "expressions.py"), ("faster", "expressions.py")],
    ["ParserElement.parse"],
    PBT + "the alternatives parsed one by one (differential)",
    "Random alternatives; ties that differ only in trailing whitespace are not judged.",
)
prop(
    "C04", "Match-all accepts every order of its elements",
    """For elements of which no two can start at the same text, a match-all (the & operator, or MatchAll) accepts any
    arrangement that has each required element once, each optional element at most once, and each repeated element a
    number of times within its bounds, wherever the occurrences are; the tokens come in the order of the input (defaults
    of absent optional elements after them). It rejects when a required element is missing or has too few occurrences,
    and it never takes more than an element's maximum. The result does not depend on the order in which the elements
    were listed (the defaults of absent elements aside).""",
    ["programs", "inputs", "configurations"],
    "all sets of 2..5 pairwise distinguishable elements, required / optional / default / repeated, all arrangements of them",
    """The orders of n elements with repetition grow factorially; the tests show a few arrangements of one grammar each,
    and the bookkeeping of counts and removals depends on the arrangement.""",
    [EXP],
    [("MatchAll.parse_impl", "expressions.py"), ("MatchAll.streamline", "expressions.py")],
    ["ParserElement.parse", "ParseResults.as_list"],
    PBT + "a counting model over arrangements",
    "Elements start with distinct letters, so that the model has one answer per input.",
)
prop(
    "C05", "Whitespace rules belong to the context where a grammar was built",
    """What is skipped between the parts of a sequence or repetition is any run of the whitespace characters and ignored
    expressions of the whitespace context that was current where that sequence or repetition was built, regardless of the
    context at parse time; with no whitespace characters, nothing is skipped. The same holds for the default literal and
    keyword characters of the context. Leaving a context (normally or by an exception) restores the one before it.""",
    ["programs", "inputs", "configurations", "histories"],
    "all grammars with nested contexts of different whitespace sets and ignored expressions, all inputs, all enter/leave histories",
    """The tests use one or two contexts with fixed text; the guarantee is about any nesting of contexts and any run of
    skipped text, including sharing of sub-expressions across contexts and the skip cache.""",
    [WHI, CORE, EXP, ENH],
    [("Whitespace.__enter__/__exit__/copy", "whitespaces.py"), ("Whitespace.skip", "whitespaces.py"),
     ("And/Many whitespace config", "expressions.py, enhancement.py")],
    ["ParserElement.parse", "mo_parsing.whitespaces.CURRENT"],
    PBT + "a reference interpreter with scoped whitespace; metamorphic whitespace rewriting",
    "Ignored expressions are non-empty comments-like tokens; trusts pbt/gram.py.",
)
prop(
    "C06", "Whole-input parsing agrees with prefix parsing",
    """Parsing with parse_all succeeds exactly when prefix parsing succeeds and only whitespace, ignored text and final line
    ends are left after the match, and then gives the same result; otherwise it raises a ParseException. matches() is true exactly
    when parse_all parsing (or prefix parsing, when asked) succeeds; a grammar followed by StringEnd agrees with
    parse_all; parse_string, a finalized grammar and parse_file on a file (by name or object) agree with parse on the
    text of the file.""",
    ["programs", "inputs"],
    "all grammars, all strings with all kinds of text left over",
    """Tests call one entry point per grammar; that all entry points agree, on every left-over text, needs every grammar
    and every kind of remainder.""",
    [CORE, TOK],
    [("Parser._parseString", "core.py"), ("matches, parse_file", "core.py"), ("StringEnd", "tokens.py")],
    ["parse", "parse_string", "matches", "parse_file", "finalize"],
    PBT + "differential between the entry points",
    "Temporary files are made in the temporary directory and removed.",
)
prop(
    "C07", "Scanning finds exactly the leftmost matches, in order",
    """Scanning a string yields the match at the leftmost position (after whitespace) where the grammar matches, then
    continues after its end (or, with overlap, after its start), never twice the same match, at most max_matches of
    them, each equal to parsing the text from its start position, with 0 <= start <= end <= length.
    search_string gives these matches; split gives the text between them (and the separators when asked), so that all
    pieces put together are the string again; transform_string replaces each match by its tokens and changes nothing else.""",
    ["programs", "inputs"],
    "all grammars (context free at the match position), all strings, all max_matches and overlap settings",
    """Scan loops have corner cases (empty matches, overlap, matches at the very end, limits) which fixed examples cover
    one at a time.""",
    [CORE],
    [("Parser._scan_string", "core.py"), ("_transformString, _search_string, _split", "core.py")],
    ["scan_string", "search_string", "transform_string", "split"],
    PBT + "a reference scan built on single parses",
    "The reference scan uses the same grammar at each position, and the reference interpreter.",
)
prop(
    "C08", "Parse results behave as the list of their tokens",
    """Every result of a parse acts as one sequence of items, groups being single items: iteration, length, truth,
    indexing with positive and negative numbers, slicing, containment of equal items in comparison to a list, as_list,
    as_string, copying and concatenation all agree with each other. Items of suppressed, lookahead and negative
    lookahead parts are absent from it, and so are names.""",
    ["programs", "inputs"],
    "results of all grammars on all accepted strings",
    """Each access path walks the parse tree by itself; the tests check one path per example, agreement needs all trees.""",
    [RES],
    [("__iter__, __len__, __getitem__, as_list, as_string, __eq__, __add__", "results.py")],
    ["ParseResults"],
    PBT + "the reference token list",
    "Trusts the reference interpreter for the expected list.",
)
prop(
    "C09", "Named results are found by name, in order, within their group",
    """The value of a name in a result is what the parts given that name matched, at this level of grouping, in order of
    the input, whatever unnamed sequences, choices, repetitions, options and references are between: a single token is
    given as itself, several as a result with all of them, a named group as the group, with its own names inside; a part
    that is nothing but one named part or group is given as that part.
    Names inside another group or inside another named part are not visible from outside but are from that part.
    keys(), items(), get(), the in operator and lookup agree on the names of parts that matched something, and an absent
    name gives an empty result.""",
    ["programs", "inputs"],
    "all grammars with names on any node, all accepted strings",
    """Names must survive flattening, choice rewriting, repetition and recursion; tests name a few parts of a few grammars.""",
    [RES, ENH, EXP],
    [("_get_item_by_name, _flatten, items", "results.py"), ("set_token_name", "core.py")],
    ["ParseResults.__getitem__", "keys", "items", "get", "__contains__"],
    PBT + "a model of name visibility on the reference parse tree",
    "Names are unique in a grammar path or repeated on purpose; trusts the reference interpreter.",
)
prop(
    "C10", "Every part of a result knows where it matched",
    """Each group in a result has start and end positions that delimit exactly the text it matched: the parts inside a
    group are in order, do not overlap and lie within it, the text at the span of a group of one plain token is that
    token, and the spans are the ones of the same grammar read directly.
    located_expr, original-text and a parse action's location agree with these positions.""",
    ["programs", "inputs"],
    "all grammars with groups at any node, all accepted strings with any whitespace",
    """Positions are computed separately in every construct; tests check a few of them, for one whitespace layout.""",
    [RES, EXP, ENH, HLP],
    [("ParseResults.start/end of every parse_impl", "expressions.py, enhancement.py, tokens.py"),
     ("located_expr, originalTextFor", "helpers.py")],
    ["ParseResults.start", "ParseResults.end", "located_expr", "originalTextFor"],
    PBT + "spans of the reference parse tree",
    "Ends are compared modulo trailing whitespace.",
)
prop(
    "C11", "Parse actions and conditions see their match, and decide its value",
    """A parse action on any part of a grammar is called with the tokens, the start position and the whole input of a
    match of that part (as many of them as it takes arguments); what it returns replaces the tokens of that part (None
    keeps them), actions chain in the order they were added and inner parts act before outer ones, with the tokens the
    inner actions made. A false condition makes that part fail, exactly as if it had not matched, so alternatives,
    options and repetitions go on without it. A ParseException raised by an action has the same effect; other exceptions
    are reported to the caller.""",
    ["programs", "inputs"],
    "all grammars with actions and conditions on any node (deterministic functions), all strings",
    """Actions run inside backtracking, rewriting and lookahead; the tests attach them at fixed places in fixed grammars.""",
    [CORE, UTL, EXP, ENH],
    [("_parse", "core.py"), ("wrap_parse_action", "utils.py"), ("add_condition", "core.py")],
    ["add_parse_action", "/", "add_condition", "parse"],
    PBT + "a reference interpreter that applies the same actions",
    """How often an action runs is not claimed under lookahead, longest choice and match-all, which may try a part twice.""",
)
prop(
    "C12", "Expressions are immutable: deriving one never changes another",
    """Composing an expression into a bigger one, or deriving a new one from it (naming, parse actions, conditions,
    suppression, copying, repetition, choice, sequence, lookahead, finalizing, streamlining, parsing), never changes what
    the original, or any other expression made before, accepts and returns.""",
    ["histories", "programs", "inputs"],
    "all histories of deriving expressions from earlier ones, interleaved with parses, checked on all expressions made so far",
    """Aliasing between expressions shows only in histories where an old expression is used after a new one was derived;
    the tests build each grammar once.""",
    [CORE, ENH, EXP, TOK],
    [("copy() of every class", "all modules"), ("streamline returns a new element", "expressions.py, enhancement.py")],
    ["all composition operators", "parse"],
    PBT + "the behaviour of every expression recorded when it was made (stateful)",
    "Forward references are the documented exception: they are defined after they are used.",
)
prop(
    "C13", "A parse depends only on grammar and input",
    """Parsing the same string with the same grammar gives the same outcome (result or error text) whatever was parsed
    before with this or any other grammar, successfully or not, whether other lazy scans are half-way done, whether a
    parse action parses something else in the middle, and leaves no trace in earlier results.""",
    ["histories", "inputs", "programs"],
    "all sequences of parses, scans, aborted scans, failing parses and nested parses over several grammars and inputs",
    """Global state (skip caches, reset actions, the regex reader, the debugger, indentation stacks) is shared by all
    grammars; tests run each parse once, in one order.""",
    [CORE, WHI, RGX, HLP],
    [("Whitespace.skip cache", "whitespaces.py"), ("entrypoint reset actions", "core.py"), ("num_captures", "regex.py")],
    ["parse", "scan_string", "split"],
    PBT + "the outcome of the same parse in a fresh history (stateful)",
    "Grammars are built in-process; actions used are pure.",
)
prop(
    "C14", "Threads parsing at the same time do not disturb each other",
    """When several threads parse, scan, search, split and transform at the same time, with shared or separate grammars that
    were built before (finalized or used before, or not), each call gives exactly the outcome it gives alone, whatever
    the interleaving, also while scans are left half-way done, and no thread waits forever.""",
    ["schedules", "inputs"],
    "thread switches at any executed line of the library, 2-4 threads, shared grammars and whitespace contexts",
    """Unit tests run in one thread; races need a switch between particular lines.""",
    [CORE, WHI],
    [("locker / entrypoint", "core.py"), ("Whitespace.skip cache", "whitespaces.py")],
    ["parse", "scan_string", "search_string"],
    PBT + "single-threaded outcomes, over generated thread schedules (line-level scheduler)",
    "Switches are placed at line granularity of mo_parsing code; grammars are built before the threads start.",
)
prop(
    "C15", "Failures are ParseExceptions that point into the input",
    """A parse of any string either gives a result or raises a ParseException; a failure's position lies within 0..length,
    its line, column and line text are those of that position, its message and marked input line can always be made, and
    name what was found there. In a sequence of distinguishable tokens the position is where the first
    token that does not match was expected; with choices, options and repetitions it is a place where a part failed, not
    before the place that nothing recovered from. An expression with a parser name that fails where it starts, and the
    message of a failing condition, are named in the message.""",
    ["programs", "inputs"],
    "all grammars, all strings, including empty, multi-line and non-ASCII ones",
    """Error paths depend on the failure history of all alternatives; tests check a few messages.""",
    [EXC, CORE, EXP, ENH],
    [("ParseException.loc, best_cause, message", "exceptions.py"), ("failures in ParseResults", "results.py")],
    ["ParseException"],
    PBT + "position rules computed from the input and the reference interpreter",
    "The exact position is claimed for sequences of tokens only.",
)
prop(
    "C16", "Regex elements agree with Python's re",
    """For any pattern that Python's re accepts (DOTALL), a Regex element matches at a position exactly when re does there,
    with the same text; numbered and named groups exposed by capture_groups (also as its items: the outermost groups that
    took part, in order), and replacements made by sub and replace_with with group references, are the ones re gives for that match.""",
    ["inputs", "programs"],
    "all patterns over the grammar of re, all strings, in and outside sequences",
    """The element reads the pattern with its own grammar besides compiling it; the tests cover a list of patterns.""",
    [RGX, CORE],
    [("Regex", "regex.py"), ("capture_groups, sub", "regex.py"), ("replace_with", "core.py")],
    ["Regex", "capture_groups", "sub", "replace_with"],
    PBT + "Python's re (differential)",
    "Patterns are generated from a grammar of re syntax; the empty pattern is rejected by the element.",
)
prop(
    "C17", "Stop and ignore expressions are honoured as the tokens they are",
    """A repetition with a stop expression that is a token, a choice of tokens or a regex matches exactly the items before
    the first place where the stop expression matches, and fails when that is before its minimum; ignored expressions of
    a whitespace context are skipped exactly where they match.""",
    ["programs", "inputs"],
    "all bodies and stop expressions over tokens, regexes, quoted text and choices, all strings",
    """These are compiled to regexes by each element's own exporter; an exporter that is slightly off shows only for
    particular characters.""",
    [ENH, TOK, WHI, UTL],
    [("__regex__ of every token", "tokens.py"), ("Many.stop_on", "enhancement.py"), ("regex_range, regex_iso", "utils.py")],
    ["Many(stop_on)", "OneOrMore(stop_on)", "Whitespace.add_ignore"],
    PBT + "a reference that tries the stop expression by parsing",
    "Composite stop expressions other than choices are outside the claim.",
)
prop(
    "C18", "Infix notation builds the tree of precedence and associativity",
    """For any table of prefix, suffix, binary and ternary operators with distinct symbols (a prefix symbol may be a
    binary one too), infix_notation parses an expression over that table, with any parentheses, necessary, redundant or absent, to exactly the tree that precedence
    and associativity give it, operators first in the table binding tightest (an operand between two operators goes to the tighter one, or by associativity
    if both are of one level; a prefix operator written as the right operand of a tighter one takes all that binds tighter than itself); actions of a
    level are called once per operation of that level with its operands and operators. Strings that are not expressions are rejected.""",
    ["programs", "inputs"],
    "all operator tables of 1..5 levels, all trees over them, all redundant parenthesizations and spacings",
    """Tests evaluate a few dozen arithmetic strings; the tree builder re-scans the flat list after each reduction, so its
    correctness depends on the whole shape.""",
    [INF],
    [("infix_notation make_tree", "infix.py")],
    ["infix_notation"],
    PBT + "the tree that the string was rendered from (round trip), or, for texts with parentheses left out, that a precedence-climbing reader makes of it",
    "Operators of one level share arity and associativity, as a table row gives them.",
)
prop(
    "C19", "Character-class tokens match what their sets and bounds say",
    """Word, Char, CharsNotIn, White and AnyChar match at a position exactly the longest run allowed by their first and
    following character sets (given as any characters, also special, non-ASCII or adjacent ones), exclusions, keyword
    boundaries and minimum, maximum or exact lengths, and fail when fewer characters than the minimum are there.""",
    ["inputs", "configurations"],
    "all character sets, bounds and strings",
    """Sets are compiled into regex ranges; escaping and range merging depend on which characters are adjacent.""",
    [TOK, UTL, ENH],
    [("Word, Char, CharsNotIn, White", "tokens.py"), ("regex_range", "utils.py")],
    ["Word", "Char", "CharsNotIn", "White", "AnyChar"],
    PBT + "a character-by-character model",
    "A maximum limits the match, it does not forbid more characters after it (as in the code and pyparsing's newer releases).",
)
prop(
    "C20", "Literals, keywords, one_of and close matches match what they say",
    """Literal and CaselessLiteral match exactly their text (ignoring case for the latter, returning the text as defined);
    keywords do only when no identifier character follows; one_of matches the longest of its choices at a position
    (whatever their order, caseless or as keywords when asked); CloseMatch accepts exactly the texts of the same length with at most
    the given number of mismatches, and reports their positions.""",
    ["inputs", "configurations"],
    "all texts, also with regex-special, non-ASCII and case-irregular characters; all choice lists; all strings",
    """Each is compiled to a regex or lookup; the tests use plain words.""",
    [TOK, INF, UTL],
    [("Literal, Keyword, CaselessLiteral, CloseMatch", "tokens.py"), ("one_of", "infix.py"), ("regex_caseless", "utils.py")],
    ["Literal", "Keyword", "CaselessLiteral", "CaselessKeyword", "one_of", "CloseMatch"],
    PBT + "string comparison models",
    "Caseless means a character equals its lower or upper case single-character form.",
)
prop(
    "C21", "Quoted strings and comments end where they should, and unquote to their text",
    """For any quoting configuration (opening and closing quote of any length, escape character, doubled quote, multiline),
    text written with that quoting parses back to the text, whatever follows it, and ends at its closing quote; without a
    closing quote (on the same line unless multiline) there is no match, and without unquoting the source text is returned.
    The predefined quoted strings and comment expressions match exactly the text from their opener to their first closer.""",
    ["inputs", "configurations"],
    "all quoting configurations, all texts between the quotes, all texts around",
    """The pattern is assembled from the configuration through the regex exporter of other elements; tests use a few
    quotes and texts.""",
    [HLP, TOK, ENH],
    [("QuotedString", "helpers.py"), ("dblQuotedString, cStyleComment, ...", "helpers.py")],
    ["QuotedString", "quoted_string", "cStyleComment", "cppStyleComment", "html_comment", "pythonStyleComment"],
    PBT + "round trip through a reference writer, and a character-level reference reader",
    "Escape characters differ from the quotes.",
)
prop(
    "C22", "List, count and nesting helpers read back what was written",
    """Text rendered from a list with any spacing is read back to that list by delimited_list, from a count and that many
    items by counted_array, from nested lists by nested_expr, from key/value pairs by dict_of, and from nested lines by
    indentation by indented_block; nothing less than a complete rendering is accepted as the whole input.""",
    ["inputs", "configurations"],
    "all lists, nestings, delimiters, bracket strings and spacings within the documented use of each helper",
    """The helpers build grammars at run time (some while parsing); tests show an example of each.""",
    [HLP, INF],
    [("delimited_list", "infix.py"), ("counted_array, nested_expr, dict_of, indented_block", "helpers.py")],
    ["delimited_list", "counted_array", "nested_expr", "dict_of", "indented_block"],
    PBT + "round trip through a reference writer",
    "Items are words that contain no delimiter.",
)
prop(
    "C23", "Number, address and date expressions accept their formats with the right value",
    """The predefined numeric expressions give the value that Python gives for the matched text, and match the longest
    text of their documented format; fractions and mixed numbers give their value, and fail for a zero denominator. IPv4, IPv6
    (full, short and ::ffff: mixed form), MAC and UUID expressions accept, with whole-input parsing, exactly the texts that are such
    addresses. ISO-8601 dates and date-times are accepted exactly when they have that form, their parts are found by name, and
    converting them gives the standard library's date, or fails when there is no such date.""",
    ["inputs"],
    "all texts over the alphabets of the formats, and all formatted values",
    """Formats have many boundary values (255/256, :: positions, exponents, signs) and the tests list some.""",
    [HLP, TOK],
    [("integer, real, sci_real, number, ipv4_address, ipv6_address, ...", "helpers.py")],
    ["helpers.*"],
    PBT + "int/float, ipaddress, datetime and uuid of the standard library",
    "Format subsets where the library documents less than the standard library are given in the module.",
)
prop(
    "C24", "Debugging does not change what is parsed",
    """Inside a Debugger context (silent or not, nested or not) every parse gives the same outcome as outside, and the same
    calls of parse actions with the same arguments; leaving the context, also by an exception, restores normal parsing, or the debugger around it, which goes on to count attempts.""",
    ["programs", "inputs", "histories"],
    "all grammars with actions and conditions, all inputs, all nestings of debugger contexts",
    """The debugger replaces the parse function by its own version; the tests look at a few grammars under it.""",
    [DBG, CORE],
    [("_debug_parse", "debug.py"), ("_parse", "core.py")],
    ["Debugger"],
    PBT + "the same parse without the debugger (differential)",
    "Printed text is not judged.",
)
prop(
    "C25", "Every parse ends, and left recursion is refused",
    """A rule that can reach itself without consuming input is refused with a RecursiveGrammarException, when it is defined or
    at the latest when a parse reaches it, and no other grammar is refused, in whatever order its rules are defined, used and defined again; and every parse,
    scan and split by every other grammar ends, also when repeated, skipped or scanned parts can match nothing.""",
    ["programs", "inputs"],
    "all rule systems of up to 3 mutually recursive rules over sequence, choice, option, repetition, lookaround; all strings",
    """Whether a cycle consumes input depends on every path through the rules; tests show a few direct cycles.""",
    [ENH, EXP],
    [("check_recursion", "enhancement.py, expressions.py"), ("min_length", "all modules"), ("Many.parse_impl progress", "enhancement.py")],
    ["Forward.__lshift__", "parse", "scan_string"],
    PBT + "a graph search over the nullable first positions of the rules; a step budget",
    "Steps are counted in executed library code, not in time.",
)
prop(
    "C26", "SkipTo and ... stop at the first place where the target matches",
    """Skipping to a target matches up to the first position, at or after the current one, where the target matches (and
    takes the target too when it is included), gives the text before it, skips over ignored expressions as units, and fails when the
    target never matches or when the fail expression is found first. The ... operator between expressions does the same
    and names the skipped text _skipped.""",
    ["programs", "inputs"],
    "all targets, ignore and fail expressions over the token classes and small composites, all strings",
    """The skip loop interleaves whitespace, ignored, failing and target matches at every position; tests have a few.""",
    [ENH, CORE],
    [("SkipTo.parse_impl", "enhancement.py"), ("_PendingSkip", "core.py")],
    ["SkipTo", "..."],
    PBT + "a reference that tries every position in turn",
    "The target is tried after whitespace, and trailing whitespace of the skipped text is compared as documented there.",
)
prop(
    "C27", "Anchors and lookbehind look at exactly the text around the position",
    """StringStart, StringEnd, LineStart, LineEnd, WordStart and WordEnd match exactly at the positions their names say,
    for any text and character sets, and consume nothing but the line ends at the end; a lookbehind matches exactly when
    its expression matches text that ends at the current position, and lookarounds add no tokens.""",
    ["inputs", "configurations"],
    "all strings with line breaks and word boundaries, all character sets, all positions, all lookbehind tokens",
    """The position after whitespace skipping, string ends and line ends combine; tests check few positions.""",
    [TOK, ENH],
    [("StringStart, StringEnd, LineStart, LineEnd, WordStart, WordEnd", "tokens.py"), ("PrecededBy", "enhancement.py")],
    ["tokens at every position, without whitespace"],
    PBT + "a position predicate computed from the string",
    "Positions are reached through an exact-length prefix in a context without whitespace.",
)
prop(
    "C28", "Dict, OpenDict and ungroup expose what was parsed",
    """Dict over groups of a key and values gives a group with the same items, in which each key looks up the values of its
    group (all of them in order); OpenDict gives the same lookups without a group; ungroup gives the items of one group in
    its place.""",
    ["programs", "inputs"],
    "all lists of key/value groups (repeated keys, no values, nested values), all spacings",
    """Dynamic names share the lookup of named results; tests use one or two tables.""",
    [ENH, RES, HLP],
    [("_dict_post_parse", "enhancement.py"), ("Annotation", "results.py"), ("ungroup", "helpers.py")],
    ["Dict", "OpenDict", "ungroup"],
    PBT + "a dictionary model",
    "Keys are words.",
)
prop(
    "C29", "HTML tag expressions read the tags and attributes that were written",
    """The open-tag expression made for a tag name matches exactly the open tags of that name in any case and spacing, and
    gives each attribute (names in lower case) with its value, quoted or not, and whether the tag was closed by />; the
    close-tag expression matches exactly its close tags; with_attribute and with_class accept exactly the tags that have the given attributes;
    replaceHTMLEntity turns each common entity into its character.""",
    ["inputs", "configurations"],
    "all tag names, attribute lists and spacings",
    """Attribute syntax combines many optional parts; tests read a few tags.""",
    [HLP],
    [("makeHTMLTags", "helpers.py"), ("with_attribute, with_class", "helpers.py")],
    ["makeHTMLTags", "with_attribute", "with_class"],
    PBT + "round trip through a reference writer",
    "Attribute values contain no quotes of their own kind.",
)
prop(
    "C30", "Editing a result by name changes that name and nothing else",
    """Assigning to a name in a result makes that name look up the assigned value, deleting it (or assigning None) makes it absent,
    and in both cases all other names look up what they did before; the list of items keeps all that is not under the name (an assigned value takes the place of the first part with the name; without one it is no item), and no other result is changed.""",
    ["histories", "programs", "inputs"],
    "all results with names, all sequences of assignments and deletions",
    """Edits walk and replace parts of a shared tree; tests do one edit on one result.""",
    [RES],
    [("__setitem__, __delitem__", "results.py"), ("Annotation", "results.py")],
    ["ParseResults.__setitem__", "ParseResults.__delitem__"],
    PBT + "a dictionary model over edit histories (stateful)",
    "Edits through results of named groups and of the top-level group.",
)

prop(
    "C31", "Ready-made actions, conditions and character sets do what they say",
    """For any expression they are attached to and any input: matchOnlyAtCol(n) accepts exactly the matches that begin in column n of their line (col, line and
    lineno count as in the text); token_map, upcase_tokens and downcase_tokens give the function of each token, in order; remove_quotes drops the first and the last
    character; add_condition accepts exactly what all its functions accept, asked in order up to the first that refuses, fails with its message, and ends the whole
    parse if fatal; comma_separated_list reads the items of a line, also empty and quoted ones; stripHTMLTags removes exactly the tags; and the
    sets of parsing_unicode hold exactly the alphabetic, digit, alphanumeric or printable characters of their ranges.""",
    ["programs", "inputs"],
    "all texts of lines and columns, all token lists, all conjunctions of conditions, all lists with quoted and empty items, all tagged texts, all characters",
    """Each helper is shown by the tests on one or two strings; line and column counting, the order of conditions and the edges of ranges depend on every position.""",
    [HLP, CORE],
    [("matchOnlyAtCol, token_map, remove_quotes, stripHTMLTags, comma_separated_list", "helpers.py"), ("col, line, lineno, unicode_set", "utils.py"), ("add_condition", "core.py")],
    ["matchOnlyAtCol", "token_map", "add_condition", "comma_separated_list", "parsing_unicode"],
    PBT + "direct computations on the text and the token list",
    "A fatal failure is any exception that ends the parse.",
)

for x in P:
    text = x["statement"]
    assert len(x["title"]) <= 80, x["title"]


def public(x):
    return {k: x[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}


with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(public(x)) + "\n")

checks, na = [], []
for x in P:
    here = os.path.exists(os.path.join(HERE, "pbt", "props", x["id"].lower() + ".py"))
    if x["na"] or not here:
        na.append({"property": x["id"], "reason": x["na"] or "no check has been built for it yet"})
        continue
    checks.append({
        "property": x["id"],
        "quick_cmd": "./check %s --tier quick" % x["id"],
        "thorough_cmd": "./check %s --tier thorough" % x["id"],
        "evidence_file": "evidence/%s.json" % x["id"],
        "technique": "property-based testing: " + x["technique"],
        "level": "exploration",
        "level_note": x["note"],
    })
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "./check --selftest",
        "checks": checks,
        "not_applicable": na,
        "notes": "All checks drive the public API of /repo in-process through ./check; no hooks in /repo.",
    }, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")
