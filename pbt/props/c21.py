"""C21: quoted strings and comments end where they should, and unquote to their text."""
from mo_parsing import Group, Literal, helpers
from mo_parsing.helpers import QuotedString
from mo_parsing.regex import Regex
from mo_parsing.whitespaces import Whitespace

from pbt.gen import cases
from pbt.lib import Violation, call, no_crash
from pbt.runner import Sub

ID = "C21"
RULE = (
    "Subs: (quoting) a QuotedString configuration (opening and closing quote of 1-3 characters, escape character, quote sequence that stands "
    "for a closing quote, multiline, unquoting and conversion of whitespace escapes on or off), texts written with it and arbitrary texts, at "
    "the start of the input, after a prefix, followed by text; (predefined) texts over the characters that matter to the predefined quoted "
    "strings and comments, tried at each position. Non-trivial: a written text with a quote or escape character, an arbitrary text that is "
    "read to an end; a position where a predefined expression matches."
)
ASSUMPTIONS = [
    "the reference reads from the opening quote on: an escape character with the character after it, a sequence that stands for a quote, "
    "a closing quote, or any character (not a line end unless multiline), in this order",
    "quotes, escape characters and the letters of whitespace escapes are different; an escaped line end keeps its escape character",
]

QUOTES = ["'", '"', "|", "::", "<<", "''", "{-", "$", "é", "«", "==", "*", "(", "[[[", "^", "%%"]
ENDS = ["", "", "", ">", "--", "»", "-}", ")", "]", "]]", "*/", "$$", "ab", "."]
ESCS = [None, None, "\\", "\\", "^", "!", "*", "¬", "]"]
NOISE = "aab tnrf\\\n\r\t\"'^!-=>|:»é\u2028]*"


def config(t):
    quote = t.pick(QUOTES)
    end = t.pick(ENDS)
    esc = t.pick(ESCS)
    if esc and esc in quote + end:
        esc = None
    e = end or quote
    double = t.pick([None, None, None, e + e, e + e, "~" + e, "\\" + e if esc is None else None, "q"])
    if double == "\\" + e and esc == "\\":
        double = None
    return {
        "quote": quote, "end": end, "esc": esc, "double": double, "multi": t.chance(1, 2),
        "unquote": not t.chance(1, 4), "convert": not t.chance(1, 3),
    }


def decode(t):
    c = config(t)
    special = c["quote"] + c["end"] + (c["esc"] or "") + (c["double"] or "")
    alphabet = special * 2 + NOISE + special
    return {
        "config": c,
        "texts": [t.chars(alphabet, 0, 8) for _ in range(3)],
        "raw": [t.chars(alphabet, 0, 10) for _ in range(3)],
        "after": t.chars(alphabet, 0, 3),
        "before": t.pick(["", "a", "  ", "\\"]),
    }


def read(c, s, i):
    """(end, text) of the quoted string at i, or None"""
    quote, end = c["quote"], c["end"] or c["quote"]
    esc, double = c["esc"], c["double"]
    if not s.startswith(quote, i):
        return None
    j = i + len(quote)
    text = ""
    while j < len(s):
        newline = s[j] in "\r\n"
        if esc and s[j] == esc and j + 1 < len(s) and (c["multi"] or s[j + 1] not in "\r\n"):
            n = s[j + 1]
            if c["convert"] and esc == "\\" and n in "tnfr":
                text += {"t": "\t", "n": "\n", "f": "\f", "r": "\r"}[n]
            elif n == "\n":
                text += esc + n
            else:
                text += n
            j += 2
        elif double and s.startswith(double, j):
            text += end
            j += len(double)
        elif s.startswith(end, j):
            j += len(end)
            return j, text if c["unquote"] else s[i:j]
        elif newline and not c["multi"]:
            return None
        elif c["convert"] and s[j] == "\\" and s[j + 1:j + 2] and s[j + 1] in "tnfr" and not s.startswith(end, j + 1) and not (
            double and s.startswith(double, j + 1)
        ):
            text += {"t": "\t", "n": "\n", "f": "\f", "r": "\r"}[s[j + 1]]
            j += 2
        else:
            text += s[j]
            j += 1
    return None


def write(c, text):
    quote, end = c["quote"], c["end"] or c["quote"]
    esc, double = c["esc"], c["double"]
    out = ""
    j = 0
    while j < len(text):
        ch = text[j]
        if esc and (ch == esc or ch in end or double and ch in double):
            out += esc + ch
        elif esc == "\\" and c["convert"] and ch in "\t\n\f\r":
            out += "\\" + {"\t": "t", "\n": "n", "\f": "f", "\r": "r"}[ch]
        elif double and text.startswith(end, j):
            out += double
            j += len(end)
            continue
        else:
            out += ch
        j += 1
    return quote + out + end


def build(c):
    kw = {}
    if c["esc"]:
        kw["esc_char"] = c["esc"]
    if c["double"]:
        kw["esc_quote"] = c["double"]
    if c["multi"]:
        kw["multiline"] = True
    if not c["unquote"]:
        kw["unquote_results"] = False
    if not c["convert"]:
        kw["convert_whitespace_escape"] = False
    if c["end"]:
        kw["end_quote_char"] = c["end"]
    return QuotedString(c["quote"], **kw)


def compare(p, s, k, want, wrapped, what):
    """The parser p, which takes k characters before the expression, agrees with want: (end, value) or None."""
    o = no_crash(call(p.parse, s), f"{what} at {k} of {s!r}")
    if want is None:
        if o.ok:
            raise Violation(f"{what} does not match at {k} of {s!r}, but gives {o!r}")
        return
    end, value = want
    if not o.ok:
        raise Violation(f"{what} matches {s[k:end]!r} at {k} of {s!r}, but {o!r}")
    value = [value] if wrapped else value
    got = o.value.as_list()
    if got != ([s[:k]] if k else []) + [value] or o.value.end != end:
        raise Violation(f"{what} matches {s[k:end]!r} at {k} of {s!r} as {value!r}, but gives {got!r}, to {o.value.end}")


def check(case, ctx):
    c = case["config"]
    if c["esc"] is not None and c["esc"] in "tnfr" or any(ch in "tnfr" for ch in c["quote"] + c["end"]):
        return
    with Whitespace(""):
        e = build(c)
        first = e.finalize()
        n = len(case["before"])
        later = (Regex("(?s).{%d}" % n) + Group(e)).finalize() if n else Group(e).finalize()
    quoted = []
    for text in case["texts"]:
        s = write(c, text)
        got = read(c, s + case["after"], 0)
        if got != (len(s), text if c["unquote"] else s):
            ctx.label("text that cannot be written")
        elif any(x and x in text for x in (c["quote"], c["end"], c["esc"], c["double"], "\\")):
            ctx.hit("written")
        quoted.append(s + case["after"])
    end = c["end"] or c["quote"]
    for raw in case["raw"]:
        quoted += [c["quote"] + raw, c["quote"] + raw + end, raw]
    for s in quoted:
        want = read(c, s, 0)
        if want:
            ctx.hit("read")
        compare(first, s, 0, want, False, "the quoted string")
        s = case["before"] + s
        want = read(c, s, n)
        compare(later, s, n, want, True, "the quoted string")


# --------------------------------------------------------------------------- predefined
def quoted_by(q):
    def reader(s, i):
        if s[i:i + 1] != q:
            return None
        j = i + 1
        while j < len(s):
            if s[j] == q:
                if s[j + 1:j + 2] != q:
                    return j + 1
                j += 2
            elif s[j] in "\r\n":
                return None
            elif s[j] == "\\":
                n = s[j + 1:j + 2]
                if not n or n == "x" and not (s[j + 2:j + 3] and s[j + 2] in "0123456789abcdefABCDEF"):
                    return None
                j += 3 if n == "x" else 2
            else:
                j += 1
        return None

    return reader


def either(*readers):
    def reader(s, i):
        for r in readers:
            end = r(s, i)
            if end is not None:
                return end

    return reader


def unicode_reader(s, i):
    return any_quoted(s, i + 1) if s[i:i + 1] == "u" else None


def between(a, b):
    def reader(s, i):
        if not s.startswith(a, i):
            return None
        j = s.find(b, i + len(a))
        return None if j < 0 else j + len(b)

    return reader


def line(opener, continued):
    def reader(s, i):
        if not s.startswith(opener, i):
            return None
        j = i + len(opener)
        while j < len(s):
            if s[j] == "\n" and not (continued and s[j - 1] == "\\" and j - 1 >= i + len(opener)):
                break
            j += 1
        return j

    return reader


any_quoted = either(quoted_by('"'), quoted_by("'"))
slashes = line("//", True)
PREDEFINED = {
    "dblQuotedString": quoted_by('"'), "sglQuotedString": quoted_by("'"), "quoted_string": any_quoted, "unicode_string": unicode_reader,
    "cStyleComment": between("/*", "*/"), "html_comment": between("<!--", "-->"), "dblSlashComment": slashes,
    "cppStyleComment": either(between("/*", "*/"), slashes), "javaStyleComment": either(between("/*", "*/"), slashes),
    "pythonStyleComment": line("#", False), "restOfLine": line("", False),
}
PIECES = {
    "quoted": ['"', "'", '"', "'", '""', "''", "\\", "\\x", "\\x4", "\\xg", "a", " ", "\n", "\r", "u", "f", '\\"', "\\'", "\\\n", "\\\\", "é"],
    "comment": ["/*", "*/", "*", "/", "//", "/", "\\", "\n", "\\\n", "a", " ", "<!--", "-->", "-", ">", "<!", "#", "/**/", "\r", '"'],
}


def decode2(t):
    pieces = PIECES[t.pick(["quoted", "comment"])]
    return {"text": "".join(t.pick(pieces) for _ in range(t.between(1, 12))), "more": t.pick(["", "", " ", "\n", "a"])}


PARSERS = {}


def parser(name, k):
    if (name, k) not in PARSERS:
        e = getattr(helpers, name)
        with Whitespace(""):
            PARSERS[name, k] = (Regex("(?s).{%d}" % k) + Group(e)).finalize() if k else Group(e).finalize()
    return PARSERS[name, k]


def check2(case, ctx):
    text = case["text"] + case["more"]
    for name, reader in PREDEFINED.items():
        s = "." + text
        for k in range(1, len(s)):
            end = reader(s, k)
            if end is not None and name != "restOfLine":
                ctx.hit(name)
            compare(parser(name, k), s, k, None if end is None else (end, s[k:end]), True, name)
        s = text
        end = reader(s, 0)
        if end is not None and not s[:1].isspace():
            got = no_crash(call(getattr(helpers, name).parse, s), f"{name} of {s!r}")
            if not got.ok or got.value.as_list() != [s[:end]]:
                raise Violation(f"{name} matches {s[:end]!r} of {s!r}, but gives {got!r}")


SUBS = [
    Sub("quoting", cases(decode, 90), check, 2500, 200000),
    Sub("predefined", cases(decode2, 30), check2, 1200, 80000),
]
