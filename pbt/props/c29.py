"""C29: HTML tag expressions read the tags and attributes that were written."""
import re

from mo_parsing import Group, Word, helpers
from mo_parsing.helpers import makeHTMLTags, with_attribute, with_class
from mo_parsing.utils import alphanums, alphas

from pbt.gen import cases
from pbt.lib import ParseResults, call, expect, must, no_crash, plain
from pbt.runner import Sub

ID = "C29"
RULE = (
    "scan: texts with 1-5 written tags (open, close, empty, of the tag looked for or of others, in random case and spacing, with 0-4 attributes that "
    "have a quoted, unquoted, empty or no value) among words and comments, with 0-3 characters changed in half of them; the open, close "
    "and any-tag expressions are scanned over the text, also with with_attribute or with_class conditions, and the places, tags, attribute lookups and "
    "/> marks compared to a reference tag reader. entity: texts with entities and near misses, transformed. Non-trivial: a tag with two "
    "attributes, or a condition that accepts one tag of the text and refuses another, or an entity next to a near miss."
)
ASSUMPTIONS = [
    "texts are ASCII; attribute values have no quotes of their own kind, backslashes or newlines",
    "no attributes are called tag or empty",
    "whether with_attribute(a='') accepts a tag with a but no value is not judged",
]
TAGS = ["a", "BODY", "td", "h1", "x:y", "tr"]
ATTRS = ["href", "b", "CLASS", "data-x", "n:class", "b2", "Class", "id_"]
SPACE = " \t\r\n"


# --------------------------------------------------------------------------- reference
def spaces(s, i):
    while i < len(s) and s[i] in SPACE:
        i += 1
    return i


ATTR = re.compile(r"[A-Za-z][A-Za-z0-9_\-:]*")
VALUE = re.compile(r'"(?:[^"\n\r\\]|"")*"(?!")' + r"|'(?:[^'\n\r\\]|'')*'(?!')")  # doubled quotes are kept as they are
BARE = re.compile(r"[!-=?-~]+")
ANY = re.compile(r"[A-Za-z][A-Za-z0-9_:]*")
IDENT = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$")


def tag_at(s, i, tag):
    if tag is None:
        m = ANY.match(s, i)
        return (m.group(), m.end()) if m else None
    if s[i : i + len(tag)].lower() != tag.lower() or (i and s[i - 1] in IDENT) or s[i + len(tag) : i + len(tag) + 1] in IDENT:
        return None
    return tag, i + len(tag)


def open_at(s, i, tag):
    if s[i : i + 1] != "<":
        return None
    found = tag_at(s, spaces(s, i + 1), tag)
    if not found:
        return None
    name, i = found
    attrs = []
    while True:
        m = ATTR.match(s, spaces(s, i))
        if not m:
            break
        i = m.end()
        attr = [m.group().lower()]
        j = spaces(s, i)
        if s[j : j + 1] == "=":
            j = spaces(s, j + 1)
            v = VALUE.match(s, j)
            if v:
                attr.append(v.group()[1:-1])
                i = v.end()
            else:
                v = BARE.match(s, j)
                if v:
                    attr.append(v.group())
                    i = v.end()
        attrs.append(attr)
    i = spaces(s, i)
    empty = s[i : i + 1] == "/"
    if empty:
        i = spaces(s, i + 1)
    if s[i : i + 1] != ">":
        return None
    return i + 1, [name] + attrs + [empty]


def close_at(s, i, tag):
    if s[i : i + 2] != "</":
        return None
    found = tag_at(s, spaces(s, i + 2), tag)
    if not found:
        return None
    name, i = found
    i = spaces(s, i)
    if s[i : i + 1] != ">":
        return None
    return i + 1, ["</" + name + ">"]


def scan(s, read, ok):
    i, out = 0, []
    while i < len(s):
        r = read(s, i)
        if r and ok(r[1]):
            out.append((i, r[0], r[1]))
            i = r[0]
        else:
            i += 1
    return out


# --------------------------------------------------------------------------- cases
def cased(t, name):
    return t.pick([name, name.lower(), name.upper(), name.title()])


def write(t, tag, focus):
    def sp():
        return t.pick(["", "", "", " ", "\n", " \t"])

    other = t.pick(TAGS + ["b", "ab", "a1", "a-b", "bodyx"])
    name = cased(t, tag if t.chance(3, 4) else other)
    if t.chance(1, 4):
        return "</" + sp() + name + sp() + ">"
    out = "<" + t.pick(["", "", "", " "]) + name
    for _ in range(t.pick([1, 2, 0, 3, 4])):
        which = t.n(len(focus) * 2 + 1)
        name, val = focus[which] if which < len(focus) else (t.pick(ATTRS), t.chars("xyX12 -./#", 0, 4))
        if which < len(focus) and t.chance(1, 4):
            val = t.pick([val.swapcase(), val + " " + val, val + val, val[1:]])
        out += t.pick([" ", "  ", "\n", "\t "]) + cased(t, name)
        k = t.n(5)
        if k == 4:
            continue
        out += sp() + "=" + sp()
        if k < 2:
            out += '"' + val + t.pick(["", "", "", "", "'", ">", "="]) + '"'
        elif k == 2:
            out += "'" + val + t.pick(["", "", "", '"', "/>", "<a>"]) + "'"
        else:
            out += (val.replace(" ", "") or "v") + t.pick(["", "", "", "", "/", "=", '"'])
    return out + t.pick(["", " ", "\n", " /", "/", " / "]) + ">"


CHANGES = "<>/=\"' aAx-:1"


def decode_scan(t):
    tag = t.pick(TAGS)
    cond = None
    k = t.n(5)
    val = t.pick(["x", "", "1", "x", "xy", None])
    if k == 1:
        cond = ["attr", {t.pick(ATTRS).lower(): val}]
    elif k == 2:
        cond = ["attr", {t.pick(ATTRS).lower(): val, t.pick(ATTRS).lower(): None}]
    elif k == 3:
        cond = ["class", t.pick(["x", "1", "xy", "X"]), t.pick(["", "n"])]
    focus = []
    if cond and cond[0] == "attr":
        focus = [[k, v or "x"] for k, v in cond[1].items()]
    elif cond:
        focus = [["n:class" if cond[2] else "class", cond[1]]]
    s = ""
    for _ in range(t.between(1, 5)):
        s += write(t, tag, focus) + t.pick(["", "", " text ", "<!-- c -->", "x < y ", "&lt;", "\n", "word"])
    if t.chance(1, 2):
        for _ in range(t.between(1, 3)):
            i = t.n(len(s) + 1)
            k = t.n(3)
            c = t.pick(CHANGES)
            s = s[:i] + ("" if k == 0 else c) + s[i + (0 if k == 1 else 1) :]
    return {"tag": tag if t.chance(4, 5) else None, "s": s.replace("\\", ""), "cond": cond, "close": t.chance(1, 4), "group": t.chance(1, 3)}


def check_scan(case, ctx):
    tag, s, cond = case["tag"], case["s"], case["cond"]
    if tag is None:
        arg = Word(alphas, alphanums + "_:").set_parser_name("any tag")
        title = "AnyTag"
    else:
        arg, title = tag, "".join(tag.replace(":", " ").title().split())
    opener, closer = makeHTMLTags(arg)
    if case["close"]:
        if case["group"]:
            closer = Group(closer)
        found = list(must(lambda: list(closer.scan_string(s)), what=f"scan of {s!r} for the close tag {tag!r}"))
        want = scan(s, lambda s, i: close_at(s, i, tag), lambda _: True)
        compare(found, want, f"close tag {tag or '(any)'} in {s!r}")
        for (r, _, _), (_, _, w) in zip(found, want):
            v = r["end" + title] if case["group"] else r
            expect(v == w[0], lambda: f"close tag {tag!r} in {s!r}: [end{title}] is {v!r}, not {w[0]!r}")
        if len(want) > 1:
            ctx.hit("close tags")
        return

    given = {}
    if cond and cond[0] == "attr":
        given = dict(cond[1])
        opener = opener.add_parse_action(with_attribute(**{k: with_attribute.ANY_VALUE if v is None else v for k, v in given.items()}))
    elif cond:
        given = {"n:class" if cond[2] else "class": cond[1]}
        opener = opener.add_parse_action(with_class(cond[1], cond[2]) if cond[2] else with_class(cond[1]))
    counts = [0, 0]

    def accepts(items):
        values = attributes(items)
        ok = True
        for k, v in given.items():
            if k not in values or (v is not None and values[k] != [v]):
                ok = False
        counts[ok] += 1
        return ok

    for items in [r[2] for r in scan(s, lambda s, i: open_at(s, i, tag), lambda _: True)]:
        values = attributes(items)
        for k, v in given.items():
            if v is not None and len(values.get(k, [v])) != 1:
                return  # not judged: several values, or none
    e = Group(opener) if case["group"] else opener
    what = f"open tag {tag or '(any)'} with {given} in {s!r}"
    found = must(lambda: list(e.scan_string(s)), what=f"scan for {what}")
    want = scan(s, lambda s, i: open_at(s, i, tag), accepts)
    compare(found, want, what)
    for (r, _, _), (_, _, w) in zip(found, want):
        t = r["start" + title] if case["group"] else r  # scanning gives the named part itself
        values = dict(attributes(w), tag=[w[0]], empty=[w[-1]])
        expect(isinstance(t, ParseResults), lambda: f"{what}: [start{title}] is {t!r}")
        keys = list(t.keys())
        expect(sorted(keys) == sorted(values), lambda: f"{what}: keys() {keys}, not {list(values)}")
        for k, v in values.items():
            got = t[k]
            got = plain(got) if isinstance(got, ParseResults) else [got]
            expect(got == v, lambda: f"{what}: [{k!r}] is {got!r}, not {v!r}")
        if len(w) > 3:
            ctx.hit("attributes")
        if w[-1]:
            ctx.label("empty tag")
    if given and counts[0] and counts[1]:
        ctx.hit("condition")
    if want:
        ctx.label("tags")


def attributes(items):
    values = {}
    for a in items[1:-1]:
        values.setdefault(a[0], []).extend(a[1:])
    return values


def compare(found, want, what):
    got = []
    for r, start, end in found:
        p = plain(r)
        while len(p) == 1 and isinstance(p[0], list):
            p = p[0]
        got.append((start, end, p))
    expect(got == want, lambda: f"{what}: found {got!r}, written {want!r}")


# --------------------------------------------------------------------------- entities
ENTITIES = {"gt": ">", "lt": "<", "amp": "&", "nbsp": " ", "quot": '"', "apos": "'"}


def decode_entity(t):
    return {"parts": [t.pick([f"&{n};" for n in ENTITIES] + ["&", ";", "x", " ", "&lt", "gt;", "&foo;", "&LT;", "amp", "& lt;", "&#39;"]) for _ in range(t.between(1, 9))]}


def check_entity(case, ctx):
    s = "".join(case["parts"])
    want = re.sub("&(" + "|".join(ENTITIES) + ");", lambda m: ENTITIES[m.group(1)], s)
    e = helpers.commonHTMLEntity.add_parse_action(helpers.replaceHTMLEntity)
    got = must(e.transform_string, s, what=f"transform_string({s!r})")
    expect(got == want, lambda: f"entities in {s!r}: gives {got!r}, not {want!r}")
    if want != s and "&" in want:
        ctx.hit("entities")


SUBS = [
    Sub("scan", cases(decode_scan, 160), check_scan, 4000, 40000),
    Sub("entity", cases(decode_entity, 20), check_entity, 400, 2000),
]
