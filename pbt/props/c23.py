"""C23: number, address and date expressions accept their formats with the right value."""
import datetime
import ipaddress
import re

from mo_parsing import Group, helpers

from pbt.gen import cases
from pbt.lib import Violation, call, no_crash
from pbt.runner import Sub

ID = "C23"
RULE = (
    "Subs: (number) texts over digits, signs, points, exponents, hex letters and others, up to 14 characters, for 8 numeric expressions; "
    "(fraction) written fractions and mixed numbers, also with a zero denominator; (address) formatted IPv4, IPv6 (full, short, mixed), MAC and UUID "
    "values and the same with 0-2 characters changed, left out or put in, read as the whole input and inside a sequence; (date) formatted dates and "
    "date-times, also of days and times that do not exist, and the same with a character changed. Non-trivial: a text with a match that "
    "is not all of it; an address that is accepted, and one that is not; a date that exists, and one that does not."
)
ASSUMPTIONS = [
    "texts are of ASCII characters; leading zeros in IPv4 parts and mixed IPv6 forms other than ::ffff:a.b.c.d are not judged",
    "mixed numbers have no sign",
]


# --------------------------------------------------------------------------- numbers
def decode_number(t):
    s = ""
    for _ in range(t.between(1, 7)):
        s += t.pick(["0", "1", "12", "9", "+", "-", ".", "e", "E", "e+", "e-", "5", ".5", "a", "F", "_", " ", "x", "inf", "00"])
    return {"text": s[:16], "after": t.pick(["", " ", "z", ".", "e", "-", "1"])}


def float_of(p):
    if not re.fullmatch(r"[-+.0-9eE]*", p):
        return None
    try:
        return float(p)
    except ValueError:
        return None


def is_int(p):
    q = p[1:] if p[:1] in ("+", "-") else p
    return q.isdigit()


def hexes(p):
    return p and all(c in "0123456789abcdefABCDEF" for c in p)


FORMATS = {
    "integer": lambda p: int(p) if p.isdigit() else None,
    "signed_integer": lambda p: int(p) if is_int(p) else None,
    "hex_integer": lambda p: int(p, 16) if hexes(p) else None,
    "real": lambda p: float_of(p) if "." in p and "e" not in p.lower() else None,
    "sci_real": lambda p: float_of(p) if "." in p or "e" in p.lower() else None,
    "number": lambda p: int(p) if is_int(p) else float_of(p),
    "fnumber": lambda p: float_of(p) if p.lstrip("+-")[:1].isdigit() else None,
    "identifier": lambda p: p if re.fullmatch(r"[A-Za-z_][A-Za-z_0-9]*", p) else None,
}


def check_number(case, ctx):
    s = case["text"] + case["after"]
    body = s.lstrip(" ")
    for name, value in FORMATS.items():
        e = getattr(helpers, name)
        best = None
        for n in range(1, len(body) + 1):
            v = value(body[:n])
            if v is not None:
                best = n, v
        o = no_crash(call(e.parse, s), f"{name} on {s!r}")
        if best is None:
            if o.ok:
                raise Violation(f"{name} should not match {s!r}, but gives {o!r}")
            continue
        n, v = best
        if not o.ok:
            raise Violation(f"{name} should match {body[:n]!r} of {s!r}, but {o!r}")
        got = o.value.as_list()
        if got != [v] or type(got[0]) is not type(v) or o.value.end != len(s) - len(body) + n:
            raise Violation(f"{name} should match {body[:n]!r} of {s!r} as {v!r}, but gives {got!r}, to {o.value.end}")
        if n < len(body):
            ctx.hit(name)
        o = no_crash(call(("v" + Group(e)("n") + "$").parse, "v " + body[:n] + "$"), f"{name} in a sequence")
        if body[:n][0] != " " and (not o.ok or o.value.as_list() != ["v", [v], "$"]):
            raise Violation(f"{name} should match {body[:n]!r} in a sequence, but gives {o!r}")


def decode_fraction(t):
    return {
        "whole": t.pick([None, None, 0, 1, 2, 17]), "num": t.pick([0, 1, 3, 10, 255]), "den": t.pick([0, 1, 2, 3, 4, 100]),
        "signs": [t.pick(["", "", "-", "+"]) for _ in range(2)], "dash": t.pick([" ", "-", " - "]), "gap": t.pick(["", " ", "  "]), "half": t.n(4),
    }


def check_fraction(case, ctx):
    w, n, d, (a, b), gap = case["whole"], case["num"], case["den"], case["signs"], case["gap"]
    if w is None:
        s = f"{a}{n}{gap}/{gap}{b}{d}"
        want = [int(f"{a}{n}") / int(f"{b}{d}")] if d else None
        which = ["fraction", "mixed_integer"]
    else:
        s = f"{w}" + ("" if case["half"] == 3 else f"{case['dash']}{n}{gap}/{gap}{d}")
        want = [w + (0 if case["half"] == 3 else n / d if d else None)] if d or case["half"] == 3 else None
        which = ["mixed_integer"]
    for name in which:
        o = no_crash(call(getattr(helpers, name).parse, s, parse_all=True), f"{name} on {s!r}")
        if want is None:
            ctx.hit("zero")
            if o.ok:
                raise Violation(f"{name} should not accept {s!r}, but gives {o!r}")
            continue
        ctx.hit(name)
        if not o.ok or o.value.as_list() != want:
            raise Violation(f"{name} should read {s!r} as {want!r}, but gives {o!r}")


# --------------------------------------------------------------------------- addresses
def decode_address(t):
    kind = t.pick(["ipv4", "ipv6", "ipv6", "ipv6", "mac", "uuid"])

    def hexa(lo, hi):
        return t.chars("0123456789abcdefABCDEF", lo, hi)

    if kind == "ipv4":
        s = ".".join(str(t.pick([0, 1, 9, 10, 99, 100, 127, 199, 200, 249, 250, 255, 255, 256, 260, 300])) for _ in range(t.pick([4, 4, 4, 3, 5])))
    elif kind == "mac":
        sep = t.pick(":-.")
        s = sep.join(hexa(2, 2) for _ in range(t.pick([6, 6, 6, 5, 7])))
    elif kind == "uuid":
        s = "-".join(hexa(n, n) for n in (8, 4, 4, 4, 12))
    else:
        style = t.n(6)
        if style == 0:
            s = ":".join(hexa(1, 4) for _ in range(t.pick([8, 8, 7, 9])))
        elif style == 1:
            s = "::ffff:" + ".".join(str(t.n(300)) for _ in range(4))
        else:
            n = t.n(10)
            k = t.n(n + 1)
            s = ":".join(hexa(1, 4) for _ in range(k)) + "::" + ":".join(hexa(1, 4) for _ in range(n - k))
    for _ in range(t.pick([0, 0, 1, 2])):
        k = t.n(len(s) + 1)
        how = t.n(3)
        c = t.pick(":.-0f1g 2")
        s = s[:k] + (c if how else "") + s[k + (how != 1):]
    return {"kind": kind, "text": s}


def accepts(kind, s):
    """None: not judged"""
    if kind == "mac":
        return bool(re.fullmatch(r"[0-9a-fA-F]{2}([:.-])[0-9a-fA-F]{2}(\1[0-9a-fA-F]{2}){4}", s, re.ASCII))
    if kind == "uuid":
        parts = s.split("-")
        return [len(p) for p in parts] == [8, 4, 4, 4, 12] and all(hexes(p) for p in parts)
    if kind == "ipv4":
        if any(len(p) > 1 and p.startswith("0") for p in s.split(".")):
            return None
        try:
            ipaddress.IPv4Address(s)
            return True
        except ValueError:
            return False
    if "." in s:
        if not s.startswith("::ffff:"):
            return None if s.lower().count(":") > 1 else False
        return accepts("ipv4", s[7:])
    if "%" in s:
        return None
    try:
        ipaddress.IPv6Address(s)
        return True
    except ValueError:
        return False


def check_address(case, ctx):
    kind, s = case["kind"], case["text"].strip()
    name = {"ipv4": "ipv4_address", "ipv6": "ipv6_address", "mac": "mac_address", "uuid": "uuid"}[kind]
    e = getattr(helpers, name)
    want = accepts(kind, s)
    o = no_crash(call(e.parse, s, parse_all=True), f"{name} on {s!r}")
    if want is None:
        ctx.label("not judged")
        return
    if o.ok != want:
        raise Violation(f"{name} should {'' if want else 'not '}accept {s!r}, but {o!r}")
    m = call(e.matches, s)
    if not m.ok or bool(m.value) != want:
        raise Violation(f"{name} should {'' if want else 'not '}match {s!r}, but {m!r}")
    if want:
        ctx.hit(kind)
        if o.value.as_list() != [s]:
            raise Violation(f"{name} should give {s!r}, but gives {o!r}")
        o = no_crash(call(("at" + e("where") + ";").parse, "at  " + s + " ;"), f"{name} in a sequence")
        if not o.ok or o.value.as_list() != ["at", s, ";"] or o.value["where"] != s:
            raise Violation(f"{name} should match {s!r} in a sequence, but gives {o!r}")
    else:
        ctx.hit("not " + kind)


# --------------------------------------------------------------------------- dates
def decode_date(t):
    def two(*values):
        return "%02d" % t.pick(values)

    y, m, d = "%04d" % t.pick([1999, 2000, 2020, 1900, 2023, 1, 9999]), two(1, 2, 4, 12, 6, 11, 0, 13), two(1, 28, 29, 30, 31, 15, 0, 32)
    kind = t.pick(["date", "date", "datetime", "datetime"])
    if kind == "date":
        s = "-".join([y, m, d][:t.pick([3, 3, 3, 1, 2])])
    else:
        s = f"{y}-{m}-{d}" + t.pick("T ") + two(0, 12, 23, 24, 9) + ":" + two(0, 59, 30, 60)
        if t.chance(2, 3):
            s += ":" + two(0, 59, 5, 61) + t.pick(["", ".0", ".123", ".", ".123456"])
        s += t.pick(["", "", "Z", "+00:00", "-0530", "+01", "z"])
    if t.chance(1, 3):
        k = t.n(len(s))
        s = s[:k] + t.pick(["", "1", "-", "x", ":"]) + s[k + t.n(2):]
    return {"kind": kind, "text": s, "before": t.pick(["", " ", "\n "]), "after": t.pick([";", " ;", "\n; "])}


DATE = re.compile(r"(?P<year>\d{4})(-(?P<month>\d\d)(-(?P<day>\d\d))?)?", re.ASCII)
DATETIME = re.compile(
    r"(?P<year>\d{4})-(?P<month>\d\d)-(?P<day>\d\d)[T ](?P<hour>\d\d):(?P<minute>\d\d)(:(?P<second>\d\d(\.\d*)?))?(?P<tz>Z|[+-]\d\d:?\d\d)?", re.ASCII
)


def check_date(case, ctx):
    kind, s = case["kind"], case["text"].strip()
    name, pattern = {"date": ("iso8601_date", DATE), "datetime": ("iso8601_datetime", DATETIME)}[kind]
    e = getattr(helpers, name)
    m = pattern.fullmatch(s)
    whole = case["before"] + s
    o = no_crash(call(e.parse, whole, parse_all=True), f"{name} on {whole!r}")
    if o.ok != bool(m):
        raise Violation(f"{name} should {'' if m else 'not '}accept {whole!r}, but {o!r}")
    if m:
        r = o.value
        for k, v in m.groupdict().items():
            got = r[k]
            if hasattr(got, "as_list") and len(got) == 1:
                got = got[0]
            if (got or None) != v:
                raise Violation(f"{k} of {s!r} should be {v!r}, but is {got!r}")
    if kind == "date":
        fmt, convert, make = "%Y-%m-%d", helpers.convertToDate(), lambda s, f: datetime.datetime.strptime(s, f).date()
    else:
        fmt = "%Y-%m-%dT%H:%M:%S.%f" if "." in s else "%Y-%m-%d %H:%M:%S" if " " in s else "%Y-%m-%dT%H:%M"
        convert = helpers.convertToDatetime() if "." in s else helpers.convertToDatetime(fmt)
        make = datetime.datetime.strptime
    want = None
    if m:
        try:
            want = make(s, fmt)
        except ValueError:
            pass
    o = no_crash(call((e / convert).parse, whole, parse_all=True), f"converted {name} on {whole!r}")
    if o.ok != (want is not None):
        raise Violation(f"{whole!r} is {'the' if want else 'no'} {kind} {want}, but {o!r}")
    if want is not None:
        got = o.value.as_list()
        if got == [[want]]:
            got = got[0]
        if got != [want] or type(got[0]) is not type(want):
            raise Violation(f"{whole!r} is {want!r}, but gives {o!r}")
        more = whole + case["after"]
        o = no_crash(call((e / convert + ";" + e).parse, more + s), f"converted {name} on {more + s!r}")
        first = o.value[0] if o.ok else None
        while hasattr(first, "as_list") and len(first) == 1:
            first = first[0]
        if first != want:
            raise Violation(f"the first of {more + s!r} is {want!r}, but gives {o!r}")
        ctx.hit("exists")
    elif m:
        ctx.hit("does not exist")


SUBS = [
    Sub("number", cases(decode_number, 20), check_number, 1500, 100000),
    Sub("fraction", cases(decode_fraction, 16), check_fraction, 400, 10000),
    Sub("address", cases(decode_address, 60), check_address, 3000, 150000),
    Sub("date", cases(decode_date, 30), check_date, 1500, 80000),
]
