"""Shared vocabulary of the property modules: calling the library, judging outcomes."""
import contextlib
import io
import json

from pbt import env

import mo_parsing  # noqa: F401  (from /repo)
from mo_parsing import whitespaces
from mo_parsing.exceptions import ParseException
from mo_parsing.results import ParseResults
from mo_parsing.utils import Log


def _quiet(*args, **kwargs):
    return None


for _n in ("warning", "note", "alert", "info"):
    if hasattr(Log, _n):
        setattr(Log, _n, _quiet)


class Violation(Exception):
    """The property does not hold for this case."""


class Ctx:
    """Per-case notes: what made the case interesting (for the evidence)."""

    __slots__ = ["labels", "nontrivial"]

    def __init__(self):
        self.labels = []
        self.nontrivial = False

    def label(self, *names):
        self.labels.extend(names)

    def hit(self, *names):
        self.nontrivial = True
        self.labels.extend(names)


class Outcome:
    """What a call into the library did: 'ok' value, 'fail' ParseException, 'crash' anything else."""

    __slots__ = ["kind", "value"]

    def __init__(self, kind, value):
        self.kind = kind
        self.value = value

    @property
    def ok(self):
        return self.kind == "ok"

    def __repr__(self):
        if self.kind == "ok":
            return f"ok {show(self.value)}"
        return f"{self.kind} {type(self.value).__name__}: {excerpt(self.value)}"


def excerpt(e):
    try:
        return str(e).replace("\n", " ")[:300]
    except Exception as c:
        return f"<{type(e).__name__} whose str() raises {type(c).__name__}>"


def call(fn, *args, **kwargs):
    """Run library code; parse failures are data, any other exception is 'crash'."""
    try:
        return Outcome("ok", fn(*args, **kwargs))
    except ParseException as e:
        return Outcome("fail", e)
    except (Violation, env.HarnessError):
        raise
    except Exception as e:  # noqa
        return Outcome("crash", e)


def must(fn, *args, what="call", **kwargs):
    """Run library code that the property says succeeds."""
    o = call(fn, *args, **kwargs)
    if not o.ok:
        raise Violation(f"{what} did not succeed: {o!r}")
    return o.value


def no_crash(o, what):
    if o.kind == "crash":
        raise Violation(f"{what} raised {type(o.value).__name__} instead of a parse result or ParseException: {excerpt(o.value)}")
    return o


def plain(value):
    """Nested plain-python view of a parse result (independent of as_list)."""
    if isinstance(value, ParseResults):
        return [plain(v) for v in value]
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    return value


def show(value, limit=400):
    try:
        if isinstance(value, ParseResults):
            r = repr(value.as_list())
        else:
            r = repr(value)
    except Exception as e:
        r = f"<unprintable {type(value).__name__}: {type(e).__name__}>"
    return r if len(r) <= limit else r[:limit] + "..."


def expect(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


@contextlib.contextmanager
def muted():
    """Swallow stdout of code that prints (the Debugger)."""
    with contextlib.redirect_stdout(io.StringIO()) as f:
        yield f


def reset_globals():
    """A failing case may leave a whitespace context open: close it, so later cases are not affected."""
    if whitespaces.CURRENT is not _CURRENT:
        whitespaces.CURRENT = _CURRENT
        stack = getattr(whitespaces, "whitespace_stack", None)
        if stack is not None:
            del stack[_DEPTH:]


_CURRENT = whitespaces.CURRENT
_DEPTH = len(getattr(whitespaces, "whitespace_stack", ()))


def dumps(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)
