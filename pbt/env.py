"""Import the code under test from /repo (never a copy) and isolate it.

Everything the harness knows about the process it runs in lives here:
where the sources are, the step budget that turns non-termination into a
deterministic outcome, and the silencing of console output.
"""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")  # tests of the harness point this at a scratch copy
VENV = "/opt/venv/lib/python3.12/site-packages"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
if VENV not in sys.path:
    sys.path.append(VENV)  # mo-dots, mo-future, mo-imports, mo-logs
sys.setrecursionlimit(4000)


class StepLimit(BaseException):
    """The code under test executed more steps than any correct run needs."""


class HarnessError(Exception):
    """Something is wrong with the harness, not with the code under test."""


_mon = sys.monitoring
_TOOL = 3
_state = {"count": 0, "limit": 1 << 62}
_prefix = os.path.join(REPO, "mo_parsing") + os.sep


def _on_start(code, offset):
    if not code.co_filename.startswith(_prefix):
        return _mon.DISABLE
    _state["count"] += 1
    if _state["count"] > _state["limit"]:
        raise StepLimit()


def _on_jump(code, offset, dest):
    if dest > offset or not code.co_filename.startswith(_prefix):
        return _mon.DISABLE
    _state["count"] += 1
    if _state["count"] > _state["limit"]:
        raise StepLimit()


def install_step_counter():
    _mon.use_tool_id(_TOOL, "verif-steps")
    _mon.register_callback(_TOOL, _mon.events.PY_START, _on_start)
    _mon.register_callback(_TOOL, _mon.events.JUMP, _on_jump)
    _mon.set_events(_TOOL, _mon.events.PY_START | _mon.events.JUMP)


def reset_steps(limit):
    _state["count"] = 0
    _state["limit"] = limit


def steps():
    return _state["count"]
