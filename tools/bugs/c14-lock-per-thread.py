prop = "C14"
file = "core.py"
edits = [("locker = RLock()\n", "locker = _Locks()\n"), ("from threading import RLock\n", "from threading import RLock, local\n"), ("_reset_actions = []\n", """_reset_actions = []


class _Locks(local):
    # DO NOT WAIT FOR THE PARSERS OF OTHER THREADS
    def __init__(self):
        self.lock = RLock()

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *args):
        return self.lock.__exit__(*args)
""")]
needs = "two threads that parse at the same time, with whitespace rules that are shared"
breaks = "the place where whitespace ends is taken from the string of another thread"
demo = """
import sys
from threading import Thread
from mo_parsing import *
from mo_parsing.utils import alphas

sys.setswitchinterval(1e-6)
e = OneOrMore(Word(alphas)).finalize()
bad = []

def work(n):
    text = " ".join("abcdef"[: 1 + (i * n) % 5] + " " * (i % n) for i in range(60))
    want = text.split()
    for _ in range(60):
        try:
            if e.parse(text, parse_all=True).as_list() != want:
                bad.append(n)
        except Exception as c:
            bad.append(c)
        if bad:
            return

for _ in range(5):
    t = [Thread(target=work, args=(n,)) for n in (2, 3, 4, 5)]
    [x.start() for x in t]
    [x.join() for x in t]
assert not bad, bad[:1]
"""
