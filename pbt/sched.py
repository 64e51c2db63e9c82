"""Run several threads under a chosen schedule: one runs at a time, and the baton moves at chosen source lines (or
bytecode instructions) of mo_parsing.

A thread that would block on one of mo_parsing's module level locks gives the baton away instead, so a schedule is repeatable and a
deadlock is seen at once. A thread that blocks on anything else is noticed because nothing happens: the baton goes to another thread.
"""
import sys
import threading
import time

from pbt import env

_mon = sys.monitoring
_TOOL = 4
_active = None
_locks = []
STALL_S = 0.1
DEAD_S = 60.0


class Abort(BaseException):
    """No thread can go on."""


def _on_line(code, line):
    if not code.co_filename.startswith(env._prefix):
        return _mon.DISABLE
    s = _active
    if s is not None:
        s.on_line()


def install():
    _mon.use_tool_id(_TOOL, "verif-sched")
    _mon.register_callback(_TOOL, _mon.events.LINE, _on_line)
    _mon.register_callback(_TOOL, _mon.events.INSTRUCTION, _on_line)
    _mon.set_events(_TOOL, _mon.events.LINE)


def granularity(fine):
    """Switch between bytecode instructions, or between lines."""
    _mon.set_events(_TOOL, _mon.events.INSTRUCTION if fine else _mon.events.LINE)


class SchedLock:
    def __init__(self, real):
        self.real = real
        self.make = threading.RLock if isinstance(real, type(threading.RLock())) else threading.Lock

    def acquire(self, blocking=True, timeout=-1):
        s = _active
        me = s and s.me()
        if me is None or not blocking:
            return self.real.acquire(blocking, timeout)
        while not self.real.acquire(False):
            s.blocked += 1
            me.waiting = self
            s.switch(me)
        me.waiting = None
        return True

    def release(self):
        self.real.release()
        s = _active
        if s is not None:
            for t in s.threads:
                if t.waiting is self:
                    t.waiting = None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()

    def __getattr__(self, name):
        return getattr(self.real, name)


def wrap_locks():
    """Replace the locks found in the modules of mo_parsing by ones that know about the schedule."""
    kinds = (type(threading.Lock()), type(threading.RLock()))
    known = {}
    for name, module in list(sys.modules.items()):
        if name.split(".")[0] != "mo_parsing" or module is None:
            continue
        for k, v in list(vars(module).items()):
            if isinstance(v, kinds):
                setattr(module, k, known.setdefault(id(v), SchedLock(v)))
    _locks.extend(known.values())
    return len(known)


def renew_locks():
    """A thread (also the main one) that was stopped in the middle may have left a lock behind: each case gets new ones."""
    for lock in _locks:
        lock.real = lock.make()


class _Thread:
    def __init__(self, index, body):
        self.index = index
        self.body = body
        self.baton = threading.Semaphore(0)
        self.waiting = None
        self.done = False
        self.value = None
        self.error = None
        self.ident = None


class Scheduler:
    def __init__(self, bodies, plan, stall=STALL_S, fine=False):
        self.fine = fine
        self.stall = stall
        self.threads = [_Thread(i, b) for i, b in enumerate(bodies)]
        self.by_ident = {}
        self.plan = plan  # [[lines to run, whom to pick next], ...]
        self.at = 0
        self.left = plan[0][0]
        self.current = None
        self.progress = 0
        self.switches = 0
        self.blocked = 0
        self.dead = False
        self.over = threading.Event()

    def me(self):
        return self.by_ident.get(threading.get_ident())

    def on_line(self):
        me = self.by_ident.get(threading.get_ident())
        if me is None or me.done:
            return
        self.progress += 1
        if self.dead:
            raise Abort()
        if self.current is not me:  # lost the baton while blocked on something
            me.baton.acquire()
            if self.dead:
                raise Abort()
            return
        self.left -= 1
        if self.left <= 0:
            self.switch(me)

    def ready(self):
        ready = [t for t in self.threads if not t.done and t.waiting is None]
        if ready:
            return ready
        # a lock may have been released just before its thread was noted as waiting (only after a stall)
        for t in self.threads:
            lock = t.waiting
            if not t.done and lock is not None and lock.real.acquire(False):
                lock.real.release()
                ready.append(t)
        return ready

    def pick(self, me):
        """Choose the next thread, and how long it may run."""
        run, who = self.plan[self.at % len(self.plan)]
        self.at += 1
        self.left = run
        ready = self.ready()
        if me is not None and len(ready) > 1:
            ready = [t for t in ready if t is not me]
        return ready[who % len(ready)] if ready else None

    def switch(self, me):
        target = self.pick(me)
        if target is me:
            return
        if target is None:
            self.kill()
            raise Abort()
        self.switches += 1
        self.current = target
        target.baton.release()
        me.baton.acquire()
        if self.dead:
            raise Abort()

    def kill(self):
        self.dead = True
        for t in self.threads:
            t.baton.release()
        self.over.set()

    def _run(self, t):
        t.ident = threading.get_ident()
        self.by_ident[t.ident] = t
        t.baton.acquire()
        try:
            if not self.dead:
                t.value = t.body()
        except BaseException as e:  # noqa
            t.error = e
        finally:
            t.done = True
            if not self.dead and self.current is t:
                if all(x.done for x in self.threads):
                    self.over.set()
                else:
                    target = self.pick(None)
                    if target is None:
                        self.kill()
                    else:
                        self.current = target
                        target.baton.release()
            elif all(x.done for x in self.threads):
                self.over.set()

    def run(self):
        """True when all threads came to an end."""
        global _active
        workers = [threading.Thread(target=self._run, args=(t,), daemon=True) for t in self.threads]
        _active = self
        try:
            if self.fine:
                granularity(True)
            for w in workers:
                w.start()
            while len(self.by_ident) < len(workers):
                time.sleep(0.0002)
            renew_locks()
            self.current = self.threads[0]
            self.current.baton.release()
            last = -1
            since = time.monotonic()
            turn = 0
            while not self.over.wait(self.stall):
                if self.progress != last:
                    last = self.progress
                    since = time.monotonic()
                    continue
                if time.monotonic() - since > DEAD_S:
                    self.kill()
                    break
                turn += 1
                ready = [t for t in self.threads if not t.done and t.waiting is None]
                if ready:
                    self.current = ready[turn % len(ready)]
                    self.current.baton.release()
            if not self.dead:
                for w in workers:
                    w.join(DEAD_S)
            return not self.dead
        finally:
            _active = None
            if self.fine:
                granularity(False)
