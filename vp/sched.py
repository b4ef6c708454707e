"""A deterministic thread scheduler.

Import this before unpythonic: it replaces threading.Lock and threading.RLock by classes that behave
like the originals, except in threads run by `run()`. There, exactly one thread runs at a time, and
control moves to another thread only
  - where the generated schedule says so: after a given number of trace events (source lines, or
    bytecode instructions) executed in the code under test,
  - when the thread waits for a lock that another one holds, or ends.
So a run is a pure function of the code and the schedule, and the schedule is part of the case.
"""
import sys
import threading
import _thread

from vp import REPO

_RealLock = _thread.allocate_lock
_RealRLock = threading.RLock
_current = {}  # thread id -> (Sched, index)


class Deadlock(Exception):
    pass


class _Abort(BaseException):
    pass


class _CoopBase:
    def acquire(self, blocking=True, timeout=-1):
        me = _current.get(_thread.get_ident())
        if me is None or not blocking:
            return self._real.acquire(blocking, timeout)
        sched, i = me
        while not self._real.acquire(False):
            sched.block(i, self)
        return True

    __enter__ = acquire

    def release(self):
        self._real.release()
        me = _current.get(_thread.get_ident())
        if me is not None:
            me[0].unblock(self)

    def __exit__(self, *exc):
        self.release()

    def __getattr__(self, name):
        return getattr(self._real, name)


class CoopLock(_CoopBase):
    def __init__(self):
        self._real = _RealLock()


class CoopRLock(_CoopBase):
    def __init__(self):
        self._real = _RealRLock()


def install():
    threading.Lock = CoopLock
    threading.RLock = CoopRLock


install()


class Sched:
    def __init__(self, schedule, files, opcodes):
        self.schedule = list(schedule)   # [(events, target), ...]
        self.files = files
        self.opcodes = opcodes
        self.sems = []
        self.state = []       # "ready" | "blocked" | "done"
        self.waiting = {}     # lock id -> list of thread indices
        self.results = []
        self.done = _RealLock()
        self.done.acquire()
        self.deadlocked = False
        self.switches = 0
        self.left = self.schedule[0][0] if self.schedule else None

    # ---- called in the managed thread that is running
    def event(self, i):
        if self.deadlocked:
            return
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        _, target = self.schedule.pop(0)
        self.left = self.schedule[0][0] if self.schedule else None
        ready = [j for j, s in enumerate(self.state) if s == "ready" and j != i]
        if ready:
            self.switches += 1
            self._go(i, ready[target % len(ready)])

    def _go(self, i, j):
        self.sems[j].release()
        self.sems[i].acquire()
        if self.deadlocked:
            raise _Abort()

    def block(self, i, lock):
        self.state[i] = "blocked"
        self.waiting.setdefault(id(lock), []).append(i)
        ready = [j for j, s in enumerate(self.state) if s == "ready"]
        if not ready:
            self._deadlock(i)
        self._go(i, ready[0])

    def unblock(self, lock):
        for j in self.waiting.pop(id(lock), ()):
            if self.state[j] == "blocked":
                self.state[j] = "ready"

    def _deadlock(self, i):
        self.deadlocked = True
        for j, s in enumerate(self.state):
            if j != i and s == "blocked":
                self.sems[j].release()
        raise _Abort()

    def _body(self, i, fn):
        tid = _thread.get_ident()
        self.sems[i].acquire()
        _current[tid] = (self, i)
        files, opcodes, event = self.files, self.opcodes, self.event

        def local(frame, what, arg):
            if what == ("opcode" if opcodes else "line"):
                event(i)
            return local

        def glob(frame, what, arg):
            if frame.f_code.co_filename.startswith(files):
                if opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None
        try:
            if not self.deadlocked:
                sys.settrace(glob)
                try:
                    r = ("ok", fn())
                finally:
                    sys.settrace(None)
            else:
                r = ("abort", None)
        except _Abort:
            r = ("abort", None)
        except BaseException as e:
            r = ("exc", e)
        finally:
            sys.settrace(None)
            _current.pop(tid, None)
        self.results[i] = r
        self.state[i] = "done"
        if self.deadlocked:
            if all(s == "done" or s == "ready" for s in self.state):
                pass
        ready = [j for j, s in enumerate(self.state) if s == "ready"]
        blocked = [j for j, s in enumerate(self.state) if s == "blocked"]
        if ready:
            self.sems[ready[0]].release()
        elif blocked:
            if not self.deadlocked:
                self.deadlocked = True
                for j in blocked:
                    self.sems[j].release()
        else:
            self.done.release()

    def run(self, fns, main=False):
        threads = []
        for i, fn in enumerate(fns):
            s = _RealLock()
            s.acquire()
            self.sems.append(s)
            self.state.append("ready")
            self.results.append(None)
        for i, fn in enumerate(fns):
            if main and i == 0:
                continue
            t = threading.Thread(target=self._body, args=(i, fn), daemon=True)
            t.start()
            threads.append(t)
        self.sems[0].release()
        if main:  # the first function runs in the calling thread
            self._body(0, fns[0])
        for t in threads:
            t.join()
        if self.deadlocked:
            raise Deadlock("all threads wait for each other")
        return self.results


def run(fns, schedule, files=("unpythonic/",), opcodes=False, main=False):
    """Run the functions in one thread each. -> [("ok", value) | ("exc", exception), ...]"""
    files = tuple(f if f.startswith("/") else REPO + "/" + f for f in files)
    s = Sched(schedule, files, opcodes)
    return s.run(fns, main)


def schedules(max_size=8, max_gap=40):
    from hypothesis import strategies as st
    return st.lists(st.tuples(st.integers(1, max_gap), st.integers(0, 2)), max_size=max_size)
