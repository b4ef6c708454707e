"""The machinery shared by all checks.

A check is a list of `Suite`s. A suite is a Hypothesis strategy that generates *plain literal*
cases (ints, strings, tuples, lists, dicts, ...), and a function `run(case)` holding the oracle:
it exercises the code in /repo on the case and raises if the property does not hold. Because a
case is a literal, it can be written to a replay file and run again without Hypothesis.
"""
import mmap
import os
import pickle
import signal
import struct
import sys
import time
import traceback
import zlib


class Violation(AssertionError):
    """The oracle says: the property does not hold on this case."""


class HarnessError(Exception):
    """The machinery itself is broken (never counted as a violation)."""


def require(cond, *msg):
    if not cond:
        raise Violation(" ".join(m if isinstance(m, str) else repr(m) for m in msg))


def same(got, want, what=""):
    """Require equality *including* exact types at the top level."""
    if type(got) is not type(want) or got != want:
        raise Violation(f"{what}: got {short(got)}, expected {short(want)}")


def eq(got, want, what=""):
    if not (got == want):
        raise Violation(f"{what}: got {short(got)}, expected {short(want)}")


def short(x, n=600):
    try:
        r = repr(x)
    except Exception as e:  # a repr that fails must not hide the violation
        r = f"<unreprable {type(x)}: {e!r}>"
    return r if len(r) <= n else r[:n] + "..."


class Suite:
    def __init__(self, name, strategy, run, *, quick, thorough=None, nontrivial=None,
                 labels=None, shards=1, thorough_shards=8, reset=None):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.nontrivial = nontrivial or (lambda case: True)
        self.labels = labels
        self.shards = shards
        self.thorough_shards = thorough_shards
        self.reset = reset


def stable_seed(*parts):
    return zlib.crc32("|".join(str(p) for p in parts).encode()) & 0x7fffffff


def load_literal(text):
    return eval(text, {"__builtins__": {}, "nan": float("nan"), "inf": float("inf"),
                       "Ellipsis": Ellipsis, "set": set, "frozenset": frozenset,
                       "slice": slice, "complex": complex, "True": True, "False": False, "None": None})


class CaseFailed(Exception):
    pass


class _Stop(KeyboardInterrupt):
    """Ends a Hypothesis run early (budget, or enough shrinking)."""


# ---------------------------------------------------------------- running one case

def run_case(suite, case):
    """Run the oracle on one case. Return None if it holds, else a description."""
    if suite.reset:
        suite.reset()
    try:
        suite.run(case)
        return None
    except (HarnessError, _Stop, MemoryError):
        raise
    except BaseException as e:  # Escape, InvokeRestart etc. are BaseExceptions
        tb = traceback.extract_tb(e.__traceback__)
        tail = " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in reversed(tb[-6:]))
        return f"{type(e).__name__}: {short(str(e), 1500)} [{tail}]"


_SLOT = 1 << 20


class Slot:
    """Shared memory where a worker notes the case it is on, for hangs and crashes."""
    def __init__(self):
        self.m = mmap.mmap(-1, _SLOT)
        self.set(0.0, "")

    def set(self, t, text):
        b = text.encode("utf-8", "surrogatepass")[:_SLOT - 16]
        self.m[:16 + len(b)] = struct.pack("dq", t, len(b)) + b

    def mark(self, t):
        self.m[:8] = struct.pack("d", t)

    def get(self):
        t, n = struct.unpack("dq", self.m[:16])
        return t, self.m[16:16 + n].decode("utf-8", "replace")


class Result:
    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []
        self.failure = None      # (case text, description)
        self.error = None
        self.budget_hit = False
        self.seconds = 0.0


def _save(path, obj):
    tmp = path + ".tmp"
    with open(tmp, "wb") as f:
        pickle.dump(obj, f)
    os.replace(tmp, path)


def run_suite(suite, seed, n, path, slot, deadline, shrink_seconds):
    """Body of a worker process: one shard of one suite. Writes a Result to `path`."""
    import hypothesis
    from hypothesis import settings, given, Phase, HealthCheck
    res = Result()
    t0 = time.monotonic()
    first_fail = [None]

    def note(case, text, why):
        if res.failure is None or len(text) < len(res.failure[0]):
            res.failure = (text, why)
            _save(path, res)
        if first_fail[0] is None:
            first_fail[0] = time.monotonic()

    def body(case):
        now = time.monotonic()
        if now > deadline:
            res.budget_hit = True
            raise _Stop()
        if first_fail[0] is not None and now - first_fail[0] > shrink_seconds:
            raise _Stop()
        text = repr(case)
        if first_fail[0] is None:
            res.evaluations += 1
            if suite.nontrivial(case):
                res.hashes.add(zlib.crc32(text.encode("utf-8", "surrogatepass")) << 32 | zlib.adler32(text.encode("utf-8", "surrogatepass")))
                k = res.evaluations
                if len(res.samples) < 3 and k > 20 and len(text) < 1500:
                    res.samples.append(text)
            if suite.labels:
                for lab in suite.labels(case):
                    res.labels[lab] = res.labels.get(lab, 0) + 1
        slot.set(time.time(), text)
        why = run_case(suite, case)
        slot.mark(0.0)
        if why is not None:
            note(case, text, why)
            raise CaseFailed(why)

    strategy = suite.strategy() if callable(suite.strategy) and not hasattr(suite.strategy, "example") else suite.strategy
    test = given(strategy)(body)
    test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                    phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck), print_blob=False,
                    verbosity=hypothesis.Verbosity.quiet)(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except _Stop:
        pass
    except CaseFailed:
        pass
    except BaseException as e:
        if res.failure is None:
            res.error = "".join(traceback.format_exception(e))[-4000:]
    res.seconds = time.monotonic() - t0
    _save(path, res)


# ---------------------------------------------------------------- the parent

def _cpu(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            fields = f.read().rsplit(")", 1)[1].split()
        return (int(fields[11]) + int(fields[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


HANG_CPU = 60.0     # CPU seconds spent on one case (cases take milliseconds to a few seconds)
HANG_WALL = 150.0   # or wall seconds, for a case that is blocked


def _fork(fn):
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.setpgid(0, 0)
            fn()
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    return pid


def _kill(pid):
    for target in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
        try:
            target()
        except OSError:
            pass


def confirm(suite, text, scratch):
    """Run one case alone in a fresh process. -> ("ok"|"fail"|"hang"|"crash"|"error", description)"""
    path = os.path.join(scratch, f"confirm.{os.getpid()}.{time.monotonic_ns()}")

    def go():
        try:
            why = run_case(suite, load_literal(text))
        except BaseException:
            _save(path, ("error", traceback.format_exc()))
            return
        _save(path, ("ok", "") if why is None else ("fail", why))
    pid = _fork(go)
    t0 = time.monotonic()
    while True:
        done, status = os.waitpid(pid, os.WNOHANG)
        if done:
            break
        if _cpu(pid) > HANG_CPU or time.monotonic() - t0 > HANG_WALL:
            _kill(pid)
            os.waitpid(pid, 0)
            return "hang", f"no result within {HANG_CPU:.0f} CPU s / {HANG_WALL:.0f} s (such cases normally take milliseconds)"
        time.sleep(0.01)
    _kill(pid)
    try:
        with open(path, "rb") as f:
            return pickle.load(f)
    except OSError:
        return "crash", f"the process died with wait status {status}"


def run_jobs(jobs, ncpu, scratch, deadline, shrink_seconds):
    """jobs: list of (suite, shard, seed, n). Yields (job, Result or None, note)."""
    running = {}
    try:
        yield from _run_jobs(jobs, running, ncpu, scratch, deadline, shrink_seconds)
    finally:
        for pid in running:
            _kill(pid)
            os.waitpid(pid, 0)


def _run_jobs(jobs, running, ncpu, scratch, deadline, shrink_seconds):
    pending = list(jobs)
    seq = 0
    while pending or running:
        while pending and len(running) < ncpu:
            job = pending.pop(0)
            suite, shard, seed, n = job
            slot = Slot()
            path = os.path.join(scratch, f"job{seq}")
            seq += 1
            pid = _fork(lambda: run_suite(suite, seed, n, path, slot, deadline, shrink_seconds))
            running[pid] = dict(job=job, slot=slot, path=path, case_t=None, cpu0=0.0)
        time.sleep(0.02)
        now = time.time()
        for pid in list(running):
            r = running[pid]
            done, status = os.waitpid(pid, os.WNOHANG)
            why = None
            if not done:
                t, text = r["slot"].get()
                if t == 0.0:
                    r["case_t"] = None
                    continue
                if t != r["case_t"]:
                    r["case_t"], r["cpu0"] = t, _cpu(pid)
                    continue
                if _cpu(pid) - r["cpu0"] > HANG_CPU or now - t > HANG_WALL:
                    why = "hang"
                    _kill(pid)
                    os.waitpid(pid, 0)
                else:
                    continue
            elif status != 0:
                why = "crash"
            _kill(pid)  # anything it left behind in its process group
            del running[pid]
            res = None
            try:
                with open(r["path"], "rb") as f:
                    res = pickle.load(f)
            except OSError:
                pass
            _, text = r["slot"].get()
            yield r["job"], res, (why, text) if why else None
