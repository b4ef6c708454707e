"""C15: dynamic assignment."""
from vp import sched  # before unpythonic
import itertools
import queue
import threading

import hypothesis.strategies as st

from vp.core import Suite, require, eq, HarnessError
from unpythonic import dyn, make_dynvar, throw, catch
from unpythonic import dynassign

RULE = ("cases are trees of nested dynamic scopes with assignments, mass updates (also of unbound names), default definitions and live views, left by falling through, "
        "exceptions, escapes and generator closing; scopes nested to 70 levels with up to 120 names; lock-step histories over several threads; and concurrent mass updates and thread starts under generated "
        "schedules. Non-trivial: at least two scopes")
TECHNIQUE = "model-based property-based testing: explicit stack-of-dicts model per thread; generated thread histories and schedules"
ASSUMPTIONS = ["a new thread takes its copy of the main thread's scopes at its first use of dyn",
               "names that are methods of dyn (items, get, ...) are read by subscript, not as attributes"]

_counter = itertools.count()
METHODS = ["items", "get", "update", "keys", "self", "let"]
BASE = ["a", "b", "c", "d"]


class Names:
    """Each case uses names of its own, because defaults cannot be removed through the API."""
    def __init__(self):
        self.n = next(_counter)
        self.defaults = {}

    def __call__(self, x):
        return x if x in METHODS else f"{x}_{self.n}"

    def mine(self, k):
        return k in METHODS or k.endswith(f"_{self.n}")

    def cleanup(self):
        g = getattr(dynassign, "_global_dynvars", None)
        if isinstance(g, dict):
            for k in self.defaults:
                g.pop(k, None)


def visible(N, stack):
    d = dict(N.defaults)
    for s in stack:
        d.update(s)
    return d


def check(N, stack, views):
    """What the current thread sees is what its model says, in every way of looking."""
    want = visible(N, stack)

    def only(it):
        return {k: x for k, x in it if N.mine(k)}
    for k in [N(b) for b in BASE] + METHODS:
        eq(k in dyn, k in want, f"{k} in dyn")
        if k in want:
            eq(dyn[k], want[k], f"dyn[{k}]")
            if k not in METHODS:
                eq(getattr(dyn, k), want[k], f"dyn.{k}")
            eq(dyn.get(k), want[k], "get")
            eq(dyn.get(k, 99), want[k], "get")
        else:
            if k not in METHODS:
                for f in (lambda: getattr(dyn, k), lambda: dyn[k]):
                    try:
                        got = f()
                    except (AttributeError, KeyError):
                        continue
                    require(False, f"unbound {k} reads as", got)
            eq(dyn.get(k), None, "get")
            eq(dyn.get(k, 99), 99, "get")
    keys = [k for k in dyn if N.mine(k)]
    eq(len(set(keys)), len(keys), "iteration repeats a name")
    eq(set(keys), set(want), "iteration")
    eq(only(dyn.items()), want, "items")
    eq({k for k in dyn.keys() if N.mine(k)}, set(want), "keys")
    eq(len(dyn), len(list(dyn)), "len")
    eq(len(dyn), len(list(dyn.values())), "len of values")
    eq(list(dyn), [k for k, _ in dyn.items()], "order")
    require(dyn == dict(dyn.items()), "equality with a dict")
    for what, v in views:
        if what == "asdict":
            eq(only(v.items()), want, "live view")
            eq({k for k in v if N.mine(k)}, set(want), "live view")
            for k in want:
                eq(v[k], want[k], "live view item")
        elif what == "items":
            eq(only(v), want, "live items")
        elif what == "keys":
            eq({k for k in v if N.mine(k)}, set(want), "live keys")
        elif what == "values":
            eq(list(v), [x for _, x in dyn.items()], "live values")


def resolve(N, stack, k):
    for s in reversed(stack):
        if k in s:
            return s
    return N.defaults if k in N.defaults else None


def apply_op(N, stack, views, op):
    """Apply a simple operation to dyn and to the model."""
    what = op[0]
    if what in ("set", "setitem"):
        k = N(op[1])
        if k in METHODS:
            what = "setitem"
        s = resolve(N, stack, k)
        try:
            if what == "set":
                setattr(dyn, k, op[2])
            else:
                dyn[k] = op[2]
        except (AttributeError, KeyError):
            require(s is None, "assignment to a bound name refused:", k)
        else:
            require(s is not None, "assignment to an unbound name accepted:", k)
            s[k] = op[2]
    elif what == "update":
        b = {N(k): x for k, x in op[1]}
        scopes = {k: resolve(N, stack, k) for k in b}
        try:
            dyn.update(**b)
        except AttributeError:
            require(None in scopes.values(), "mass update refused")
        else:
            require(None not in scopes.values(), "mass update with an unbound name accepted")
            for k, s in scopes.items():
                s[k] = b[k]
    elif what == "default":
        b = {N(k): x for k, x in op[1]}
        make_dynvar(**b)
        N.defaults.update(b)
    elif what == "view":
        views.append((op[1], getattr(dyn, op[1])()))
    else:
        raise HarnessError(what)


def value():
    return st.integers(0, 999)


def name():
    return st.one_of(st.sampled_from(BASE), st.sampled_from(BASE), st.sampled_from(BASE + METHODS))


def binds(lo=0, hi=3):
    return st.lists(st.tuples(name(), value()), min_size=lo, max_size=hi, unique_by=lambda t: t[0])


simple = st.one_of(st.tuples(st.just("set"), name(), value()), st.tuples(st.just("setitem"), name(), value()), st.tuples(st.just("update"), binds(0, 4)),
                   st.tuples(st.just("update"), binds(0, 4)), st.tuples(st.just("default"), st.lists(st.tuples(st.sampled_from(BASE), value()), max_size=2)),
                   st.tuples(st.just("view"), st.sampled_from(["asdict", "items", "keys", "values"])))

EXITS = ["fall", "fall", "raise", "escape", "gen", "genclose", "reuse", "call", "exit1"]


def trees(depth=3):
    if depth == 0:
        return st.lists(simple, max_size=3)
    return st.lists(st.one_of(simple, simple, st.tuples(st.just("let"), binds(), st.sampled_from(EXITS), st.deferred(lambda: trees(depth - 1)))), max_size=4)


class Boom(Exception):
    pass


def run_tree(c):
    N = Names()
    stack, views = [], []

    def body(ops):
        check(N, stack, views)
        for op in ops:
            if op[0] != "let":
                apply_op(N, stack, views, op)
                check(N, stack, views)
                continue
            _, b, how, inner = op
            b = {N(k): x for k, x in b}
            before = visible(N, stack)
            depth = len(stack)
            nviews = len(views)

            def enter():
                stack.append(dict(b))
            try:
                if how in ("fall", "exit1"):
                    with dyn.let(**b):
                        enter()
                        body(inner)
                elif how == "raise":
                    try:
                        with dyn.let(**b):
                            enter()
                            body(inner)
                            raise Boom()
                    except Boom:
                        pass
                elif how == "escape":
                    @catch("tag")
                    def f():
                        with dyn.let(**b):
                            enter()
                            body(inner)
                            throw(1, "tag")
                    f()
                elif how in ("gen", "genclose"):
                    def g():
                        with dyn.let(**b):
                            enter()
                            body(inner)
                            yield 1
                    it = g()
                    next(it)
                    check(N, stack, views)
                    if how == "gen":
                        next(it, None)
                    else:
                        it.close()
                elif how == "reuse":  # the context manager object can be used again, also nested in itself
                    cm = dyn.let(**b)
                    with cm:
                        enter()
                        with cm:
                            enter()
                            body(inner)
                        del stack[depth + 1:]
                        check(N, stack, views)
                    del stack[depth:]
                    check(N, stack, views)
                    with cm:
                        enter()
                        check(N, stack, views)
                elif how == "call":
                    def f():
                        with dyn.let(**b):
                            enter()
                            return body(inner)
                    f()
            finally:
                del stack[depth:]
            if not any(o[0] in ("set", "setitem", "update", "default", "let") for o in inner):
                eq(visible(N, stack), before, "model")
            del views[max(nviews, 3):]
            check(N, stack, views)
    try:
        body(c)
        require(not stack, "model")
    finally:
        N.cleanup()


def nlets(ops):
    return sum(1 + nlets(o[3]) for o in ops if o[0] == "let")


# ---------------------------------------------------------------- several threads in lock step
class Worker:
    def __init__(self):
        self.q, self.r = queue.SimpleQueue(), queue.SimpleQueue()
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()

    def loop(self):
        while True:
            f = self.q.get()
            if f is None:
                return
            try:
                self.r.put((True, f()))
            except BaseException as e:
                self.r.put((False, e))

    def __call__(self, f):
        self.q.put(f)
        ok, x = self.r.get()
        if not ok:
            raise x
        return x

    def stop(self):
        self.q.put(None)
        self.t.join()


hist_op = st.one_of(simple, st.tuples(st.just("push"), binds(1)), st.tuples(st.just("push"), binds(1)), st.tuples(st.just("pop"), st.sampled_from([0, 1])),
                    st.tuples(st.just("restart"), st.just(0)))


def run_history(c):
    """Several threads, one at a time. Thread 0 is the main thread."""
    N = Names()
    threads = {0: (lambda f: f())}
    stacks, views, cms = {0: []}, {0: []}, {0: []}
    try:
        for t, op in c:
            if t not in threads:
                threads[t] = Worker()
                stacks[t] = [dict(s) for s in stacks[0]]  # copied from the main thread, at first use
                views[t], cms[t] = [], []
                threads[t](lambda: N("a") in dyn)
            if op[0] == "push":
                b = {N(k): x for k, x in op[1]}
                cm = dyn.let(**b)
                threads[t](cm.__enter__)
                cms[t].append(cm)
                stacks[t].append(b)
            elif op[0] == "pop":
                if cms[t]:
                    cm = cms[t].pop()
                    e = Boom()
                    r = threads[t](lambda: cm.__exit__(Boom, e, None) if op[1] else cm.__exit__(None, None, None))
                    require(not r, "the exception is swallowed")
                    stacks[t].pop()
            elif op[0] == "restart":
                if t:
                    threads.pop(t).stop()
                    del stacks[t], views[t], cms[t]
            else:
                threads[t](lambda: apply_op(N, stacks[t], views[t], op))
            for u in sorted(threads):
                threads[u](lambda: check(N, stacks[u], views[u]))
    finally:
        for t, w in threads.items():
            if t:
                w.stop()
        for cm in reversed(cms[0]):
            cm.__exit__(None, None, None)
        N.cleanup()


# ---------------------------------------------------------------- schedules
@st.composite
def sched_cases(draw):
    op = st.one_of(st.tuples(st.just("update"), st.integers(0, 99)), st.tuples(st.just("push"), st.integers(100, 199)), st.tuples(st.just("pop"), st.just(0)), st.tuples(st.just("set"), st.integers(0, 99)))
    return dict(main=draw(st.lists(op, min_size=1, max_size=5)), threads=draw(st.lists(st.lists(op, min_size=1, max_size=4), min_size=1, max_size=2)),
                schedule=draw(sched.schedules(max_size=8, max_gap=20)), opcodes=draw(st.booleans()))


def run_sched(c):
    """Concurrent threads; the names a and b are always set together, except by `set`, which sets c."""
    N = Names()
    a, b, cc = N("a"), N("b"), N("c")
    history = {(0, 0)}

    def body(ops, tid):
        def go():
            cms, model = [], []
            pair = (dyn[a], dyn[b])
            require(pair in history, "a thread starts with a state that the main thread never had:", pair)
            cval = dyn[cc]
            model.append([pair, cval])
            for what, x in ops:
                x = x * 10 + tid
                if what == "update":
                    if tid == 0:
                        history.add((x, x))
                    dyn.update(**{a: x, b: x})
                    model[-1][0] = (x, x)
                elif what == "set":
                    setattr(dyn, cc, x)
                    model[-1][1] = x
                elif what == "push":
                    if tid == 0:
                        history.add((x, x))
                    cm = dyn.let(**{a: x, b: x, cc: x})
                    cm.__enter__()
                    cms.append(cm)
                    model.append([(x, x), x])
                elif cms:
                    cms.pop().__exit__(None, None, None)
                    model.pop()
                eq(((dyn[a], dyn[b]), dyn[cc]), tuple(model[-1]), f"what thread {tid} sees after {what}")
            while cms:
                cms.pop().__exit__(None, None, None)
                model.pop()
                eq(((dyn[a], dyn[b]), dyn[cc]), tuple(model[-1]), f"what thread {tid} sees after leaving a scope")
        return go
    with dyn.let(**{a: 0, b: 0, cc: 0}):
        fns = [body(c["main"], 0)] + [body(ops, i + 1) for i, ops in enumerate(c["threads"])]
        for kind, x in sched.run(fns, c["schedule"], files=("unpythonic/dynassign.py", __file__), opcodes=c["opcodes"], main=True):
            if kind == "exc":
                raise x
    require(a not in dyn and b not in dyn and cc not in dyn, "left over")


# ---------------------------------------------------------------- many scopes, many names

@st.composite
def deep_cases(draw):
    depth = draw(st.sampled_from([5, 12, 20, 40, 70]))
    names = draw(st.sampled_from([2, 8, 40, 120]))
    return dict(depth=depth, names=names, per=draw(st.integers(0, 3)), mul=draw(st.sampled_from([1, 3, 7])), defaults=draw(st.integers(0, 3)),
                sets=draw(st.lists(st.tuples(st.integers(0, depth - 1), st.integers(0, names - 1), st.booleans()), max_size=12)))


def run_deep(c):
    """Names bound only far out are seen, assigned and restored from the innermost scope."""
    N = Names()
    nm = [f"x{i}_{N.n}" for i in range(c["names"])]
    try:
        stack = []

        def look():
            want = visible(N, stack)
            eq({k: v for k, v in dyn.items() if N.mine(k)}, want, "items")
            for k in nm:
                eq(k in dyn, k in want, f"{k} in dyn at depth {len(stack)}")
                eq(dyn.get(k, "none"), want.get(k, "none"), f"{k} at depth {len(stack)}")
                if k in want:
                    eq(getattr(dyn, k), want[k], f"dyn.{k} at depth {len(stack)}")
        for i in range(c["defaults"]):
            make_dynvar(**{nm[i % len(nm)]: ("default", i)})
            N.defaults[nm[i % len(nm)]] = ("default", i)
        cms = []
        try:
            for d in range(c["depth"]):
                b = {nm[(d * c["per"] + j) * c["mul"] % len(nm)]: (d, j) for j in range(c["per"])} if d else {k: "outermost" for k in nm[::2]}
                cms.append(dyn.let(**b))
                cms[-1].__enter__()
                stack.append(dict(b))
                for dd, i, mass in c["sets"]:
                    if dd == d:
                        s = resolve(N, stack, nm[i])
                        try:
                            if mass:
                                dyn.update(**{nm[i]: ("set", d)})
                            else:
                                setattr(dyn, nm[i], ("set", d))
                        except AttributeError:
                            require(s is None, "assignment to a bound name refused at depth", d)
                        else:
                            require(s is not None, "assignment to an unbound name accepted")
                            s[nm[i]] = ("set", d)
                if d % 10 == 9 or d == c["depth"] - 1:
                    look()
            # a thread started here starts from all of it
            out = []

            def other():
                out.append({k: v for k, v in dyn.items() if N.mine(k)})
                for k in nm:
                    out.append(dyn.get(k, "none"))
            t = threading.Thread(target=other)
            t.start()
            t.join()
            want = visible(N, stack)
            eq(out, [want] + [want.get(k, "none") for k in nm], "what a new thread sees")
            for k in range(c["depth"]):
                cms.pop().__exit__(None, None, None)
                stack.pop()
                if k % 10 == 0:
                    look()
        finally:
            while cms:
                cms.pop().__exit__(None, None, None)
        look()
    finally:
        N.cleanup()


SUITES = [
    Suite("scopes", trees(), run_tree, quick=1500, shards=3, nontrivial=lambda c: nlets(c) >= 2),
    Suite("threads", st.lists(st.tuples(st.integers(0, 2), hist_op), min_size=1, max_size=12), run_history, quick=1500, shards=2,
          nontrivial=lambda c: len({t for t, _ in c}) >= 2 and sum(o[0] == "push" for _, o in c) >= 1),
    Suite("deep", deep_cases(), run_deep, quick=120, nontrivial=lambda c: c["depth"] > 8),
    Suite("schedules", sched_cases(), run_sched, quick=2000, shards=3, nontrivial=lambda c: bool(c["schedule"])),
]
