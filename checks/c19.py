"""C19: breaking recursion cycles."""
import threading
import typing

import hypothesis.strategies as st

from vp.core import Suite, require, eq
from checks.c18 import stack_budget
from unpythonic import fix, fixtco, jump

RULE = ("cases are finite call graphs over functions and states (calls, tail jumps, caught and uncaught exceptions, calls in other threads), with every kind of bottom, with and "
        "without memoization and TCO, and histories of top-level computations; and long chains that end up in a cycle. Non-trivial: the graph contains a cycle reachable from a computation")
TECHNIQUE = "property-based testing of generated call graphs against a reference interpreter of cycle breaking"
ASSUMPTIONS = ["a memo belongs to one function, and is consulted on ordinary calls, not on jumps", "no concurrent computations of the same memoized function"]


class Err(Exception):
    pass


class BottomErr(Exception):
    pass


STATES = 3
BOTTOMS = ["default", "value", "none", "func", "raise", "const"]
fn = st.integers(0, 2)
state = st.integers(0, STATES - 1)
style = st.sampled_from(["pos", "named", "default"])
op = st.one_of(st.tuples(st.just("call"), fn, state, style), st.tuples(st.just("call"), fn, state, style), st.tuples(st.just("try"), fn, state, style), st.tuples(st.just("thread"), fn, state))
end = st.one_of(st.tuples(st.just("ret")), st.tuples(st.just("tail"), fn, state, style), st.tuples(st.just("tail"), fn, state, style), st.tuples(st.just("call"), fn, state, style),
                st.tuples(st.just("raise")), st.tuples(st.just("plain"), fn, state))
node = st.tuples(st.lists(op, max_size=2), end)
func = st.tuples(st.sampled_from(BOTTOMS), st.lists(node, min_size=STATES, max_size=STATES))
history = st.lists(st.tuples(fn, state, style, st.booleans()), min_size=1, max_size=5)
graphs = st.tuples(st.lists(func, min_size=1, max_size=3), st.sampled_from(["plain", "memo", "tco", "tcomemo"]), history)


def freeze(x):
    return "NoReturn" if x is typing.NoReturn else x


class Jump:
    def __init__(self, f, n, plain=False):
        self.f, self.n, self.plain = f, n, plain


class Model:
    def __init__(self, graph, mode, log):
        self.graph, self.log = graph, log
        self.memo = [{} for _ in graph] if "memo" in mode else None
        self.visited = threading.local()

    def bottom(self, f, name, n):
        b = self.graph[f][0]
        if b == "func":
            self.log.append(("bottom", name, n))
            return ("bottom", name, n)
        if b == "raise":
            raise BottomErr(name)
        return {"default": "NoReturn", "value": 42, "none": None, "const": "const"}[b]

    def call(self, f, n):
        v = self.visited.__dict__.setdefault("v", set())
        if (f, n) in v:
            return self.bottom(f, f"f{f}", n)
        if self.memo is not None and n in self.memo[f]:
            kind, x = self.memo[f][n]
            if kind == "raise":
                raise x
            return x
        marks = {(f, n)}
        v.add((f, n))
        try:
            g, m = f, n
            plain = False
            while True:
                x = plainbody(m) if plain else body(self.graph, g, m, self)
                if not isinstance(x, Jump):
                    break
                g, m, plain = x.f, x.n, x.plain
                key = ("plain", g, m) if plain else (g, m)
                if key in v:
                    x = self.bottom(f, f"plain{g}" if plain else f"f{g}", m)
                    break
                v.add(key)
                marks.add(key)
            r = ("value", x)
            return x
        except Exception as e:
            r = ("raise", e)
            raise
        finally:
            v -= marks
            if self.memo is not None:
                self.memo[f][n] = r

    def tail(self, f, n, style):
        return Jump(f, n)

    def plain(self, f, n):
        return Jump(f, n, True)

    def docall(self, f, n, style):
        return self.call(f, n)


def plainbody(n):
    return ("plain", n)


def body(graph, f, n, w):
    """What function f does in state n; w does the calls."""
    w.log.append((f, n))
    if len(w.log) > 3000:
        raise TooLong()
    ops, e = graph[f][1][n]
    out = [f, n]
    N = len(graph)
    for o in ops:
        g = o[1] % N
        if o[0] == "call":
            out.append(w.docall(g, o[2], o[3]))
        elif o[0] == "try":
            try:
                out.append(w.docall(g, o[2], o[3]))
            except (Err, BottomErr) as ex:
                out.append(repr(ex))
        elif w.threads:
            res = []

            def go():
                try:
                    res.append(freeze(w.docall(g, o[2], "pos")))
                except (Err, BottomErr) as ex:
                    res.append(repr(ex))
                except TooLong:
                    res.append("toolong")
            w.depth += 1
            if w.depth > 4:
                w.depth -= 1
                continue
            t = threading.Thread(target=go)
            t.start()
            t.join()
            w.depth -= 1
            if res == ["toolong"]:
                raise TooLong()
            out.append(res)
    if e[0] == "raise":
        raise Err((f, n))
    if e[0] == "ret":
        return tuple(map(str, map(freeze, out)))
    g = e[1] % N
    if e[0] == "call":
        return w.docall(g, e[2], e[3])
    if e[0] == "plain":
        return w.plain(g, e[2]) if w.tco else plainbody(e[2])
    log = out[2:]
    if log:
        w.log.append(("seen", tuple(map(str, map(freeze, log)))))
    return w.tail(g, e[2], e[3]) if w.tco else w.docall(g, e[2], e[3])


class TooLong(BaseException):
    pass


class Real:
    def __init__(self, graph, mode, log):
        self.graph, self.log, self.fs, self.ps = graph, log, [], []
        dec = fixtco if "tco" in mode else fix
        self.mixed = mode != "tcomemo"

        def bottom_func(name, *args, **kwargs):
            (n,) = [*args, *(x for k, x in kwargs.items() if k == "n")][:1]
            log.append(("bottom", name, n))
            return ("bottom", name, n)

        def bottom_raise(name, *args, **kwargs):
            raise BottomErr(name)

        def make(i, b):
            kw = {"value": {"bottom": 42}, "none": {"bottom": None}, "func": {"bottom": bottom_func}, "raise": {"bottom": bottom_raise}, "const": {"bottom": "const"}}.get(b, {})
            if mode in ("plain", "tco") or i % 2:
                kw["memo"] = "memo" in mode

            def f(n, opt=None):
                return body(graph, i, n, self)
            f.__name__ = f"f{i}"

            def plain(n):
                return plainbody(n)
            plain.__name__ = f"plain{i}"
            return dec(**kw)(f), plain
        for i, (b, _) in enumerate(graph):
            f, p = make(i, b)
            self.fs.append(f)
            self.ps.append(p)

    def args(self, n, style):
        if style == "pos" or not self.mixed:
            return (n,), {}
        return ((), {"n": n}) if style == "named" else ((n,), {"opt": None})

    def docall(self, f, n, style):
        a, k = self.args(n, style)
        return self.fs[f](*a, **k)

    def tail(self, f, n, style):
        a, k = self.args(n, style)
        return jump(self.fs[f], *a, **k)

    def plain(self, f, n):
        return jump(self.ps[f], n)


def play(cls, case):
    graph, mode, hist = case
    log = []
    w = cls(graph, mode, log)
    w.tco = "tco" in mode
    w.threads = "memo" not in mode
    w.depth = 0
    out = []
    for f, n, style, thread in hist:
        def go():
            try:
                out.append(freeze(w.docall(f % len(graph), n, style)))
            except (Err, BottomErr) as e:
                out.append(repr(e))
            except TooLong:
                out.append("toolong")
        if thread:
            t = threading.Thread(target=go)
            t.start()
            t.join()
        else:
            go()
        if out[-1] == "toolong":
            break
    return out, log


def run_graph(case):
    want = play(Model, case)
    if "toolong" in want[0]:
        return
    got = play(Real, case)
    eq(got[0], want[0], "results of the computations")
    eq(got[1], want[1], "which functions ran, in which order")


def cyclic(case):
    graph, mode, hist = case
    N = len(graph)
    succ = {(f, n): {(o[1] % N, o[2]) for o in [*graph[f][1][n][0], graph[f][1][n][1]] if o[0] in ("call", "try", "tail")} for f in range(N) for n in range(STATES)}
    for f, n, _, _ in hist:
        for start in succ[f % N, n] | {(f % N, n)}:
            todo, seen = list(succ[start]), set()
            while todo:
                x = todo.pop()
                if x == start:
                    return True
                if x not in seen:
                    seen.add(x)
                    todo += succ[x]
    return False


# long chains: k -> k + 1 up to `n`, then back to `back` (or stop)
longs = st.tuples(st.integers(1, 3), st.integers(300, 2000), st.one_of(st.none(), st.integers(0, 300)), st.booleans(), st.sampled_from(["default", "func"]))


def run_long(case):
    nf, n, back, memo, bottom = case
    seen = []
    kw = {"bottom": lambda name, k: seen.append((name, k)) or "bot"} if bottom == "func" else {}
    fs = []

    def make(i):
        @fixtco(memo=memo, **kw)
        def f(k):
            if k < n:
                return jump(fs[(k + 1) % nf], k + 1)
            if back is None:
                return ("end", k)
            return jump(fs[back % nf], back)
        return f
    fs += [make(i) for i in range(nf)]
    for _ in range(2):
        with stack_budget(150):
            r = fs[0](0)
        eq(freeze(r), ("end", n) if back is None else "bot" if bottom == "func" else "NoReturn", "long chain of tail calls")
    if bottom == "func" and back is not None:
        eq(seen, [("f", back)] * (1 if memo else 2), "calls of the bottom function")


SUITES = [
    Suite("call graphs", graphs, run_graph, quick=10000, shards=8, nontrivial=cyclic, labels=lambda c: [c[1]]),
    Suite("long tail chains", longs, run_long, quick=60),
]
