"""C03: memoization computes each distinct call once and replays its outcome."""
from vp import sched
from hypothesis import strategies as st

from vp.core import Suite, require, eq
from vp import gen
from checks.c01 import build
from unpythonic import memoize

RULE = ("cases are histories of calls of one or two memoized functions (generated signature, arguments passed in different ways, some bindings "
        "raising, recursion), up to 2500 distinct calls replayed, sequentially or from 2-3 threads under a generated deterministic schedule; oracle: a dict from the "
        "model's own parameter bindings to the first outcome. Non-trivial: some binding is called at least twice")


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


def freeze(b):
    return tuple(sorted((n, tuple(sorted(v.items())) if isinstance(v, dict) else v) for n, v in b.items()))


HOWS = ("def", "lambda", "method", "staticmethod", "classmethod")


@st.composite
def seq_cases(draw):
    params = draw(gen.signatures(maxpos=3, maxko=2))
    calls = []
    for _ in range(draw(st.integers(1, 7))):
        if calls and draw(st.integers(0, 3)) == 0:
            calls.append(draw(st.sampled_from(calls)))
            continue
        a, k = draw(gen.calls(params, extra_va=2))
        bit = draw(st.integers(1, 2))
        a = [x % bit for x in a]
        k = {n: v % bit if n not in ("u", "v", "w") else v % 2 for n, v in k.items()}
        calls.append((a, k))
    return dict(params=params, how=draw(st.sampled_from(HOWS)), calls=calls,
                boom=draw(st.sampled_from(["none", "none", "even", "all", "base"])),
                value=draw(st.sampled_from(["object", "none", "false"])))


def norm_kw(k):
    return {n: k[n] for n in sorted(k)}


def run_seq(case):
    params = case["params"]
    log = []
    made = {}

    def ret(b):
        key = freeze(b)
        n = sum(x if isinstance(x, int) else 1 for x in b.values() if not isinstance(x, (dict, tuple))) + 1
        if case["boom"] == "all" or (case["boom"] == "even" and n % 2 == 0):
            e = Boom(key)
            made.setdefault(key, []).append(("exc", e))
            raise e
        if case["boom"] == "base" and n % 2 == 0:
            e = BaseBoom(key)
            made.setdefault(key, []).append(("exc", e))
            raise e
        v = {"object": object(), "none": None, "false": False}[case["value"]]
        made.setdefault(key, []).append(("ok", v))
        return v
    # two functions with the same signature and code must not share anything
    m = memoize(build(params, case["how"], log, ret))
    if hasattr(m, "__wrapped__"):
        pass
    first = {}
    for a, k in case["calls"]:
        k = norm_kw(k)
        b, missing, xa, xk, err = gen.model_bind(params, a, k)
        assert not (missing or xa or xk or err)
        key = freeze(b)
        before = len(log)
        try:
            got = ("ok", m(*a, **k))
        except (Boom, BaseBoom) as e:
            got = ("exc", e)
        ran = len(log) - before
        if key in first:
            require(ran == 0, "the body ran again for the same bindings", a, k)
        else:
            require(ran == 1, f"the body ran {ran} times for new bindings", a, k)
            eq(log[-1], b, "bindings seen by the body")
            first[key] = made[key][0]
        require(got[0] == first[key][0] and got[1] is first[key][1], "outcome differs from what the function produced for these bindings",
                got, first[key])
    # a new memoization starts from nothing
    m2 = memoize(build(params, case["how"], log, ret))
    a, k = case["calls"][0]
    before = len(log)
    try:
        m2(*a, **norm_kw(k))
    except (Boom, BaseBoom):
        pass
    require(len(log) == before + 1, "two memoized functions share outcomes")
    # invalid calls are refused and not remembered
    before = len(log)
    n = 1 + sum(1 for p in params if p[1] in (gen.PO, gen.PK)) + 3
    if not any(p[1] == gen.VA for p in params):
        for _ in range(2):
            try:
                m(*[0] * n)
            except TypeError:
                pass
            else:
                require(False, "invalid call accepted")
        require(len(log) == before, "the body ran for an invalid call")


# ---------------------------------------------------------------- recursion, threads

@st.composite
def thread_cases(draw):
    graph = draw(st.lists(st.lists(st.integers(0, 3), max_size=2), min_size=4, max_size=4))
    graph = [[c for c in sorted(set(cs)) if c < i] for i, cs in enumerate(graph)]  # acyclic
    # calls: which function, argument, by name or by position
    call = st.tuples(st.integers(0, 1), st.integers(0, 3), st.booleans())
    threads = draw(st.lists(st.lists(call, min_size=1, max_size=3), min_size=2, max_size=3))
    return dict(graph=graph, threads=threads, boom=draw(st.sampled_from([None, None, 0, 1])),
                schedule=draw(sched.schedules(max_size=8, max_gap=25)), opcodes=draw(st.booleans()))


def run_threads(case):
    graph = case["graph"]
    runs = {}

    def make(which):
        @memoize
        def f(x):
            runs.setdefault((which, x), []).append(1)
            out = [x]
            for c in graph[x]:
                # recursion within the same function; f0 also calls f1
                try:
                    out.append(f(c))
                    if which == 0:
                        out.append(fs[1](x=c))
                except Boom:
                    out.append("boom")
            if case["boom"] is not None and x % 2 == case["boom"]:
                raise Boom(which, x)
            return (which, x, out)
        return f
    fs = [None, None]
    fs[1] = make(1)
    fs[0] = make(0)

    def body(calls):
        def go():
            res = []
            for which, x, by_name in calls:
                try:
                    res.append(((which, x), "ok", fs[which](x=x) if by_name else fs[which](x)))
                except Boom as e:
                    res.append(((which, x), "exc", e))
            return res
        return go
    results = sched.run([body(c) for c in case["threads"]], case["schedule"], files=("unpythonic/fun.py", __file__),
                        opcodes=case["opcodes"])
    for key, n in runs.items():
        require(len(n) == 1, f"body ran {len(n)} times for {key}")
    first = {}
    for kind, res in results:
        if kind == "exc":
            raise res
        for key, k, v in res:
            if key in first:
                require(first[key][0] == k and first[key][1] is v, "threads saw different outcomes for", key)
            else:
                first[key] = (k, v)
            require((k == "exc") == (case["boom"] is not None and key[1] % 2 == case["boom"]), "wrong kind of outcome", key)
            if k == "ok":
                require(v[:2] == key, "outcome of another binding", key, v)
            else:
                require(v.args == key, "exception of another binding", key, v.args)


# ---------------------------------------------------------------- many distinct calls

@st.composite
def many_cases(draw):
    n = draw(st.sampled_from([20, 70, 150, 300, 600, 1200, 2500]))
    return dict(n=n, key=draw(st.sampled_from(["int", "big", "str", "tuple", "float", "two", "kw", "varargs"])), boom=draw(st.sampled_from([0, 0, 3])),
                again=draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=60)), order=draw(st.sampled_from([1, 7, 11, 13])))


def run_many(case):
    """Nothing is ever forgotten, however many other calls come in between."""
    n, key = case["n"], case["key"]
    runs = []

    @memoize
    def f(x, y=0, *rest, z=0, **kw):
        runs.append((x, y, rest, z, tuple(sorted(kw.items()))))
        i = len(runs) - 1
        if case["boom"] and i % case["boom"] == 0:
            raise Boom(i)
        return [i]

    def call(i):
        a, k = {"int": ((i,), {}), "big": ((i << 61,), {}), "str": ((f"s{i}",), {}), "tuple": (((i % 3, (i,)),), {}), "float": ((i / 3,), {}),
                "two": ((i // 32, i % 32), {}), "kw": ((0,), {f"k{i % 50}": i}), "varargs": ((0, 0) + (1,) * (i % 40) + (i,), {})}[key]
        try:
            return ("ok", f(*a, **k))
        except Boom as e:
            return ("exc", e)
    order = [i * case["order"] % n for i in range(n)]
    order += [i for i in range(n) if i not in set(order)]
    first = {i: call(i) for i in order}
    eq(len(runs), n, "runs of the body for distinct calls")
    for i in case["again"] + order:
        got = call(i)
        require(got[0] == first[i][0] and got[1] is first[i][1], "outcome of an earlier call was replaced after", n, "distinct calls: call", i)
    eq(len(runs), n, "the body ran again for bindings seen before")


def nontriv_seq(c):
    return len(c["calls"]) > 1


SUITES = [
    Suite("history", seq_cases, run_seq, quick=6000, shards=3, nontrivial=nontriv_seq, labels=lambda c: [c["how"], "boom-" + c["boom"]]),
    Suite("many calls", many_cases, run_many, quick=120, labels=lambda c: [c["key"]]),
    Suite("threads", thread_cases, run_threads, quick=3000, shards=4, nontrivial=lambda c: len(c["schedule"]) > 0,
          labels=lambda c: ["opcodes" if c["opcodes"] else "lines"]),
]
