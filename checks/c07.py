"""C07: memoized generators replay one shared sequence to every consumer."""
from vp import sched
import hypothesis.strategies as st

from vp.core import Suite, require, eq
from vp import gen
from unpythonic import gmemoize, imemoize, fimemoize

RULE = ("cases are histories over several instances of a memoized generator (gmemoize with a generated signature, fimemoize, imemoize of list/iterator/"
        "generator): create, next, index, slice, len in any interleaving, the source ending by exhaustion or exception; up to 700 bindings or 2000 items replayed; or 2-3 threads under a generated "
        "deterministic schedule. Non-trivial: two instances share a sequence, or two threads")
TECHNIQUE = "model-based stateful testing against a shared-list model, plus deterministic schedule exploration for threads"


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["gmemoize", "gmemoize", "fimemoize", "imemoize-list", "imemoize-iter", "imemoize-gen"]))
    params = draw(gen.signatures(maxpos=2, maxko=1)) if kind in ("gmemoize", "fimemoize") else []
    calls = []
    for _ in range(draw(st.integers(1, 3))):
        a, k = draw(gen.calls(params, extra_va=1)) if params else ([], {})
        calls.append(([x % 2 for x in a], {n: k[n] % 2 for n in sorted(k)}))
    op = st.one_of(st.tuples(st.just("new"), st.integers(0, 2)),
                   st.tuples(st.just("next"), st.integers(0, 5)),
                   st.tuples(st.just("next"), st.integers(0, 5)),
                   st.tuples(st.just("next"), st.integers(0, 5)),
                   st.tuples(st.just("len"), st.integers(0, 5)),
                   st.tuples(st.just("index"), st.integers(0, 5), st.integers(-6, 6)),
                   st.tuples(st.just("slice"), st.integers(0, 5), st.tuples(*[st.one_of(st.none(), st.integers(-6, 6))] * 2,
                                                                          st.sampled_from([None, 1, 2, -1, -2]))),
                   st.tuples(st.just("all"), st.integers(0, 5)))
    return dict(kind=kind, params=params, calls=calls, ops=[("new", 0)] + draw(st.lists(op, min_size=1, max_size=25)),
                n=draw(st.integers(0, 5)), end=draw(st.sampled_from(["stop", "stop", "boom", "base"])), value=draw(st.sampled_from(["tag", "none"])))


def run(case):
    n, end, kind = case["n"], case["end"], case["kind"]
    if kind == "imemoize-list":
        end = "stop"
    exc = {}
    pulled = []      # (key, index) every time the source is advanced
    started = []

    def item(key, i):
        return None if case["value"] == "none" else (key, i)

    def source(key):
        started.append(key)
        for i in range(n):
            pulled.append((key, i))
            yield item(key, i)
        pulled.append((key, "end"))
        if end != "stop":
            e = (Boom if end == "boom" else BaseBoom)(key)
            exc.setdefault(key, e)
            require(exc[key] is e, "source ran twice")
            raise e
    freeze = lambda b: tuple(sorted((k, tuple(sorted(v.items())) if isinstance(v, dict) else v) for k, v in b.items()))
    if kind in ("gmemoize", "fimemoize"):
        log = []
        f = gen.make_function(case["params"], log, ret=lambda b: source(freeze(b)))
        if kind == "gmemoize":
            env = {"_f": f}
            args = [("*" if k == gen.VA else "**" if k == gen.VK else "") + (f"{m}={m}" if k == gen.KO else m) for m, k, _ in case["params"]]
            exec(f"def g({gen.paramlist(case['params'])}):\n    yield from _f({', '.join(args)})", env)
            make = gmemoize(env["g"])
        else:
            make = fimemoize(f)
    elif kind == "imemoize-list":
        make = imemoize([item((), i) for i in range(n)])
    elif kind == "imemoize-gen":
        make = imemoize(source(()))
    else:
        make = imemoize(iter(source(())))
    insts = []   # [object, key, position]
    produced = {}

    def state(key):
        return produced.get(key, 0)   # outcomes memoized so far: up to n items, +1 for a terminating exception
    for op in case["ops"]:
        if op[0] == "new":
            a, k = case["calls"][op[1] % len(case["calls"])]
            key = freeze(gen.model_bind(case["params"], a, k)[0]) if case["params"] else ()
            before = len(pulled)
            g = make(*a, **k)
            require(iter(g) is g, "a memoized generator is its own iterator")
            eq(len(pulled), before, "creating an instance advanced the source")
            insts.append([g, key, 0])
            continue
        inst = insts[op[1] % len(insts)]
        g, key, pos = inst
        before = len(pulled)
        if op[0] in ("next", "all"):
            for _ in range(1 if op[0] == "next" else n + 3):
                pos = inst[2]
                try:
                    got = ("ok", next(g))
                except StopIteration:
                    got = ("stop", None)
                except (Boom, BaseBoom) as e:
                    got = ("exc", e)
                if pos < n:
                    eq(got, ("ok", item(key, pos)), f"item {pos}")
                    inst[2] += 1
                    produced[key] = max(state(key), inst[2])
                elif pos == n and end != "stop":
                    require(got[0] == "exc" and got[1] is exc.get(key), "terminating exception, the same for every instance:", got)
                    inst[2] += 1
                    produced[key] = n + 1
                else:
                    eq(got[0], "stop", "after the end")
        else:
            m = state(key)
            outcomes = [("ok", item(key, i)) for i in range(min(m, n))] + ([("exc", exc.get(key))] if m > n else [])
            if op[0] == "len":
                eq(len(g), len(outcomes), "len is the number of memoized items")
            elif op[0] == "index":
                try:
                    got = ("ok", g[op[2]])
                except IndexError:
                    got = ("index", None)
                except (Boom, BaseBoom) as e:
                    got = ("exc", e)
                want = outcomes[op[2]] if -len(outcomes) <= op[2] < len(outcomes) else ("index", None)
                require(got[0] == want[0] and (got[1] is want[1] if got[0] == "exc" else got[1] == want[1]), f"index {op[2]}: got {got}, expected {want}")
            else:
                s = slice(*op[2])
                part = outcomes[s]
                bad = next((v for k, v in part if k == "exc"), None)
                try:
                    got = ("ok", g[s])
                except (Boom, BaseBoom) as e:
                    got = ("exc", e)
                if bad is not None:
                    require(got[0] == "exc" and got[1] is bad, f"slice {s}: got {got}, expected the exception")
                else:
                    eq(got, ("ok", [v for _, v in part]), f"slice {s}")
            eq(len(pulled), before, "reading the memo advanced the source")
        ks = [p for p in pulled if p[0] == key]
        eq(ks, sorted(set(ks), key=ks.index), "the source was advanced more than once for an item")
        if kind != "imemoize-list":
            furthest = max(i[2] for i in insts if i[1] == key)
            require(len(ks) <= furthest + 1, "source advanced further than any consumer asked", ks)
    for key in set(started):
        eq(started.count(key), 1, "source started once per binding")


# ---------------------------------------------------------------- many sequences, long sequences

@st.composite
def many_cases(draw):
    n = draw(st.sampled_from([1, 3, 40, 130, 300, 700]))
    return dict(bindings=n, length=draw(st.sampled_from([3, 50, 200, 700, 2000])) if n <= 3 else draw(st.integers(1, 4)),
                kind=draw(st.sampled_from(["gmemoize", "fimemoize"])), first=draw(st.integers(0, 5)),
                again=draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=20)), end=draw(st.sampled_from(["stop", "boom"])))


def run_many(case):
    n, m = case["bindings"], case["length"]
    pulled, started = [], []

    def src(k):
        started.append(k)
        for i in range(m):
            pulled.append((k, i))
            yield [k, i]
        if case["end"] == "boom":
            raise Boom(k)

    def g(k):
        yield from src(k)
    make = gmemoize(g) if case["kind"] == "gmemoize" else fimemoize(lambda k: src(k))

    def everything(it):
        out = []
        while True:
            try:
                out.append(next(it))
            except StopIteration:
                return out, None
            except Boom as e:
                require(next(it, "end") == "end", "goes on after its terminating exception")
                return out, e
    # start some of each sequence, in one instance each; then read all again through new instances
    insts = {k: make(k) for k in range(n)}
    part = {k: [next(insts[k]) for _ in range(min(m, case["first"]))] for k in range(n)}
    whole = {}
    for k in list(case["again"]) + list(range(n)) + list(case["again"]):
        out, e = everything(make(k))
        eq(out, [[k, i] for i in range(m)], "items")
        require(all(a is b for a, b in zip(out, part[k])), "another instance got other objects")
        if k in whole:
            require(all(a is b for a, b in zip(out, whole[k][0])) and e is whole[k][1], "a later instance got other objects or another exception")
        whole[k] = (out, e)
        require((e is None) == (case["end"] == "stop"), "end of the sequence")
    for k in range(n):
        out, e = everything(insts[k])
        require(len(out) == m - len(part[k]) and all(a is b for a, b in zip(out, whole[k][0][len(part[k]):])) and e is whole[k][1], "the first instance, continued")
        eq(insts[k][:m], whole[k][0], "what is memoized")
    eq(len(started), n, "sequences started")
    eq(len(pulled), n * m, "items produced by the source")


# ---------------------------------------------------------------- recursion within the sequence

@st.composite
def rec_cases(draw):
    return dict(fs=draw(st.lists(st.tuples(st.integers(1, 3), st.integers(0, 3)), min_size=1, max_size=8)), pulls=draw(st.lists(st.integers(0, 2), min_size=1, max_size=12)))


def run_rec(case):
    """A sequence defined from its own earlier items, through fresh instances of itself."""
    spec = case["fs"]
    log = []

    @gmemoize
    def g():
        yield 1
        for i, (back, add) in enumerate(spec):
            log.append(i)
            it = g()
            seen = [next(it) for _ in range(i + 1)]
            yield seen[-min(back, len(seen))] + add
    want = [1]
    for i, (back, add) in enumerate(spec):
        want.append(want[-min(back, len(want))] + add)
    its = [g() for _ in range(3)]
    pos = [0, 0, 0]
    for w in case["pulls"]:
        if pos[w] < len(want):
            eq(next(its[w]), want[pos[w]], "recursively defined sequence")
            pos[w] += 1
        else:
            eq(next(its[w], "end"), "end", "end")
    eq(log, list(range(max(0, max(pos) - 1)))[:len(spec)], "source advanced once per item")


# ---------------------------------------------------------------- threads

@st.composite
def thread_cases(draw):
    shared = draw(st.booleans())
    n = draw(st.integers(2, 3))
    return dict(shared=shared, threads=[draw(st.lists(st.tuples(st.integers(0, 1), st.integers(1, 4)), min_size=1, max_size=2)) for _ in range(n)],
                n=draw(st.integers(1, 5)), boom=draw(st.booleans()), schedule=draw(sched.schedules(max_size=8, max_gap=25)), opcodes=draw(st.booleans()),
                maker=draw(st.sampled_from(["gmemoize", "fimemoize", "imemoize"])))


def run_threads(case):
    n, boom = case["n"], case["boom"]
    pulled = []
    started = []

    def src(key):
        started.append(key)
        for i in range(n):
            pulled.append((key, i))
            yield (key, i)
        if boom:
            raise Boom(key)
    if case["maker"] == "gmemoize":
        make = gmemoize(lambda key: (yield from src(key)))
    elif case["maker"] == "fimemoize":
        make = fimemoize(lambda key: src(key))
    else:
        ms = [imemoize(src(k)) for k in (0, 1)]
        make = lambda key: ms[key]()
    common = {k: make(k) for k in (0, 1)} if case["shared"] else None

    def body(plan):
        def go():
            out = []
            for key, m in plan:
                g = common[key] if case["shared"] else make(key)
                got = []
                for _ in range(m):
                    try:
                        got.append(("ok", next(g)))
                    except StopIteration:
                        got.append(("stop", None))
                    except Boom as e:
                        got.append(("exc", e))
                out.append((key, got))
            return out
        return go
    res = sched.run([body(p) for p in case["threads"]], case["schedule"], files=("unpythonic/gmemo.py", "/verif/checks/c07.py"), opcodes=case["opcodes"])
    require(len(pulled) == len(set(pulled)), "an item was produced more than once", pulled)
    require(len(started) == len(set(started)), "a sequence was started more than once")
    seen, booms = {0: [], 1: []}, {0: [], 1: []}
    for kind, r in res:
        if kind == "exc":
            raise r
        for key, got in r:
            want = [("ok", (key, i)) for i in range(n)] + ([("exc",)] if boom else [])
            booms[key] += [v for k, v in got if k == "exc"]
            if case["shared"]:
                seen[key] += [v for k, v in got if k == "ok"]
                idx = [v[1] for k, v in got if k == "ok"]
                require(idx == sorted(set(idx)), "items out of order within one thread", idx)
            else:
                for i, g in enumerate(got):
                    w = want[i] if i < len(want) else ("stop",)
                    require(g[0] == w[0] and (g[0] != "ok" or g[1] == w[1]), f"instance item {i}: got {g}, expected {w}")
    for key in (0, 1):
        require(all(b is booms[key][0] for b in booms[key]), "different exception instances")
        if case["shared"]:
            eq(sorted(i for _, i in seen[key]), list(range(len(seen[key]))), "items delivered through a shared instance: each once, none skipped")


SUITES = [
    Suite("history", cases(), run, quick=8000, shards=3, nontrivial=lambda c: sum(o[0] == "new" for o in c["ops"]) > 1,
          labels=lambda c: [c["kind"], "end-" + c["end"]]),
    Suite("many", many_cases(), run_many, quick=80),
    Suite("recursive", rec_cases(), run_rec, quick=800),
    Suite("threads", thread_cases(), run_threads, quick=4000, shards=4, nontrivial=lambda c: len(c["schedule"]) > 0,
          labels=lambda c: ["shared" if c["shared"] else "own instances", "opcodes" if c["opcodes"] else "lines"]),
]
