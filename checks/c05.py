"""C05: folds, scans, reductions, unfolds, and the map/zip variants."""
from itertools import zip_longest

import hypothesis.strategies as st

from vp.core import Suite, require, eq, short
import unpythonic
from unpythonic import (scanl, scanr, scanl1, scanr1, foldl, foldr, reducel, reducer, rscanl, rscanl1, rfoldl, rreducel,
                        unfold, unfold1, prod, running_minmax, minmax, Values,
                        map_longest, rmap, rzip, rmap_longest, rzip_longest, mapr, zipr, mapr_longest, zipr_longest,
                        flatmap, iterate, iterate1)

RULE = ("cases are 1-4 iterables (lists, tuples, generators, ranges, deques; lengths 0-6 equal or different; also up to 9 of up to 320 items) with shortest/longest, fill value, initial value "
        "(also None and falsy) and a recording operator; non-trivial when some iterable has at least 2 items")
TECHNIQUE = "property-based testing against list-level recursive definitions, with recorded operator calls and counted consumption"


class Source:
    """An iterator that counts how many items were taken from it."""
    def __init__(self, items, ask_end=None):
        self.items = list(items)
        self.taken = 0
        self.ended = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.taken >= len(self.items):
            self.ended += 1
            raise StopIteration
        self.taken += 1
        return self.items[self.taken - 1]


def build(kind, items):
    from collections import deque
    if kind == "list":
        return list(items)
    if kind == "tuple":
        return tuple(items)
    if kind == "gen":
        return (x for x in items)
    if kind == "deque":
        return deque(items)
    if kind == "dict":
        d = dict.fromkeys(items)
        return d if len(d) == len(items) else list(items)
    return Source(items)


class Recorder:
    def __init__(self, mode, boom=None):
        self.log = []
        self.mode = mode
        self.boom = boom

    def __call__(self, *args):
        self.log.append(args)
        if self.boom is not None and len(self.log) > self.boom:
            raise KeyError("boom")
        if self.mode == "tag":
            return f"r{len(self.log)}"
        if self.mode == "falsy":
            return [None, 0, "", (), False][len(self.log) % 5]
        return args  # nest


atoms = st.one_of(st.integers(-3, 9), st.sampled_from(["a", "", None, (), (1,), False, 2.5]))


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    same = draw(st.booleans())
    m = draw(st.integers(0, 6))
    its = [draw(st.lists(atoms, min_size=m if same else 0, max_size=m if same else 6)) for _ in range(n)]
    return dict(its=its, kinds=[draw(st.sampled_from(["list", "tuple", "gen", "deque", "source", "dict"])) for _ in range(n)],
                init=draw(st.one_of(atoms, st.sampled_from(["INIT", None, 0, ""]))), mode=draw(st.sampled_from(["tag", "nest", "falsy"])),
                longest=draw(st.booleans()), fill=draw(st.sampled_from([None, "fill", 0])), demand=draw(st.integers(0, 7)),
                boom=draw(st.one_of(st.none(), st.none(), st.integers(0, 5))))


def run_def(gen_or_value, boom):
    try:
        return ("ok", gen_or_value())
    except KeyError as e:
        return ("exc", str(e))


def model_scan(proc, init, rows):
    out = [init]
    acc = init
    for row in rows:
        acc = proc(*row, acc)
        out.append(acc)
    return out


def attempt(thunk):
    try:
        return ("ok", thunk())
    except KeyError as e:
        return ("exc", repr(e))


def compare(name, mk, want_thunk, mode, boom, conv):
    """mk(proc) runs the real thing, want_thunk(proc) the definition; same result, same operator calls."""
    p, q = Recorder(mode, boom), Recorder(mode, boom)
    got = attempt(lambda: conv(mk(p)))
    want = attempt(lambda: want_thunk(q))
    require(got == want and repr(got) == repr(want), f"{name}: got {short(got)}, expected {short(want)}")
    eq(p.log, q.log, name + ": operator calls")


def run(case):
    its, kinds = case["its"], case["kinds"]
    kw = dict(longest=case["longest"], fillvalue=case["fill"]) if case["longest"] else {}
    z = (lambda *xs: list(zip_longest(*xs, fillvalue=case["fill"]))) if case["longest"] else (lambda *xs: list(zip(*xs)))
    fresh = lambda: [build(k, i) for k, i in zip(kinds, its)]
    init, mode, boom = case["init"], case["mode"], case["boom"]
    rows = z(*its)
    rrows = z(*[i[::-1] for i in its])

    def cmp(name, mk, want, conv=list):
        compare(name, mk, want, mode, boom, conv)
    ident = lambda x: x
    cmp("scanl", lambda p: scanl(p, init, *fresh(), **kw), lambda p: model_scan(p, init, rows))
    cmp("scanr", lambda p: scanr(p, init, *fresh(), **kw), lambda p: model_scan(p, init, rows[::-1]))
    cmp("rscanl", lambda p: rscanl(p, init, *fresh(), **kw), lambda p: model_scan(p, init, rrows))
    cmp("foldl", lambda p: foldl(p, init, *fresh(), **kw), lambda p: model_scan(p, init, rows)[-1], ident)
    cmp("foldr", lambda p: foldr(p, init, *fresh(), **kw), lambda p: model_scan(p, init, rows[::-1])[-1], ident)
    cmp("rfoldl", lambda p: rfoldl(p, init, *fresh(), **kw), lambda p: model_scan(p, init, rrows)[-1], ident)
    # textbook recursion, independently of scans
    def fr(p, rows):
        return init if not rows else p(*rows[0], fr(p, rows[1:]))
    cmp("foldr (recursive definition)", lambda p: foldr(p, init, *fresh(), **kw), lambda p: fr(p, rows), ident)
    # single iterable, optional init
    xs = its[0]
    one = lambda: build(kinds[0], xs)

    def scan1(p, xs, init):
        if init is None:
            if not xs:
                return []
            init, xs = xs[0], xs[1:]
        return model_scan(p, init, [(x,) for x in xs])

    def red1(p, xs, init):
        s = scan1(p, xs, init)
        return s[-1] if s else None
    for i in (None, init):
        a = () if i is None else (i,)
        cmp("scanl1", lambda p: scanl1(p, one(), *a), lambda p: scan1(p, xs, i))
        cmp("scanr1", lambda p: scanr1(p, one(), *a), lambda p: scan1(p, xs[::-1], i))
        cmp("rscanl1", lambda p: rscanl1(p, one(), *a), lambda p: scan1(p, xs[::-1], i))
        cmp("reducel", lambda p: reducel(p, one(), *a), lambda p: red1(p, xs, i), ident)
        cmp("reducer", lambda p: reducer(p, one(), *a), lambda p: red1(p, xs[::-1], i), ident)
        cmp("rreducel", lambda p: rreducel(p, one(), *a), lambda p: red1(p, xs[::-1], i), ident)
        cmp("reducel init=", lambda p: reducel(p, one(), init=i), lambda p: red1(p, xs, i), ident)
    # map/zip variants
    full = lambda rows: (lambda p: [p(*r) for r in rows])
    short_rows, long_rows = list(zip(*its)), list(zip_longest(*its, fillvalue=case["fill"]))
    rev_its = [i[::-1] for i in its]
    rshort, rlong = list(zip(*rev_its)), list(zip_longest(*rev_its, fillvalue=case["fill"]))
    fv = dict(fillvalue=case["fill"])
    cmp("map", lambda p: unpythonic.map(p, *fresh()), full(short_rows))
    cmp("map_longest", lambda p: map_longest(p, *fresh(), **fv), full(long_rows))
    cmp("rmap", lambda p: rmap(p, *fresh()), full(rshort))
    cmp("rmap_longest", lambda p: rmap_longest(p, *fresh(), **fv), full(rlong))
    if boom is None:
        # mapr maps from the left, then reverses the results
        for name, mk, rws in (("mapr", lambda p: mapr(p, *fresh()), short_rows),
                              ("mapr_longest", lambda p: mapr_longest(p, *fresh(), **fv), long_rows)):
            rec = lambda *a: ("m",) + a
            eq(list(mk(rec)), [rec(*r) for r in rws][::-1], name)
    eq(list(rzip(*fresh())), rshort, "rzip")
    eq(list(rzip_longest(*fresh(), **fv)), rlong, "rzip_longest")
    eq(list(zipr(*fresh())), short_rows[::-1], "zipr")
    eq(list(zipr_longest(*fresh(), **fv)), long_rows[::-1], "zipr_longest")
    eq(list(flatmap(lambda *a: [a] * (len(repr(a)) % 3), *fresh())),
       [a for a in short_rows for _ in range(len(repr(a)) % 3)], "flatmap")
    laziness(case, init, mode, kw, z)


def laziness(case, init, mode, kw, z):
    its, d = case["its"], case["demand"]
    if case["longest"]:
        n = max(len(i) for i in its)
    else:
        n = min(len(i) for i in its)
    want = model_scan(Recorder(mode), init, z(*its))
    srcs = [Source(i) for i in its]
    p = Recorder(mode)
    g = scanl(p, init, *srcs, **kw)
    require(not p.log and not any(s.taken for s in srcs), "scanl did something before being iterated")
    got = []
    for _ in range(min(d, n + 1)):
        got.append(next(g))
    eq(got, want[:d], "scanl prefix")
    k = max(0, len(got) - 1)
    eq(len(p.log), k, "scanl: operator calls for the demanded elements")
    for s in srcs:
        require(s.taken <= k, "scanl took", s.taken, "items for", len(got), "outputs")
    # the single-input variants may look at the first item when they are made
    s = Source(its[0])
    p = Recorder(mode)
    g = scanl1(p, s)
    require(s.taken <= 1 and not p.log, "scanl1 consumed too much at creation")
    want = model_scan(Recorder(mode), its[0][0], [(x,) for x in its[0][1:]]) if its[0] else []
    got = [x for _, x in zip(range(d), g)]
    eq(got, want[:d], "scanl1 prefix")
    require(s.taken <= max(1, len(got) + (1 if d > len(got) else 0)), "scanl1 took", s.taken, "for", len(got))
    eq(len(p.log), max(0, len(got) - 1), "scanl1: operator calls")
    # maps
    srcs = [Source(i) for i in its]
    p = Recorder("tag")
    g = unpythonic.map(p, *srcs)
    m = min(len(i) for i in its)
    for _ in range(min(d, m)):
        next(g)
    eq(len(p.log), min(d, m), "map is lazy")
    require(all(s.taken <= min(d, m) for s in srcs), "map consumed too much")
    srcs = [Source(i) for i in its]
    p = Recorder("tag")
    g = map_longest(p, *srcs)
    m = max(len(i) for i in its)
    for _ in range(min(d, m)):
        next(g)
    eq(len(p.log), min(d, m), "map_longest is lazy")
    require(all(s.taken <= min(d, m) for s in srcs), "map_longest consumed too much")


# ---------------------------------------------------------------- unfold

@st.composite
def unfold_cases(draw):
    n = draw(st.integers(0, 7))
    return dict(vals=[draw(atoms) for _ in range(n)], npos=draw(st.integers(0, 3)), named=draw(st.lists(st.sampled_from("abcs"), unique=True, max_size=2)),
                end=draw(st.sampled_from(["none", "bad", "boom"])), demand=draw(st.integers(0, 9)))


def run_unfold(case):
    vals, n, d = case["vals"], len(case["vals"]), case["demand"]

    def finish():
        if case["end"] == "none":
            return None
        if case["end"] == "bad":
            return (1, 2)
        raise KeyError("boom")
    log = []

    def proc1(state):
        log.append(state)
        if state >= n:
            if case["end"] == "bad":
                return None
            return finish()
        return vals[state], state + 1

    def drive(g, end):
        require(not log, "unfold called the function before being iterated")
        got = []
        stop = None
        for _ in range(d):
            try:
                got.append(next(g))
            except StopIteration:
                stop = "none"
                break
            except TypeError:
                stop = "bad"
                break
            except KeyError:
                stop = "boom"
                break
        eq(got, vals[:d], "unfold values")
        eq(stop, end if d > n else None, "how unfold ended")
        return got
    drive(unfold1(proc1, 0), "none" if case["end"] == "bad" else case["end"])
    eq(log, list(range(min(d, n + 1))), "unfold1: states passed")
    log.clear()
    names = case["named"]
    npos = case["npos"] + (0 if names else 1)

    def st_(i):
        return tuple((i, j) for j in range(npos)), {k: (i, k) for k in names}

    def proc(*args, **kws):
        i = (args[0] if args else kws[names[0]])[0]
        eq((args, kws), st_(i), "unfold: state unpacked to arguments")
        log.append(i)
        if i >= n:
            return finish()
        a, k = st_(i + 1)
        return Values(vals[i], *a, **k)
    a, k = st_(0)
    drive(unfold(proc, *a, **k), case["end"])
    eq(log, list(range(min(d, n + 1))), "unfold: states passed")
    log.clear()
    # iterate1, iterate
    def step(x):
        log.append(x)
        return ("f", x)
    g = iterate1(step, 0)
    want, x = [], 0
    for _ in range(d):
        want.append(x)
        x = ("f", x)
    eq([next(g) for _ in range(d)], want, "iterate1")
    eq(log, want[:-1], "iterate1 is lazy")
    log.clear()

    def stepv(*args, **kws):
        i = (args[0] if args else kws[names[0]])[0]
        eq((args, kws), st_(i), "iterate: arguments")
        log.append(i)
        a, k = st_(i + 1)
        if i == n and case["end"] == "bad":
            return a
        return Values(*a, **k)
    g = iterate(stepv, *a, **k)
    got = []
    try:
        for _ in range(d):
            got.append(next(g))
    except TypeError:
        require(case["end"] == "bad" and d > n + 1, "unexpected TypeError from iterate")
    else:
        require(not (case["end"] == "bad" and d > n + 1), "iterate accepted a result that is not Values")
    m = min(d, n + 1) if case["end"] == "bad" else d
    eq(got, [Values(*st_(i)[0], **st_(i)[1]) for i in range(m)], "iterate")


# ---------------------------------------------------------------- prod, minmax

@st.composite
def num_cases(draw):
    return dict(xs=draw(st.lists(st.one_of(st.integers(-20, 20), st.floats(-4, 4, allow_nan=False)), max_size=8)),
                start=draw(st.sampled_from([1, 0, 2, -3, 1.5])), kind=draw(st.sampled_from(["list", "gen", "source"])), demand=draw(st.integers(0, 9)))


def run_num(case):
    xs = case["xs"]
    one = lambda: build(case["kind"], xs)

    def pr(start):
        r = start
        for x in xs:
            r = x * r
        return r
    eq(prod(one()), pr(1), "prod")
    eq(prod(one(), start=case["start"]), pr(case["start"]), "prod with start")
    eq(minmax(one()), (min(xs), max(xs)) if xs else (None, None), "minmax")
    eq(list(running_minmax(one())), [(min(xs[:i + 1]), max(xs[:i + 1])) for i in range(len(xs))], "running_minmax")
    s = Source(xs)
    g = running_minmax(s)
    got = [x for _, x in zip(range(case["demand"]), g)]
    require(s.taken <= max(1, min(len(xs), case["demand"])), "running_minmax consumed too much")
    eq(got, [(min(xs[:i + 1]), max(xs[:i + 1])) for i in range(len(got))], "running_minmax prefix")


# ---------------------------------------------------------------- the same, at scale

@st.composite
def long_cases(draw):
    n = draw(st.integers(1, 9))
    m = draw(st.sampled_from([3, 20, 40, 70, 130, 300]))
    lens = [m] * n if draw(st.booleans()) else [draw(st.integers(max(0, m - 20), m + 20)) for _ in range(n)]
    return dict(lens=lens, mul=draw(st.sampled_from([1, 3, 7])), kinds=[draw(st.sampled_from(["list", "tuple", "gen", "deque", "source", "dict"])) for _ in range(n)],
                init=draw(st.sampled_from(["INIT", None, 0, ""])), mode=draw(st.sampled_from(["tag", "falsy"])), longest=draw(st.booleans()),
                fill=draw(st.sampled_from([None, "fill", 0])), demand=draw(st.sampled_from([0, 1, 5, 50, 140, 400])), boom=draw(st.sampled_from([None, None, 66, 150])))


def run_long(case):
    c = dict(case)
    c["its"] = [[(i * c["mul"] + 1000 * j) for i in range(m)] for j, m in enumerate(c.pop("lens"))]
    run(c)
    m = len(c["its"][0])
    run_unfold(dict(vals=list(range(m)), npos=case["demand"] % 4, named=[], end="none", demand=min(case["demand"], 300)))
    run_num(dict(xs=[(i * 37) % 101 - 50 for i in range(m)], start=1, kind=case["kinds"][0], demand=case["demand"]))


big = lambda c: any(len(i) > 1 for i in c["its"])
SUITES = [
    Suite("scan", cases(), run, quick=8000, shards=4, nontrivial=big,
          labels=lambda c: [f"iterables{len(c['its'])}", "longest" if c["longest"] else "shortest"]),
    Suite("long", long_cases(), run_long, quick=160, shards=2, nontrivial=lambda c: max(c["lens"]) > 10),
    Suite("unfold", unfold_cases(), run_unfold, quick=3000, nontrivial=lambda c: c["demand"] > 1 and len(c["vals"]) > 1),
    Suite("numbers", num_cases(), run_num, quick=2000, nontrivial=lambda c: len(c["xs"]) > 1),
]
