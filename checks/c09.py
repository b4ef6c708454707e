"""C09: functional update and slice syntax."""
from collections import OrderedDict, defaultdict, deque, namedtuple
from itertools import chain, count
import copy

import hypothesis.strategies as st

from vp.core import Suite, require, eq, short
from checks.c05 import Source
from unpythonic import fup, fupdate, islice, imemoize, gmemoize, frozendict
from unpythonic.collections import ShadowedSequence, in_slice, index_in_slice

RULE = ("cases are sequences of every constructible kind with one or several index/slice updates (negative, stepped, reversed, open, empty, clipped) and "
        "replacements (sequence, one-shot iterator, infinite, memoized; exact, too long, too short); mappings; slices of iterables; slice membership queries. "
        "Non-trivial: the update or slice selects at least one element")
TECHNIQUE = "property-based testing, differential against list/dict/range operations on a copy"
ASSUMPTIONS = ["a single out-of-range index in islice(...)[k], and fupdate of an empty sequence at an int index, are unspecified",
               "in_slice with a length takes indices -length <= i < length; outside that it raises IndexError (or answers False)",
               "a one-shot iterator as replacement is only used where it is read forwards, as documented"]

NT = {n: namedtuple(f"NT{n}", " ".join(f"f{i}" for i in range(n))) for n in range(1, 13)}


class MyList(list):
    pass


class MyTuple(tuple):
    pass


CTORS = {"list": list, "tuple": tuple, "MyList": MyList, "MyTuple": MyTuple, "deque": deque, "bytearray": bytearray, "bytes": bytes}


def build(kind, items):
    return NT[len(items)](*items) if kind == "namedtuple" else CTORS[kind](items)


def bound(n):
    return st.one_of(st.none(), st.integers(-n - 3, n + 3), st.integers(-n, n))


@st.composite
def slices(draw, n):
    return (draw(bound(n)), draw(bound(n)), draw(st.sampled_from([None, None, 1, 2, 3, -1, -1, -2, -3, 7, -7])))


@st.composite
def fup_cases(draw):
    kind = draw(st.sampled_from(["list", "tuple", "namedtuple", "MyList", "MyTuple", "deque", "bytearray", "bytes"]))
    n = draw(st.integers(1 if kind == "namedtuple" else 0, 10))
    specs = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
        if n and draw(st.integers(0, 3)) == 0:
            specs.append(dict(ix=draw(st.integers(-n - 2, n + 1)) if draw(st.integers(0, 5)) == 0 else draw(st.integers(-n, n - 1)), rep="item"))
        else:
            specs.append(dict(ix=draw(slices(n)), rep=draw(st.sampled_from(["list", "tuple", "range", "iter", "gen", "inf", "memo", "meminf", "view"])),
                              extra=draw(st.sampled_from([0, 0, 1, 3, -1, -2]))))
    return dict(kind=kind, n=n, specs=specs, form=draw(st.sampled_from(["fup", "fupdate", "list", "tuple"])))


class Untouchable(list):
    """A replacement sequence that notices changes."""


def run_fup(c):
    n, kind = c["n"], c["kind"]
    items = [i + 1 for i in range(n)]
    target = build(kind, items)
    ref = list(items)
    keep = []
    indices, values = [], []
    expect_error = False
    single = len(c["specs"]) == 1
    for j, sp in enumerate(c["specs"]):
        base = 50 * (j + 1)
        ix = sp["ix"]
        if isinstance(ix, int):
            indices.append(ix)
            values.append(base)
            if -n <= ix < n:
                ref[ix] = base
            else:
                expect_error = True
            continue
        s = slice(*ix)
        r = range(n)[s]
        need = len(r)
        have = max(0, need + sp["extra"])
        rep = sp["rep"]
        if rep in ("iter", "gen", "inf") and r.step < 0 and need > 1:
            rep = "list"
        new = [base + i for i in range(max(have, need))][:have]
        if rep in ("inf", "meminf"):
            have = 10**9
            src = Source([base + i for i in range(need + 3)])
            v = chain(src, count(base + need + 3)) if rep == "inf" else imemoize(chain(src, count(base + need + 3)))()
            keep.append(("src", src, need))
            new = [base + i for i in range(need)]
        elif rep in ("iter", "gen"):
            src = Source(new)
            v = iter(src) if rep == "iter" else (x for x in src)
            keep.append(("src", src, need))
        elif rep == "memo":
            src = Source(new)
            v = imemoize(src)()
            keep.append(("src", src, need))
        elif rep == "range":
            v = range(base, base + have)
        elif rep == "view":
            from unpythonic import view
            lst = list(new)
            v = view(lst)
            keep.append(("same", lst, list(new)))
        else:
            v = list(new) if rep == "list" else tuple(new)
            keep.append(("same", v, copy.copy(v)))
        indices.append(s)
        values.append(v)
        if have < need:
            expect_error = True
        else:
            for k, i in enumerate(r):
                ref[i] = new[k]

    def go():
        if c["form"] in ("fup", "fupdate") and single:
            return fup(target)[indices[0]] << values[0] if c["form"] == "fup" else fupdate(target, indices[0], values[0])
        if c["form"] == "fup":
            t = target
            for i, v in zip(indices, values):
                t = fup(t)[i] << v
            return t
        ctor = tuple if c["form"] == "tuple" else list
        return fupdate(target, ctor(indices), ctor(values))
    try:
        out = go()
    except IndexError:
        # errors: too short, index out of range. With several specs an error in one of them may be shadowed by a later one, not the other way around.
        require(expect_error, "IndexError for a valid update")
        out = None
    else:
        if expect_error:
            hard = single and n > 0
            require(not hard, "invalid update accepted:", short(out))
    same_orig = build(kind, items)
    require(type(target) is type(same_orig) and target == same_orig, "the original was changed:", short(target))
    for what, a, b in keep:
        if what == "same":
            eq(a, b, "the replacement was changed")
        else:
            require(a.taken <= b, "more items consumed from the replacement than needed:", a.taken, b)
    if out is not None and not expect_error:
        require(type(out) is type(target), "type of the result:", short(type(out)))
        eq(list(out), ref, "result")
        require(out is not target or isinstance(target, (tuple, bytes)), "not a copy")


@st.composite
def shadow_cases(draw):
    n = draw(st.integers(1, 9))
    layers = []
    for _ in range(draw(st.integers(1, 3))):
        layers.append(draw(st.one_of(st.integers(-n, n - 1), slices(n), slices(n))))
    reads = draw(st.lists(st.one_of(st.integers(-n - 1, n), slices(n)), max_size=5))
    return dict(kind=draw(st.sampled_from(["list", "tuple", "namedtuple"])), n=n, layers=layers, reads=reads, poke=draw(st.one_of(st.none(), st.integers(0, n - 1))))


def run_shadow(c):
    n = c["n"]
    target = build(c["kind"], list(range(n)))
    seq, covered = target, set()
    ref = list(range(n))
    for j, ix in enumerate(c["layers"]):
        if isinstance(ix, int):
            seq = ShadowedSequence(seq, ix, 100 * (j + 1))
            ref[ix] = 100 * (j + 1)
            covered.add(ix % n)
        else:
            r = range(n)[slice(*ix)]
            new = [100 * (j + 1) + i for i in range(len(r))]
            seq = ShadowedSequence(seq, slice(*ix), tuple(new))
            for k, i in enumerate(r):
                ref[i] = new[k]
                covered.add(i)
    if c["poke"] is not None and c["kind"] == "list":  # reads go to the original sequence at access time
        target[c["poke"]] = -5
        if c["poke"] not in covered:
            ref[c["poke"]] = -5
    eq(len(seq), n, "len")
    for _ in range(2):
        eq(list(seq), ref, "iteration")
    require(seq == ref and not (seq != ref), "equality")
    for k in c["reads"]:
        if isinstance(k, int):
            try:
                want = ref[k]
            except IndexError:
                try:
                    got = seq[k]
                except IndexError:
                    continue
                require(False, "out-of-range index gave", short(got))
            eq(seq[k], want, "item")
            eq(seq.index(want), ref.index(want), "index")
            require(want in seq, "contains")
        else:
            eq(list(seq[slice(*k)]), ref[slice(*k)], "slice")


@st.composite
def once_cases(draw):
    """The replacement is an iterator: forward reads, each item at most once; memoized iterables can be read backward too."""
    n = draw(st.integers(1, 12))
    s = draw(slices(n))
    return dict(n=n, s=(s[0], s[1], abs(s[2]) if s[2] else s[2]), supply=draw(st.one_of(st.none(), st.integers(0, 12))), inf=draw(st.booleans()),
                v=draw(st.sampled_from(["gen", "iter", "imemoize", "gmemoize"])), reads=draw(st.lists(st.integers(-13, 12), max_size=8)), whole=draw(st.booleans()))


def run_once(c):
    n, s = c["n"], slice(*c["s"])
    where = list(range(n)[s])
    supply = 10**6 if c["inf"] else len(where) if c["supply"] is None else c["supply"]
    pulled = []

    def src():
        i = 0
        while i < supply:
            pulled.append(i)
            yield 100 + i
            i += 1
    v = {"gen": src, "iter": lambda: iter(src()), "imemoize": lambda: imemoize(src())(), "gmemoize": lambda: gmemoize(src)()}[c["v"]]()
    memo = c["v"].endswith("memoize")
    seq = ShadowedSequence(tuple(range(n)), s, v)
    require(not pulled, "the replacement was read when the sequence was made")
    eq(len(seq), n, "len")
    at = 0
    if c["whole"]:
        got, short_ = [], None
        it = iter(seq)
        while True:
            try:
                got.append(next(it))
            except StopIteration:
                break
            except IndexError:
                short_ = len(got)
                break
        want = [100 + where.index(i) if i in where else i for i in range(n)]
        cut = where[supply] if supply < len(where) else None
        eq((got, short_), (want[:cut], cut), "iteration")
        at = min(supply, len(where))
        require(len(pulled) <= at, "replacement items read without need:", pulled)
    for k in c["reads"]:
        try:
            got = ("ok", seq[k])
        except IndexError:
            got = ("index", None)
        if not -n <= k < n:
            eq(got[0], "index", "out of range")
            continue
        p = k % n
        if p not in where:
            eq(got, ("ok", p), "item from the original")
            continue
        i = where.index(p)
        if i < at and not memo:
            eq(got[0], "index", "replacement item already consumed")
        elif i >= supply:
            eq(got[0], "index", "too short a replacement")
            at = max(at, supply)
        else:
            eq(got, ("ok", 100 + i), f"item {k}, replacement {i}")
            at = max(at, i + 1)
    for f in (lambda: ShadowedSequence([1], "a", 2), lambda: ShadowedSequence([1], 1.0, 2), lambda: ShadowedSequence({1: 2}, 0, 2), lambda: ShadowedSequence(iter([1]), 0, 2),
              lambda: ShadowedSequence([1, 2], slice(0, 1), 2), lambda: seq[0, 0]):
        try:
            f()
        except TypeError:
            continue
        require(False, "nonsense accepted")
    noop = ShadowedSequence(tuple(range(n)))
    eq((list(noop), [noop[i] for i in range(-n, n)], len(noop)), (list(range(n)), [*range(n), *range(n)], n), "no shadowing")


@st.composite
def map_cases(draw):
    keys = list("abcdef") + ["target", "indices", "values", "self"]
    if draw(st.booleans()):
        keys = list("abcdef")
    base = draw(st.dictionaries(st.sampled_from(list("abcdef")), st.integers(0, 9), max_size=5))
    upd = draw(st.dictionaries(st.sampled_from(list("abcdefg")), st.integers(10, 19), max_size=4))
    return dict(kind=draw(st.sampled_from(["dict", "OrderedDict", "defaultdict", "frozendict", "FD"])), base=list(base.items()), upd=list(upd.items()))


class FD(frozendict):
    pass


def run_map(c):
    base, upd = dict(c["base"]), dict(c["upd"])
    kind = c["kind"]
    t = {"dict": dict, "OrderedDict": OrderedDict, "defaultdict": lambda b: defaultdict(int, b), "frozendict": frozendict, "FD": FD}[kind](base)
    out = fupdate(t, **upd)
    ref = dict(base)
    ref.update(upd)
    require(type(out) is type(t), "type", short(type(out)))
    eq(list(out.items()), list(ref.items()), "mapping update")
    eq(list(t.items()), list(base.items()), "the original")
    if kind in ("dict", "OrderedDict", "defaultdict"):
        require(out is not t, "not a copy")
        t["zz"] = 1
        require("zz" not in out, "not independent of the original")


@st.composite
def islice_cases(draw):
    n = draw(st.integers(0, 10))
    inf = draw(st.integers(0, 3)) == 0
    if inf:
        b = st.one_of(st.none(), st.integers(0, 9))
        start, stop = draw(b), draw(b)
    else:
        start, stop = draw(bound(n)), draw(bound(n))
    return dict(n=n, inf=inf, start=start, stop=stop, step=draw(st.sampled_from([None, None, 1, 2, 3])), kind=draw(st.sampled_from(["list", "iter", "gen", "source"])),
                index=draw(st.one_of(st.none(), st.none(), st.integers(-n, n - 1) if n else st.none())), demand=draw(st.integers(0, 12)))


def run_islice(c):
    n = 40 if c["inf"] else c["n"]
    xs = list(range(100, 100 + n))
    src = Source(xs)
    it = {"list": lambda: list(xs), "iter": lambda: iter(xs), "gen": lambda: (x for x in xs), "source": lambda: src}[c["kind"]]()
    if c["inf"]:
        it = chain(src, count(140)) if c["kind"] == "source" else count(100)
    if c["index"] is not None:
        k = c["index"]
        if c["inf"]:
            k = abs(k)
        eq(islice(it)[k], xs[k], "islice index")
        if k >= 0 and c["kind"] == "source":
            require(src.taken <= k + 1, "consumed too much")
        return
    s = slice(c["start"], c["stop"], c["step"])
    got = islice(it)[s]
    require(iter(got) is not None, "iterable")
    if c["inf"]:
        out = []
        g = iter(got)
        for _ in range(c["demand"]):
            try:
                out.append(next(g))
            except StopIteration:
                out.append("end")
                break
        want = list(range(100, 200))[s]
        want = want[:c["demand"]] + (["end"] if len(want) < c["demand"] else [])
        eq(out, want, "islice of an infinite iterable")
        if c["kind"] == "source" and c["stop"] is not None:
            require(src.taken <= max(c["stop"], c["start"] or 0), "consumed too much", src.taken)
        return
    eq(list(got), xs[s], "islice")
    nonneg = (c["start"] or 0) >= 0 and (c["stop"] or 0) >= 0
    if c["kind"] == "source" and nonneg and c["stop"] is not None:
        require(src.taken <= max(c["stop"], c["start"] or 0), "consumed too much", src.taken)


@st.composite
def inslice_cases(draw):
    n = draw(st.integers(1, 10))
    nolen = draw(st.integers(0, 3)) == 0
    if nolen:
        ss = (draw(st.integers(0, 12)), draw(st.integers(0, 12)), draw(st.sampled_from([None, 1, 2, -1, -2, 3, -3])))
        if draw(st.integers(0, 3)) == 0:
            ss = (None, ss[1], abs(ss[2]) if ss[2] else None)
        elif draw(st.integers(0, 3)) == 0:
            ss = (ss[0], None, -abs(ss[2]) if ss[2] else -1)
    else:
        ss = draw(slices(n))
    asint = draw(st.integers(0, 9)) == 0
    return dict(n=n, nolen=nolen, s=ss, i=draw(st.integers(-n, n - 1)) if not nolen else draw(st.integers(0, 12)), asint=asint, k=draw(st.integers(0, n - 1) if nolen else st.integers(-n, n - 1)))


def run_inslice(c):
    n, i = c["n"], c["i"]
    length = () if c["nolen"] else (n,)
    if c["asint"]:
        k = c["k"]
        want = (i == k) if c["nolen"] else i % n == k % n
        eq(bool(in_slice(i, k, *length)), want, "in_slice int")
        return
    s = slice(*c["s"])
    if c["nolen"]:
        step = c["s"][2] or 1
        start = c["s"][0] if c["s"][0] is not None else 0
        stop = c["s"][1] if c["s"][1] is not None else -1
        r = range(start, stop, step)
        j = i
    else:
        r = range(n)[s]
        j = i % n
    eq(bool(in_slice(i, s, *length)), j in r, f"in_slice({i}, {s}, {length})")
    eq(index_in_slice(i, s, *length), r.index(j) if j in r else None, f"index_in_slice({i}, {s}, {length})")
    if not c["nolen"]:
        for bad in (n, n + 2, -n - 1):
            try:
                r2 = in_slice(bad, s, n)
            except IndexError:
                pass
            else:
                require(not r2, "index outside the sequence is in its slice")


def nt(c):
    return any(isinstance(sp["ix"], int) or len(range(c["n"])[slice(*sp["ix"])]) for sp in c["specs"])


SUITES = [
    Suite("fup", fup_cases(), run_fup, quick=4000, shards=2, nontrivial=nt),
    Suite("shadow", shadow_cases(), run_shadow, quick=1500),
    Suite("iterators", once_cases(), run_once, quick=1500, nontrivial=lambda c: c["n"] > 1),
    Suite("mapping", map_cases(), run_map, quick=600, nontrivial=lambda c: bool(c["upd"])),
    Suite("islice", islice_cases(), run_islice, quick=3000, nontrivial=lambda c: c["index"] is not None or bool(range(c["n"] if not c["inf"] else 40)[slice(c["start"], c["stop"], c["step"])])),
    Suite("inslice", inslice_cases(), run_inslice, quick=3000, nontrivial=lambda c: True),
]
