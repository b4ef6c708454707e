"""C06: iterator utilities against list-level definitions, with consumption accounting."""
from itertools import chain, count, combinations

import hypothesis.strategies as st

from vp.core import Suite, require, eq, short, Violation
from checks.c05 import Source
import unpythonic as u

RULE = ("cases are (utility, arguments, input items, finite or with an infinite tail, number of outputs demanded, kind of input), also with 1000 items and arguments up to 700; "
        "non-trivial when at least 2 items are in the input and at least 1 output is demanded")
TECHNIQUE = "property-based testing against list-level definitions, with a counting source for consumption and laziness"


class Inf(Source):
    """Items, then an endless supply of distinct numbers, counted."""
    def __next__(self):
        self.taken += 1
        i = self.taken - 1
        return self.items[i] if i < len(self.items) else 1000 + i


atoms = st.one_of(st.integers(0, 5), st.sampled_from(["a", "b", "", None, (), 2.5, False]))
nested = st.recursive(st.integers(0, 9), lambda ch: st.one_of(st.lists(ch, max_size=3), st.lists(ch, max_size=3).map(tuple)), max_leaves=10)

END = object()


# Each utility: name -> (list-level definition from the items, the real call, consumption allowed for m outputs given the items)
# ``defn(xs)`` gives the complete output list for the (finite or long enough prefix of the) input.

def first_seen(xs, key=None):
    out, seen = [], []
    for i, x in enumerate(xs):
        k = x if key is None else key(x)
        if k not in seen:
            seen.append(k)
            out.append((i, x))
    return out


def just_seen(xs, key=None):
    out = []
    prev = END
    for i, x in enumerate(xs):
        k = x if key is None else key(x)
        if prev is END or k != prev:
            out.append((i, x))
        prev = k
    return out


def flat(xs, pred):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)) and pred(x):
            out += flat(x, pred)
        else:
            out.append(x)
    return out


def flat_in(xs, pred):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            if pred(x):
                out += flat_in(x, pred)
            else:
                out.append(type(x)(flat_in(x, pred)))
        else:
            out.append(x)
    return out


def flat1(xs, pred):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)) and pred(x):
            out += list(x)
        else:
            out.append(x)
    return out


def pset(xs):
    """all non-empty subsets, each item combined with everything before it"""
    out = []
    for x in xs:
        out += [(x,)] + [c + (x,) for c in out]
    return out


KEYS = {None: None, "mod2": lambda x: hash(x) % 2, "type": lambda x: type(x).__name__, "repr": repr}
PREDS = {"all": lambda t: True, "none": lambda t: False, "nested": lambda t: all(isinstance(x, (list, tuple)) for x in t),
         "short": lambda t: len(t) < 2, "tuple": lambda t: isinstance(t, tuple)}

STREAMS = ["take", "drop", "tail", "butlast", "butlastn", "uniqify", "uniq", "pad", "scons", "window", "chunked", "flatten", "flatten1",
           "flatten_in", "interleave", "powerset", "within", "rev", "lastn", "split_at", "partition", "unpack"]


@st.composite
def stream_cases(draw):
    op = draw(st.sampled_from(STREAMS))
    inf = draw(st.booleans()) and op not in ("rev", "lastn", "flatten", "flatten1", "flatten_in", "within")
    if op in ("flatten", "flatten1", "flatten_in"):
        xs = draw(st.lists(nested, max_size=4))
    elif op == "within":
        xs = draw(st.lists(st.integers(-4, 4).map(float), max_size=7))
    else:
        xs = draw(st.lists(atoms, max_size=7))
    c = dict(op=op, xs=xs, inf=inf, n=draw(st.integers(0, 5)), demand=draw(st.integers(0, 9)),
             kind=draw(st.sampled_from(["list", "tuple", "source", "gen"])))
    if op in ("uniqify", "uniq"):
        c["key"] = draw(st.sampled_from(list(KEYS)))
    if op in ("flatten", "flatten1", "flatten_in"):
        c["pred"] = draw(st.sampled_from([None] + list(PREDS)))
    if op == "interleave":
        c["others"] = draw(st.lists(st.lists(atoms, max_size=6), max_size=3))
    if op == "unpack":
        c["k"] = draw(st.one_of(st.none(), st.integers(0, 6)))
        c["fill"] = draw(st.sampled_from([None, "f"]))
    if op == "partition":
        c["order"] = draw(st.lists(st.booleans(), max_size=10))
    if op == "split_at":
        c["order"] = draw(st.lists(st.booleans(), max_size=10))
    return c


def pull(it, m):
    """Up to m items, and whether the iterator said it ended."""
    out = []
    for _ in range(m):
        try:
            out.append(next(it))
        except StopIteration:
            require(next(it, END) is END, "iterator yields again after it ended")
            return out, True
    return out, False


def run_stream(case):
    op, xs, n, d, inf = case["op"], list(case["xs"]), case["n"], case["demand"], case["inf"]
    orig = repr(xs)
    # the items as far as they can matter
    allx = xs + [1000 + i for i in range(len(xs), len(xs) + 60 + (n * d if op == "chunked" else 6 * (n + d) + 3 * len(case.get("order", ())) + (case.get("k") or 0)))] if inf else xs
    src = Inf(xs) if inf else Source(xs)
    plain = case["kind"] in ("list", "tuple") and not inf
    inp = (xs if case["kind"] == "list" else tuple(xs)) if plain else src

    def check(it, want, cost, upfront=0):
        """cost(m): how many items may have been taken when m outputs were given; upfront: allowed at creation"""
        require(iter(it) is it, op, "must return an iterator")
        require(src.taken <= upfront, op, "took", src.taken, "items before being iterated; allowed", upfront)
        demand = min(d, len(want)) if inf else d
        got, ended = pull(it, demand)
        w = want[:demand]
        require(len(got) == len(w) and all(type(a) is type(b) and a == b for a, b in zip(got, w)), f"{op}: got {short(got)}, expected {short(w)}")
        require(ended == (demand > len(want)), op, "ended" if ended else "did not end", "after", len(got))
        if not ended:
            lim = max(upfront, cost(len(got)))
            require(src.taken <= lim, op, "took", src.taken, "items for", len(got), "outputs; allowed", lim)
        if plain:
            require(repr(xs) == orig, op, "modified its input")

    def rest_intact(pos):
        """What was not consumed stays available: the source continues at item `pos`."""
        if not plain:
            eq(src.taken, pos, op + ": position of the source")

    if op == "take":
        check(u.take(n, inp), allx[:n], lambda m: m)
        if not plain:
            require(src.taken <= n, "take took more than n items")
    elif op in ("drop", "tail"):
        k = 1 if op == "tail" else n
        it = u.tail(inp) if op == "tail" else u.drop(n, inp)
        check(it, allx[k:], lambda m: k + m, upfront=k)
    elif op in ("butlast", "butlastn"):
        k = 1 if op == "butlast" else n
        it = u.butlast(inp) if op == "butlast" else u.butlastn(n, inp)
        check(it, allx[:max(0, len(allx) - k)] if not inf else allx, lambda m: m + k)
    elif op in ("uniqify", "uniq"):
        key = KEYS[case["key"]]
        pairs = (first_seen if op == "uniqify" else just_seen)(allx, key)
        f = u.uniqify if op == "uniqify" else u.uniq
        check(f(inp, key=key) if key else f(inp), [x for _, x in pairs], lambda m: pairs[m - 1][0] + 1 if m else 0)
    elif op == "pad":
        check(u.pad(n, "fill", inp), allx + ["fill"] * max(0, n - len(allx)), lambda m: m)
    elif op == "scons":
        check(u.scons("head", inp), ["head"] + allx, lambda m: max(0, m - 1))
    elif op == "window":
        if n < 2:
            refuses(ValueError, lambda: u.window(n, inp))
            return
        check(u.window(n, inp), [tuple(allx[i:i + n]) for i in range(len(allx) - n + 1)], lambda m: m + n - 1, upfront=n)
    elif op == "chunked":
        if n < 2:
            refuses(ValueError, lambda: u.chunked(n, inp))
            return
        it = u.chunked(n, inp)
        require(src.taken == 0, "chunked is lazy")
        got = []
        for _, c in zip(range(d), it):
            require(src.taken <= len(got) * n + 1, "chunked read ahead")
            got.append(list(c))
        want = [allx[i:i + n] for i in range(0, len(allx), n)]
        eq(got, want[:d], "chunked")
    elif op in ("flatten", "flatten1", "flatten_in"):
        p = PREDS[case["pred"]] if case["pred"] else None
        f = {"flatten": flat, "flatten1": flat1, "flatten_in": flat_in}[op]
        if op == "flatten1" and p is None:
            xs = [x if isinstance(x, (list, tuple)) else [x] for x in xs]  # a sequence of sequences
            src = Source(xs)
            inp = xs if plain else src
            orig = repr(xs)
        want = f(xs, p or PREDS["all"])
        g = getattr(u, op)
        sizes = [len(f([x], p or PREDS["all"])) for x in xs]

        def cost(m):
            if m == 0:
                return 0
            tot = 0
            for i, s in enumerate(sizes):
                tot += s
                if tot >= m:
                    return i + 1
            return len(xs)
        check(g(inp, p) if p else g(inp), want, cost)
    elif op == "interleave":
        ins = [list(o) for o in case["others"]]
        mn = min([len(i) for i in ins] + ([] if inf else [len(xs)]))if ins or not inf else None
        seqs = [allx] + ins
        want = []
        if mn is None:
            want = allx
        else:
            want = [s[i] for i in range(mn) for s in seqs]
            for s in seqs:          # the round that meets the first exhausted input
                if len(s) > mn:
                    want.append(s[mn])
                else:
                    break
        # items yielded before the shortest input turns out to have ended are part of the output
        k = len(seqs)
        check(u.interleave(inp, *ins), want, lambda m: (m + k - 1) // k)
        eq(list(u.interleave()), [], "interleave of nothing")
    elif op == "powerset":
        want = pset(allx[:6] if inf else xs[:6])
        if len(xs) > 6:
            return

        def cost(m):
            i = 0
            while (1 << i) - 1 < m:
                i += 1
            return i
        check(u.powerset(inp), want, cost)
        if not inf:
            idx = list(u.powerset(range(len(xs))))
            eq(sorted(idx), sorted(c for r in range(1, len(xs) + 1) for c in combinations(range(len(xs)), r)), "powerset: every subset once")
    elif op == "within":
        tol = [0, 1, 0.5, 2, 3, 0.0][n]
        want = []
        for i, x in enumerate(xs):
            want.append(x)
            if i and abs(xs[i - 1] - x) <= tol:
                break
        check(u.within(tol, inp), want, lambda m: m + 1)
    elif op == "rev":
        check(u.rev(inp), xs[::-1], lambda m: len(xs), upfront=len(xs))
    elif op == "lastn":
        check(u.lastn(n, inp), xs[-n:] if n else [], lambda m: len(xs), upfront=len(xs))
    elif op == "split_at":
        a, b = u.split_at(n, inp)
        require(src.taken <= n, "split_at took too much at the start")
        ga, gb = [], []
        for which in case["order"]:
            it, g = (b, gb) if which else (a, ga)
            g.append(next(it, END))
            require(src.taken <= max(len(ga), n + len(gb)), "split_at took", src.taken)
        wa, wb = allx[:n], allx[n:]
        eq(ga, (wa + [END] * len(ga))[:len(ga)], "split_at first part")
        eq(gb, (wb + [END] * len(gb))[:len(gb)], "split_at second part")
        refuses(ValueError, lambda: u.split_at(-1, xs))
        refuses(TypeError, lambda: u.split_at(1.0, xs))
    elif op == "partition":
        pred = lambda x: isinstance(x, int) and x % 2 == 0
        f, t = u.partition(pred, inp)
        require(src.taken == 0, "partition is lazy")
        posf = [i for i, x in enumerate(allx) if not pred(x)]
        post = [i for i, x in enumerate(allx) if pred(x)]
        nf = nt = 0
        for which in case["order"]:
            if which:
                got, want = next(t, END), allx[post[nt]] if nt < len(post) else END
                nt += 1
            else:
                got, want = next(f, END), allx[posf[nf]] if nf < len(posf) else END
                nf += 1
            require(got is want or (type(got) is type(want) and got == want), "partition: got", got, "expected", want)
            if nf <= len(posf) and nt <= len(post):
                lim = max(posf[nf - 1] + 1 if nf else 0, post[nt - 1] + 1 if nt else 0)
                require(src.taken <= lim, "partition took", src.taken, "allowed", lim)
    elif op == "unpack":
        k, fill = case["k"], case["fill"]
        kw = {}
        if k is not None:
            kw["k"] = k
        if fill is not None:
            kw["fillvalue"] = fill
        out = u.unpack(n, inp, **kw)
        require(type(out) is tuple and len(out) == n + 1, "unpack returns n items and the tail")
        k = n if k is None else k
        lim = max(n, k)
        require(src.taken <= lim, "unpack took", src.taken, "allowed", lim)
        *heads, tl = out
        if len(allx) >= n:
            eq(heads, allx[:n], "unpack items")
            got, ended = pull(tl, d)
            eq(got, allx[k:][:d], "unpack tail")
            require(ended == (d > len(allx[k:])), "unpack tail end")
            require(src.taken <= max(lim, k + len(got)), "unpack tail took too much")
        else:
            eq(heads, xs + [fill] * (n - len(xs)), "unpack items with fill")
            eq(list(tl), [], "unpack: tail when there were too few items")
        refuses(ValueError, lambda: u.unpack(-1, xs))
        refuses(TypeError, lambda: u.unpack("1", xs))
        refuses(ValueError, lambda: u.unpack(1, xs, k=-1))
    if op in ("take", "drop"):
        f = getattr(u, op)
        refuses(ValueError, lambda: f(-1, xs))
        refuses(TypeError, lambda: f(1.0, xs))
        refuses(TypeError, lambda: f("2", xs))
        if not inf:
            s = Source(xs)
            it = u.drop(None, s)
            eq((list(it), s.taken), ([], len(xs)), "drop(None)")


def refuses(exc, thunk):
    try:
        r = thunk()
        if hasattr(r, "__next__"):
            next(r, None)
    except exc:
        return
    except Exception as e:
        raise Violation(f"expected {exc.__name__}, got {e!r}")
    raise Violation(f"expected {exc.__name__}, got {r!r}")


# ---------------------------------------------------------------- the same, at scale

@st.composite
def long_cases(draw):
    op = draw(st.sampled_from([o for o in STREAMS if o not in ("powerset", "within", "powerset")]))
    size = draw(st.sampled_from([30, 70, 140, 300, 600, 1100]))
    c = dict(op=op, size=size, mod=draw(st.sampled_from([2, 7, 60, 300, 5000])), step=draw(st.sampled_from([1, 1, 3, 7])), inf=draw(st.booleans()) and op not in ("rev", "lastn", "flatten", "flatten1", "flatten_in"),
             n=draw(st.one_of(st.sampled_from([2, 5, 33, 65, 129, 257, 600]), st.integers(2, 700))), kind=draw(st.sampled_from(["list", "tuple", "source", "gen"])))
    c["demand"] = draw(st.one_of(st.integers(0, size + 10), st.just(3000)))
    if op in ("uniqify", "uniq"):
        c["key"] = draw(st.sampled_from([None, "repr"]))
    if op in ("flatten", "flatten1", "flatten_in"):
        c["pred"] = draw(st.sampled_from([None] + list(PREDS)))
        c["depth"] = draw(st.sampled_from([0, 1, 5, 40, 90]))
    if op == "interleave":
        c["others"] = draw(st.lists(st.sampled_from([0, 1, 50, 300, 700, 1200]), max_size=12))
    if op == "unpack":
        c["k"] = draw(st.one_of(st.none(), st.integers(0, 700)))
        c["fill"] = draw(st.sampled_from([None, "f"]))
    if op in ("partition", "split_at"):
        c["order"] = draw(st.tuples(st.integers(1, 5), st.integers(1, 5)))
    return c


def run_long(case):
    c = dict(case)
    size = c.pop("size")
    xs = [i // c["step"] % c["mod"] for i in range(size)]
    if c["op"] == "chunked" and c["inf"]:
        c["demand"] %= 50
    if "depth" in c:
        deep = []
        for i in range(c["depth"]):
            deep = [i, deep] if i % 2 else (deep,)
        xs = [[x] if x % 3 == 0 else (x, [x]) if x % 3 == 1 else x for x in xs]
        xs.insert(size // 2, deep)
        c["n"] = 0
        if c["op"] == "flatten1":
            xs = xs[:200] + xs[size // 2:][:200]
    if "others" in c:
        c["others"] = [list(range(k)) for k in c["others"]]
    if "order" in c:
        a, b = c["order"]
        c["order"] = [i % (a + b) < a for i in range(size + 40)]
    c["xs"] = xs
    run_stream(c)
    # reads by position, far into the input
    if c["kind"] == "source":
        n = case["n"]
        s = Inf(list(xs))
        eq((u.nth(n, s), s.taken), (xs[n] if n < len(xs) else 1000 + n, n + 1), "nth")
        s = Source([0.5] * n + ["x"] + [0.25] * 5)
        eq((u.iindex("x", s), s.taken), (n, n + 1), "iindex")
        s = Source([0.5] * n + ["x"] + [0.25] * 5)
        eq((u.find(lambda y: y == "x", s), s.taken), ("x", n + 1), "find")
        eq(u.last([0.5] * n + ["x"]), "x", "last")
        eq(u.allsame([0] * n + [1]), False, "allsame")
        eq(u.allsame([0] * n), True, "allsame")
        eq(u.inn(n, range(10**6)), True, "inn")
        eq(u.inn(n, range(0, 10**6, 2)), n % 2 == 0, "inn")
        eq(u.inn(-n, range(0, -10**6, -1)), True, "inn")


# ---------------------------------------------------------------- single values

@st.composite
def value_cases(draw):
    xs = draw(st.lists(atoms, max_size=7))
    return dict(xs=xs, n=draw(st.integers(0, 8)), default=draw(st.sampled_from([None, "d", 0])), x=draw(atoms),
                kind=draw(st.sampled_from(["list", "source", "inf"])), other=draw(st.lists(atoms, max_size=4)),
                mono=draw(st.lists(st.integers(0, 3), min_size=0, max_size=8)), start=draw(st.integers(-5, 5)), sign=draw(st.sampled_from([1, -1])),
                probe=draw(st.integers(-12, 20)), strings=draw(st.booleans()), infmono=draw(st.booleans()),
                same=draw(st.one_of(st.none(), st.integers(0, 7))))


def run_value(case):
    xs, n, dflt, x, kind = case["xs"], case["n"], case["default"], case["x"], case["kind"]
    allx = xs + [1000 + i for i in range(len(xs), 60)] if kind == "inf" else xs
    made = []

    def inp():
        made.append(xs if kind == "list" else Inf(xs) if kind == "inf" else Source(xs))
        return made[-1]

    def took(limit, what):
        if kind != "list":
            require(made[-1].taken <= limit, what, "took", made[-1].taken, "items, allowed", limit)
    kws = {} if dflt is None else dict(default=dflt)
    for name, f, k in (("first", lambda: u.first(inp(), **kws), 0), ("second", lambda: u.second(inp(), **kws), 1),
                       ("nth", lambda: u.nth(n, inp(), **kws), n)):
        got = f()
        want = allx[k] if k < len(allx) else dflt
        require(type(got) is type(want) and got == want, name, "got", got, "expected", want)
        took(k + 1, name)
    refuses(ValueError, lambda: u.nth(-1, xs))
    refuses(TypeError, lambda: u.nth(1.5, xs))
    if kind != "inf":
        got, want = u.last(inp(), **kws), xs[-1] if xs else dflt
        require(type(got) is type(want) and got == want, "last got", got, "expected", want)
    pos = next((i for i, y in enumerate(allx) if y == x), None)
    if pos is not None:
        eq(u.iindex(x, inp()), pos, "iindex")
        took(pos + 1, "iindex")
    elif kind != "inf":
        refuses(ValueError, lambda: u.iindex(x, inp()))
    pred = lambda y: isinstance(y, str)
    pos = next((i for i, y in enumerate(allx) if pred(y)), None)
    if pos is not None or kind != "inf":
        eq(u.find(pred, inp(), **kws), allx[pos] if pos is not None else dflt, "find")
        if pos is not None:
            took(pos + 1, "find")
    # allsame
    same = [x] * len(xs) if case["same"] is not None else list(xs)
    if case["same"] is not None and case["same"] < len(same):
        same[case["same"]] = "other"
    eq(u.allsame(same), all(y == same[0] for y in same), "allsame")
    s = Inf(same)
    if len(same) > 1 and any(y != same[0] for y in same):
        eq(u.allsame(s), False, "allsame short-circuits")
        require(s.taken <= next(i for i, y in enumerate(same) if y != same[0]) + 1, "allsame reads on after the answer is known")
    eq(u.subset(case["other"], xs), all(y in xs for y in case["other"]), "subset")
    # inn: monotonic sequences, possibly endless, growing or falling, starting with equal items
    seq = [case["start"]]
    for step in case["mono"]:
        seq.append(seq[-1] + case["sign"] * step)
    probe = case["probe"]
    if case["infmono"]:
        class Endless(Source):
            def __next__(self):
                self.taken += 1
                i = self.taken - 1
                return self.items[i] if i < len(self.items) else self.items[-1] + case["sign"] * 2 * (i - len(self.items) + 1)
        tail = [seq[-1] + case["sign"] * 2 * (i + 1) for i in range(60)]
        s = Endless(seq)
        eq(u.inn(probe, s), probe in seq + tail, "inn on an endless monotonic sequence")
        full = seq + tail
        passed = next((i for i, y in enumerate(full) if (y - probe) * case["sign"] > 0), None)
        decided = max(passed, next(i for i, y in enumerate(full) if y != full[0]))
        require(s.taken <= decided + 2, "inn took", s.taken, "items, decided after", decided + 1)
    else:
        data = [(y, "t") for y in seq] if case["strings"] else seq
        eq(u.inn((probe, "t") if case["strings"] else probe, iter(data)), probe in seq, "inn")


SUITES = [
    Suite("streams", stream_cases(), run_stream, quick=16000, shards=4, nontrivial=lambda c: len(c["xs"]) > 1 and c["demand"] > 0,
          labels=lambda c: [c["op"]]),
    Suite("long", long_cases(), run_long, quick=600, shards=2, nontrivial=lambda c: c["demand"] > 0, labels=lambda c: [c["op"]]),
    Suite("values", value_cases(), run_value, quick=5000, shards=2, nontrivial=lambda c: len(c["xs"]) > 1),
]
