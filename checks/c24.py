"""C24: numeric helpers."""
import math
import sys
from decimal import Decimal
from fractions import Fraction

import hypothesis.strategies as st

from vp.core import Suite, require, eq
from unpythonic import almosteq, ulp, fixpoint, partition_int, partition_int_triangular, partition_int_custom

try:
    from mpmath import mpf, almosteq as mp_almosteq
except ImportError:
    mpf = None

RULE = ("cases are pairs of floats drawn from the whole range (subnormals, powers of two and their neighbours, huge, infinities, nan; pairs at chosen relative distances, zero and equal), with "
        "tolerances; other types; integers with bounds and component sets, valid and invalid; contractions on floats. Non-trivial: unequal finite floats / a partition with at least "
        "two terms / at least two iterations")
TECHNIQUE = "property-based testing against exact rational arithmetic, brute-force enumeration and the defining equations"
ASSUMPTIONS = ["distinct components are given to the integer partition", "the function given to fixpoint is a contraction on the values it meets",
               "pairs within rounding error of the tolerance may be judged either way", "integers compared with integers are treated like floats by almosteq (left unspecified: within tolerance or exact)"]

MAXF, MIN = sys.float_info.max, sys.float_info.min

powers = st.builds(lambda e, k, s: s * math.ldexp(1.0 + k * 2.0**-52, e), st.integers(-1074, 1023), st.integers(-3, 3), st.sampled_from([1, -1])).map(lambda x: x)
special = st.sampled_from([0.0, -0.0, MIN, -MIN, 5e-324, -5e-324, MAXF, -MAXF, 1.0, -1.0, math.inf, -math.inf, math.nextafter(MIN, 0), math.nextafter(1.0, 0), 2.0**53])
floats = st.one_of(special, powers, st.floats(allow_nan=False), st.floats(min_value=-1e3, max_value=1e3), st.builds(lambda n: n * 5e-324, st.integers(-10**6, 10**6)))
tols = st.sampled_from([1e-8, 1e-8, 1e-15, 1e-3, 0.1, 0.5, 1e-300, 0.0])


@st.composite
def pairs(draw):
    a = draw(floats)
    how = draw(st.sampled_from(["any", "rel", "rel", "rel", "ulps", "same", "neg", "special"]))
    tol = draw(tols)
    if how == "any":
        b = draw(floats)
    elif how == "special":
        b = draw(special)
    elif how == "rel":
        # |a - b| / (|a| + |b|) about f*tol
        f = draw(st.sampled_from([0.25, 0.5, 0.9, 0.99, 1.01, 1.1, 1.5, 2.0, 4.0])) * tol
        b = a * (1 - f) / (1 + f) if draw(st.booleans()) else a * (1 + f) / (1 - f) if f < 1 else -a
    elif how == "ulps":
        b = a
        for _ in range(draw(st.integers(1, 4))):
            b = math.nextafter(b, math.inf)
    elif how == "same":
        b = a
    else:
        b = -a
    return a, b, tol, draw(st.booleans())


def run_almosteq(case):
    a, b, tol, default = case
    if default:
        tol = 1e-8
        got, back = almosteq(a, b), almosteq(b, a)
    else:
        got, back = almosteq(a, b, tol), almosteq(b, a, tol)
    require(isinstance(got, bool), "not a truth value", got)
    require(got is back, "almosteq is not symmetric", (a, b, tol))
    require(almosteq(a, a, tol) is True, "almosteq is not reflexive", a)
    if not default:
        eq(almosteq(a, b, tol=tol), got, "tol by name")
    if a == b:
        require(got, "equal floats are not almost equal", (a, b))
        return
    if math.isinf(a) or math.isinf(b):
        require(not got, "an infinity is almost equal to something else", (a, b))
        return
    fa, fb, ft = Fraction(a), Fraction(b), Fraction(tol)
    d = abs(fa - fb)
    if a == 0 or b == 0 or d < Fraction(MIN):
        # relative error is meaningless: absolute, far below the smallest normal number
        bound = ft * Fraction(MIN)
    else:
        bound = ft * min(abs(fa) + abs(fb), Fraction(MAXF))
    eps = Fraction(1, 2**50)
    lo, hi = bound * (1 - eps) - Fraction(1, 2**1073), bound * (1 + eps) + Fraction(1, 2**1073)
    if d < lo:
        require(got, "floats within the tolerance are not almost equal", (a, b, tol))
    elif d > hi:
        require(not got, "floats further apart than the tolerance are almost equal", (a, b, tol))


class Thing:
    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return isinstance(other, Thing) and self.v == other.v

    __hash__ = None


other = st.one_of(st.text(max_size=2), st.tuples(st.floats(0.9999999999, 1.0000000001)), st.lists(st.floats(0.9999999999, 1.0000000001), max_size=2), st.none(),
                  st.fractions(Fraction(1), Fraction(1) + Fraction(1, 10**9), max_denominator=10**12), st.sampled_from([Decimal(1), Decimal(1) + Decimal(10)**-12, Decimal("1.0")]),
                  st.sampled_from([1 + 1e-12j, 1 + 0j, complex(1 + 1e-12)]), st.integers(0, 2).map(Thing), st.sampled_from([{1.0: 1.0}, {1.0: 1.0000000001}, b"x", 1.0, 1, True]))


def run_other(case):
    a, b, tol = case
    got = almosteq(a, b, tol)
    require(bool(got) == bool(almosteq(b, a, tol)), "almosteq is not symmetric", (a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return
    require(bool(got) == (a == b), "values that are not floats must be compared exactly", (a, b))


mpfs = st.one_of(st.floats(-1e6, 1e6), st.sampled_from([0.0, 1.0, 1 + 1e-9, 1 + 1e-7, 1 - 1e-9, 2.0])).map(lambda x: mpf(x) if mpf else x)


def run_mpf(case):
    a, b, tol, mode = case
    if mpf is None:
        return
    if mode == 0:
        eq(bool(almosteq(a, b, tol)), bool(a == b or mp_almosteq(a, b, tol)), "mpf values must be compared as mpmath does")
    elif mode == 1:
        eq(almosteq(a, float(b), tol), almosteq(float(a), float(b), tol), "mpf and float must be compared as floats")
    else:
        eq(almosteq(float(a), b, tol), almosteq(float(a), float(b), tol), "float and mpf must be compared as floats")


# ---------------------------------------------------------------- ulp

def run_ulp(case):
    x = case
    if math.isinf(x):
        return
    want = math.ulp(x)
    got = ulp(x)
    require(type(got) is float and got == want, f"ulp({x!r})", (got, want))
    if abs(x) < MAXF:
        require(math.nextafter(abs(x), math.inf) - abs(x) == got, "ulp is not the distance to the next float")


# ---------------------------------------------------------------- fixpoint

fps = st.tuples(st.floats(-0.9, 0.9), st.floats(-10, 10), st.floats(-100, 100), st.sampled_from([0, 0, 1e-3, 1e-8, 0.5]), st.sampled_from(["lin", "lin", "cos", "sqrt", "const", "int", "half"]))


def run_fixpoint(case):
    a, b, x0, tol, kind = case
    a, b, x0 = round(a, 3), round(b, 3), round(x0, 3)
    calls = []
    if kind == "lin":
        f0 = lambda x: a * x + b
        if tol == 0:
            tol = 1e-9      # roundoff may make a limit cycle
    elif kind == "cos":
        f0 = math.cos
        tol = tol or 1e-12
    elif kind == "sqrt":
        n = abs(b) + 1
        f0 = lambda x: (x + n / x) / 2
        x0 = abs(x0) + 1
        tol = tol or 1e-9
    elif kind == "const":
        f0 = lambda x: b
    elif kind == "int":
        x0 = int(x0)
        f0 = lambda x: x // 2 if x >= 0 else -((-x) // 2)
        tol = int(tol)
    else:
        f0 = lambda x: x / 2 if abs(x) > 1e-3 else 0.0

    def f(x):
        calls.append(x)
        require(len(calls) < 5000, "no end", case)
        return f0(x)
    r = fixpoint(f, x0, tol)
    require(abs(f0(r) - r) <= tol, "the result is not a fixed point within the tolerance", (r, f0(r), tol))
    if tol == 0:
        eq(f0(r), r, "not a fixed point")
        x = x0
        while f0(x) != x:
            x = f0(x)
        eq(r, x, "another fixed point than the one the iteration converges to")
        eq(fixpoint(f0, x0), r, "default tolerance")
    require(calls[0] == x0, "the search does not begin at the initial guess")
    for u, v in zip(calls, calls[1:]):
        require(v == f0(u), "the search does not iterate the function")
    # stops as soon as the tolerance is met
    require(all(abs(f0(u) - u) > tol for u in calls[:-2]), "the search went on after the tolerance was met", (calls[-4:], tol))


# ---------------------------------------------------------------- partitions

def brute(n, comps):
    """All ordered sequences of components with sum n."""
    table = [[] for _ in range(n + 1)]
    table[0] = [()]
    for total in range(1, n + 1):
        for c in comps:
            if c <= total:
                table[total].extend((c,) + rest for rest in table[total - c])
    return table[n]


ints = st.integers(-1, 12)
bad = st.sampled_from([1.0, "3", None, 2.5, (1,)])
plain = st.tuples(st.sampled_from(["plain", "tri"]), st.one_of(st.integers(1, 12), ints), st.one_of(st.just("default"), st.integers(1, 4), ints), st.one_of(st.just("default"), st.none(), st.integers(3, 12), ints),
                  st.booleans())
custom = st.tuples(st.just("custom"), st.one_of(st.integers(1, 13), ints), st.lists(st.integers(1, 9), unique=True, max_size=5), st.sampled_from(["list", "tuple", "set", "gen", "iter", "range"]), st.booleans())
customout = st.tuples(st.just("custom"), st.integers(1, 9), st.lists(st.integers(-1, 12), unique=True, max_size=4), st.sampled_from(["list", "gen"]), st.booleans())
large = st.tuples(st.sampled_from(["plain", "tri"]), st.integers(20, 70), st.integers(9, 30), st.one_of(st.just("default"), st.integers(10, 70)), st.booleans())
badtype = st.tuples(st.sampled_from(["badplain", "badtri", "badcustom"]), st.integers(0, 2), bad)
TRI = [k * (k + 1) // 2 for k in range(1, 60)]


def compare(gen, want, what):
    got = list(gen)
    require(all(type(t) is tuple for t in got), "not tuples", got)
    require(all(type(x) is int for t in got for x in t), "not integers", got)
    require(len(set(got)) == len(got), f"{what} yields a partition twice", sorted(got))
    require(set(got) == set(want), f"{what} does not yield exactly the partitions", (sorted(set(want) - set(got))[:5], sorted(set(got) - set(want))[:5]))


def run_partition(case):
    kind = case[0]
    if kind.startswith("bad"):
        _, pos, v = case
        if kind == "badcustom":
            f, args = partition_int_custom, [5, [1, 2]]
            if pos == 0:
                args[0] = v
            else:
                args[1] = [1, v] if pos == 1 else [v]
        else:
            if pos == 2 and v is None:
                return
            f = partition_int if kind == "badplain" else partition_int_triangular
            args = [5, 1, 3]
            args[pos] = v
        try:
            f(*args)
        except TypeError:
            return
        raise AssertionError(f"arguments of wrong type were accepted: {f.__name__}{tuple(args)}")
    n = case[1]
    if kind == "custom":
        _, n, comps, how, rejected = case
        comps = sorted(comps) if how in ("range",) else list(comps)
        if how == "range" and comps:
            comps = list(range(comps[0], comps[-1] + 1))[:6]
        arg = {"list": list, "tuple": tuple, "set": set, "gen": lambda c: (x for x in c), "iter": iter, "range": lambda c: range(c[0], c[-1] + 1) if c else range(0)}[how](comps)
        before = list(comps)
        valid = n >= 1 and all(1 <= c <= n for c in comps)
        try:
            g = partition_int_custom(n, arg)
        except ValueError:
            require(not valid, "valid arguments were rejected", case)
            return
        require(valid, "invalid arguments were accepted", case)
        compare(g, brute(n, comps), "partition_int_custom")
        if how == "list":
            eq(arg, before, "the input was changed")
        return
    f = partition_int if kind == "plain" else partition_int_triangular
    kw = {}
    if case[2] != "default":
        kw["lower"] = case[2]
    if case[3] != "default":
        kw["upper"] = case[3]
    lower = kw.get("lower", 1)
    upper = kw["upper"] if kw.get("upper") is not None else n
    valid = n >= 1 and 1 <= lower <= upper <= n
    try:
        if case[4] and len(kw) == 2:
            g = f(n, kw["lower"], kw["upper"])
        else:
            g = f(n, **kw)
    except ValueError:
        require(not valid, "valid arguments were rejected", case)
        return
    require(valid, "invalid arguments were accepted", case)
    comps = [c for c in (range(1, n + 1) if kind == "plain" else TRI) if lower <= c <= upper]
    compare(g, brute(n, comps), f.__name__)


def nontrivial_partition(case):
    return not case[0].startswith("bad") and case[1] > 3


SUITES = [Suite("almosteq", pairs(), run_almosteq, quick=20000, nontrivial=lambda c: c[0] != c[1] and not math.isinf(c[0]) and not math.isinf(c[1]), labels=lambda c: [str(c[2])]),
          Suite("exact", st.tuples(other, other, tols), run_other, quick=4000, nontrivial=lambda c: type(c[0]) is type(c[1]), labels=lambda c: [type(c[0]).__name__]),
          Suite("mpf", st.tuples(mpfs, mpfs, tols, st.integers(0, 2)), run_mpf, quick=2000, nontrivial=lambda c: c[0] != c[1], labels=lambda c: [c[3]]),
          Suite("ulp", floats, run_ulp, quick=12000, nontrivial=lambda c: c != 0, labels=lambda c: ["subnormal" if abs(c) < MIN else "normal"]),
          Suite("fixpoint", fps, run_fixpoint, quick=3000, nontrivial=lambda c: c[4] != "const", labels=lambda c: [c[4]]),
          Suite("partition", st.one_of(plain, plain, custom, custom, customout, large, badtype), run_partition, quick=6000, nontrivial=nontrivial_partition, labels=lambda c: [c[0]])]
