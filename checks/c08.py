"""C08: mathematical sequences."""
import math
import operator
from fractions import Fraction
from itertools import islice

import hypothesis.strategies as st

from vp.core import Suite, require, eq, short, Violation
from checks.c05 import Source
import mpmath
import sympy
import unpythonic as u
from unpythonic import s, imathify, gmathify, imemoize, take, cauchyprod, diagonal_reduce, fibonacci, triangular, primes

RULE = ("cases are sequence specifications (constant, cyclic, arithmetic, geometric, power, explicit; int, float, mpf, symbolic; with or without final "
        "element; perturbed to match nothing), termwise operations between sequences, iterables and scalars, and Cauchy products of finite/infinite inputs; "
        "non-trivial: at least two distinct terms")
TECHNIQUE = "property-based testing against exact rational arithmetic and list-level definitions"
ASSUMPTIONS = ["detection of a formula uses the library's documented almost-equality (relative 1e-8): specifications within that of a formula are not generated as non-matching",
               "float terms are required to be within a few ulp of the exact value of the closed form for the detected parameters"]


def first(n, it):
    return list(islice(iter(it), n))


def conv(x, fmt):
    if fmt == "int":
        require(Fraction(x).denominator == 1, "harness")
        return int(x)
    if fmt == "float":
        return float(x)
    if fmt == "mpf":
        return mpmath.mpf(Fraction(x).numerator) / mpmath.mpf(Fraction(x).denominator)
    return x


def close(got, want, rel):
    if isinstance(got, complex):
        return False
    g = Fraction(str(got)) if isinstance(got, mpmath.mpf) else Fraction(got)
    w = Fraction(want)
    return abs(g - w) <= rel * max(abs(w), Fraction(1, 10**12))


smallfrac = st.builds(Fraction, st.integers(-12, 12), st.sampled_from([1, 1, 2, 4, 8]))


@st.composite
def spec_cases(draw):
    kind = draw(st.sampled_from(["const", "arith", "arith", "geom", "geom", "power", "cyclic", "explicit"]))
    fmt = draw(st.sampled_from(["int", "float", "float", "mpf"]))
    nterms = draw(st.integers({"const": 1, "arith": 2, "geom": 3, "power": 3}.get(kind, 0), 5 if kind != "power" else 3))
    c = dict(kind=kind, fmt=fmt, nterms=nterms)
    num = st.integers(-12, 12).map(Fraction) if fmt == "int" else smallfrac
    if kind in ("cyclic", "explicit"):
        c["initial"] = draw(st.lists(st.integers(-3, 9), min_size=1 if kind == "explicit" else 0, max_size=4))
        c["repeat"] = draw(st.lists(st.integers(-3, 9), min_size=1, max_size=4))
        return c
    nz = num.filter(lambda x: x != 0)
    if kind == "const":
        c["a0"] = str(draw(num))
    elif kind == "arith":
        c["a0"], c["k"] = str(draw(num)), str(draw(nz))
    elif kind == "geom":
        if fmt == "int":
            c["a0"], c["k"] = str(draw(nz)), str(draw(st.sampled_from([-10, -5, -3, -2, -1, 2, 3, 5, 7, 10])))
        else:
            c["a0"] = str(draw(nz))
            c["k"] = str(draw(st.sampled_from([Fraction(x) for x in ("1/2", "-1/2", "1/4", "2", "-2", "3", "3/2", "-3/2", "1/8", "-1", "10", "-10", "1/3", "3/4")])))
    else:
        c["a0"] = str(draw(st.sampled_from([2, 3, 5, 10, -2, -3, -10] if fmt == "int" else [2, 3, Fraction(1, 2), Fraction(3, 2), -2, Fraction(5, 2)])))
        c["k"] = str(draw(st.sampled_from([2, 3])))
    c["final"] = draw(st.one_of(st.none(), st.integers(nterms - 1, nterms + (4 if kind != "power" else 1))))
    c["defect"] = draw(st.sampled_from(["none", "none", "none", "final", "term"]))
    c["delta"] = str(draw(st.sampled_from([Fraction(x) for x in (1, -1, 2, -3, 5)])))
    c["which"] = draw(st.integers(0, 4))
    return c


def term(c, j):
    a0, k = Fraction(c["a0"]), Fraction(c["k"]) if "k" in c else None
    if c["kind"] == "const":
        return a0
    if c["kind"] == "arith":
        return a0 + j * k
    if c["kind"] == "geom":
        return a0 * k**j
    return a0 ** (int(k)**j)


def matches_something(xs):
    """Is the list of exact numbers close to some formula? (3 or more terms)"""
    def near(a, b):
        return abs(a - b) <= 1e-3 * max(abs(a), abs(b))
    ds = [b - a for a, b in zip(xs, xs[1:])]
    if all(near(d, ds[0]) for d in ds):
        return True
    if all(x != 0 for x in xs):
        rs = [b / a for a, b in zip(xs, xs[1:])]
        if all(near(r, rs[0]) for r in rs):
            return True
        if all(abs(x) != 1 for x in xs):
            ps = [math.log(abs(b)) / math.log(abs(a)) for a, b in zip(xs, xs[1:])]
            if all(near(p, ps[0]) for p in ps):
                return True
    return False


def run_spec(c):
    kind, n = c["kind"], c["nterms"]
    if kind == "explicit":
        r = s(*c["initial"])
        require(isinstance(r, imathify), "s must return a sequence with math support")
        eq(first(20, r), c["initial"], "explicit enumeration")
        return
    if kind == "cyclic":
        want = list(c["initial"])
        while len(want) < 25:
            want += c["repeat"]
        eq(first(25, s(*c["initial"], list(c["repeat"]), ...)), want[:25], "cyclic")
        refuses(lambda: s(*c["initial"], list(c["repeat"])))
        refuses(lambda: s(*c["initial"], [], ...))
        return
    exact = [term(c, j) for j in range(n)]
    given = [conv(x, c["fmt"]) for x in exact]
    defect, delta = c["defect"], Fraction(c["delta"])
    if defect == "term":
        if n < 3:
            return
        i = c["which"] % n
        exact[i] += delta
        given[i] = conv(exact[i], c["fmt"])
        if matches_something([Fraction(x) if not isinstance(x, mpmath.mpf) else Fraction(str(x)) for x in given]):
            return
        refuses(lambda: s(*given, ...))
        return
    final = c["final"]
    if final is not None:
        if kind == "const" or (kind == "geom" and abs(Fraction(c["k"])) == 1):
            refuses(lambda: s(*given, ..., given[0]))
            return
        if final == 0:
            final = 1
        f = term(c, final)
        if defect == "final":
            f2 = f + delta
            inside = any(abs(term(c, j) - f2) <= Fraction(1, 1000) * max(abs(f2), 1) for j in range(0, 400 if kind == "arith" else 12 if kind == "geom" else 6))
            if inside:
                return
            refuses(lambda: s(*given, ..., conv(f2, c["fmt"])))
            # right size, wrong sign (geometric and power sequences look at logarithms)
            if kind != "arith" and not any(term(c, j) == -f for j in range(12 if kind == "geom" else 5)):
                refuses(lambda: s(*given, ..., conv(-f, c["fmt"])))
            return
        r = s(*given, ..., conv(f, c["fmt"]))
        got = first(final + 4, r)
        eq(len(got), final + 1, f"number of terms of {given} ... {f}")
    else:
        r = s(*given, ...)
        got = first(12 if kind != "power" else 5, r)
        eq(len(got), 12 if kind != "power" else 5, "an infinite sequence")
    require(isinstance(r, imathify), "s must return a sequence with math support")
    tol = Fraction(1, 10**12) if kind in ("const", "arith") else Fraction(1, 10**8)
    for j, g in enumerate(got):
        w = term(c, j)
        if c["fmt"] == "int" and (kind != "geom" or abs(Fraction(c["k"])) >= 1):
            require(g == w, f"term {j} of s({given}, ...): got {g!r}, expected {w}")
            if kind in ("const", "arith", "geom"):
                require(isinstance(g, int), "integers must stay integers", g)
        else:
            require(close(g, w, tol), f"term {j} of s({given}, ...): got {g!r}, expected {w}")


def refuses(thunk):
    try:
        r = thunk()
    except SyntaxError:
        return
    except Exception as e:
        raise Violation(f"expected SyntaxError, got {e!r}")
    raise Violation(f"expected SyntaxError, got a sequence starting {first(5, r)}")


# ---------------------------------------------------------------- roundoff over long sequences

@st.composite
def long_cases(draw):
    return dict(kind=draw(st.sampled_from(["arith", "arith", "geom"])), a0=draw(st.floats(-1e3, 1e3, allow_nan=False).filter(lambda x: x == 0 or abs(x) > 1e-3)),
                k=draw(st.one_of(st.floats(1e-3, 10), st.sampled_from([0.1, 0.3, 1e-3, 0.7]))), n=draw(st.integers(100, 4000)), final=draw(st.booleans()),
                sgn=draw(st.sampled_from([1, -1])))


def run_long(c):
    n = c["n"]
    if c["kind"] == "arith":
        a0, a1 = c["a0"], c["a0"] + c["sgn"] * c["k"]
        if a1 == a0:
            return
        k = a1 - a0
        fin = a0 + n * k
        r = s(a0, a1, ..., fin) if c["final"] else s(a0, a1, ...)
        got = first(n + 1 + (5 if c["final"] else 0), r)
        eq(len(got), n + 1, "number of terms")
        for j in (0, 1, n // 3, n // 2, n - 1, n):
            w = Fraction(a0) + j * Fraction(k)
            bound = 4 * Fraction(2)**-53 * (abs(Fraction(a0)) + abs(j * Fraction(k)))
            require(abs(Fraction(got[j]) - w) <= bound, f"roundoff accumulated: term {j} of s({a0!r}, {a1!r}, ...) is {got[j]!r}, error {float(abs(Fraction(got[j]) - w))}, bound {float(bound)}")
    else:
        k = 1 + c["sgn"] * (c["k"] / 1000)
        if k == 1 or c["a0"] == 0:
            return
        a0 = c["a0"]
        a1, a2 = a0 * k, a0 * k * k
        try:
            r = s(a0, a1, a2, ...)
        except SyntaxError:
            return  # roundoff may prevent detection
        n = min(n, 500)
        got = first(n + 1, r)
        # compare with the closed form for the average ratio, exactly
        kk = (a1 / a0 + a2 / a1) / 2
        if abs((a1 - a0) - (a2 - a1)) <= 1e-7 * abs(a1 - a0):
            return  # within tolerance of an arithmetic sequence
        for j in (0, 1, n // 2, n):
            w = Fraction(a0) * Fraction(kk)**j
            require(abs(Fraction(got[j]) - w) <= (4 * j + 8) * Fraction(2)**-53 * abs(w), f"term {j} of geometric sequence {a0!r} ratio {kk!r}: {got[j]!r} vs {float(w)!r}")


# ---------------------------------------------------------------- symbolic

x0s, ks = sympy.symbols("x0, k", positive=True)


@st.composite
def sym_cases(draw):
    return dict(kind=draw(st.sampled_from(["const", "arith", "geom", "ageom", "power"])), nterms=draw(st.integers(3, 4)), final=draw(st.one_of(st.none(), st.integers(4, 7))))


def run_sym(c):
    t = {"const": lambda j: x0s, "arith": lambda j: x0s + j * ks, "geom": lambda j: x0s * ks**j, "ageom": lambda j: x0s * (-ks)**j,
         "power": lambda j: x0s**(ks**j)}[c["kind"]]
    given = [t(j) for j in range(c["nterms"])]
    if c["final"] and c["kind"] != "const":
        r = first(20, s(*given, ..., t(c["final"])))
        eq(len(r), c["final"] + 1, "number of symbolic terms")
        if c["kind"] in ("arith", "geom", "ageom"):
            refuses(lambda: s(*given, ..., t(c["final"]) + 1))
    else:
        r = first(8, s(*given, ...))
        eq(len(r), 8, "infinite")
    for j, g in enumerate(r):
        require(sympy.simplify(g - t(j)) == 0, f"symbolic term {j}: {g} vs {t(j)}")


# ---------------------------------------------------------------- termwise operations

BIN = dict(add=(u.sadd, operator.add), sub=(u.ssub, operator.sub), mul=(u.smul, operator.mul), pow=(u.spow, operator.pow),
           truediv=(u.struediv, operator.truediv), floordiv=(u.sfloordiv, operator.floordiv), mod=(u.smod, operator.mod), divmod=(u.sdivmod, divmod),
           lshift=(u.slshift, operator.lshift), rshift=(u.srshift, operator.rshift), and_=(u.sand, operator.and_), xor=(u.sxor, operator.xor),
           or_=(u.sor, operator.or_), lt=(None, operator.lt), le=(None, operator.le), eq=(None, operator.eq), ne=(None, operator.ne),
           ge=(None, operator.ge), gt=(None, operator.gt))
UN = dict(abs=(u.sabs, abs), pos=(u.spos, operator.pos), neg=(u.sneg, operator.neg), invert=(u.sinvert, operator.invert), round=(u.sround, round),
          trunc=(u.strunc, math.trunc), floor=(u.sfloor, math.floor), ceil=(u.sceil, math.ceil))

operand = st.one_of(st.tuples(st.just("list"), st.lists(st.integers(1, 9), max_size=6)),
                    st.tuples(st.just("gen"), st.lists(st.integers(1, 9), max_size=6)),
                    st.tuples(st.just("seq"), st.integers(1, 5), st.integers(1, 3)),
                    st.tuples(st.just("scalar"), st.integers(1, 9)),
                    st.tuples(st.just("nested"), st.lists(st.lists(st.integers(1, 9), max_size=3), max_size=4)))


@st.composite
def op_cases(draw):
    return dict(op=draw(st.sampled_from(sorted(BIN))), a=draw(operand), b=draw(operand), un=draw(st.sampled_from(sorted(UN))),
                fl=draw(st.lists(st.one_of(st.integers(-9, 9), st.floats(-20, 20)), max_size=5)), nd=draw(st.integers(0, 2)), demand=draw(st.integers(0, 8)),
                mod=draw(st.integers(2, 7)))


def mk(o, math=True):
    k = o[0]
    if k == "scalar":
        return o[1]
    if k == "seq":
        return s(o[1], o[1] + o[2], ...)
    if k == "gen":
        return imathify(x for x in o[1]) if math else (x for x in o[1])
    return imathify(o[1]) if math else o[1]


def items(o):
    if o[0] == "seq":
        return [o[1] + j * o[2] for j in range(20)]
    return o[1]


def termwise(f, a, b):
    ia, ib = isinstance(a, list), isinstance(b, list)
    if ia and ib:
        return [termwise(f, x, y) for x, y in zip(a, b)]
    if ia:
        return [termwise(f, x, b) for x in a]
    if ib:
        return [termwise(f, a, y) for y in b]
    return f(a, b)


def deep(x, n):
    return [deep(y, n) for y in first(n, x)] if hasattr(x, "__iter__") and not isinstance(x, tuple) else x


def run_op(c):
    a, b = c["a"], c["b"]
    fun, op = BIN[c["op"]]
    want = termwise(op, items(a), items(b))
    if isinstance(want, list):
        want = want[:12]
    for infix in (True, False):
        if infix:
            if a[0] == "scalar" and b[0] == "scalar":
                continue
            got = op(mk(a), mk(b))
        else:
            if fun is None:
                continue
            got = fun(mk(a, False), mk(b, False))
        if isinstance(want, list):
            require(isinstance(got, imathify), "the result of termwise", c["op"], "must support math")
            g = deep(got, 12)
            eq(g, want, f"{c['op']} termwise{' infix' if infix else ''}")
            eq([type(x) for x in g], [type(x) for x in want], "types")
        else:
            eq(got, want, c["op"])
    # one-sided infix: only one of the operands is m'd, also on the right
    if a[0] != "scalar" and b[0] != "scalar" and not (a[0] == b[0] == "nested"):
        if c["op"] not in ("lt", "le", "eq", "ne", "ge", "gt"):
            eq(deep(op(first(12, mk(a)), mk(b)), 12), want, f"{c['op']}: plain list on the left")
            eq(deep(op(mk(a), first(12, mk(b))), 12), want, f"{c['op']}: plain list on the right")
    # laziness and consumption
    if a[0] in ("list", "gen") and isinstance(want, list):
        src = Source(items(a))
        calls = []

        class Num:
            def __init__(self, v):
                self.v = v

            def __radd__(self, other):
                calls.append(other)
                return (other, self.v)
        got = u.sadd(src, Num(5))
        require(src.taken == 0 and not calls, "termwise operation did something before being iterated")
        d = min(c["demand"], len(items(a)))
        eq(first(d, got), [(x, 5) for x in items(a)[:d]], "termwise with an arbitrary number-like scalar")
        require(src.taken <= d and len(calls) == d, "termwise operation is not lazy", src.taken, len(calls))
    # unary
    fun, op = UN[c["un"]]
    xs = [x for x in c["fl"] if not (c["un"] == "invert" and isinstance(x, float))]
    eq(first(20, fun(xs)), [op(x) for x in xs], f"s{c['un']}")
    eq(first(20, op(imathify(xs))), [op(x) for x in xs], f"{c['un']}() of a sequence")
    eq(first(20, u.sround(xs, c["nd"])), [round(x, c["nd"]) for x in xs], "sround with digits")
    eq(first(20, round(imathify(xs), c["nd"])), [round(x, c["nd"]) for x in xs], "round() with digits")
    if a[0] in ("list", "seq"):
        eq(first(8, u.spow(mk(a), 3, c["mod"])), [pow(x, 3, c["mod"]) for x in items(a)[:8]], "spow with modulus")
        eq(first(8, pow(mk(a), 3, c["mod"])), [pow(x, 3, c["mod"]) for x in items(a)[:8]], "pow with modulus")
        again = gmathify(imemoize(mk(a)))
        eq(first(8, again() + again()), [x + x for x in items(a)[:8]], "gmathify of a memoized sequence")
        eq(first(8, again() * 2), [x * 2 for x in items(a)[:8]], "gmathify, second use")


# ---------------------------------------------------------------- products, ready-made sequences

@st.composite
def prod_cases(draw):
    one = st.one_of(st.tuples(st.just("list"), st.lists(st.integers(-5, 9), max_size=6)), st.tuples(st.just("gen"), st.lists(st.integers(-5, 9), max_size=6)),
                    st.tuples(st.just("seq"), st.integers(1, 5), st.integers(1, 3)))
    return dict(a=draw(one), b=draw(one), require=draw(st.sampled_from(["any", "all"])), n=draw(st.integers(1, 10)), p=draw(st.integers(0, 800)))


def isprime(n):
    return n > 1 and all(n % d for d in range(2, int(n**0.5) + 1))


def run_prod(c):
    a, b, n = items(c["a"])[:20], items(c["b"])[:20], c["n"]
    infa, infb = c["a"][0] == "seq", c["b"][0] == "seq"
    want, pairs = [], []
    for k in range(n):
        idx = [(i, k - i) for i in range(k + 1) if i < len(a) and k - i < len(b)]
        if c["require"] == "all" and ((not infa and k >= len(a)) or (not infb and k >= len(b))):
            break
        if not idx:
            break
        want.append(sum(a[i] * b[j] for i, j in idx))
        pairs.append([(a[i], b[j]) for i, j in idx])
    sa, sb = mk(c["a"], False), mk(c["b"], False)
    got = cauchyprod(sa, sb, require=c["require"])
    require(isinstance(got, imathify), "cauchyprod must support math")
    eq(first(n, got), want, "Cauchy product")
    got = diagonal_reduce(mk(c["a"], False), mk(c["b"], False), combine=lambda x, y: list(zip(x, y)), reduce=lambda z: list(z), require=c["require"])
    eq(first(n, got), pairs, "diagonal_reduce: combinations, in order")
    if c["require"] == "any":
        eq(first(n, cauchyprod(mk(c["a"], False), mk(c["b"], False))), want, "default of require")
    # each input item is computed once, and not ahead of need
    if not infa:
        src = Source(a)
        it = iter(cauchyprod(src, mk(c["b"], False), require=c["require"]))
        require(src.taken == 0, "cauchyprod is lazy")
        for k in range(len(want)):
            next(it)
            require(src.taken <= k + 1, "cauchyprod read ahead")
    for bad in (lambda: cauchyprod(a, 5), lambda: cauchyprod(3, b), lambda: diagonal_reduce(1, 2, combine=u.smul, reduce=sum)):
        try:
            bad()
        except TypeError:
            pass
        else:
            raise Violation("non-iterable input accepted")
    try:
        cauchyprod(a, b, require="some")
    except ValueError:
        pass
    else:
        raise Violation("invalid require accepted")
    fib = first(n + 10, fibonacci())
    require(fib[:2] == [1, 1] and all(fib[i] + fib[i + 1] == fib[i + 2] for i in range(n + 8)), "Fibonacci", fib)
    tri = first(n + 10, triangular())
    eq(tri, [(i + 1) * (i + 2) // 2 for i in range(n + 10)], "triangular numbers")
    for opt in ("speed", "memory"):
        ps = first(c["p"] % 60 + 5, primes(optimize=opt))
        eq(ps, [q for q in range(2, ps[-1] + 1) if isprime(q)], "primes " + opt)
    p = first(c["p"] + 1, primes())[-1]
    require(isprime(p), "not a prime", p)


SUITES = [
    Suite("spec", spec_cases(), run_spec, quick=10000, shards=3, nontrivial=lambda c: c["kind"] not in ("const", "explicit"), labels=lambda c: [c["kind"], c["fmt"], c.get("defect", "none")]),
    Suite("roundoff", long_cases(), run_long, quick=500, shards=2),
    Suite("symbolic", sym_cases(), run_sym, quick=60),
    Suite("termwise", op_cases(), run_op, quick=5000, shards=2, nontrivial=lambda c: c["a"][0] != "scalar" or c["b"][0] != "scalar", labels=lambda c: [c["op"]]),
    Suite("products", prod_cases(), run_prod, quick=1500),
]
