"""C02: signature introspection agrees with Python's own call rules."""
import functools
import operator
from hypothesis import strategies as st

from vp.core import Suite, require, eq, Violation
from vp import gen
from checks.c01 import build, WRAPS
from unpythonic import (arities, arity_includes, required_kwargs, optional_kwargs, kwargs as kwargs_of,
                        resolve_bindings, resolve_bindings_partial, tuplify_bindings, getfunc, UnknownArity,
                        generic, augment)

RULE = ("cases are signatures (all five parameter kinds, defaults) made into functions, lambdas, methods of all kinds, and calls of them, "
        "valid or not; oracle: really calling the object. Non-trivial: at least one parameter")

HOWS = [h for h in WRAPS if h not in ("class", "callable")]


def accepts(f, a, k):
    try:
        f(*a, **k)
        return True
    except TypeError:
        return False


@st.composite
def sig_cases(draw):
    return dict(params=draw(gen.signatures()), how=draw(st.sampled_from(HOWS)))


def run_arity(case):
    params, how = case["params"], case["how"]
    log = []
    f = build(params, how, log)
    ko = {p[0]: 1 for p in params if p[1] == gen.KO}
    lo, hi = arities(f)
    for n in range(0, 12):
        want = accepts(f, [0] * n, ko)
        require((lo <= n <= hi) == want, f"arities {lo, hi}, but a call with {n} positional arguments is",
                "accepted" if want else "refused")
        require(arity_includes(f, n) is want or arity_includes(f, n) == want, "arity_includes", n)
    # keyword-only names: required ones cannot be left out, optional ones can
    pos = [0] * sum(1 for p in params if p[1] in (gen.PO, gen.PK))
    req, opt = required_kwargs(f), optional_kwargs(f)
    require(isinstance(req, set) and isinstance(opt, set), "sets expected", req, opt)
    eq(kwargs_of(f), (req, opt), "kwargs()")
    eq(req | opt, set(ko), "keyword-only names")
    require(not req & opt, "a name both required and optional")
    for n in ko:
        rest = {m: 1 for m in ko if m != n}
        eq(n in opt, accepts(f, pos, rest), f"{n} optional")
    # the raw function can be called with the receiver given explicitly
    raw, kind = getfunc(f)
    want = {"method": "instancemethod", "classmethod": "classmethod"}.get(how, "function")
    eq(kind, want, "kind")
    if kind == "function":
        require(raw is f, "getfunc must return a function as is")
    else:
        require(raw is f.__func__, "underlying function")


def run_descriptors(case):
    params = case["params"]
    f = gen.make_function(params)
    s, c = staticmethod(f), classmethod(f)
    eq(getfunc(s), (f, "staticmethod"), "staticmethod object")
    eq(getfunc(c), (f, "classmethod"), "classmethod object")
    eq(arities(s), arities(f), "arities of a staticmethod object")
    eq(required_kwargs(s), required_kwargs(f), "kwargs of a staticmethod object")
    C = type("C", (), {"m": f, "s": staticmethod(f), "c": classmethod(f)})
    eq(arities(C.m), arities(f), "unbound method")
    eq(arities(C.s), arities(f), "static method")
    eq(arities(C().s), arities(f), "static method through an instance")
    if any(p[1] in (gen.PO, gen.PK, gen.VA) for p in params):
        for m in (C().m, C.c, C().c):
            lo, hi = arities(m)
            ko = {p[0]: 1 for p in params if p[1] == gen.KO}
            for n in range(0, 8):
                eq(lo <= n <= hi, accepts(m, [0] * n, ko), f"method called with {n} arguments")


@st.composite
def binding_cases(draw):
    params = draw(gen.signatures())
    out = []
    for _ in range(2):
        a, k = draw(gen.calls(params))
        # make equal bindings likely: small values; sometimes disturb to make the call invalid
        a = [x % 2 for x in a]
        k = {n: v % 2 for n, v in k.items()}
        d = draw(st.integers(0, 8))
        if d == 0:
            a = a + [0, 0]
        elif d == 1 and a:
            a = a[:-1]
        elif d == 2:
            k["nosuch"] = 0
        elif d == 3 and k:
            k.pop(sorted(k)[0])
        elif d == 4 and a and params:
            k[params[0][0] if params[0][1] != gen.VA else "zz"] = 1
        out.append((a, k))
    if draw(st.integers(0, 2)) == 0:
        # the same call, passed differently
        b, missing, xa, xk, err = gen.model_bind(params, *out[0])
        if not (missing or xa or xk or err):
            a, k = [], {}
            by_name = False
            for n, kind, default in params:
                if kind == gen.PO:
                    a.append(b[n])
                elif kind == gen.PK:
                    by_name = by_name or (draw(st.booleans()) and not b.get("args"))
                    if by_name:
                        k[n] = b[n]
                    else:
                        a.append(b[n])
                elif kind == gen.VA:
                    a += b[n]
                elif kind == gen.KO:
                    k[n] = b[n]
                else:
                    k.update(b[n])
            if not (any(p[1] == gen.VA for p in params) and by_name and b["args"]):
                out[1] = (a, k)
    return dict(params=params, how=draw(st.sampled_from(HOWS)), calls=out)


def run_bindings(case):
    params, how = case["params"], case["how"]
    log = []
    f = build(params, how, log)
    res = []
    for a, k in case["calls"]:
        log.clear()
        ok = accepts(f, a, k)
        a0, k0 = list(a), dict(k)
        try:
            bound = resolve_bindings(f, *a, **k)
        except TypeError:
            require(not ok, "resolve_bindings refuses a call that Python accepts")
            continue
        require(ok, "resolve_bindings accepts a call that Python refuses", bound)
        eq(dict(bound.arguments), log[0], "bindings")
        eq(list(bound.arguments), [p[0] for p in params], "order of parameters")
        t = tuplify_bindings(bound)
        hash(t)
        eq(dict(bound.arguments), log[0], "tuplify_bindings changed its input")
        eq(tuplify_bindings(resolve_bindings(f, *a, **k)), t, "tuplify_bindings not deterministic")
        require(isinstance(t, tuple), "tuplify gives", t)
        res.append((log[0], t))
        require((a, k) == (a0, k0), "arguments modified")
        # using the bindings to call gives the same bindings
        log.clear()
        f(*bound.args, **bound.kwargs)
        eq(log[0], res[-1][0], "call through the resolved bindings")
    if len(res) == 2:
        (b1, t1), (b2, t2) = res
        if b1 == b2 and [list(v) for v in b1.values() if isinstance(v, dict)] != [list(v) for v in b2.values() if isinstance(v, dict)]:
            return  # same **kwargs in a different order: left open
        require((t1 == t2) == (b1 == b2), "tuplified bindings equal:", t1 == t2, "bindings equal:", b1 == b2, t1, t2)
        if t1 == t2:
            eq(hash(t1), hash(t2), "hash")
    # partial
    for a, k in case["calls"]:
        b, missing, xa, xk, err = gen.model_bind(params, a, k)
        if any(n in k and kind == gen.PO for n, kind, _ in params):
            continue
        try:
            bound = resolve_bindings_partial(f, *a, **k)
        except TypeError:
            require(xa or xk or err, "resolve_bindings_partial refuses", a, k)
            continue
        require(not (xa or xk or err), "resolve_bindings_partial accepts an impossible call")
        eq(dict(bound.arguments), b, "partial bindings")


@st.composite
def generic_cases(draw):
    return dict(methods=draw(st.lists(gen.signatures(maxpos=3, allow_va=True, allow_vk=False), min_size=1, max_size=4)))


def run_generic(case):
    fs = [gen.make_function(m, annotations={p[0]: "object" for p in m}) for m in case["methods"]]
    g = generic(fs[0])
    for f in fs[1:]:
        augment(g)(f)
    ranges = [arities(f) for f in fs]
    eq(arities(g), (min(r[0] for r in ranges), max(r[1] for r in ranges)), "arities of a generic function")
    ko = [{p[0]: p[2] for p in m if p[1] == gen.KO} for m in case["methods"]]
    eq(required_kwargs(g), {n for m in ko for n, d in m.items() if d is None}, "required kwargs of a generic")
    eq(optional_kwargs(g), {n for m in ko for n, d in m.items() if d is not None}, "optional kwargs of a generic")


BUILTINS = [getattr(operator, n) for n in ("lt le eq ne ge gt add and_ floordiv lshift mod mul or_ pow rshift sub truediv xor concat contains "
                                           "countOf getitem indexOf iadd isub imul not_ truth neg pos invert index abs is_ is_not "
                                           "setitem delitem length_hint itemgetter attrgetter methodcaller "
                                           "iand iconcat ifloordiv ilshift imod imatmul ior ipow irshift itruediv ixor matmul inv").split()]
BUILTINS += [abs, all, any, ascii, bin, callable, chr, divmod, format, getattr, hasattr, hash, hex, id, isinstance, issubclass, iter, len,
             next, oct, ord, pow, repr, round, setattr, delattr, sum, range, slice, enumerate, filter, reversed, memoryview, frozenset, tuple, list, set, int, str]


def run_builtin(case):
    f = BUILTINS[case["i"] % len(BUILTINS)]
    n = case["n"]
    lo, hi = arities(f)
    try:
        f(*[object()] * n)
        ok = True
    except TypeError as e:
        m = str(e)
        ok = not (("argument" in m and ("expected" in m or "takes" in m or "got" in m)) and "given" in m or "at least" in m or "at most" in m
                  or ("expected" in m and "got" in m and "argument" in m and any(f"got {d}" in m for d in range(10)))
                  or "must have at least" in m or "missing required argument" in m)
    except Exception:
        ok = True
    require((lo <= n <= hi) == ok, f"{f!r}: arities {lo, hi}, {n} arguments {'accepted' if ok else 'refused'}")


SUITES = [
    Suite("arity", sig_cases, run_arity, quick=3000, shards=2, nontrivial=lambda c: bool(c["params"]), labels=lambda c: [c["how"]]),
    Suite("descriptors", sig_cases, run_descriptors, quick=1500, nontrivial=lambda c: bool(c["params"])),
    Suite("bindings", binding_cases, run_bindings, quick=6000, shards=2, nontrivial=lambda c: bool(c["params"]), labels=lambda c: [c["how"]]),
    Suite("generic", generic_cases, run_generic, quick=800, nontrivial=lambda c: len(c["methods"]) > 1),
    Suite("builtin", st.fixed_dictionaries(dict(i=st.integers(0, len(BUILTINS) - 1), n=st.integers(0, 5))), run_builtin, quick=1500),
]
