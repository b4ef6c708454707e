"""C01: currying never changes what a call means."""
import functools
import typing
from hypothesis import strategies as st

from vp.core import Suite, require, eq
from vp import gen
from unpythonic import curry, iscurried, dyn, Values, generic, typed, augment
from unpythonic.fun import partial as typed_partial

RULE = ("cases are (signature, valid call, split into steps, way of making the callable, passthrough chain); "
        "non-trivial: the call is made in two or more steps, or has extra arguments, or the signature is annotated/generic")

WRAPS = ("def", "lambda", "method", "classmethod", "staticmethod", "partial", "class", "callable")


class Boom(Exception):
    pass


def build(params, how, log, ret=None, annotations=None):
    """Make a callable with the given signature in one of several ways."""
    plain = gen.make_function(params, log, ret=ret, annotations=annotations)
    if how in ("def", "lambda"):
        if how == "lambda" and not annotations:
            env = {"_f": plain}
            args = []
            for n, k, _ in params:
                args.append("*" + n if k == gen.VA else "**" + n if k == gen.VK else f"{n}={n}" if k == gen.KO else n)
            # named after star is fine: positional-only and positional are passed by position
            exec(f"g = lambda {gen.paramlist(params)}: _f({', '.join(args)})", env)
            return env["g"]
        return plain
    if how == "partial":
        return functools.partial(plain)
    first = ("self_", gen.PO if params and params[0][1] == gen.PO else gen.PK, None)
    plist = gen.paramlist([first] + params, annotations)
    names = ", ".join(f"{p[0]}={p[0]}" for p in params)
    deco = {"classmethod": "@classmethod\n    "}.get(how, "")
    if how == "staticmethod":
        deco, plist = "@staticmethod\n    ", gen.paramlist(params, annotations)
    meth = {"class": "__init__", "callable": "__call__"}.get(how, "m")
    body = f"self_.got = _hook(dict({names}))" if how == "class" else f"return _hook(dict({names}))"
    src = f"class K:\n    {deco}def {meth}({plist}):\n        {body}\n"

    def hook(b):
        log.append(b)
        return b if ret is None else ret(b)
    env = {"_hook": hook}
    gen.run_source(src, env)
    K = env["K"]
    if how == "class":
        return K
    return K() if how == "callable" else K.m if how == "classmethod" else K().m


def result_of(how, x):
    return x.got if how == "class" else x


# ---------------------------------------------------------------- splitting valid calls

@st.composite
def split_cases(draw):
    params = draw(gen.signatures())
    args, kwargs = draw(gen.calls(params))
    steps = draw(gen.splits(args, kwargs, maxsteps=5))
    return dict(params=params, steps=steps, how=draw(st.sampled_from(WRAPS)),
                start=draw(st.sampled_from(["decorator", "call", "recurry"])), raises=draw(st.integers(0, 5)) == 0)


def fires_at(params, steps):
    """Index of the step at which the call triggers, per Python's binding rules."""
    A, K = [], {}
    for i, (a, k) in enumerate(steps):
        A, K = A + a, {**K, **k}
        if not gen.model_bind(params, A, K)[1]:
            return i, A, K
    return None, A, K


def run_split(case):
    params, steps, how = case["params"], case["steps"], case["how"]
    log = []
    boom = Boom("x")

    def ret(b):
        if case["raises"]:
            raise boom
        return b
    f = build(params, how, log, ret)
    at, A, K = fires_at(params, steps)
    require(at is not None, "harness: the call is not complete")
    want = gen.model_bind(params, A, K)[0]

    inter = []
    if case["start"] == "call" and (steps[0][0] or steps[0][1]):
        c = None
    else:
        c = curry(f)
        require(iscurried(c), "curry(f) is not marked curried")
        require(curry(c) is c, "currying a curried function must return it as is")
        require(not log, "currying alone ran the function")

    def finish(c, i):
        """Go on from the intermediate `c` = state before step i; check everything."""
        before = len(log)
        while True:
            a, k = steps[i]
            last = i == at
            try:
                r = curry(f, *a, **k) if c is None else curry(c, *a, **k) if case["start"] == "recurry" and (a or k) else c(*a, **k)
            except Boom as e:
                require(last and case["raises"] and e is boom, "exception at a non-final step or a different one", i)
                break
            if last:
                require(not case["raises"], "the exception of the call was lost")
                eq(result_of(how, r), want, f"result at step {i}")
                break
            require(iscurried(r), "incomplete application is not a curried function", r)
            require(len(log) == before, f"the function ran at step {i}, before it was complete")
            c, i = r, i + 1
            inter.append((c, i))
        require(len(log) == before + 1, f"the function ran {len(log) - before} times")
        eq(log[-1], want, "bindings received")
    finish(c, 0)
    # partially applied functions can be used again
    for c, i in list(inter):
        finish(c, i)
    # and differently: complete each from scratch with other values
    for c, i in list(inter)[:3]:
        A0, K0 = [], {}
        for a, k in steps[:i]:
            A0, K0 = A0 + a, {**K0, **k}
        A1, K1 = [], {}
        for a, k in steps[i:at + 1]:
            A1, K1 = A1 + [x + 1000 for x in a], {**K1, **{n: v + 1000 for n, v in k.items()}}
        n = len(log)
        try:
            r = c(*A1, **K1)
        except Boom:
            require(case["raises"], "unexpected Boom")
        else:
            eq(result_of(how, r), gen.model_bind(params, A0 + A1, {**K0, **K1})[0], "completed with other values")
        require(len(log) == n + 1, "ran more than once")


# ---------------------------------------------------------------- passthrough

values_items = st.one_of(gen.small, st.tuples(gen.small, gen.small))


def chains(depth=2):
    @st.composite
    def make(draw, d=depth):
        params = draw(gen.signatures(maxpos=3, maxko=2))
        kind = draw(st.sampled_from(["plain", "func", "func", "values", "valfunc", "novalues"])) if d else draw(st.sampled_from(["plain", "values"]))
        spec = dict(params=params, ret=kind)
        if kind in ("values", "valfunc", "novalues"):
            spec["rets"] = draw(st.lists(values_items, min_size=0 if kind == "valfunc" else 1, max_size=2)) if kind != "novalues" else []
            spec["kwrets"] = draw(st.dictionaries(st.sampled_from(["a", "b", "p", "q"]), gen.small, max_size=2))
        if kind in ("func", "valfunc"):
            spec["next"] = draw(make(d - 1))
        return spec
    return make()


@st.composite
def pass_cases(draw):
    spec = draw(chains())
    args, kwargs = draw(gen.calls(spec["params"]))
    if not any(p[1] == gen.VA for p in spec["params"]):
        # fill the positional parameters so that the rest is extra
        pos = [p for p in spec["params"] if p[1] in (gen.PO, gen.PK)]
        if draw(st.integers(0, 4)):
            for p in pos[len(args):]:
                args.append(kwargs.pop(p[0], 7))
            args += draw(st.lists(gen.small, max_size=6))
    if not any(p[1] == gen.VK for p in spec["params"]):
        for n in draw(st.lists(st.sampled_from(["p", "q", "z"]), unique=True, max_size=2)):
            kwargs.setdefault(n, draw(gen.small))
    steps = draw(gen.splits(args, kwargs, maxsteps=3)) if draw(st.booleans()) else [(args, kwargs)]
    return dict(spec=spec, steps=steps, ctx=draw(st.sampled_from(["none", "dyn", "nested"])))


def make_chain(spec, log, name="f0"):
    nxt = make_chain(spec["next"], log, name + "n") if "next" in spec else None

    def ret(b):
        if spec["ret"] == "plain":
            return (name, sorted(b.items()))
        if spec["ret"] == "func":
            return nxt
        if spec["ret"] == "valfunc":
            return Values(nxt, *spec["rets"], **spec["kwrets"])
        return Values(*spec["rets"], **spec["kwrets"])
    return gen.make_function(spec["params"], log, name=name, ret=ret)


class Leftover(Exception):
    pass


class Unspecified(Exception):
    pass


class Partial:
    def __init__(self, spec, A, K, name):
        self.spec, self.A, self.K, self.name = spec, A, K, name


def model_pass(spec, A, K, top, trace, name="f0"):
    """The documented reduction algorithm. Returns a value, ("Values", rets, kwrets) or a Partial."""
    b, missing, xa, xk, err = gen.model_bind(spec["params"], A, K)
    if err:
        raise TypeError(err)
    if any(n in K and i >= len(A) for i, (n, kind, _) in enumerate(spec["params"]) if kind == gen.PO):
        raise Unspecified()  # the name of a positional-only parameter, before that is filled
    if missing:
        return Partial(spec, A, K, name)
    trace.append(b)
    kind = spec["ret"]
    func = spec.get("next") if kind in ("func", "valfunc") else None
    if kind == "plain":
        rets, kw = [(name, sorted(b.items()))], {}
    elif kind == "func":
        rets, kw = [], {}
    else:
        rets, kw = list(spec["rets"]), dict(spec["kwrets"])
    if not xa and not xk:  # exact match: like a normal call
        if func is not None:
            if kind == "func":
                return Partial(func, None, None, name + "n")
            return ("Values", [Partial(func, None, None, name + "n")] + rets, kw)
        return rets[0] if kind == "plain" else ("Values", rets, kw)
    la, lk = rets + xa, {**xk, **kw}
    if func is not None:
        return model_pass(func, la, lk, top, trace, name + "n")
    if top:
        raise Leftover()
    return ("Values", la, lk)


def check_same(got, want, what):
    if isinstance(want, Partial):
        require(callable(got), what, "expected a function, got", got)
        if want.A is not None:
            require(iscurried(got), what, "expected a curried function, got", got)
        return
    if isinstance(want, tuple) and want and want[0] == "Values":
        require(isinstance(got, Values), what, "expected Values, got", got)
        require(len(got.rets) == len(want[1]), what, "number of positional values", got, want[1])
        for g, w in zip(got.rets, want[1]):
            check_same(g, w, what)
        eq(dict(got.kwrets), want[2], what)
        return
    require(not isinstance(got, Values), what, "unexpected Values", got)
    eq(got, want, what)


def run_pass(case):
    spec, steps, ctx = case["spec"], case["steps"], case["ctx"]
    log = []
    f = make_chain(spec, log)
    A, K = [], {}
    c = curry(f)
    for a, k in steps:
        A, K = A + a, {**K, **k}
        trace = []
        try:
            want = model_pass(spec, A, K, ctx == "none", trace)
        except Leftover:
            want = Leftover
        except TypeError:
            want = TypeError
        except Unspecified:
            return
        log.clear()
        try:
            if ctx == "dyn":
                with dyn.let(curry_context=["here"]):
                    got = c(*a, **k)
            elif ctx == "nested":
                @curry
                def outer(x, y):
                    return [c(*a, **k)]
                got = outer(1, 2)[0]
            else:
                got = c(*a, **k)
        except TypeError as e:
            require(want in (Leftover, TypeError), "TypeError:", str(e), "expected", want)
            if want is Leftover:
                eq(log, trace, "calls made before the leftover was reported")
            return
        require(want is not Leftover, "leftover arguments at the top level not reported; got", got)
        if want is TypeError:
            require(False, "invalid binding (two values for one parameter) accepted", got)
        check_same(got, want, "result")
        eq(log, trace, "functions called, with bindings")
        if not (isinstance(want, Partial) and want.spec is spec):
            return
        c = got


# ---------------------------------------------------------------- annotations

TYPING = {n: getattr(typing, n) for n in ("Tuple", "List", "Optional", "Union", "Any")}
TYPES = {"int": (int, [1, 2, 0]), "str": (str, ["s", ""]), "float": (float, [0.5]),
         "Tuple[int, str]": (None, [(1, "a")]), "List[int]": (None, [[1, 2], [3]]), "Optional[int]": (None, [None, 4]),
         "Union[int, str]": (None, [1, "q"])}
BAD = {"int": ["s", None], "str": [1], "float": ["x", "y"], "Tuple[int, str]": [("a", 1), (1,)],
       "List[int]": [["a"], (1, 2)], "Optional[int]": ["s"], "Union[int, str]": [None, 0.5]}


@st.composite
def annot_cases(draw):
    params = draw(gen.signatures(allow_va=False, allow_vk=False, minparams=2))
    ann = {p[0]: draw(st.sampled_from(sorted(TYPES) + [None])) for p in params}
    args, kwargs = draw(gen.calls(params))
    pos = [p[0] for p in params if p[1] in (gen.PO, gen.PK)]
    bad = None

    def good(n):
        return draw(st.sampled_from(TYPES[ann[n]][1])) if ann[n] else draw(gen.small)
    args = [good(pos[i]) for i in range(len(args))]
    kwargs = {n: good(n) for n in kwargs}
    steps = [list(s) for s in draw(gen.splits(args, kwargs, maxsteps=4))]
    if draw(st.booleans()):
        cands = []
        i = 0
        for si, (a, k) in enumerate(steps):
            for j in range(len(a)):
                if ann[pos[i]]:
                    cands.append((si, j, pos[i]))
                i += 1
            cands += [(si, n, n) for n in k if ann[n]]
        if cands:
            si, where, n = draw(st.sampled_from(cands))
            v = draw(st.sampled_from(BAD[ann[n]]))
            if isinstance(where, int):
                steps[si][0][where] = v
            else:
                steps[si][1][where] = v
            bad = si
    # params with defaults of the wrong type would be rejected too; drop those annotations
    for p in params:
        if p[2] is not None and ann[p[0]] not in (None, "int", "Optional[int]", "Union[int, str]"):
            ann[p[0]] = None
            if bad is not None:
                bad = "unknown"
    return dict(params=params, ann=ann, steps=[tuple(s) for s in steps], bad=bad, deco=draw(st.sampled_from(["plain", "typed"])))


def run_annot(case):
    params, ann, steps, bad = case["params"], case["ann"], case["steps"], case["bad"]
    if bad == "unknown":
        return
    deco = case["deco"]
    if deco == "typed":  # all parameters must be annotated there
        ann = {n: a or "Any" for n, a in ann.items()}
    log = []
    f = gen.make_function(params, log, annotations=ann, ns=TYPING)
    if deco == "typed":
        f = typed(f)
    c = curry(f)
    at, A, K = fires_at(params, steps)
    for i, (a, k) in enumerate(steps):
        final = i == at
        # a plain annotated function is checked whenever it is partially applied, a @typed one always
        checked = not final or deco == "typed"
        try:
            r = c(*a, **k)
        except TypeError as e:
            require(i == bad and checked, f"TypeError at step {i} for matching arguments:", str(e))
            require(not log, "the function ran in spite of the type error")
            return
        require(not (i == bad and checked), f"argument of the wrong type accepted at step {i}")
        if final:
            eq(log, [gen.model_bind(params, A, K)[0]], "bindings")
            return
        require(not log, "ran too early")
        c = r


# ---------------------------------------------------------------- generic functions

GT = {"int": int, "str": str, "float": float}


@st.composite
def generic_cases(draw):
    n = draw(st.integers(1, 4))
    methods = draw(st.lists(st.lists(st.sampled_from(["int", "str", "float"]), min_size=1, max_size=3), min_size=n, max_size=n))
    args = draw(st.lists(st.sampled_from([1, 2, "s", "t", 0.5]), min_size=1, max_size=4))
    # some of the trailing arguments by name
    k = draw(st.integers(0, len(args))) if draw(st.booleans()) else len(args)
    kw = {f"x{i}": args[i] for i in range(k, len(args))}
    return dict(methods=methods, steps=draw(gen.splits(args[:k], kw, maxsteps=3)))


def run_generic(case):
    log = []

    def mk(i, types):
        names = [f"x{j}" for j in range(len(types))]
        env = {"_log": log}
        gen.run_source(f"def g({', '.join(f'{n}: {t}' for n, t in zip(names, types))}):\n"
             f"    _log.append(({i}, ({', '.join(names)},)))\n    return ('r', {i}, ({', '.join(names)},))", env)
        return env["g"]
    first, *rest = [mk(i, t) for i, t in enumerate(case["methods"])]
    g = generic(first)
    for f in rest:
        augment(g)(f)
    # latest registration of the same signature wins: order tried is latest first
    table = list(enumerate(case["methods"]))[::-1]

    def decide(args, kw):
        def bind(types):
            """-> (bound by index, unbound, extra positionals, extra named) or None on a type mismatch or double binding"""
            b = dict(enumerate(args[:len(types)]))
            xk = {}
            for n, v in kw.items():
                j = int(n[1:])
                if j in b:
                    return None
                if j < len(types):
                    b[j] = v
                else:
                    xk[n] = v
            if not all(isinstance(v, GT[types[j]]) for j, v in b.items()):
                return None
            return b, len(types) - len(b), args[len(types):], xk
        for accept, what in ((lambda b: not b[1] and not b[2] and not b[3], "call"),
                             (lambda b: not b[1], "pass"),
                             (lambda b: b[1], "keep")):
            for i, types in table:
                b = bind(types)
                if b and accept(b):
                    return what, i, tuple(b[0][j] for j in sorted(b[0])), b[2], b[3]
        return ("error",)
    c = curry(g)
    A, K = [], {}
    with dyn.let(curry_context=["here"]):
        for a, k in case["steps"]:
            A, K = A + list(a), {**K, **k}
            if any(int(n[1:]) < len(A) for n in K):
                return  # a name for something given by position
            want = decide(A, K)
            if want[0] == "keep" and want[4]:
                return  # named arguments only for a later callee, before the multimethod is known: unspecified
            log.clear()
            try:
                r = c(*a, **k)
            except TypeError as e:
                require(want[0] == "error", "TypeError:", str(e), "expected", want)
                require(not log, "a multimethod ran although dispatch failed")
                return
            if want[0] == "call":
                eq(r, ("r", want[1], want[2]), "result")
                eq(log, [(want[1], want[2])], "calls")
                return
            if want[0] == "pass":
                eq(r, Values(("r", want[1], want[2]), *want[3], **want[4]), "result")
                eq(log, [(want[1], want[2])], "calls")
                return
            require(want[0] == "keep", "expected", want, "got", r)
            require(iscurried(r) and not log, "partial match must keep currying")
            c = r


# ---------------------------------------------------------------- fun.partial

def run_partial(case):
    """The type-checking partial equals functools.partial on matching arguments, and refuses others."""
    params, ann, steps, bad = case["params"], case["ann"], case["steps"], case["bad"]
    if bad == "unknown":
        return
    log = []
    f = gen.make_function(params, log, annotations=ann, ns=TYPING)
    p, q = f, f
    for i, (a, k) in enumerate(steps):
        try:
            p = typed_partial(p, *a, **k)
        except TypeError as e:
            require(i == bad, f"TypeError at step {i} for matching arguments:", str(e))
            return
        require(i != bad, "wrong type accepted by partial at step", i)
        q = functools.partial(q, *a, **k)
    require(not log, "partial ran the function")
    eq(p(), q(), "result")


def two_steps(case):
    return len([s for s in case["steps"] if s[0] or s[1]]) >= 2


SUITES = [
    Suite("split", split_cases, run_split, quick=5000, shards=2, nontrivial=two_steps,
          labels=lambda c: [c["how"], f"steps{len(c['steps'])}", "raises" if c["raises"] else "returns"]),
    Suite("passthrough", pass_cases, run_pass, quick=5000, shards=3,
          nontrivial=lambda c: c["spec"]["ret"] != "plain" or len(c["steps"]) > 1,
          labels=lambda c: [c["spec"]["ret"], "ctx-" + c["ctx"]]),
    Suite("annotations", annot_cases, run_annot, quick=3000, nontrivial=two_steps,
          labels=lambda c: [c["deco"], "bad" if c["bad"] is not None else "good"]),
    Suite("generic", generic_cases, run_generic, quick=3000, nontrivial=lambda c: len(c["methods"]) > 1),
    Suite("partial", annot_cases, run_partial, quick=2000, nontrivial=two_steps),
]
