"""C04: function composition and plumbing equal the nested calls they abbreviate."""
from hypothesis import strategies as st

from vp.core import Suite, require, eq, same
from unpythonic import (composel, composer, composel1, composer1, composeli, composeri, composel1i, composer1i,
                        composelc, composerc, composelci, composerci,
                        pipe, pipe1, pipec, piped, piped1, lazy_piped, lazy_piped1, exitpipe, Values, valuify, curry,
                        tokth, to1st, to2nd, tolast, to, flip, rotate, apply, identity, const, notf, andf, orf, withself, call, callwith,
                        begin, begin0, lazy_begin, lazy_begin0)

RULE = ("cases are chains of 1-5 recording functions with generated arities, positional/named/tuple/Values returns, run through every compose/pipe "
        "variant, and argument lists for the plumbing helpers; oracle: the nested application written out. Non-trivial: at least two functions, "
        "or more than one argument")

NAMES = ["p", "q", "r"]


@st.composite
def chains(draw, single=False, curried=False):
    """A chain in application order. Each function: (npos, named, ret) where ret is
    ("plain", v) | ("tuple", n) | ("values", n, names). State threading makes the signatures fit."""
    npos = 1 if single else draw(st.integers(0, 3))
    named = [] if single else draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=2))
    if not single and npos == 0 and not named:
        npos = 1
    start = (npos, named)
    fs = []
    n = draw(st.integers(1, 5))
    for i in range(n):
        takes, takes_named = npos, list(named)
        if curried and i < n - 1:
            takes = draw(st.integers(0, npos)) if npos else 0
            takes_named = [x for x in named if draw(st.booleans())]
            if takes == 0 and npos and not takes_named:
                takes = 1  # a function of no arguments would be called with none: fine, but keep chains fed
        if single:
            ret = draw(st.sampled_from([("plain", 0), ("tuple", 2), ("tuple", 0), ("none", 0)]))
        else:
            k = draw(st.sampled_from(["plain", "plain", "tuple", "values", "values", "none"]))
            if k == "values":
                m = draw(st.integers(0, 3))
                nm = draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=2))
                if i < n - 1 and not m and not nm and (npos - takes == 0) and not [x for x in named if x not in takes_named]:
                    m = 1
                ret = ("values", m, nm)
            else:
                ret = (k, draw(st.integers(0, 2)))
        fs.append((takes, takes_named, ret))
        out = ret[1] if ret[0] == "values" else 1
        outn = ret[2] if ret[0] == "values" else []
        npos = out + (npos - takes)
        named = sorted(set(outn) | {x for x in named if x not in takes_named}) if curried else outn
    if curried and n > 1:
        # the function applied last must take everything; chains above ensure it (i == n - 1)
        pass
    return dict(start=start, fs=fs)


def make(i, spec, log):
    takes, takes_named, ret = spec
    params = [f"x{j}" for j in range(takes)]
    if takes_named:
        params += ["*"] + list(takes_named)
    env = {}

    def hook(args, kw):
        log.append((i, args, kw))
        return result(i, ret, args, kw)
    env["_hook"] = hook
    src = f"lambda {', '.join(params)}: _hook(({' '.join(f'x{j},' for j in range(takes))}), dict({', '.join(f'{n}={n}' for n in takes_named)}))"
    return eval(src, env)


def value(i, j, args, kw):
    return (f"f{i}", j, len(args), tuple(sorted(kw)))


def result(i, ret, args, kw):
    if ret[0] == "plain":
        return value(i, 0, args, kw)[0] + str(ret[1])
    if ret[0] == "none":
        return None
    if ret[0] == "tuple":
        return tuple(f"f{i}t{j}" for j in range(ret[1]))
    return Values(*[f"f{i}v{j}" for j in range(ret[1])], **{n: f"f{i}{n}" for n in ret[2]})


def model(case, upto=None):
    """Nested application. -> (final return value of the last function, log)"""
    npos, named = case["start"]
    args, kw = tuple(range(npos)), {n: n.upper() for n in named}
    log = []
    r = None
    for i, (takes, takes_named, ret) in enumerate(case["fs"][:upto]):
        a, rest = args[:takes], args[takes:]
        k = {n: kw[n] for n in takes_named}
        restk = {n: v for n, v in kw.items() if n not in takes_named}
        log.append((i, a, k))
        r = result(i, ret, a, k)
        if isinstance(r, Values):
            args, kw = r.rets + rest, {**restk, **r.kwrets}
        else:
            args, kw = (r,) + rest, restk
    return r, log


def start_args(case):
    npos, named = case["start"]
    return tuple(range(npos)), {n: n.upper() for n in named}


def unwrap(r):
    if isinstance(r, Values) and len(r.rets) == 1 and not r.kwrets:
        return r.rets[0]
    return r


def check(got, want, log, wantlog, what):
    require(type(got) is type(want), what, "got", got, "expected", want)
    eq(got, want, what)
    eq(log, wantlog, what + ": calls made")
    log.clear()


def run_multi(case):
    log = []
    fs = [make(i, s, log) for i, s in enumerate(case["fs"])]
    a, k = start_args(case)
    r, wl = model(case)
    for name, c in (("composel", lambda: composel(*fs)), ("composer", lambda: composer(*fs[::-1])),
                    ("composeli", lambda: composeli(iter(fs))), ("composeri", lambda: composeri(iter(fs[::-1])))):
        g = c()
        require(not log, name, "ran something while composing")
        check(g(*a, **k), r, log, wl, name)
        check(g(*a, **k), r, log, wl, name + " again")
    check(pipe(Values(*a, **k), *fs), unwrap(r), log, wl, "pipe")
    if not k and len(a) == 1:
        check(pipe(a[0], *fs), unwrap(r), log, wl, "pipe")
    p = piped(*a, **k)
    for i, f in enumerate(fs):
        old = p
        p = p | f
        require(p is not old, "piped must not update in place")
        eq(log, wl[:i + 1], "piped is eager, one call per step")
    check(p | exitpipe, unwrap(r), log, wl, "piped")
    r1, wl1 = model(case, upto=1)
    p = piped(*a, **k)
    for f in fs:
        p | f
        log.clear()
        break
    check(p | fs[0] | exitpipe, unwrap(r1), log, wl1, "piped, from the same prefix again")


def run_lazy(case):
    log = []
    fs = [make(i, s, log) for i, s in enumerate(case["fs"])]
    a, k = start_args(case)
    prefixes = [lazy_piped(*a, **k)]
    for f in fs:
        prefixes.append(prefixes[-1] | f)
    require(not log, "a lazy pipe ran something while planning")
    order = case["order"]
    for j in order:
        j = j % len(prefixes)
        if j == 0:
            want = unwrap(Values(*a, **k))
            check(prefixes[0] | exitpipe, want, log, [], "lazy pipe without functions")
            continue
        r, wl = model(case, upto=j)
        # extending a prefix elsewhere does not disturb it
        _ = prefixes[j] | (lambda *a, **k: log.append("other"))
        check(prefixes[j] | exitpipe, unwrap(r), log, wl, f"lazy_piped prefix {j}")


@st.composite
def lazy_cases(draw):
    c = draw(chains())
    c["order"] = draw(st.lists(st.integers(0, 5), min_size=1, max_size=5))
    return c


def run_curried(case):
    log = []
    fs = [make(i, s, log) for i, s in enumerate(case["fs"])]
    a, k = start_args(case)
    r, wl = model(case)
    for name, c in (("composelc", lambda: composelc(*fs)), ("composerc", lambda: composerc(*fs[::-1])),
                    ("composelci", lambda: composelci(iter(fs))), ("composerci", lambda: composerci(iter(fs[::-1]))),
                    ("composel of curried", lambda: composel(*map(curry, fs)))):
        g = c()
        require(not log, name, "ran something while composing")
        check(g(*a, **k), r, log, wl, name)
    check(pipec(Values(*a, **k), *fs), unwrap(r), log, wl, "pipec")


def run_single(case):
    log = []
    fs = [make(i, s, log) for i, s in enumerate(case["fs"])]
    r, wl = model(case)
    for name, c in (("composel1", lambda: composel1(*fs)), ("composer1", lambda: composer1(*fs[::-1])),
                    ("composel1i", lambda: composel1i(iter(fs))), ("composer1i", lambda: composer1i(iter(fs[::-1]))),
                    ("composel", lambda: composel(*fs)), ("composer", lambda: composer(*fs[::-1]))):
        g = c()
        require(not log, name, "ran something while composing")
        check(g(0), r, log, wl, name)
    check(pipe1(0, *fs), r, log, wl, "pipe1")
    check(pipe(0, *fs), r, log, wl, "pipe")
    p = piped1(0)
    for i, f in enumerate(fs):
        p = p | f
        eq(log, wl[:i + 1], "piped1 is eager")
    check(p | exitpipe, r, log, wl, "piped1")
    q = [lazy_piped1(0)]
    for f in fs:
        q.append(q[-1] | f)
    require(not log, "lazy_piped1 ran while planning")
    for j in (len(fs), 1, len(fs)):
        rj, wlj = model(case, upto=j)
        check(q[j] | exitpipe, rj, log, wlj, f"lazy_piped1 prefix {j}")
    for f in fs:
        require(not vars(f), "composing changed the function itself", vars(f))
    for c in (composel, composer, composel1, composer1):
        eq(c(len)("abc"), 3, "composition of a single builtin function")
    eq(pipe1(7), 7, "pipe1 without functions")
    eq(piped1(7) | exitpipe, 7, "piped1 without functions")
    # the initial value is looked up when the lazy pipe runs
    lst = [1]
    p = lazy_piped1(lst) | (lambda x: list(x))
    lst.append(2)
    eq(p | exitpipe, [1, 2], "lazy_piped1 sees the latest state of a mutable initial value")


# ---------------------------------------------------------------- plumbing

@st.composite
def plumb_cases(draw):
    args = draw(st.lists(st.integers(0, 9), max_size=5))
    n = len(args)
    return dict(args=args, kw=draw(st.dictionaries(st.sampled_from(NAMES), st.integers(0, 9), max_size=2)),
                k=draw(st.integers(-n + 1, n - 1)) if n else 0,
                specs=draw(st.lists(st.integers(-n + 1, n - 1), min_size=1, max_size=4)) if n else [],
                rot=draw(st.integers(-n + 1, n - 1)) if n else 0,
                preds=draw(st.lists(st.sampled_from([0, 1, "", "s", None, True, False, 2]), max_size=4)),
                lst=draw(st.lists(st.integers(10, 19), max_size=3)), outside=draw(st.integers(0, 3)))


def rec(*args, **kw):
    return ("rec", args, kw)


def run_plumb(case):
    args, kw, k = case["args"], case["kw"], case["k"]
    n = len(args)
    calls = []

    def f(x):
        calls.append(x)
        return ("f", x)
    if n:
        def modeltok(k, a):
            a = list(a)
            a[k] = ("f", a[k])
            return a
        same_values(tokth(k, f)(*args, **kw), modeltok(k, args), kw, f"tokth {k}")
        eq(calls, [args[k]], "tokth calls f once, with the k-th argument")
        same_values(to1st(f)(*args, **kw), modeltok(0, args), kw, "to1st")
        if n > 1:
            same_values(to2nd(f)(*args, **kw), modeltok(1, args), kw, "to2nd")
        same_values(tolast(f)(*args, **kw), modeltok(-1, args), kw, "tolast")
        want = list(args)
        for j in case["specs"]:
            want = modeltok(j, want)
        same_values(to(*[(j, f) for j in case["specs"]])(*args, **kw), want, kw, f"to {case['specs']}")
        # tags distinguish the order of application to one slot
        want = list(args)
        for t, j in enumerate(case["specs"]):
            want[j] = (t, want[j])
        same_values(to(*[(j, (lambda t: lambda x: (t, x))(t)) for t, j in enumerate(case["specs"])])(*args), want, {}, "to: order")
        r = case["rot"]
        want = tuple(args[(i + r) % n] for i in range(n))
        eq(rotate(r)(rec)(*args, **kw), ("rec", want, kw), f"rotate {r}")
        o = n + case["outside"]
        for bad in (o, -o - 1):
            for name, g in (("tokth", tokth(bad, f)), ("rotate", rotate(bad)(rec))):
                try:
                    g(*args)
                except IndexError:
                    pass
                else:
                    require(False, name, bad, "out of range accepted for", n, "arguments")
    else:
        for name, g in (("tokth", tokth(0, f)), ("rotate", rotate(0)(rec))):
            try:
                g(**kw)
            except TypeError:
                pass
            else:
                require(False, name, "without arguments accepted")
    eq(flip(rec)(*args, **kw), ("rec", tuple(reversed(args)), kw), "flip")
    eq(flip(flip(rec))(*args, **kw), rec(*args, **kw), "flip twice")
    lst = case["lst"]
    for lstt in (lst, tuple(lst), iter(lst)):
        eq(apply(rec, *args, lstt, **kw), ("rec", tuple(args) + tuple(lst), kw), "apply")
    packed = None if not args and not kw else args[0] if len(args) == 1 and not kw else Values(*args, **kw)
    same(identity(*args, **kw), packed, "identity")
    c = const(*args, **kw)
    same(c(), packed, "const")
    same(c(*lst, **kw), packed, "const with arguments")
    eq(call(rec, *args, **kw), rec(*args, **kw), "call")
    eq(callwith(*args, **kw)(rec), rec(*args, **kw), "callwith")
    # withself: recursion through self
    g = withself(lambda self, n, acc=(): (acc, self) if n == 0 else self(n - 1, acc=acc + (n,)))
    acc, me = g(n)
    eq(acc, tuple(range(n, 0, -1)), "withself recursion")
    require(me is g, "self is the decorated function")
    # short-circuit
    preds = case["preds"]
    ran = []

    def mk(i, v):
        def p(*a, **kws):
            require(a == tuple(args) and kws == kw, "predicate got other arguments", a, kws)
            ran.append(i)
            return v
        return p
    fs = [mk(i, v) for i, v in enumerate(preds)]
    got = andf(*fs)(*args, **kw)
    firstfalse = next((i for i, v in enumerate(preds) if not v), None)
    want = False if firstfalse is not None else (preds[-1] if preds else True)
    same(got, want, "andf")
    eq(ran, list(range(len(preds) if firstfalse is None else firstfalse + 1)), "andf calls")
    ran.clear()
    got = orf(*fs)(*args, **kw)
    firsttrue = next((i for i, v in enumerate(preds) if v), None)
    same(got, preds[firsttrue] if firsttrue is not None else False, "orf")
    eq(ran, list(range(len(preds) if firsttrue is None else firsttrue + 1)), "orf calls")
    ran.clear()
    for i, v in enumerate(preds):
        same(notf(fs[i])(*args, **kw), not v, "notf")
    ran.clear()
    # sequencing
    same(begin(*preds), preds[-1] if preds else None, "begin")
    same(begin0(*preds), preds[0] if preds else None, "begin0")
    thunks = [(lambda i, v: lambda: (ran.append(i), v)[1])(i, v) for i, v in enumerate(preds)]
    same(lazy_begin(*thunks), preds[-1] if preds else None, "lazy_begin")
    eq(ran, list(range(len(preds))), "lazy_begin order")
    ran.clear()
    same(lazy_begin0(*thunks), preds[0] if preds else None, "lazy_begin0")
    eq(ran, list(range(len(preds))), "lazy_begin0 order")
    # Values
    v = Values(*args, **kw)
    eq((v.rets, dict(v.kwrets)), (tuple(args), kw), "Values parts")
    for i in range(-n, n):
        eq(v[i], args[i], "Values index")
    eq(v[k:], tuple(args[k:]), "Values slice")
    for name in NAMES:
        eq(name in v, name in kw, "Values containment")
        eq(v.get(name, "d"), kw.get(name, "d"), "Values.get")
        if name in kw:
            eq(v[name], kw[name], "Values by name")
    eq((list(v.keys()), list(v.values()), list(v.items())), (list(kw), list(kw.values()), list(kw.items())), "Values mapping part")
    require(v == Values(*args, **kw) and not (v != Values(*args, **kw)), "Values equality")
    require(v != Values(*(args + [0]), **kw), "Values of different length equal")
    require(v != Values(*args, **{**kw, "zz": 1}), "Values with different names equal")
    require(not (v == tuple(args)), "Values is not a tuple")
    eq(eval(repr(v), {"Values": Values}), v, "Values repr")
    if kw:
        try:
            iter(v)
        except ValueError:
            pass
        else:
            require(False, "iterating Values with named parts must be refused")
    else:
        eq(list(v), args, "iterating Values")
    if n:
        eq(v.ret, args[0], "Values.ret")
    same(valuify(lambda *a, **kws: tuple(a))(*args), Values(*args), "valuify tuple")
    same(valuify(lambda *a: list(a))(*args), list(args), "valuify non-tuple")


def same_values(got, args, kw, what):
    require(isinstance(got, Values), what, "must return Values, got", got)
    eq((got.rets, dict(got.kwrets)), (tuple(args), kw), what)


many = lambda c: len(c["fs"]) > 1
SUITES = [
    Suite("multi", chains(), run_multi, quick=5000, shards=2, nontrivial=many, labels=lambda c: [f"n{len(c['fs'])}"]),
    Suite("lazy", lazy_cases(), run_lazy, quick=3000, nontrivial=many),
    Suite("curried", chains(curried=True), run_curried, quick=3000, shards=2, nontrivial=many),
    Suite("single", chains(single=True), run_single, quick=1000, nontrivial=many),
    Suite("plumbing", plumb_cases(), run_plumb, quick=4000, shards=2, nontrivial=lambda c: len(c["args"]) > 1),
]
