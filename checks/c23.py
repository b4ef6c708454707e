"""C23: promises and forcing."""
import collections
import functools

import hypothesis.strategies as st

from vp.core import Suite, require, eq
from unpythonic import (Lazy, force, force1, box, ThreadLocalBox, Some, cons, ll, nil, Values, frozendict, view, roview, dyn, memoize, curry, flip, rotate, apply, notf, andf, orf,
                        composel1, composer1, composel, composer, composelc, composerc, composeli, to1st, tokth, withself, call, callwith, valuify, trampolined, jump,
                        pipe, pipe1, piped1, piped, lazy_piped1, lazy_piped, exitpipe)
from unpythonic.env import env
from unpythonic.llist import Nil
from unpythonic.lazyutil import islazy, maybe_force_args, passthrough_lazy_args

RULE = ("cases are histories of uses (forcing in every way, printing, passing to lazy-aware and to strict functions) of promises whose expression gives a different outcome each time it "
        "is evaluated; generated trees of all supported containers with promises, failing promises and plain values at the leaves; generated stacks of the library's function "
        "transformers on a lazy-aware or strict function, entered in all ways with promises (bare or nested in containers) as arguments. Non-trivial: a promise is forced or passed at least "
        "twice / a promise inside a nested container / at least one transformer")
TECHNIQUE = "property-based testing: stateful histories with an evaluation counter, and reference implementations of deep forcing and of the lazy/strict calling convention"
ASSUMPTIONS = ["promises are forced from one thread, and not from inside their own evaluation", "promises that fail do so with an ordinary Exception",
               "whether promises inside the value of a promise are forced too is not specified, so the generated values contain none"]


class Err(Exception):
    pass


RANGE = range(3)


class Val:
    """A plain value that is equal only to itself."""
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"Val{self.n}"


# ---------------------------------------------------------------- one promise

USES = ["force", "force1", "forcedeep", "list", "nested", "strict", "strictkw", "strictnested"]
NOUSES = ["repr", "lazyfn", "lazykw", "copyref", "islist", "jump"]
outcome = st.tuples(st.sampled_from(["ret", "ret", "raise"]), st.sampled_from(["val", "none", "false", "zero", "empty", "exc", "exctype", "lst", "fn"]))
histories = st.tuples(st.lists(outcome, min_size=1, max_size=3), st.lists(st.sampled_from(USES + NOUSES), min_size=1, max_size=8))


def mkvalue(kind, n):
    return {"val": lambda: Val(n), "none": lambda: None, "false": lambda: False, "zero": lambda: 0, "empty": lambda: [], "exc": lambda: Err(n), "exctype": lambda: Err,
            "lst": lambda: [n, Val(n)], "fn": lambda: (lambda: n)}[kind]()


@passthrough_lazy_args
def lazyfn(*a, **k):
    return a, k


def strictfn(*a, **k):
    return a, k


def run_history(case):
    outcomes, uses = case
    made = []

    def thunk():
        how, kind = outcomes[min(len(made), len(outcomes) - 1)]
        v = Err(len(made)) if how == "raise" else mkvalue(kind, len(made))
        made.append((how, v))
        if how == "raise":
            raise v
        return v
    p = Lazy(thunk)
    forced = False
    for u in uses:
        if u in USES:
            forced = True
            do = {"force": lambda: p.force(), "force1": lambda: force1(p), "forcedeep": lambda: force(p), "list": lambda: force([p])[0],
                  "nested": lambda: force({"k": (1, [p, box(p)])})["k"][1][0], "strict": lambda: maybe_force_args(strictfn, p)[0][0],
                  "strictkw": lambda: maybe_force_args(strictfn, 1, a=p)[1]["a"], "strictnested": lambda: maybe_force_args(strictfn, [p])[0][0][0]}[u]
            try:
                r = ("ret", do())
            except Exception as e:
                r = ("raise", e)
            require(len(made) == 1, f"the promise was evaluated {len(made)} times after {u}", uses)
            require(r[0] == made[0][0] and r[1] is made[0][1], f"{u} of the promise gave another outcome than its first evaluation", (r, made[0]))
        else:
            if u == "repr":
                repr(p)
            elif u == "lazyfn":
                require(maybe_force_args(lazyfn, p)[0][0] is p, "a lazy-aware function did not get the promise")
            elif u == "lazykw":
                require(maybe_force_args(lazyfn, 1, x=p)[1]["x"] is p, "a lazy-aware function did not get the promise by name")
            elif u == "copyref":
                q = [p]
                require(q[0] is p, "")
            elif u == "islist":
                islazy(p)
            elif u == "jump":
                j = maybe_force_args(jump, Lazy(lambda: strictfn), p, z=p)
                j._claimed = True
                require(j.target is strictfn and j.args[0] is p and j.kwargs["z"] is p, "a jump has forced its arguments or not its target", (j.target, j.args))
            require(len(made) == (1 if forced else 0), f"{u} evaluated the promise", uses)


# ---------------------------------------------------------------- containers

NT = collections.namedtuple("NT", "x y")


class MyList(list):
    pass


class MyDict(dict):
    pass


class MyTuple(tuple):
    pass


class UL(collections.UserList):
    pass


HASHABLE = ["tuple", "nt", "fset", "cons", "mytuple"]
KINDS = ["list", "dict", "set", "deque", "box", "mylist", "odict", "ddict", "mydict", "values", "fdict", "view", "roview", "items", "ll", "ulist", "env", "counterlike", "some"] + HASHABLE
leaf = st.one_of(st.just("p"), st.just("p"), st.just("p"), st.just("v"), st.just("v"), st.just("f"), st.just("share"), st.sampled_from(["str", "bytes", "range", "none", "fn", "nil", "int", "obj"]))


def trees(depth):
    if depth == 0:
        return leaf
    sub = st.deferred(lambda: trees(depth - 1))
    return st.one_of(leaf, st.tuples(st.sampled_from(KINDS), st.lists(sub, max_size=3)), st.tuples(st.sampled_from(KINDS), st.lists(sub, min_size=1, max_size=3)))


def hashable_tree(t):
    return isinstance(t, str) or (t[0] in HASHABLE and all(hashable_tree(c) for c in t[1]))


class Build:
    """Builds a container tree; `expect` gives what forcing must make of each node as a checker."""
    def __init__(self, failing):
        self.failing = failing
        self.n = 0
        self.promises = []   # (promise, value or exception, counter)
        self.fail = []

    def promise(self, fails):
        self.n += 1
        v = Err(self.n) if fails else Val(self.n)
        cnt = []

        def thunk():
            cnt.append(1)
            if fails:
                raise v
            return v
        p = Lazy(thunk)
        self.promises.append((p, v, cnt))
        if fails:
            self.fail.append(v)
        return p, v

    def make(self, t):
        """-> (object, check(result))"""
        if isinstance(t, str):
            if t == "p" or t == "f":
                p, v = self.promise(t == "f" and self.failing)
                return p, lambda r: require(r is v, "a promise was not replaced by its value", (r, v))
            if t == "share" and self.promises:
                p, v, _ = self.promises[0]
                return p, lambda r: require(r is v, "a promise was not replaced by its value", (r, v))
            self.n += 1
            o = {"str": "text", "bytes": b"by", "range": RANGE, "none": None, "fn": strictfn, "nil": nil, "int": self.n, "obj": object()}.get(t) if t not in ("v", "share") else Val(self.n)
            return o, lambda r: require(r is o, "a plain value was not passed through unchanged", (r, o))
        kind, kids = t
        if kind in ("set", "fset", "items"):
            kids = [c for c in kids if hashable_tree(c)]
        made = [self.make(c) for c in kids]
        objs = [m[0] for m in made]
        checks = [m[1] for m in made]

        def each(rs):
            rs = list(rs)
            require(len(rs) == len(checks), f"forcing changed the number of elements of a {kind}", (len(rs), len(checks)))
            for r, c in zip(rs, checks):
                c(r)

        def typed(o, rs, mutable):
            def check(r):
                require(type(r) is type(o), f"forcing changed the type of a {kind}", type(r))
                if mutable:
                    require(r is o, f"forcing did not update a mutable {kind} in place")
                each(rs(r))
            return check
        if kind in ("list", "mylist", "deque", "ulist"):
            o = {"list": list, "mylist": MyList, "deque": collections.deque, "ulist": UL}[kind](objs)
            return o, typed(o, iter, True)
        if kind in ("dict", "odict", "ddict", "mydict", "counterlike"):
            d = {("k", i): x for i, x in enumerate(objs)}
            o = {"dict": dict, "odict": collections.OrderedDict, "mydict": MyDict, "counterlike": collections.UserDict, "ddict": lambda d: collections.defaultdict(list, d)}[kind](d)
            keys = list(d)

            def rs(r):
                eq(list(r.keys()), keys, "forcing changed the keys of a mapping")
                return r.values()
            return o, typed(o, rs, True)
        if kind == "fdict":
            o = frozendict({("k", i): x for i, x in enumerate(objs)})
            return o, typed(o, lambda r: [r["k", i] for i in range(len(r))], False)
        if kind in ("tuple", "mytuple"):
            o = {"tuple": tuple, "mytuple": MyTuple}[kind](objs)
            return o, typed(o, iter, False)
        if kind == "nt":
            o = NT(*(objs + [0, 0])[:2])
            cs = checks[:2]

            def check(r):
                require(type(r) is NT, "forcing changed the type of a namedtuple", type(r))
                for a, c in zip(r, cs):
                    c(a)
            return o, check
        if kind == "box":
            if not objs:
                return self.make("v")
            o = box(objs[0]) if len(objs) % 2 else ThreadLocalBox(objs[0])
            return o, lambda r: (require(r is o, "forcing replaced a box"), checks[0](o.get()))
        if kind == "some":
            if not objs:
                return self.make("v")
            o = Some(objs[0])
            return o, lambda r: (require(type(r) is Some, "Some", r), checks[0](r.get()))
        if kind == "cons":
            if len(objs) < 2:
                return self.make("v")
            o = cons(objs[0], objs[1])
            return o, lambda r: (require(type(r) is cons, "forcing changed the type of a cons", r), checks[0](r.car), checks[1](r.cdr))
        if kind == "ll":
            o = ll(*objs)

            def check(r):
                for c in checks:
                    require(type(r) is cons, "forcing changed a linked list", r)
                    c(r.car)
                    r = r.cdr
                require(isinstance(r, Nil), "forcing changed the end of a linked list", r)
            return o, check
        if kind == "values":
            o = Values(*objs[:2], **{f"k{i}": x for i, x in enumerate(objs[2:])})
            return o, lambda r: (require(type(r) is Values, "forcing changed a Values", r), each(list(r.rets) + [r.kwrets[f"k{i}"] for i in range(len(objs[2:]))]))
        if kind == "view":
            base = [0] + objs + [0]
            o = view(base)[1:len(base) - 1]
            return o, lambda r: (require(r is o, "forcing replaced a mutable view"), require(base[0] == 0 and base[-1] == 0 and len(base) == len(objs) + 2, "outside of view"), each(base[1:-1]))
        if kind == "roview":
            o = roview(tuple([0] + objs))[1:]
            return o, lambda r: each(r)
        if kind == "env":
            # environments are not recursed into
            o = env(**{f"k{i}": x for i, x in enumerate(objs)})
            return o, lambda r: (require(r is o, "forcing replaced an env"), [require(o[f"k{i}"] is x, "forcing changed the contents of an env") for i, x in enumerate(objs)])
        # sets: elements are only recognizable when they are values of promises or plain
        if kind in ("set", "fset"):
            o = {"set": set, "fset": frozenset}[kind](objs)

            def check(r):
                require(type(r) is type(o), f"forcing changed the type of a {kind}", type(r))
                if kind == "set":
                    require(r is o, "forcing did not update a set in place")
                require(not any(isinstance(x, Lazy) for x in r), "forcing left a promise in a set", r)
                for c, t1 in zip(checks, kids):
                    if isinstance(t1, str):
                        require(any(quiet(c, x) for x in r), "forcing lost an element of a set", (t1, r))
                require(len(r) <= len(kids), "forcing added an element to a set", r)
            return o, check
        if kind == "items":
            d = {("k", i): x for i, x in enumerate(objs)}
            o = d.items()

            def check(r):
                got = dict(r)
                eq(sorted(got), sorted(d), "forcing a view of a mapping changed the keys")
                for i, c in enumerate(checks):
                    c(got["k", i])
            return o, check
        raise ValueError(kind)


def quiet(c, x):
    try:
        c(x)
        return True
    except AssertionError:
        return False
    except Exception:
        return False


def count_env(t, inside=False):
    """Does the tree have a promise inside an env?"""
    if isinstance(t, str):
        return inside and t in "pf"
    return any(count_env(c, inside or t[0] == "env") for c in t[1])


def run_tree(case):
    t, failing, again = case
    if count_env(t):
        failing = False     # promises in an env are not forced
    b = Build(failing)
    o, check = b.make(t)
    require(all(not c for p, v, c in b.promises), "a promise was evaluated before it was forced")
    try:
        r = force(o)
    except Err as e:
        require(any(e is v for v in b.fail), "another exception than that of a promise")
        require(all(len(c) <= 1 for p, v, c in b.promises), "a promise was evaluated twice")
        return
    failed_inside = [v for p, v, c in b.promises if v in b.fail and c]
    require(not failed_inside, "a failing promise was forced without its exception")
    check(r)
    require(all(len(c) <= 1 for p, v, c in b.promises), "a promise was evaluated twice")
    if again:
        r2 = force(r)
        check(r2)
        require(all(len(c) <= 1 for p, v, c in b.promises), "a promise was evaluated twice")
    # the strict calling convention forces in the same way
    b = Build(False)
    o, check = b.make(t)
    if again:
        got = maybe_force_args(strictfn, 1, o)
        require(got[0][0] == 1 and not got[1], "arguments changed", got)
        check(got[0][1])
    else:
        got = maybe_force_args(strictfn, a=o)
        check(got[1]["a"])


def nontrivial_tree(case):
    def has(t, d):
        return (d >= 2 and t == "p") if isinstance(t, str) else any(has(c, d + 1) for c in t[1])
    return has(case[0], 0)


# ---------------------------------------------------------------- transformers

LAYERS = {
    "memoize": memoize, "curry": curry, "flip": flip, "rotate1": rotate(1), "rotate-1": rotate(-1), "rotate0": rotate(0), "notf": notf,
    "andf": lambda f: andf(f), "orf": lambda f: orf(f), "andf2": lambda f: andf(passthrough_lazy_args(lambda *a, **k: True), f), "orf2": lambda f: orf(passthrough_lazy_args(lambda *a, **k: False), f),
    "composel": lambda f: composel(f), "composer": lambda f: composer(f), "composel2": lambda f: composel(f, lambda x: x),
    "composerl": lambda f: composer(passthrough_lazy_args(lambda x: x), f), "composelc": lambda f: composelc(f), "composerc": lambda f: composerc(f),
    "composeli": lambda f: composeli(iter([f])), "valuify": valuify, "trampolined": lambda f: lazy_trampolined(f), "withself": lambda f: withself_adapter(f),
    "partialcurry": lambda f: partialcurry(f), "identity": lambda f: composel(passthrough_lazy_args(lambda *a, **k: Values(*a, **k)), f),
    "composel1": lambda f: unary(f, composel1), "composer1": lambda f: unary(f, composer1),
}
LAYER_NAMES = sorted(LAYERS)
#: these call a strict function with the arguments as they are
AWARE = {"memoize", "curry", "flip", "rotate0", "rotate1", "rotate-1", "notf", "andf", "orf", "andf2", "orf2", "composel2", "composerl", "composelc", "composerc", "identity", "trampolined"}
OPAQUE = {"valuify", "withself", "composel1", "composer1", "partialcurry"}


def lazy_trampolined(f):
    with dyn.let(_build_lazy_trampoline=True):
        return trampolined(f)


def withself_adapter(f):
    if islazy(f):
        return withself(passthrough_lazy_args(lambda self, *a, **k: maybe_force_args(f, *a, **k)))
    return withself(lambda self, *a, **k: f(*a, **k))


def unary(f, comp):
    g = comp(f)
    return passthrough_lazy_args(lambda *a, **k: g(*a)) if islazy(f) else (lambda *a, **k: g(*a))


def partialcurry(f):
    """Call in two steps."""
    g = curry(f)

    def two(*a, **k):
        if len(a) < 2:
            return maybe_force_args(g, *a, **k)
        return maybe_force_args(maybe_force_args(g, *a[:1]), *a[1:], **k)
    return passthrough_lazy_args(two) if islazy(f) else two


ENTRIES = ["direct", "mfa", "call", "callwith", "apply", "apply1", "mfacurry", "lazyf", "pipe", "pipe1", "piped", "piped1", "lazy_piped", "lazy_piped1", "partial", "to1st", "tokth", "trampjump"]
arg = st.sampled_from(["p", "p", "list", "dict", "v", "tuple"])
stacks = st.tuples(st.booleans(), st.integers(1, 4), st.lists(st.sampled_from(LAYER_NAMES), max_size=4), st.sampled_from(ENTRIES), st.lists(arg, min_size=4, max_size=4), st.booleans())


def base(n, lazy, log, kw):
    params = ", ".join("abcd"[:n]) + (", k=None" if kw else "")
    ns = {"log": log}
    exec(f"def f({params}):\n    log.append(({', '.join('abcd'[:n])},{' k,' if kw else ''}))\n    return RET", ns)
    ns["RET"] = RET
    return passthrough_lazy_args(ns["f"]) if lazy else ns["f"]


RET = Val("ret")


def enter(entry, g, args, kw):
    n = len(args)
    if entry == "direct":
        return g(*args, **kw)
    if entry == "mfa":
        return maybe_force_args(g, *args, **kw)
    if entry == "call":
        return call(g, *args, **kw)
    if entry == "lazyf":
        return maybe_force_args(call, Lazy(lambda: g), *args, **kw)
    if entry == "callwith":
        return callwith(*args, **kw)(g)
    if entry == "apply":
        return apply(g, *args[:-1], [args[-1]], **kw)
    if entry == "apply1":
        return maybe_force_args(apply, Lazy(lambda: g), Lazy(lambda: list(args)), **kw)
    if entry == "mfacurry":
        return maybe_force_args(curry, Lazy(lambda: g), *args, **kw)
    if entry == "partial":
        h = functools.partial(g, *args[:1])
        return maybe_force_args(passthrough_lazy_args(h) if islazy(g) else h, *args[1:], **kw)
    if entry == "trampjump":
        start = passthrough_lazy_args(lambda *a, **k: maybe_force_args(jump, Lazy(lambda: g), *a, **k))
        return maybe_force_args(lazy_trampolined(start), *args, **kw)
    if entry == "pipe":
        return pipe(Values(*args, **kw), g)
    if entry == "piped":
        return piped(*args, **kw) | g | exitpipe
    if entry == "lazy_piped":
        return lazy_piped(*args, **kw) | g | exitpipe
    if kw or n > 1:
        return enter("direct", g, args, kw)
    if entry == "pipe1":
        return pipe1(args[0], g)
    if entry == "piped1":
        return piped1(args[0]) | g | exitpipe
    if entry == "lazy_piped1":
        return lazy_piped1(args[0]) | g | exitpipe
    h = to1st(g) if entry == "to1st" else tokth(0, g)
    return maybe_force_args(h, *args).rets[0]


def run_stack(case):
    lazy, n, layers, entry, argkinds, kw = case
    if n > 1 or kw:
        layers = [x for x in layers if x not in ("composel1", "composer1")]
    if n == 1:
        layers = [x for x in layers if x not in ("rotate1", "rotate-1")]
    layers = [x for i, x in enumerate(layers) if x != "partialcurry" or i == 0]    # arity must be known
    # a strict function is entered by way of something that knows of promises
    if not lazy and any(x in OPAQUE for x in layers):
        layers = [x for i, x in enumerate(layers) if x not in OPAQUE or i == len(layers) - 1]
    if not lazy and (not layers or layers[-1] not in AWARE) and (entry in ("direct", "partial") or n > 1 or kw) and entry not in ("call", "callwith", "apply", "pipe", "piped", "lazy_piped"):
        entry = "mfa"

    def stack(lz, log):
        g = base(n, lz, log, kw)
        for x in layers:
            g = LAYERS[x](g)
        return g
    # where each argument ends up: run the strict version with plain tokens
    log = []
    toks = [Val(i) for i in range(n)]
    ktok = Val("k")
    res = stack(False, log)(*toks, **({"k": ktok} if kw else {}))
    eq(len(log), 1, f"the function was not called once {layers}")
    where = log[0]
    require(sorted(map(repr, where)) == sorted(map(repr, toks + ([ktok] if kw else []))), "arguments lost", (where, layers))
    # the real thing
    counts = []

    def mk(kind, i):
        v = Val(("v", i))
        if kind == "v":
            return v, v, None
        c = []
        counts.append(c)

        def thunk():
            c.append(1)
            return v
        p = Lazy(thunk)
        return {"p": (p, v, None), "list": ([p, 1], v, lambda x: x[0]), "dict": ({"z": [p]}, v, lambda x: x["z"][0]), "tuple": ((1, (p,)), v, lambda x: x[1][0])}[kind]
    if any(x == "memoize" for x in layers):
        argkinds = ["p" if k in ("list", "dict") else k for k in argkinds]
    made = [mk(k, i) for i, k in enumerate(argkinds[:n])]
    kmade = mk("p", "k")
    args = [m[0] for m in made]
    byrepr = {repr(t): m for t, m in zip(toks, made)}
    byrepr[repr(ktok)] = kmade
    log = []
    g = stack(lazy, log)
    if lazy:
        require(islazy(g) and islazy(stack(True, [])), "a transformer has lost the mark of a lazy-aware function", layers)
    require(not any(counts), "a transformer evaluated a promise", layers)
    r = enter(entry, g, args, {"k": kmade[0]} if kw else {})
    eq(len(log), 1, f"the function was not called once {layers} {entry}")
    for t, got in zip(where, log[0]):
        orig, v, path = byrepr[repr(t)]
        if lazy:
            if entry in ("pipe1",):   # the initial value of a pipe is forced, as documented
                require(got is orig or got is v, "a lazy-aware function got something else than the argument", (got, orig))
                continue
            require(got is orig, "a lazy-aware function did not get its argument as it is", (got, orig, layers, entry))
        else:
            require((path(got) if path else got) is v, "a strict function did not get the value of a promise", (got, v, layers, entry))
    require(all(len(c) == (0 if lazy else 1) for c in counts) or (lazy and entry == "pipe1") or (not lazy and not kw and all(len(c) <= 1 for c in counts)),
            "promises were evaluated when they should not be, or more than once", (counts, lazy))
    if isinstance(res, bool):
        require(r == res, "result differs", (r, res, layers, entry))
    else:
        require(r is res or (isinstance(res, Values) and r == res), "result differs", (r, res, layers, entry))


SUITES = [Suite("promise", histories, run_history, quick=6000, nontrivial=lambda c: sum(u in USES for u in c[1]) >= 2, labels=lambda c: c[1]),
          Suite("force", st.tuples(trees(3), st.booleans(), st.booleans()), run_tree, quick=12000, nontrivial=nontrivial_tree,
                labels=lambda c: [c[0] if isinstance(c[0], str) else c[0][0]]),
          Suite("calls", stacks, run_stack, quick=12000, nontrivial=lambda c: bool(c[2]), labels=lambda c: list(c[2]) + [c[3]])]
