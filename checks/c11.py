"""C11: containers."""
import copy
import pickle
import queue
import threading
from collections import OrderedDict, defaultdict, deque, namedtuple
from collections.abc import Hashable, Mapping, MutableMapping
from types import MappingProxyType

import hypothesis.strategies as st

from vp.core import Suite, require, eq, short
from unpythonic import frozendict, box, ThreadLocalBox, unbox, Some, Shim, mogrify, cons, nil, ll, Values, view, roview
from unpythonic.env import env

RULE = ("cases are frozendict construction histories with later changes to the inputs, box/Some/thread-local box operation histories over several threads, shim "
        "histories, and nested containers of every supported kind for mogrify. Non-trivial: at least two keys / operations / atoms")
TECHNIQUE = "model-based property-based testing (dict model, per-thread model, structural map model)"
ASSUMPTIONS = ["Some is immutable by API (no set, no <<); poking its attribute directly is not covered",
               "mogrify input is a tree: no container occurs in it twice"]

# ---------------------------------------------------------------- frozendict

keys = st.sampled_from(["a", "b", "c", "d", 1, 2, (1, 2), None, True, 1.0])
vals = st.one_of(st.integers(0, 5), st.sampled_from(["x", "y", None, (1, 2)]))
mapping = st.lists(st.tuples(keys, vals), max_size=4)


class FD(frozendict):
    pass


class FD2(FD):
    def extra(self):
        return 1


FDS = {"frozendict": frozendict, "FD": FD, "FD2": FD2}


@st.composite
def fd_cases(draw):
    ms = draw(st.lists(st.tuples(st.sampled_from(["dict", "pairs", "frozendict", "OrderedDict", "gen", "FD"]), mapping), max_size=3))
    kw = draw(st.dictionaries(st.sampled_from(["a", "b", "c", "self", "cls", "ms", "m"]), vals, max_size=3))
    kw.pop("self", None), kw.pop("cls", None)
    return dict(cls=draw(st.sampled_from(["frozendict", "frozendict", "FD", "FD2"])), ms=ms, kw=list(kw.items()), other=draw(mapping), proto=draw(st.integers(0, 5)), shuffle=draw(st.booleans()))


def run_fd(c):
    cls = FDS[c["cls"]]
    ref, inputs, args = {}, [], []
    for kind, pairs in c["ms"]:
        d = dict(pairs)
        a = {"dict": lambda: dict(d), "pairs": lambda: list(pairs), "frozendict": lambda: frozendict(d), "FD": lambda: FD(d), "OrderedDict": lambda: OrderedDict(d),
             "gen": lambda: (p for p in pairs)}[kind]()
        args.append(a)
        ref.update(pairs)
    ref.update(dict(c["kw"]))
    fd = cls(*args, **dict(c["kw"]))
    require(type(fd) is cls, "type of the new instance:", type(fd).__name__)
    for a in args:  # later changes of the inputs
        if isinstance(a, dict):
            a["zz"] = 1
            a.pop("a", None)
        elif isinstance(a, list):
            a.append(("zz", 1))
            if a:
                a[0] = ("a", "changed")

    def check(fd):
        eq(list(fd.items()), list(ref.items()), "items")
        eq(list(fd.keys()), list(ref.keys()), "keys")
        eq(list(fd.values()), list(ref.values()), "values")
        eq(list(fd), list(ref), "iteration")
        eq(len(fd), len(ref), "len")
        require(fd == ref and ref == fd and not (fd != ref), "equality with the dict")
        for k in ["a", "b", 1, 1.0, None, "zz", (1, 2)]:
            eq(k in fd, k in ref, "contains")
            eq(fd.get(k), ref.get(k), "get")
            eq(fd.get(k, 17), ref.get(k, 17), "get default")
            if k in ref:
                eq(fd[k], ref[k], "getitem")
            else:
                try:
                    fd[k]
                except KeyError:
                    pass
                else:
                    require(False, "missing key accepted")
    check(fd)
    other = dict(c["other"])
    eq(fd == frozendict(other), ref == other, "equality of frozendicts")
    eq(fd != FD(other), ref != other, "inequality of frozendicts")
    items = list(ref.items())
    twin = cls(dict(reversed(items)))
    require(twin == fd, "key order must not matter for equality")
    eq(hash(twin), hash(fd), "hash of equal frozendicts")
    eq(hash(frozendict(ref)), hash(fd), "hash of equal frozendicts (by class)")
    if isinstance(fd, Hashable):
        eq({fd: 1}[cls(ref)] if True else 1, 1, "as a dict key")
    require(isinstance(fd, Mapping) and not isinstance(fd, MutableMapping) and isinstance(fd, Hashable), "abcs")
    for f in (lambda: fd.__setitem__("a", 1), lambda: exec("fd['a'] = 1", {"fd": fd}), lambda: exec("del fd['a']", {"fd": fd}), lambda: fd.update(a=1), lambda: fd.pop("a"),
              lambda: fd.clear(), lambda: fd.setdefault("q", 1), lambda: fd.popitem(), lambda: exec("fd |= {1: 2}", {"fd": fd})):
        try:
            f()
        except (TypeError, AttributeError):
            pass
        else:
            require(False, "a frozendict was changed")
    for kw in (fd.keys(), fd.items()):
        require(not hasattr(kw, "add"), "views are read-only")
    check(fd)
    for dup in (copy.copy(fd), copy.deepcopy(fd), pickle.loads(pickle.dumps(fd, c["proto"])), cls(fd)):
        require(type(dup) is cls, "type of a copy", type(dup).__name__)
        check(dup)
        eq(hash(dup), hash(fd), "hash of a copy")
    upd = cls(fd, other)
    r2 = dict(ref)
    r2.update(other)
    eq(dict(upd.items()), r2, "functional update")
    check(fd)
    e = frozendict()
    require(type(e) is frozendict and e is frozendict() and len(e) == 0, "the empty frozendict is a singleton")
    require(pickle.loads(pickle.dumps(e, c["proto"])) == {}, "pickling the empty frozendict")
    if c["proto"] >= 2:
        require(pickle.loads(pickle.dumps(e, c["proto"])) is e and copy.copy(e) is e and copy.deepcopy(e) is e, "identity of the empty frozendict")


# ---------------------------------------------------------------- boxes

items = st.one_of(st.integers(-2, 3), st.sampled_from(["x", "y", None, "", (1, 2), [], [1], 0.0, False]))


@st.composite
def box_cases(draw):
    return dict(kind=draw(st.sampled_from(["box", "Some", "tlb"])), init=draw(items),
                ops=draw(st.lists(st.tuples(st.sampled_from(["set", "shift", "read", "none"]), items), max_size=6)), probe=draw(items))


def run_box(c):
    v = c["init"]
    b = {"box": box, "Some": Some, "tlb": ThreadLocalBox}[c["kind"]](v)

    def check():
        require(b.get() is v and unbox(b) is v, "content", short(b.get()), short(v))
        got = list(b)
        require(len(got) == 1 and got[0] is v, "iteration", short(got))
        eq(len(b), 1, "len")
        require(v in b, "contains its content")
        eq(c["probe"] in b, v == c["probe"], "contains")
        eq(b == c["probe"], v == c["probe"], "equality with content")
        eq(c["probe"] == b, v == c["probe"], "equality with content, reflected")
        for k in (box, Some, ThreadLocalBox):
            require(b == k(v) and not (b != k(v)), "equal contents, equal boxes")
            eq(b == k(c["probe"]), v == c["probe"], "equality of boxes")
        try:
            hash(b)
        except TypeError:
            pass
        else:
            require(c["kind"] == "Some", "a mutable box must not be hashable")
    check()
    for what, x in c["ops"]:
        if c["kind"] == "Some":
            for f in (lambda: b.set(x), lambda: b << x):
                try:
                    f()
                except (TypeError, AttributeError):
                    pass
                else:
                    require(False, "a Some was changed")
        elif what == "set":
            require(b.set(x) is x, "set returns the new value")
            v = x
        elif what == "shift":
            require((b << x) is x, "<< returns the new value")
            v = x
        check()
    for bad in (v, [v], None, 5):
        try:
            unbox(bad)
        except TypeError:
            pass
        else:
            require(False, "unbox of a non-box accepted")
    if c["kind"] != "tlb":
        b2 = pickle.loads(pickle.dumps(b))
        require(type(b2) is type(b) and b2 == b and b2 is not b, "pickle round trip")
        b3 = copy.copy(b)
        if c["kind"] == "box":
            b3 << "changed"
            require(b.get() is v, "a copied box is a separate box")


class Workers:
    def __init__(self, n):
        self.q = [queue.Queue() for _ in range(n)]
        self.out = queue.Queue()
        self.ts = [threading.Thread(target=self.loop, args=(q,), daemon=True) for q in self.q]
        for t in self.ts:
            t.start()

    def loop(self, q):
        while True:
            f = q.get()
            if f is None:
                return
            try:
                self.out.put((True, f()))
            except BaseException as e:
                self.out.put((False, e))

    def do(self, k, f):
        self.q[k].put(f)
        ok, r = self.out.get()
        if not ok:
            raise r
        return r

    def close(self):
        for q in self.q:
            q.put(None)
        for t in self.ts:
            t.join()


@st.composite
def tlb_cases(draw):
    return dict(init=draw(st.sampled_from(["d0", None, 0])), n=draw(st.integers(1, 3)),
                ops=draw(st.lists(st.tuples(st.integers(0, 2), st.sampled_from(["set", "shift", "clear", "setdefault", "box2", "shimset", "mogrify"]), st.sampled_from(["a", "b", None, 0, False, "c"])), min_size=1, max_size=12)))


def run_tlb(c):
    b, b2 = ThreadLocalBox(c["init"]), ThreadLocalBox("second")
    w = Workers(c["n"])
    default = c["init"]
    own, own2 = {}, {}
    try:
        for k, what, x in c["ops"]:
            k %= c["n"]
            if what == "set":
                w.do(k, lambda: b.set(x))
                own[k] = x
            elif what == "shift":
                w.do(k, lambda: b << x)
                own[k] = x
            elif what == "clear":
                w.do(k, b.clear)
                own.pop(k, None)
            elif what == "setdefault":
                w.do(k, lambda: b.setdefault(x))
                default = x
            elif what == "box2":
                w.do(k, lambda: b2 << x)
                own2[k] = x
            elif what == "mogrify":
                require(w.do(k, lambda: mogrify(lambda a: (a,), b)) is b, "mogrify of a box keeps its identity")
                own[k] = (own.get(k, default),)
            for j in range(c["n"]):
                want = own.get(j, default)
                got = w.do(j, lambda: (b.get(), unbox(b), list(b), b.getdefault(), len(b), b == want, want in b))
                eq(got, (want, want, [want], default, 1, True, True), f"thread {j} after {what} in thread {k}")
                eq(w.do(j, b2.get), own2.get(j, "second"), "another box")
            eq(unbox(b), default, "a thread that sent nothing")
    finally:
        w.close()


class Target:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def tag(self):
        return ("tag", self.__dict__.get("id"))


class FalsyTarget(Target):
    def __len__(self):
        return 0


@st.composite
def shim_cases(draw):
    names = st.sampled_from(["x", "y", "z"])
    objs = draw(st.lists(st.dictionaries(names, st.integers(0, 9), max_size=3), min_size=2, max_size=4))
    fb = draw(st.sampled_from(["none", "object", "box", "tlb", "falsy", "falsybox"]))
    return dict(objs=[list(o.items()) for o in objs], fb=fb, boxkind=draw(st.sampled_from(["box", "tlb"])),
                ops=draw(st.lists(st.one_of(st.tuples(st.just("put"), st.integers(0, 3), st.just(0)), st.tuples(st.just("set"), names, st.integers(10, 19)), st.tuples(st.just("putfb"), st.integers(0, 3), st.just(0))), max_size=8)))


def run_shim(c):
    falsy = c["fb"].startswith("falsy")
    objs = [(FalsyTarget if falsy else Target)(id=i, **dict(o)) for i, o in enumerate(c["objs"])]
    model = [dict(o, id=i) for i, o in enumerate(c["objs"])]
    cur, fbi = 0, 1
    b = (box if c["boxkind"] == "box" else ThreadLocalBox)(objs[0])
    fb = c["fb"]
    fbox = None
    if fb == "none":
        sh = Shim(b)
    elif fb in ("object", "falsy"):
        sh = Shim(b, fallback=objs[1])
    else:
        fbox = (ThreadLocalBox if fb == "tlb" else box)(objs[1])
        sh = Shim(b, fallback=fbox)

    def check():
        for k in ("x", "y", "z", "id", "nope"):
            if k in model[cur]:
                want = model[cur][k]
            elif fb != "none" and k in model[fbi]:
                want = model[fbi][k]
            else:
                require(not hasattr(sh, k), "attribute", k, "should be missing")
                try:
                    getattr(sh, k)
                except AttributeError:
                    continue
                require(False, "missing attribute read")
            eq(getattr(sh, k), want, f"attribute {k} through the shim")
        eq(sh.tag(), ("tag", cur), "method call through the shim")
        for o, m in zip(objs, model):
            eq(o.__dict__, m, "target objects")
    check()
    for what, a, x in c["ops"]:
        if what == "put":
            cur = a % len(objs)
            b << objs[cur]
        elif what == "putfb":
            if fbox is not None:
                fbi = a % len(objs)
                fbox << objs[fbi]
        else:
            setattr(sh, a, x)
            model[cur][a] = x
        check()
    try:
        Shim(objs[0])
    except TypeError:
        pass
    else:
        require(False, "a shim needs a box")


# ---------------------------------------------------------------- mogrify

NT = namedtuple("NT", "p q")
atom = st.one_of(st.integers(0, 50), st.sampled_from(["s", "t", b"by"]).map(lambda a: a if isinstance(a, str) else "by"))


def spec():
    return st.recursive(
        st.tuples(st.just("atom"), st.integers(0, 30)) | st.tuples(st.just("atom"), st.sampled_from(["s", "tt", None, True, 2.5])),
        lambda ch: st.one_of(
            st.tuples(st.sampled_from(["list", "tuple", "deque", "MyList", "MyTuple", "ll", "view", "roview", "roviewt", "roviewnt", "bigview"]), st.lists(ch, max_size=4)),
            st.tuples(st.just("NT"), st.lists(ch, min_size=2, max_size=2)),
            st.tuples(st.sampled_from(["dict", "frozendict", "OrderedDict", "proxy", "defaultdict", "MyFD"]), st.lists(ch, max_size=4)),
            st.tuples(st.sampled_from(["box", "Some", "tlb"]), st.lists(ch, min_size=1, max_size=1)),
            st.tuples(st.sampled_from(["cons"]), st.lists(ch, min_size=2, max_size=2)),
            st.tuples(st.sampled_from(["Values"]), st.lists(ch, min_size=1, max_size=3), st.integers(0, 2)),
            st.tuples(st.sampled_from(["set", "frozenset", "keys", "dvalues"]), st.lists(st.tuples(st.just("atom"), st.integers(0, 30)), max_size=4)),
            st.tuples(st.just("env"), st.lists(ch, max_size=2)),
        ), max_leaves=12)


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MyFD(frozendict):
    pass


KEYS = ["k0", "k1", "k2", "k3"]


def run_mogrify(c):
    log = []
    checks = []

    def f(a):
        log.append(a)
        return ("f", a) if not isinstance(a, env) else a

    def build(sp):
        """-> (container, expected-checker, expected atoms)"""
        kind = sp[0]
        if kind == "atom":
            a = sp[1]
            atoms.append(a)
            return a, lambda got: require(type(got) is tuple and len(got) == 2 and got[0] == "f" and got[1] == a and type(got[1]) is type(a), "atom", short(got), short(a))
        if kind == "env":
            e = env(**{f"n{i}": i for i in range(len(sp[1]))})
            atoms.append(e)
            return e, lambda got: require(got is e, "env is an atom")
        if kind in ("set", "frozenset", "keys", "dvalues"):
            vals = list(dict.fromkeys(x[1] for x in sp[1]))
            atoms.extend(vals)
            want = {("f", v) for v in vals}
            if kind == "set":
                x = set(vals)
                return x, lambda got: require(got is x and got == want, "set in place", short(got))
            if kind == "frozenset":
                x = frozenset(vals)
                return x, lambda got: require(type(got) is frozenset and got == want, "frozenset", short(got))
            d = {v: 1 for v in vals} if kind == "keys" else {i: v for i, v in enumerate(vals)}
            x = d.keys() if kind == "keys" else d.values()
            return x, lambda got: require(set(got) == want, "dict view", short(got))
        parts = [build(s) for s in sp[1]]
        xs, chks = [p[0] for p in parts], [p[1] for p in parts]

        def seqcheck(got):
            got = list(got)
            eq(len(got), len(chks), f"length of {kind}")
            for g, ck in zip(got, chks):
                ck(g)
        if kind in ("list", "deque", "MyList"):
            x = {"list": list, "deque": deque, "MyList": MyList}[kind](xs)
            return x, lambda got: (require(got is x, kind, "keeps its identity"), seqcheck(got))
        if kind in ("tuple", "MyTuple"):
            T = tuple if kind == "tuple" else MyTuple
            x = T(xs)
            return x, lambda got: (require(type(got) is T, kind, "keeps its type"), seqcheck(got), eq(list(x), xs, "the original tuple"))
        if kind == "NT":
            x = NT(*xs)
            return x, lambda got: (require(type(got) is NT, "namedtuple type"), seqcheck(got))
        if kind == "ll":
            x = ll(*xs)
            return x, lambda got: (require(got is nil if not xs else isinstance(got, cons), "linked list"), seqcheck(got))
        if kind == "cons":
            x = cons(*xs)
            return x, lambda got: (require(isinstance(got, cons), "cons"), chks[0](got.car), chks[1](got.cdr))
        if kind == "view":
            lst = list(xs)
            x = view(lst)
            return x, lambda got: (require(got is x, "view identity"), seqcheck(got), seqcheck(lst))
        if kind == "bigview":
            lst = [-1] + list(xs) + [-2]
            x = view(lst)[1:-1]
            return x, lambda got: (require(got is x, "view identity"), seqcheck(got), eq((lst[0], lst[-1]), (-1, -2), "outside of the view"))
        if kind in ("roview", "roviewt"):
            lst = list(xs) if kind == "roview" else tuple(xs)
            x = roview(lst)
            return x, lambda got: (require(type(got) is type(lst), "type of a mapped read-only view", short(type(got))), seqcheck(got))
        if kind == "roviewnt":
            if len(xs) != 2:
                x = roview(tuple(xs))
            else:
                x = roview(NT(*xs))
            return x, seqcheck
        if kind in ("dict", "OrderedDict", "defaultdict", "frozendict", "proxy", "MyFD"):
            d = dict(zip(KEYS, xs))
            x = {"dict": lambda: d, "OrderedDict": lambda: OrderedDict(d), "defaultdict": lambda: defaultdict(int, d), "frozendict": lambda: frozendict(d), "MyFD": lambda: MyFD(d),
                 "proxy": lambda: MappingProxyType(d)}[kind]()

            def dcheck(got):
                if kind in ("dict", "OrderedDict", "defaultdict"):
                    require(got is x, kind, "keeps its identity")
                else:
                    require(type(got) is type(x), kind, "keeps its type", short(type(got)))
                eq(list(got.keys()), KEYS[:len(xs)], "keys are kept")
                seqcheck(got.values())
            return x, dcheck
        if kind in ("box", "tlb"):
            x = {"box": box, "tlb": ThreadLocalBox}[kind](xs[0])
            return x, lambda got: (require(got is x, "box identity"), chks[0](unbox(got)))
        if kind == "Some":
            x = Some(xs[0])
            return x, lambda got: (require(type(got) is Some, "Some"), chks[0](unbox(got)))
        if kind == "Values":
            nk = min(sp[2], len(xs))
            x = Values(*xs[nk:], **{f"v{i}": a for i, a in enumerate(xs[:nk])})

            def vcheck(got):
                require(type(got) is Values, "Values")
                eq(len(got.rets), len(xs) - nk, "positional")
                eq(sorted(got.kwrets), [f"v{i}" for i in range(nk)], "named")
                for g, ck in zip(got.rets, chks[nk:]):
                    ck(g)
                for i in range(nk):
                    chks[i](got.kwrets[f"v{i}"])
            return x, vcheck
        raise AssertionError(kind)
    atoms = []
    x, check = build(c)
    got = mogrify(f, x)
    check(got)
    key = lambda a: (type(a).__name__, repr(a) if not isinstance(a, env) else id(a))  # noqa: E731
    eq(sorted(map(str, map(key, log))), sorted(map(str, map(key, atoms))), "every atom exactly once")


def count_atoms(sp):
    return 1 if sp[0] == "atom" else sum(count_atoms(s) for s in sp[1])


SUITES = [
    Suite("frozendict", fd_cases(), run_fd, quick=1500, nontrivial=lambda c: sum(len(m[1]) for m in c["ms"]) + len(c["kw"]) >= 2),
    Suite("box", box_cases(), run_box, quick=1000, nontrivial=lambda c: len(c["ops"]) >= 2),
    Suite("threadlocalbox", tlb_cases(), run_tlb, quick=600, shards=2, nontrivial=lambda c: len(c["ops"]) >= 2),
    Suite("shim", shim_cases(), run_shim, quick=800, nontrivial=lambda c: len(c["ops"]) >= 2),
    Suite("mogrify", spec(), run_mogrify, quick=2500, nontrivial=lambda c: count_atoms(c) >= 2),
]
