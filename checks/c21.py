"""C21: run-time type checking."""
import collections
import collections.abc
import types
import typing
import warnings

import hypothesis.strategies as st

from vp.core import Suite, require, eq
from unpythonic import isoftype, frozendict

RULE = ("cases are pairs of a generated type specification (nesting of all supported constructors) and a value generated to match it, mostly, with deviations at random depth; and collections of up to 600 elements with one "
        "deviating element anywhere. "
        "Non-trivial: the specification has at least two constructors, or is a container class")
TECHNIQUE = "property-based testing: generated type specifications and values against a recursive reference matcher over the specification's syntax tree"
ASSUMPTIONS = ["an empty collection matches no parametric collection type, as documented in the unit tests; bare collection types are checked on non-empty values only",
               "argument and return types of callables are not checked, as documented"]

warnings.simplefilter("ignore", DeprecationWarning)


class A:
    pass


class B(A):
    pass


class ML(list):
    pass


class MS(str):
    pass


class MD(dict):
    pass


class Cal:
    def __call__(self):
        pass


class Num:
    def __int__(self):
        return 1

    def __abs__(self):
        return self


class Falsy:
    def __bool__(self):
        return False


class Seq(collections.abc.Sequence):
    """Registered as a sequence by inheritance, without being a list."""
    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]

    def __eq__(self, other):
        return isinstance(other, Seq) and self.items == other.items
    __hash__ = None


class Map(collections.abc.Mapping):
    def __init__(self, d):
        self.d = d

    def __len__(self):
        return len(self.d)

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)


NT = collections.namedtuple("NT", "a b")


def func(x):
    return x


CLASSES = {"int": int, "bool": bool, "float": float, "complex": complex, "str": str, "bytes": bytes, "none": type(None), "A": A, "B": B, "ML": ML, "MS": MS, "MD": MD, "Cal": Cal, "NT": NT, "list": list,
           "tuple": tuple, "dict": dict, "set": set, "frozenset": frozenset, "range": range, "type": type, "function": types.FunctionType, "object": object, "deque": collections.deque,
           "OrderedDict": collections.OrderedDict, "defaultdict": collections.defaultdict, "frozendict": frozendict, "bytearray": bytearray, "Seq": Seq, "Map": Map, "Falsy": Falsy, "Num": Num,
           "abcSequence": collections.abc.Sequence, "abcMapping": collections.abc.Mapping, "abcCallable": collections.abc.Callable, "generator": types.GeneratorType, "Exception": Exception}
ATOMIC = ["int", "bool", "float", "str", "bytes", "none", "A", "B"]
ONE = {"list": (typing.List, list), "seq": (typing.Sequence, collections.abc.Sequence), "mutseq": (typing.MutableSequence, collections.abc.MutableSequence), "deque": (typing.Deque, collections.deque),
       "set": (typing.Set, set), "frozenset": (typing.FrozenSet, frozenset), "absset": (typing.AbstractSet, collections.abc.Set), "mutset": (typing.MutableSet, collections.abc.MutableSet),
       "keys": (typing.KeysView, collections.abc.KeysView), "values": (typing.ValuesView, collections.abc.ValuesView)}
TWO = {"dict": (typing.Dict, dict), "map": (typing.Mapping, collections.abc.Mapping), "mutmap": (typing.MutableMapping, collections.abc.MutableMapping), "items": (typing.ItemsView, collections.abc.ItemsView)}
PROTO = {"SupportsInt": "__int__", "SupportsFloat": "__float__", "SupportsComplex": "__complex__", "SupportsBytes": "__bytes__", "SupportsIndex": "__index__", "SupportsAbs": "__abs__", "SupportsRound": "__round__"}
PONIES = ["Iterator", "Iterable", "Container", "Collection", "Hashable", "Sized", "Reversible"]


def specs(depth, hashable=False):
    leaf = st.one_of(st.just(("any",)), st.sampled_from(ATOMIC).map(lambda c: ("cls", c)), st.sampled_from(ATOMIC).map(lambda c: ("cls", c)), st.sampled_from(sorted(CLASSES)).map(lambda c: ("cls", c)),
                     st.sampled_from(sorted(CLASSES)).map(lambda c: ("cls", c)), st.just(("typevar",)), st.sampled_from(sorted(PROTO)).map(lambda p: ("proto", p)), st.sampled_from(PONIES).map(lambda p: ("pony", p)),
                     st.just(("callable",)), st.just(("callable2",)), st.just(("text",)), st.just(("anystr",)), st.just(("bytestring",)), st.just(("tuple0",)), st.just(("bare", "Tuple")),
                     st.sampled_from(sorted(ONE) + sorted(TWO)).map(lambda k: ("bare", k)), st.just(("bareunion",)))
    if depth == 0:
        return leaf
    sub = st.deferred(lambda: specs(depth - 1))
    hsub = st.one_of(sub, st.sampled_from(ATOMIC).map(lambda c: ("cls", c)), st.tuples(st.just("tuple"), st.lists(st.sampled_from(ATOMIC).map(lambda c: ("cls", c)), min_size=1, max_size=2)))
    node = st.one_of(st.tuples(st.just("constrained"), st.lists(sub, min_size=2, max_size=3)), st.tuples(st.just("bound"), sub), st.tuples(st.just("newtype"), sub),
                     st.tuples(st.just("union"), st.lists(sub, min_size=1, max_size=3)), st.tuples(st.just("optional"), sub), st.tuples(st.just("tuple"), st.lists(sub, min_size=1, max_size=3)),
                     st.tuples(st.just("tuple*"), sub), st.tuples(st.sampled_from(["list", "seq", "mutseq", "deque", "values"]), sub), st.tuples(st.sampled_from(["set", "frozenset", "absset", "mutset", "keys"]), hsub),
                     st.tuples(st.sampled_from(sorted(TWO)), hsub, sub))
    return st.one_of(node, node, node, leaf)


def build(s):
    """Specification -> typing object"""
    k = s[0]
    if k == "any":
        return typing.Any
    if k == "cls":
        return CLASSES[s[1]]
    if k == "typevar":
        return typing.TypeVar("T")
    if k == "constrained":
        return typing.TypeVar("T", *map(build, s[1]))
    if k == "bound":
        return typing.TypeVar("T", bound=build(s[1]))
    if k == "newtype":
        return typing.NewType("N", build(s[1]))
    if k == "union":
        return typing.Union[tuple(map(build, s[1]))]
    if k == "optional":
        return typing.Optional[build(s[1])]
    if k == "bareunion":
        return typing.Union
    if k == "tuple":
        return typing.Tuple[tuple(map(build, s[1]))]
    if k == "tuple*":
        return typing.Tuple[build(s[1]), ...]
    if k == "tuple0":
        return typing.Tuple[()]
    if k == "bare":
        return typing.Tuple if s[1] == "Tuple" else {**ONE, **TWO}[s[1]][0]
    if k in ONE:
        return ONE[k][0][build(s[1])]
    if k in TWO:
        return TWO[k][0][build(s[1]), build(s[2])]
    return {"proto": lambda: getattr(typing, s[1]), "pony": lambda: getattr(typing, s[1]), "callable": lambda: typing.Callable, "callable2": lambda: typing.Callable[[int], str],
            "text": lambda: typing.Text, "anystr": lambda: typing.AnyStr, "bytestring": lambda: typing.ByteString}[k]()


class Unspecified(Exception):
    pass


def match(v, s):
    k = s[0]
    if k in ("any", "typevar"):
        return True
    if k == "cls":
        return isinstance(v, CLASSES[s[1]])
    if k in ("constrained", "union"):
        return any([match(v, u) for u in s[1]])
    if k in ("bound", "newtype"):
        return match(v, s[1])
    if k == "optional":
        return v is None or match(v, s[1])
    if k == "bareunion":
        return False
    if k == "tuple":
        return isinstance(v, tuple) and len(v) == len(s[1]) and all([match(x, u) for x, u in zip(v, s[1])])
    if k == "tuple*":
        return isinstance(v, tuple) and len(v) > 0 and all([match(x, s[1]) for x in v])
    if k == "tuple0":
        return isinstance(v, tuple) and len(v) == 0
    if k == "bare":
        if s[1] == "Tuple":
            return isinstance(v, tuple)
        if not isinstance(v, {**ONE, **TWO}[s[1]][1]):
            return False
        if not len(v):
            raise Unspecified()
        return True
    if k in ONE:
        return isinstance(v, ONE[k][1]) and len(v) > 0 and all([match(x, s[1]) for x in v])
    if k == "items":
        return isinstance(v, collections.abc.ItemsView) and len(v) > 0 and all([match(a, s[1]) and match(b, s[2]) for a, b in v])
    if k in TWO:
        return isinstance(v, TWO[k][1]) and len(v) > 0 and all([match(a, s[1]) and match(v[a], s[2]) for a in v])
    if k == "proto":
        return hasattr(type(v), PROTO[s[1]])
    if k == "pony":
        return isinstance(v, getattr(collections.abc, s[1]))
    if k in ("callable", "callable2"):
        return callable(v)
    if k == "text":
        return isinstance(v, str)
    if k == "anystr":
        return isinstance(v, (str, bytes))
    if k == "bytestring":
        if isinstance(v, (bytes, bytearray)) and not v:
            raise Unspecified()
        return isinstance(v, (bytes, bytearray))
    raise ValueError(s)


# ---------------------------------------------------------------- values, as literal trees

hvals = st.deferred(lambda: st.one_of(st.integers(-2, 2).map(lambda n: ("int", n)), st.booleans().map(lambda b: ("bool", b)), st.sampled_from([0.0, 1.5]).map(lambda x: ("float", x)),
                                      st.sampled_from(["", "a", "bc"]).map(lambda x: ("str", x)), st.sampled_from([b"", b"a"]).map(lambda x: ("bytes", x)), st.just(("none",)),
                                      st.sampled_from(["A", "B", "Cal", "Falsy", "Num", "func", "class", "len", "lambda", "exc"]).map(lambda x: ("obj", x)), st.sampled_from(["", "x"]).map(lambda x: ("MS", x)),
                                      st.sampled_from([0, 2]).map(lambda x: ("range", x)), st.lists(hvals, max_size=2).map(lambda x: ("tuple", x)), st.lists(hvals, max_size=2).map(lambda x: ("frozenset", x))))
vals = st.deferred(lambda: st.one_of(hvals, hvals, st.tuples(st.sampled_from(["list", "tuple", "ML", "deque", "iter", "gen", "Seq"]), st.lists(vals, max_size=3)), st.tuples(st.just("NT"), st.lists(vals, min_size=2, max_size=2)),
                                     st.tuples(st.sampled_from(["set", "frozenset"]), st.lists(hvals, max_size=3)), st.just(("bytearray", b"ab")),
                                     st.tuples(st.sampled_from(["dict", "MD", "OrderedDict", "defaultdict", "frozendict", "Map", "keys", "values", "items"]), st.lists(st.tuples(hvals, vals), max_size=3))))

CLSVALS = {"none": ("none",), "MS": ("MS", "q"), "A": ("obj", "A"), "B": ("obj", "B"), "Cal": ("obj", "Cal"), "Falsy": ("obj", "Falsy"), "Num": ("obj", "Num"), "type": ("obj", "class"), "function": ("obj", "func"),
           "range": ("range", 2), "generator": ("gen", [("int", 1)]), "Exception": ("obj", "exc"), "bytearray": ("bytearray", b"ab"), "int": ("int", 7), "bool": ("bool", True), "float": ("float", 0.5), "str": ("str", "zz"),
           "bytes": ("bytes", b"zz"), "complex": ("obj", "complex"), "object": ("obj", "object"), "abcCallable": ("obj", "len")}


@st.composite
def value_for(draw, s, hashable=False, depth=0):
    """A value that probably matches s."""
    if draw(st.integers(0, 11)) == 0 or depth > 6:
        return draw(hvals if hashable else vals)
    k = s[0]

    def rec(u, h=hashable):
        return draw(value_for(u, h, depth + 1))

    def some(u, h=hashable):
        return [rec(u, h) for _ in range(draw(st.sampled_from([1, 1, 2, 2, 3, 0])))]

    def pairs(a, b):
        return [(rec(a, True), rec(b)) for _ in range(draw(st.sampled_from([1, 1, 2, 2, 0])))]
    if k == "cls":
        c = s[1]
        if c in CLSVALS:
            return draw(hvals) if hashable and c in ("bytearray",) else CLSVALS[c]
        if c in ("tuple", "NT"):
            return (c, [draw(hvals), draw(hvals)])
        if hashable:
            return draw(hvals)
        if c in ("dict", "OrderedDict", "defaultdict", "frozendict", "MD", "Map", "abcMapping"):
            kind = "frozendict" if c == "abcMapping" else c
            return (kind, pairs(("cls", "int"), ("any",)))
        return ({"abcSequence": "Seq"}.get(c, c), some(("any",), c in ("set", "frozenset")))
    if k in ("constrained", "union"):
        return rec(draw(st.sampled_from(s[1])))
    if k in ("bound", "newtype"):
        return rec(s[1])
    if k == "optional":
        return ("none",) if draw(st.booleans()) else rec(s[1])
    if k == "tuple":
        return ("tuple", [rec(u) for u in s[1]])
    if k == "tuple*":
        return ("tuple", some(s[1]))
    if k == "tuple0":
        return ("tuple", [])
    if hashable:
        return ("frozenset", some(s[1], True)) if k in ("frozenset", "absset") else ("tuple", some(s[1])) if k == "seq" else draw(hvals)
    if k in ("list", "deque"):
        return (k, some(s[1]))
    if k == "seq":
        return (draw(st.sampled_from(["list", "tuple", "deque", "Seq"])), some(s[1]))
    if k == "mutseq":
        return (draw(st.sampled_from(["list", "deque", "ML"])), some(s[1]))
    if k in ("set", "mutset"):
        return ("set", some(s[1], True))
    if k in ("frozenset", "absset"):
        return (draw(st.sampled_from(["frozenset", "set"])) if k == "absset" else k, some(s[1], True))
    if k == "keys":
        return ("keys", pairs(s[1], ("any",)))
    if k == "values":
        return ("values", pairs(("any",), s[1]))
    if k in ("dict", "mutmap"):
        return (draw(st.sampled_from(["dict", "OrderedDict", "defaultdict"])), pairs(s[1], s[2]))
    if k == "map":
        return (draw(st.sampled_from(["dict", "frozendict", "Map"])), pairs(s[1], s[2]))
    if k == "items":
        return ("items", pairs(s[1], s[2]))
    if k == "bare":
        if s[1] in ONE:
            return draw(value_for((s[1], ("any",)), False, depth + 1))
        if s[1] in TWO:
            return draw(value_for((s[1], ("any",), ("any",)), False, depth + 1))
    return draw(hvals) if hashable else draw(vals)


OBJS = {"A": A(), "B": B(), "Cal": Cal(), "Falsy": Falsy(), "Num": Num(), "func": func, "class": int, "len": len, "lambda": lambda: 0, "exc": ValueError(), "complex": 1j, "object": object()}


def make(v):
    k = v[0]
    if k == "none":
        return None
    if k == "obj":
        return OBJS[v[1]]
    if k in ("int", "bool", "float", "str", "bytes"):
        return v[1]
    if k == "MS":
        return MS(v[1])
    if k == "range":
        return range(v[1])
    if k == "bytearray":
        return bytearray(v[1])
    if k in ("dict", "MD", "OrderedDict", "defaultdict", "frozendict", "Map", "keys", "values", "items"):
        d = {make(a): make(b) for a, b in v[1]}
        return {"dict": lambda: d, "MD": lambda: MD(d), "OrderedDict": lambda: collections.OrderedDict(d), "defaultdict": lambda: collections.defaultdict(list, d), "frozendict": lambda: frozendict(d),
                "Map": lambda: Map(d), "keys": d.keys, "values": d.values, "items": d.items}[k]()
    xs = [make(x) for x in v[1]]
    return {"list": lambda: xs, "tuple": lambda: tuple(xs), "ML": lambda: ML(xs), "deque": lambda: collections.deque(xs), "iter": lambda: iter(xs), "gen": lambda: (x for x in xs), "Seq": lambda: Seq(xs),
            "NT": lambda: NT(*xs), "set": lambda: set(xs), "frozenset": lambda: frozenset(xs)}[k]()


def dump(x):
    """Contents, for comparison after the check. Consumes iterators."""
    if isinstance(x, dict) or isinstance(x, collections.abc.Mapping):
        return (type(x).__name__, [(dump(k), dump(x[k])) for k in x])
    if isinstance(x, (list, tuple, collections.deque, Seq, collections.abc.ItemsView, collections.abc.KeysView, collections.abc.ValuesView, collections.abc.Iterator)):
        return (type(x).__name__, [dump(e) for e in x])
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, sorted(repr(dump(e)) for e in x))
    return (type(x).__name__, x if isinstance(x, (int, str, float, bytes, bytearray)) else id(x) if x in OBJS.values() else repr(x))


cases = specs(3).flatmap(lambda s: st.tuples(st.just(s), value_for(s)))
cross = st.tuples(specs(2), vals)


def run(case):
    s, v = case
    try:
        T = build(s)
    except TypeError:  # typing itself refuses, e.g. a NewType of a Union in a Union
        return
    x = make(v)
    try:
        want = match(x, s)
    except Unspecified:
        return
    got = isoftype(x, T)
    require(isinstance(got, bool), "isoftype gave", got)
    eq(got, want, f"isoftype({x!r:.200}, {T!r:.200})")
    # (a generator is displayed with its address; compare what it still gives)
    eq(dump(x), dump(make(v)), "the value after the check")
    eq(isoftype(make(v), T), want, "a second check")


# Long collections: one element repeated, another one somewhere (or nowhere)
long_ = st.tuples(st.sampled_from(sorted(ONE) + ["tuple*"] + sorted(TWO)), st.sampled_from(["int", "str", "optional", "pair"]), st.sampled_from(["value", "value", "key"]), st.integers(1, 600), st.integers(0, 600),
                  st.sampled_from(["odd", "odd", "even"]))
LSPEC = {"int": ("cls", "int"), "str": ("cls", "str"), "optional": ("optional", ("cls", "int")), "pair": ("tuple", [("cls", "int"), ("cls", "str")])}


def run_long(case):
    kind, elt, side, n, at, odd = case
    good = {"int": lambda i: i, "str": str, "optional": lambda i: i if i % 2 else None, "pair": lambda i: (i, str(i))}[elt]
    if kind in ("set", "frozenset", "absset", "mutset", "keys", "dict", "map", "mutmap", "items") and elt == "optional":
        good = lambda i: i
    xs = [good(i) for i in range(n)]
    if odd == "odd":
        xs.insert(at % (n + 1), 2.5)
    T = build((kind, LSPEC[elt]) if kind not in TWO else (kind, LSPEC[elt], ("cls", "int")) if side == "key" else (kind, ("any",), LSPEC[elt]))
    if kind in TWO or kind in ("keys", "values"):
        d = {x: 1 for x in xs} if kind == "keys" or kind in TWO and side == "key" else dict(enumerate(xs))
        v = {"keys": d.keys, "values": d.values, "items": d.items, "map": lambda: frozendict(d)}.get(kind, lambda: d)()
    else:
        v = {"list": list, "seq": tuple, "mutseq": list, "deque": collections.deque, "set": set, "frozenset": frozenset, "absset": frozenset, "mutset": set, "tuple*": tuple}[kind](xs)
    eq(isoftype(v, T), odd != "odd", f"isoftype({type(v).__name__} of {len(v)}, {T!r})")


def size(s):
    return 1 + sum(size(x) if isinstance(x, tuple) else sum(map(size, x)) if isinstance(x, list) else 0 for x in s[1:])


def nontrivial(c):
    return size(c[0]) >= 2 or c[0][0] == "cls" and c[0][1] not in ATOMIC


SUITES = [
    Suite("matching values", cases, run, quick=12000, shards=6, nontrivial=nontrivial, labels=lambda c: [c[0][0]]),
    Suite("arbitrary values", cross, run, quick=8000, shards=3, nontrivial=nontrivial),
    Suite("long collections", long_, run_long, quick=600, nontrivial=lambda c: c[3] >= 10),
]
