"""C12: linked lists and cons trees."""
import copy
import itertools
import pickle
import sys

import hypothesis.strategies as st

from vp.core import Suite, require, eq, short
import unpythonic as u
from unpythonic import cons, nil, ll, llist, car, cdr, lreverse, lappend, lzip, foldl, foldr, scanl
from unpythonic.llist import member, JackOfAllTradesIterator, LinkedListIterator, TailIterator, BinaryTreeIterator, ConsIterator

RULE = ("cases are lists (nested, of several lengths up to thousands) and binary trees of every shape, proper and improper, with all list operations, "
        "accessors and round trips applied. Non-trivial: at least two cells")
TECHNIQUE = "property-based testing against Python lists and nested pairs; round trips through eval, pickle and copy"
ASSUMPTIONS = ["leaves of a binary tree are each visited exactly once; the order between subtrees of different depth is not specified",
               "recursion (repr, hash, pickle) is exercised within the interpreter's default limits"]

atoms = st.one_of(st.integers(-3, 9), st.sampled_from(["a", "b", None, True, 2.5, (1, 2), ""]))
# literal trees: ("L", [items]) proper list, ("C", a, d) cell, else atom;  ("N",) = nil
tree = st.recursive(st.one_of(atoms.map(lambda a: ("A", a)), st.just(("N",))),
                    lambda ch: st.one_of(st.tuples(st.just("L"), st.lists(ch, max_size=4)), st.tuples(st.just("C"), ch, ch)), max_leaves=12)


def build(t):
    if t[0] == "A":
        return t[1]
    if t[0] == "N":
        return nil
    if t[0] == "C":
        return cons(build(t[1]), build(t[2]))
    return ll(*[build(x) for x in t[1]])


def pairs(t):
    """The model: nested 2-tuples tagged, nil as ()."""
    if t[0] == "A":
        return ("atom", t[1])
    if t[0] == "N":
        return ()
    if t[0] == "C":
        return ("cell", pairs(t[1]), pairs(t[2]))
    out = ()
    for x in reversed(t[1]):
        out = ("cell", pairs(x), out)
    return out


def topairs(x):
    if x is nil:
        return ()
    if isinstance(x, cons):
        return ("cell", topairs(x.car), topairs(x.cdr))
    return ("atom", x)


def elements(m):
    """-> (list of cars, the final cdr) of a model cell"""
    out = []
    while m and m[0] == "cell":
        out.append(m[1])
        m = m[2]
    return out, m


def leaves(m):
    if m == ():
        return [("nil",)]
    if m[0] == "atom":
        return [m]
    return leaves(m[1]) + leaves(m[2])


def leaf(x):
    return ("nil",) if x is nil else ("atom", x)


def access(m, path):
    """path like 'add' as in c[add]r: applied right to left"""
    for ch in reversed(path):
        if m == () or m[0] != "cell":
            return None
        m = m[1] if ch == "a" else m[2]
    return m


ACC = [f"c{''.join(p)}r" for n in (1, 2, 3, 4) for p in itertools.product("ad", repeat=n)]


@st.composite
def tree_cases(draw):
    return dict(t=draw(tree.filter(lambda t: t[0] in "CL")), other=draw(tree), proto=draw(st.integers(0, 5)), copyother=draw(st.booleans()))


def norm(m):
    return repr(m)


def run_tree(c):
    x = build(c["t"])
    m = pairs(c["t"])
    eq(norm(topairs(x)), norm(m), "structure")
    if m == ():
        require(x is nil, "empty list is nil")
    # equality and hashing against the model
    y = build(c["other"])
    my = pairs(c["other"])
    if m != ():
        eq(x == y, m == my, "equality")
        eq(x != y, m != my, "inequality")
        twin = build(c["t"])
        require(x == twin and twin == x and hash(x) == hash(twin), "equal structures are equal and hash equally")
        require({x: 1}.get(twin) == 1, "as a dict key")
    # accessors
    for name in ACC:
        f = getattr(u, name)
        want = access(m, name[1:-1])
        try:
            got = f(x)
        except TypeError:
            require(want is None, f"{name} refused a valid structure")
        else:
            require(want is not None, f"{name} accepted an invalid structure")
            eq(norm(topairs(got)), norm(want), name)
    if m == ():
        return
    # default iteration: linked list or a single cell
    cars, end = elements(m)
    want = cars if end == () else (cars + [end] if len(cars) == 1 else None)
    try:
        got = [topairs(e) for e in x]
    except TypeError:
        require(want is None, "iteration refused a proper list or a single cell")
    else:
        require(want is not None, "iteration of an improper structure must not end silently:", short(got))
        eq(norm(got), norm(want), "iteration")
    for it, getter in ((LinkedListIterator, lambda e: e), (TailIterator, lambda e: e.car)):
        try:
            got = [topairs(getter(e)) for e in it(x)]
        except TypeError:
            require(end != (), f"{it.__name__} refused a proper list")
        else:
            require(end == (), f"{it.__name__}: an improper list must be reported")
            eq(norm(got), norm(cars), it.__name__)
    key = repr
    eq(sorted(map(key, map(leaf, BinaryTreeIterator(x)))), sorted(map(key, leaves(m))), "leaves")
    # JackOfAllTrades: like the tree iterator, but nil in a cdr position is omitted

    def jack(m):
        if m == ():
            return [("nil",)]
        if m[0] == "atom":
            return [m]
        return jack(m[1]) + (jack(m[2]) if m[2] != () else [])
    eq(sorted(map(key, map(leaf, JackOfAllTradesIterator(x)))), sorted(map(key, jack(m))), "leaves, jack of all trades")
    # round trips
    z = eval(repr(x), {"cons": cons, "ll": ll, "nil": nil})
    require(z == x, "repr evaluates to", short(z))
    eq(norm(topairs(z)), norm(m), "repr evaluates to an equal structure")
    if c["proto"] >= 2:
        z = pickle.loads(pickle.dumps(x, c["proto"]))
        eq(norm(topairs(z)), norm(m), "pickle round trip")
        require(z == x and hash(z) == hash(x), "pickled copy equal")
    for z in (copy.copy(x), copy.deepcopy(x)):
        eq(norm(topairs(z)), norm(m), "copy")
    # immutability
    for z in (x, copy.copy(x), pickle.loads(pickle.dumps(x))):
        for f in (lambda: setattr(z, "car", 1), lambda: setattr(z, "cdr", nil), lambda: delattr(z, "car"), lambda: delattr(z, "cdr"), lambda: setattr(z, "new", 1),
                  lambda: z.__setattr__("car", 5)):
            try:
                f()
            except (TypeError, AttributeError):
                pass
            else:
                require(False, "a cons cell was modified")
        eq(norm(topairs(z)), norm(m), "after refused changes")


@st.composite
def list_cases(draw):
    ls = draw(st.lists(st.lists(atoms, max_size=6), min_size=1, max_size=4))
    return dict(ls=ls, probe=draw(atoms), kind=draw(st.sampled_from(["list", "gen", "tuple", "ll", "reversed", "partial", "range"])), k=draw(st.integers(0, 4)))


def items(l):
    return list(l)


def run_list(c):
    xs = c["ls"][0]
    L = ll(*xs)
    require(L is nil if not xs else isinstance(L, cons), "type of a list")
    mk = c["kind"]
    if mk == "range":
        eq(list(llist(range(c["k"] * 3))), list(range(c["k"] * 3)), "llist of a range")
    elif mk == "partial":  # a partly consumed reverse iterator
        if xs:
            r = reversed(L)
            k = min(c["k"], len(xs))
            got = [next(r) for _ in range(k)]
            eq(got, xs[::-1][:k], "reversed")
            eq(list(llist(r)), xs[::-1][k:], "llist of the rest of a reverse iterator")
    else:
        src = {"list": lambda: list(xs), "gen": lambda: (x for x in xs), "tuple": lambda: tuple(xs), "ll": lambda: L, "reversed": lambda: reversed(ll(*xs[::-1]))}[mk]()
        M = llist(src)
        eq(list(M), xs, "llist")
        require(M == L if xs else M is nil, "llist equals ll")
    eq(tuple(L), tuple(xs), "iteration")
    eq(list(lreverse(L)), xs[::-1], "lreverse")
    eq(list(reversed(L)), xs[::-1], "reversed")
    eq(list(llist(reversed(L))), xs[::-1], "llist(reversed)")
    eq(list(L), xs, "the original is untouched")
    if xs:
        eq((car(L), list(cdr(L))), (xs[0], xs[1:]), "car, cdr")
    eq(list(cons(c["probe"], L)), [c["probe"]] + xs, "consing on")
    Ls = [ll(*l) for l in c["ls"]]
    eq(list(lappend(*Ls)), sum(c["ls"], []), "lappend")
    eq([list(l) for l in lzip(*Ls)], [list(t) for t in zip(*c["ls"])], "lzip")
    for l, orig in zip(Ls, c["ls"]):
        eq(list(l), orig, "inputs are untouched")
    m = member(c["probe"], L)
    if c["probe"] in xs:
        i = xs.index(c["probe"])
        eq(list(m), xs[i:], "member")
        t = L
        for _ in range(i):
            t = t.cdr
        require(m is t, "member returns the cell of the list itself")
    else:
        require(m is False, "member of a missing item", short(m))
    f = lambda e, acc: (e, acc)  # noqa: E731
    eq(foldl(f, "i", L), foldl(f, "i", xs), "foldl")
    eq(foldr(f, "i", L), foldr(f, "i", xs), "foldr")
    eq(list(scanl(f, "i", L)), list(scanl(f, "i", xs)), "scanl")
    eq(list(foldr(cons, nil, L)), xs, "foldr cons nil is a copy")
    for other in c["ls"][1:]:
        if xs:
            eq(L == ll(*other), xs == other, "equality of lists")
    require(L != xs and L != tuple(xs), "not equal to a Python list")
    if xs:
        eq(L.lispyrepr() if not any(isinstance(x, cons) for x in xs) else 0, "(" + " ".join(map(repr, xs)) + ")", "lispyrepr")
    for bad in (5, "x", [1], nil):
        for acc in (car, cdr, u.cadr):
            try:
                acc(bad)
            except TypeError:
                pass
            else:
                require(False, "accessor of a non-cell")
        for it in (BinaryTreeIterator, JackOfAllTradesIterator):
            if bad is not nil:
                try:
                    it(bad)
                except TypeError:
                    pass
                else:
                    require(False, "iterator of a non-cell")


@st.composite
def deep_cases(draw):
    return dict(shape=draw(st.sampled_from(["list", "left", "right", "zigzag", "left_improper", "listoflists"])), n=draw(st.sampled_from([20, 24, 30, 45, 60])),
                long=draw(st.sampled_from([1000, 3000, 20000])), proto=draw(st.integers(2, 5)))


def run_deep(c):
    n, shape = c["n"], c["shape"]

    def mk(n):
        if shape == "list":
            return llist(range(n))
        if shape == "listoflists":
            t = ll(1, 2)
            for i in range(n):
                t = ll(t, i)
            return t
        t = {"left": nil, "right": 7, "zigzag": 7, "left_improper": 7}[shape]
        for i in range(n):
            if shape == "right" or (shape == "zigzag" and i % 2):
                t = cons(i, t)
            else:
                t = cons(t, i if shape != "left" else nil)
        return t
    x, y = mk(n), mk(n)
    require(x == y and hash(x) == hash(y), "deep equality and hash")  # polynomial: a doubling per level would never finish
    require(not (x == mk(n + 1)), "deep inequality")
    require(eval(repr(x), {"cons": cons, "ll": ll, "nil": nil}) == x, "deep repr")
    require(pickle.loads(pickle.dumps(x, c["proto"])) == x, "deep pickle")
    require(isinstance(x.lispyrepr(), str), "lispyrepr")
    if shape != "list":
        try:
            list(x)
        except TypeError:
            pass
    # arbitrarily long: iteration, reversal, append, tree walks do not use the call stack
    N = c["long"]
    L = llist(range(N))
    eq(sum(1 for _ in L), N, "long list")
    eq(list(lreverse(L)), list(range(N - 1, -1, -1)), "long reverse")
    eq(list(lappend(L, ll(-1))), list(range(N)) + [-1], "long append")
    require(L == llist(range(N)) and hash(L) == hash(llist(range(N))) and not (L == llist(range(N - 1))), "long equality")
    require(repr(L).startswith("ll(0, 1, 2"), "long repr")
    eq(member(N - 1, L).cdr, nil, "member at the end")
    big = mk(N) if shape not in ("list", "listoflists") else L
    cnt = sum(1 for _ in BinaryTreeIterator(big))
    eq(cnt, N + 1, "deep tree walk")
    sys.getrecursionlimit()
    # (deep structures are torn down iteratively here: their destructors recurse in C)
    stack = [big]
    del big


SUITES = [
    Suite("trees", tree_cases(), run_tree, quick=2500, shards=2, nontrivial=lambda c: c["t"][0] == "C" or len(c["t"][1]) >= 2),
    Suite("lists", list_cases(), run_list, quick=2500, nontrivial=lambda c: len(c["ls"][0]) >= 2),
    Suite("deep", deep_cases(), run_deep, quick=60, thorough=600),
]
