"""C10: live views."""
from collections import UserList

import hypothesis.strategies as st

from vp.core import Suite, require, eq, short
from unpythonic import view, roview
from unpythonic.collections import MutableSequenceView, SequenceView, ShadowedSequence

RULE = ("cases are histories over one underlying sequence: making views and views of views with generated slices, changing the underlying sequence (any list "
        "operation), writing through views (item, slice from sequence/iterator/view/overlapping view, scalar broadcast, reverse), reading everything after each step; also 400 items and chains of 14 views. "
        "Non-trivial: at least one view of a nonempty slice, and a change of the data after it was made")
TECHNIQUE = "model-based (stateful) property-based testing: a view is modelled as its chain of slices applied to a copy of the current data"
ASSUMPTIONS = ["slice assignment of exactly as many items as the slice has (or a scalar); other lengths are unspecified",
               "no change of the underlying length during iteration, as documented"]


class MyList(list):
    pass


KINDS = {"list": list, "MyList": MyList, "UserList": UserList, "bytearray": bytearray}
RO = {"tuple": tuple, "bytes": bytes, "range": lambda xs: range(len(list(xs))), "str": lambda xs: "".join(chr(65 + x % 26) for x in xs)}

b = st.one_of(st.none(), st.none(), st.integers(-12, 12), st.sampled_from([0, "n", "-n"]))  # "n": the current length of what is sliced
sl = st.tuples(b, b, st.sampled_from([None, None, 1, 2, 3, -1, -1, -2, -3]))
val = st.integers(0, 99)

ops = st.one_of(
    st.tuples(st.just("new"), st.integers(-1, 6), sl, st.sampled_from(["rw", "rw", "ro", "sub", "sub"])),
    st.tuples(st.just("new"), st.integers(-1, 6), sl, st.sampled_from(["rw", "rw", "ro", "sub", "sub"])),
    st.tuples(st.just("base"), st.sampled_from(["append", "insert", "pop", "delslice", "setitem", "clear", "extend", "reverse", "insert", "append", "pop"]), st.integers(0, 12), val),
    st.tuples(st.just("item"), st.integers(0, 6), st.integers(-8, 8), val),
    st.tuples(st.just("slice"), st.integers(0, 6), sl, st.sampled_from(["list", "tuple", "gen", "scalar", "self", "other", "iterself"]), val, sl),
    st.tuples(st.just("reverse"), st.integers(0, 6)),
)


@st.composite
def cases(draw):
    return dict(kind=draw(st.sampled_from(["list", "list", "MyList", "UserList", "bytearray"])), n=draw(st.integers(0, 9)), ops=draw(st.lists(ops, min_size=1, max_size=14)))


def resolve(s, n):
    """The slice, with the symbolic bounds replaced by the current length."""
    return tuple({"n": n, "-n": -n}.get(x, x) for x in s)


def positions(chain, n):
    idx = list(range(n))
    for s in chain:
        idx = idx[s]
    return idx


def run(c):
    base = KINDS[c["kind"]](range(c["n"]))
    views = []  # (view, chain, writable)

    def check():
        data = list(base)
        for v, chain, w in views:
            want = [data[i] for i in positions(chain, len(data))]
            eq(len(v), len(want), f"len of view {chain}")
            eq(list(v), want, f"view {chain} of {data}")
            for i in (0, -1, len(want) - 1, len(want) // 2, -len(want)):
                if want:
                    eq(v[i], want[i], f"item {i} of view {chain}")
            for i in (len(want), -len(want) - 1):
                try:
                    v[i]
                except IndexError:
                    pass
                else:
                    require(False, "out-of-range index", i, "accepted by view")
            require(v == want, "equality with the list of its items")
            require(not (v == want + [0]), "equality with a longer list")
            if want:
                require(not (v == want[:-1] + [want[-1] + 1]), "equality with a different list")
                require(want[0] in v and v.count(want[0]) == want.count(want[0]) and v.index(want[-1]) == want.index(want[-1]), "contains/count/index")
            eq(list(reversed(v)), want[::-1], "reversed")
    for op in c["ops"]:
        if op[0] == "new":
            _, parent, s, how = op
            s = slice(*resolve(s, len(base) if not views or parent == -1 else len(views[parent % len(views)][0])))
            if not views or parent == -1:
                v = (roview if how == "ro" else view)(base, s) if s != slice(None, None, None) else (roview if how == "ro" else view)(base)
                views.append((v, [s], how != "ro"))
            else:
                pv, chain, w = views[parent % len(views)]
                if how == "sub":
                    v, w2 = pv[s], w
                elif how == "ro":
                    v, w2 = roview(pv, s), False
                else:
                    if not w:
                        try:
                            view(pv, s)
                        except TypeError:
                            continue
                        require(False, "writable view into a read-only view accepted")
                    v, w2 = view(pv, s), True
                require(isinstance(v, MutableSequenceView) == w2 and isinstance(v, SequenceView), "kind of the view")
                views.append((v, chain + [s], w2))
        elif op[0] == "base":
            _, what, i, x = op
            n = len(base)
            if what == "append":
                base.append(x)
            elif what == "insert":
                base.insert(i, x)
            elif what == "pop" and n:
                base.pop(i % n)
            elif what == "delslice":
                del base[i:i + 2]
            elif what == "setitem" and n:
                base[i % n] = x
            elif what == "clear":
                base.clear()
            elif what == "extend":
                base.extend([x, (x + 1) % 256])
            elif what == "reverse":
                base.reverse()
        elif views:
            v, chain, w = views[op[1] % len(views)]
            data = list(base)
            pos = positions(chain, len(data))
            if not w:
                for f in (lambda: v.__setitem__(0, 1), lambda: v.__setitem__(slice(None), 1), lambda: v.reverse()):
                    try:
                        f()
                    except (AttributeError, TypeError):
                        pass
                    else:
                        require(False, "a read-only view was written to")
                eq(list(base), data, "data after refused writes")
            elif op[0] == "item":
                _, _, i, x = op
                try:
                    v[i] = x
                except IndexError:
                    require(not -len(pos) <= i < len(pos), "IndexError for a valid index")
                else:
                    require(-len(pos) <= i < len(pos), "write out of range accepted")
                    data[pos[i]] = x
            elif op[0] == "reverse":
                v.reverse()
                for i, x in zip(pos, [data[i] for i in reversed(pos)]):
                    data[i] = x
            else:
                _, _, s, how, x, s2 = op
                s, s2 = resolve(s, len(pos)), resolve(s2, len(pos))
                sel = pos[slice(*s)]
                m = len(sel)
                new = [(x + i) % 256 for i in range(m)]
                if how == "list":
                    v[slice(*s)] = list(new)
                elif how == "tuple":
                    v[slice(*s)] = tuple(new)
                elif how == "gen":
                    v[slice(*s)] = (y for y in new)
                elif how == "scalar":
                    v[slice(*s)] = x
                    new = [x] * m
                else:  # from a view of the same data with equally many items
                    ov, ochain, _ = views[x % len(views)] if how == "other" else (v, chain, w)
                    osel = positions(ochain, len(data))[slice(*s2)]
                    src = ov[slice(*s2)]
                    if len(osel) != m:
                        osel = pos[slice(*s)][::-1]
                        src = v[slice(*s)][::-1]
                    new = [data[i] for i in osel]
                    v[slice(*s)] = iter(src) if how == "iterself" else src
                for i, y in zip(sel, new):
                    data[i] = y
            eq(list(base), data, f"data after {op[0]} through view {chain}")
        check()


bb = st.one_of(st.none(), st.integers(-400, 400), st.sampled_from(["n", "-n"]))
bsl = st.tuples(bb, bb, st.sampled_from([None, None, 1, 2, 7, 50, -1, -1, -3, -64]))
big_ops = st.one_of(
    st.tuples(st.just("new"), st.integers(-1, 9), bsl, st.sampled_from(["rw", "rw", "ro", "sub", "sub"])),
    st.tuples(st.just("base"), st.sampled_from(["append", "insert", "pop", "delslice", "setitem", "extend", "reverse"]), st.integers(0, 400), val),
    st.tuples(st.just("item"), st.integers(0, 9), st.integers(-400, 400), val),
    st.tuples(st.just("slice"), st.integers(0, 9), bsl, st.sampled_from(["list", "tuple", "gen", "scalar", "self", "other", "iterself"]), val, bsl),
    st.tuples(st.just("reverse"), st.integers(0, 9)),
)


@st.composite
def big_cases(draw):
    """Large data, or long chains of views of views."""
    if draw(st.booleans()):
        return dict(kind=draw(st.sampled_from(["list", "MyList", "UserList"])), n=draw(st.sampled_from([40, 70, 130, 260, 400])), ops=draw(st.lists(big_ops, min_size=2, max_size=7)))
    deep = [("new", i - 1, draw(st.sampled_from([(None, None, -1), (None, None, None), (1, None, None), (None, -1, None), (0, "n", 1), (None, None, -1)])), draw(st.sampled_from(["rw", "sub", "sub"])))
            for i in range(draw(st.integers(4, 14)))]
    k = len(deep)
    on = st.one_of(st.tuples(st.just("item"), st.integers(k - 3, k - 1), st.integers(-30, 30), val), st.tuples(st.just("reverse"), st.just(k - 1)),
                   st.tuples(st.just("slice"), st.just(k - 1), sl, st.sampled_from(["list", "gen", "scalar", "self"]), val, sl),
                   st.tuples(st.just("base"), st.sampled_from(["append", "insert", "pop", "reverse"]), st.integers(0, 30), val))
    return dict(kind="list", n=draw(st.integers(10, 40)), ops=deep + draw(st.lists(on, min_size=1, max_size=5)))


@st.composite
def ro_cases(draw):
    return dict(kind=draw(st.sampled_from(sorted(RO))), n=draw(st.integers(0, 8)), s=draw(st.lists(sl, min_size=1, max_size=3)))


def run_ro(c):
    data = RO[c["kind"]](range(c["n"]))
    for mk in (lambda: view(data), lambda: view(data, slice(*resolve(c["s"][0], len(data)))), lambda: view(roview(data)), lambda: view(roview([1, 2, 3])[1:])):
        try:
            mk()
        except TypeError:
            pass
        else:
            require(False, "writable view of read-only data accepted")
    v = roview(data)
    want = list(data)
    for s in c["s"]:
        s = resolve(s, len(want))
        v = v[slice(*s)]
        want = want[slice(*s)]
    eq(list(v), want, "read-only view")
    eq([v[i] for i in range(len(v))], want, "items")
    require(not hasattr(v, "__setitem__") and not hasattr(v, "reverse"), "read-only view has write methods")
    try:
        hash(v)
    except TypeError:
        pass
    else:
        require(False, "views must not be hashable")
    try:
        view(ShadowedSequence([1, 2], 0, 5))
    except TypeError:
        pass
    else:
        require(False, "writable view of a functionally updated sequence accepted")


def nontrivial(c):
    kinds = [o[0] for o in c["ops"]]
    return "new" in kinds and any(k != "new" for k in kinds[kinds.index("new"):])


SUITES = [
    Suite("history", cases(), run, quick=8000, shards=6, nontrivial=nontrivial),
    Suite("large", big_cases(), run, quick=250, shards=2, nontrivial=nontrivial),
    Suite("readonly", ro_cases(), run_ro, quick=300),
]
