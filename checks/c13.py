"""C13: symbols and singletons."""
from vp import sched  # before unpythonic
import copy
import gc
import pickle

import hypothesis.strategies as st

from vp.core import Suite, require, eq, short
from unpythonic import sym, gensym, Singleton, nil
from unpythonic.symbol import Symbol

RULE = ("cases are histories of making, copying, pickling (every protocol), unpickling, dropping and garbage collecting symbols, uninterned symbols and singleton "
        "instances, and thread programs of those under generated schedules. Non-trivial: at least three operations (or a nonempty schedule)")
TECHNIQUE = "model-based property-based testing of operation histories; generated thread schedules (deterministic scheduler)"
ASSUMPTIONS = ["copies made by deepcopy of a singleton restore (copies of) its own state into it"]

_frozen = []


def collect():
    if not _frozen:
        gc.collect()
        gc.freeze()  # what exists before the first case need not be looked at each time
        _frozen.append(1)
    gc.collect()


NAMES = ["cat", "dog", "", "x y", 1, True, 1.0, (1, "a"), None, "gensym"]
name_i = st.integers(0, len(NAMES) - 1)
proto = st.integers(0, 5)

sym_ops = st.one_of(
    st.tuples(st.just("make"), name_i), st.tuples(st.just("make"), name_i),
    st.tuples(st.just("copy"), st.integers(0, 20)), st.tuples(st.just("deepcopy"), st.integers(0, 20)),
    st.tuples(st.just("pickle"), st.integers(0, 20), proto),
    st.tuples(st.just("dump"), st.integers(0, 20), proto), st.tuples(st.just("load"), st.integers(0, 20)),
    st.tuples(st.just("drop"), st.integers(0, 20)), st.tuples(st.just("dropall"), st.integers(0, 0)),
    st.tuples(st.just("gen"), name_i), st.tuples(st.just("gc"), st.integers(0, 0)),
    st.tuples(st.just("nested"), st.integers(0, 20), proto),
)


def run_sym(ops):
    live = []   # (key, object): equal key <=> same object
    dumps = []
    counter = 0
    for op in ops:
        what = op[0]
        if what == "make":
            n = NAMES[op[1]]
            live.append((("s", n), sym(n)))
        elif what == "gen":
            counter += 1
            live.append((("g", counter), gensym(str(NAMES[op[1]]))))
        elif what == "gc":
            collect()
        elif what == "dropall":
            live.clear()
        elif what == "load":
            if dumps:
                key, d = dumps[op[1] % len(dumps)]
                live.append((key, pickle.loads(d)))
        elif live:
            key, x = live[op[1] % len(live)]
            if what == "copy":
                live.append((key, copy.copy(x)))
            elif what == "deepcopy":
                live.append((key, copy.deepcopy(x)))
            elif what == "pickle":
                live.append((key, pickle.loads(pickle.dumps(x, op[2]))))
            elif what == "nested":
                a, b = pickle.loads(pickle.dumps([x, {"k": x}], op[2]))
                require(a is b["k"], "nested")
                live.append((key, copy.deepcopy([a])[0]))
                del a, b
            elif what == "dump":
                dumps.append((key, pickle.dumps(x, op[2])))
            elif what == "drop":
                live.pop(op[1] % len(live))
            del x
        for i, (k1, x1) in enumerate(live):
            require(isinstance(x1, Symbol), "is a symbol")
            for k2, x2 in live[:i]:
                if k1 == k2:
                    require(x1 is x2, "two objects for", k1)
                    require(x1 == x2 and hash(x1) == hash(x2), "equality")
                else:
                    require(x1 is not x2 and x1 != x2, "one object for", k1, k2)
            if k1[0] == "s":
                require(isinstance(x1, sym) and x1.name == k1[1], "name", short(x1.name))
                eq(str(x1), str(x1.name), "str")
            else:
                require(not isinstance(x1, sym), "an uninterned symbol is not interned")
    live.clear()


@st.composite
def thread_cases(draw):
    op = st.tuples(st.sampled_from(["make", "make", "load", "dup", "drop", "genload"]), st.integers(0, 1))
    return dict(threads=draw(st.lists(st.lists(op, min_size=1, max_size=4), min_size=2, max_size=3)),
                schedule=draw(sched.schedules(max_size=8, max_gap=12)), opcodes=draw(st.integers(0, 3)) == 0, keep=draw(st.booleans()))


def run_threads(c):
    collect()
    names = ["thr-a", "thr-b"]
    pickles = []
    for n in names:
        pickles.append(pickle.dumps(sym(n)))
    g = [gensym("g0"), gensym("g1")]
    gpickles = [pickle.dumps(x) for x in g]
    if not c["keep"]:
        g = None
    board = []  # objects currently held by any thread: (key, obj)

    def check(key, x):
        for k2, y in board:
            require((k2 == key) == (x is y), "identity across threads:", key, k2)

    def body(ops):
        def go():
            mine = []
            for what, i in ops:
                if what == "make":
                    x = sym(names[i])
                    key = names[i]
                elif what == "load":
                    x = pickle.loads(pickles[i])
                    key = names[i]
                elif what == "dup":
                    x = copy.copy(sym(names[i]))
                    key = names[i]
                elif what == "genload":
                    x = pickle.loads(gpickles[i])
                    key = ("g", i)
                else:
                    if mine:
                        e = mine.pop()
                        for j, b in enumerate(board):
                            if b is e:
                                del board[j]
                                break
                        del e, b
                    continue
                require(not isinstance(x, sym) or x.name == key, "name")
                check(key, x)
                e = (key, x)
                mine.append(e)
                board.append(e)
                del x, e
        return go
    for kind, r in sched.run([body(t) for t in c["threads"]], c["schedule"], files=("unpythonic/symbol.py", __file__), opcodes=c["opcodes"]):
        if kind == "exc":
            raise r
    board.clear()


# ---------------------------------------------------------------- singletons

class A(Singleton):
    def __init__(self, x=0):
        if x == "boom":
            raise ValueError("boom")
        self.x = x


class B(A):
    pass


class Plain:
    def greet(self):
        return "hi"


class M(Plain, Singleton):
    def __init__(self, x=0):
        self.x = x
        self.y = [x]


class P(Singleton):
    """Restores only a part of its state."""
    def __init__(self, x=0):
        self.x = x
        self.keep = x

    def __getstate__(self):
        return {"x": self.x}

    def __setstate__(self, s):
        self.__dict__.update(s)


CLS = [A, B, M, P]
sing_ops = st.one_of(
    st.tuples(st.just("new"), st.integers(0, 3), st.sampled_from([0, 1, 2, "boom", None])),
    st.tuples(st.just("new"), st.integers(0, 3), st.sampled_from([5, 6])),
    st.tuples(st.just("drop"), st.integers(0, 3), st.just(0)),
    st.tuples(st.just("dump"), st.integers(0, 3), proto),
    st.tuples(st.just("load"), st.integers(0, 9), st.just(0)), st.tuples(st.just("load"), st.integers(0, 9), st.just(0)),
    st.tuples(st.just("copy"), st.integers(0, 3), st.just(0)),
    st.tuples(st.just("deepcopy"), st.integers(0, 3), st.just(0)),
    st.tuples(st.just("mutate"), st.integers(0, 3), st.integers(10, 14)),
    st.tuples(st.just("gc"), st.just(0), st.just(0)),
)


def run_sing(ops):
    collect()
    live = {}    # class -> instance
    state = {}   # class -> expected __dict__
    dumps = []
    try:
        for what, i, arg in ops:
            if what == "load":
                if not dumps:
                    continue
                cls, d, st_ = dumps[i % len(dumps)]
                obj = pickle.loads(d)
                require(type(obj) is cls, "class of an unpickled singleton")
                if cls in live:
                    require(obj is live[cls], "unpickling made a second instance")
                    state[cls] = {**state[cls], **st_}
                else:
                    live[cls] = obj
                    state[cls] = dict(st_)
                del obj
            elif what == "gc":
                collect()
            else:
                cls = CLS[i]
                if what == "new":
                    try:
                        obj = cls() if arg is None else cls(arg)
                    except TypeError:
                        require(cls in live, "construction refused although no instance is live")
                    except ValueError:
                        require(cls not in live and arg == "boom" and cls in (A, B), "unexpected exception")
                    else:
                        require(cls not in live, "a second instance was constructed")
                        require(not (arg == "boom" and cls in (A, B)), "exception lost")
                        live[cls] = obj
                        x = 0 if arg is None else arg
                        state[cls] = {A: dict(x=x), B: dict(x=x), M: dict(x=x, y=[x]), P: dict(x=x, keep=x)}[cls]
                        del obj
                elif cls not in live:
                    continue
                elif what == "drop":
                    del live[cls], state[cls]
                elif what == "dump":
                    s = dict(state[cls]) if cls is not P else {"x": state[cls]["x"]}
                    dumps.append((cls, pickle.dumps(live[cls], arg), copy.deepcopy(s)))
                elif what == "copy":
                    require(copy.copy(live[cls]) is live[cls], "copy made a second instance")
                elif what == "deepcopy":
                    require(copy.deepcopy({"k": live[cls]})["k"] is live[cls], "deepcopy made a second instance")
                elif what == "mutate":
                    live[cls].x = arg
                    state[cls]["x"] = arg
            for cls, obj in live.items():
                eq(obj.__dict__, state[cls], f"state of {cls.__name__} after {what}")
            obj = None
        if M in live:
            eq(live[M].greet(), "hi", "mixin")
        require(pickle.loads(pickle.dumps(nil)) is nil and copy.copy(nil) is nil and copy.deepcopy(nil) is nil, "nil")
        try:
            type(nil)()
        except TypeError:
            pass
        else:
            require(False, "a second nil")
    finally:
        live.clear()
        obj = None


class T(Singleton):
    def __init__(self, x):
        self.x = x
        self.ready = True
        T.inits += 1


@st.composite
def sing_threads(draw):
    op = st.sampled_from(["new", "new", "load", "drop", "new0"])
    return dict(threads=draw(st.lists(st.lists(op, min_size=1, max_size=3), min_size=2, max_size=3)), schedule=draw(sched.schedules(max_size=8, max_gap=12)),
                opcodes=draw(st.integers(0, 3)) == 0)


def run_sing_threads(c):
    collect()
    T.inits = 0
    t = T(99)
    dumped = pickle.dumps(t)
    del t
    collect()
    board = []
    refused = []

    def body(k, ops):
        def go():
            mine = []
            for what in ops:
                if what in ("new", "new0"):
                    try:
                        x = T(k)
                    except TypeError:
                        # refused: an instance must have existed at some point during the call (held by somebody, or being made)
                        refused.append(k)
                        continue
                    for y in board:
                        require(x is y, "two live instances")
                elif what == "load":
                    x = pickle.loads(dumped)
                    for y in board:
                        require(x is y, "two live instances")
                else:
                    if mine:
                        x = mine.pop()
                        for j in range(len(board)):
                            if board[j] is x:
                                del board[j]
                                break
                        y = x = None
                    continue
                mine.append(x)
                board.append(x)
                y = x = None
        return go
    res = sched.run([body(k, o) for k, o in enumerate(c["threads"])], c["schedule"], files=("unpythonic/singleton.py", __file__), opcodes=c["opcodes"])
    for kind, r in res:
        if kind == "exc":
            raise r
    only_new = all(o in ("new", "new0") for t in c["threads"] for o in t)
    if only_new:
        total = sum(len(t) for t in c["threads"])
        require(len(board) == len({id(x) for x in board}) <= 1 or len({id(x) for x in board}) == 1, "instances")
        require(len(board) >= 1, "nobody could construct the singleton")
        eq(len(board) + len(refused), total, "outcomes")
        require(len(board) == 1 and T.inits == 2, "constructed", len(board), "initialized", T.inits - 1)
        require(board[0].ready and board[0].x in range(len(c["threads"])), "initialized instance")
    board.clear()
    res = None


SUITES = [
    Suite("symbols", st.lists(sym_ops, min_size=1, max_size=14), run_sym, quick=2000, nontrivial=lambda c: len(c) >= 3),
    Suite("symbol_threads", thread_cases(), run_threads, quick=2500, shards=3, nontrivial=lambda c: bool(c["schedule"])),
    Suite("singletons", st.lists(sing_ops, min_size=1, max_size=14), run_sing, quick=2000, shards=2, nontrivial=lambda c: len(c) >= 3),
    Suite("singleton_threads", sing_threads(), run_sing_threads, quick=2000, shards=2, nontrivial=lambda c: bool(c["schedule"])),
]
