"""C25: exceptions as expressions, remapping, miscellaneous helpers, timing."""
import collections
import contextlib
import inspect
import io
import queue
import sys
import threading
import time
import traceback

import hypothesis.strategies as st

from vp.core import Suite, require, eq
from vp.gen import signatures, paramlist, calls, run_source
import unpythonic.misc
import unpythonic.timeutil
from unpythonic import (raisef, tryf, reraise, reraise_in, equip_with_traceback, async_raise, namelambda, getattrrec, setattrrec, Popper, CountingIterator, slurp, safeissubclass,
                        callsite_filename, timer, pack, seconds_to_human, format_human_time, ETAEstimator, curry, call, callwith)

RULE = ("cases are generated trees of try expressions (handlers with single, tuple and empty specs, of all arities; else and finally clauses; any part returning, raising or itself a try "
        "expression), exception remappings (nested, to classes and instances), functions with generated signatures to rename, onions of wrapper objects, histories of operations on "
        "containers while they are being consumed, stack depths, durations and progress histories under a simulated clock. Non-trivial: something raises, or there are at least two operations")
TECHNIQUE = "property-based testing: differential against the corresponding statements (generated source text), and reference models of the helpers"
ASSUMPTIONS = ["async_raise is given an exception class (CPython cannot raise a given instance in another thread)", "durations are not negative",
               "the default of getattrrec is not itself an onion of the same attribute"]


class A(Exception):
    pass


class B(A):
    pass


class C(Exception):
    pass


class D(BaseException):
    pass


class Falsy(Exception):
    def __bool__(self):
        return False


class Empty(Exception):
    def __len__(self):
        return 0


EXC = {"A": A, "B": B, "C": C, "D": D, "Exception": Exception, "BaseException": BaseException, "StopIteration": StopIteration, "KeyboardInterrupt": KeyboardInterrupt, "LookupError": LookupError,
       "KeyError": KeyError, "GeneratorExit": GeneratorExit, "SystemExit": SystemExit, "Falsy": Falsy, "Empty": Empty}
raised = st.sampled_from(["A", "B", "C", "D", "StopIteration", "KeyboardInterrupt", "KeyError", "Falsy", "GeneratorExit", "SystemExit", "Empty"])
spec = st.one_of(st.sampled_from(sorted(EXC)), st.sampled_from(["A", "B", "C"]), st.lists(st.sampled_from(sorted(EXC)), max_size=3).map(tuple))


# ---------------------------------------------------------------- try as an expression

def parts(depth):
    simple = st.one_of(st.tuples(st.just("ret")), st.tuples(st.just("raise"), raised), st.tuples(st.just("raisecls"), raised), st.tuples(st.just("raise"), raised), st.tuples(st.just("none")))
    if depth == 0:
        return simple
    return st.one_of(simple, simple, trys(depth - 1))


def trys(depth):
    sub = st.deferred(lambda: parts(depth))
    handler = st.tuples(spec, st.sampled_from(["zero", "one", "one", "opt", "star", "meth", "cls"]), sub)
    return st.tuples(st.just("try"), sub, st.lists(handler, max_size=3), st.one_of(st.none(), sub), st.one_of(st.none(), sub))


class Token:
    pass


def number(part, n):
    """Give every simple part an id."""
    n[0] += 1
    me = n[0]
    if part is None:
        return None
    if part[0] != "try":
        return (part[0], me) + part[1:]
    return ("try", me, number(part[1], n), [(s, k, number(p, n)) for s, k, p in part[2]], number(part[3], n), number(part[4], n))


class World:
    def __init__(self):
        self.log = []
        self.values = collections.defaultdict(Token)
        self.excs = {}

    def act(self, part, exc=None):
        self.log.append(part[1])
        if part[0] == "ret":
            return ("value", part[1])
        if part[0] == "none":
            return None
        if part[0] == "raisecls":
            raise EXC[part[2]]
        raise EXC[part[2]](part[1])


def expr(part, w):
    """The part as a thunk made of expressions."""
    if part[0] != "try":
        if part[0] == "raise":
            def thunk():
                w.log.append(part[1])
                return raisef(EXC[part[2]](part[1]))
            return thunk
        if part[0] == "raisecls":
            def thunk():
                w.log.append(part[1])
                return raisef(EXC[part[2]])
            return thunk
        return lambda: w.act(part)
    _, me, body, handlers, elsep, finallyp = part
    hs = []
    for s, kind, p in handlers:
        s = tuple(EXC[x] for x in s) if isinstance(s, tuple) else EXC[s]
        t = expr(p, w)

        def got(exc, t=t):
            w.log.append(("got", type(exc).__name__, exc.args))
            return t()
        if kind == "zero":
            h = t
        elif kind == "one":
            h = lambda e, got=got: got(e)
        elif kind == "opt":
            h = lambda e=None, got=got: got(e)
        elif kind == "star":
            h = lambda *es, got=got: got(*es)
        elif kind == "meth":
            class H:
                def m(self, e, got=got):
                    return got(e)
            h = H().m
        else:
            class H2:
                def __new__(cls, e, got=got):
                    return got(e)

                def __init__(self, e):
                    pass
            h = lambda e, got=got: got(e)
        hs.append((s, h))
    kw = {}
    if elsep is not None:
        kw["elsef"] = expr(elsep, w)
    if finallyp is not None:
        kw["finallyf"] = expr(finallyp, w)
    return lambda: tryf(expr(body, w), *hs, **kw)


def stmt(part, out, ind, w):
    """The same as statements, leaving the value in `r`."""
    pad = "    " * ind
    if part[0] != "try":
        if part[0] == "raise":
            out.append(f"{pad}w.log.append({part[1]})")
            out.append(f"{pad}raise EXC[{part[2]!r}]({part[1]})")
        elif part[0] == "raisecls":
            out.append(f"{pad}w.log.append({part[1]})")
            out.append(f"{pad}raise EXC[{part[2]!r}]")
        else:
            out.append(f"{pad}r = w.act({part!r})")
        return
    _, me, body, handlers, elsep, finallyp = part
    out.append(f"{pad}try:")
    stmt(body, out, ind + 1, w)
    for s, kind, p in handlers:
        s = "(" + "".join(f"EXC[{x!r}], " for x in s) + ")" if isinstance(s, tuple) else f"EXC[{s!r}]"
        out.append(f"{pad}except {s} as e{me}:")
        if kind != "zero":
            out.append(f"{pad}    w.log.append(('got', type(e{me}).__name__, e{me}.args))")
        stmt(p, out, ind + 1, w)
    if elsep is not None:
        if not handlers:
            out.append(f"{pad}except () as e{me}:")
            out.append(f"{pad}    pass")
        out.append(f"{pad}else:")
        stmt(elsep, out, ind + 1, w)
    if finallyp is not None:
        out.append(f"{pad}finally:")
        out.append(f"{pad}    r_{me} = locals().get('r')")
        stmt(finallyp, out, ind + 1, w)
        out.append(f"{pad}    r = r_{me}")
    elif not handlers and elsep is None:
        out.append(f"{pad}finally:")
        out.append(f"{pad}    pass")


def outcome(f):
    try:
        return ("value", f())
    except BaseException as e:
        chain = []
        x = e
        while x is not None and len(chain) < 8:
            chain.append((type(x).__name__, x.args, type(x.__cause__).__name__ if x.__cause__ else None, x.__suppress_context__))
            x = x.__context__
        return ("raise", chain)


def run_try(part):
    part = number(part, [0])
    w1, w2 = World(), World()
    out = ["def f():"]
    stmt(part, out, 1, w2)
    out.append("    return r")
    ns = {"w": w2, "EXC": EXC}
    exec("\n".join(out), ns)
    want = outcome(ns["f"])
    got = outcome(expr(part, w1))
    eq(w1.log, w2.log, "the clauses do not run as those of the statement")
    eq(got, want, "another outcome than that of the statement")


def run_bad_spec(case):
    s, pos, ran = case[0], case[1], []
    handlers = [(A, lambda: 1), (B, lambda e: 2)]
    handlers.insert(pos, (s, lambda: 3))
    try:
        tryf(lambda: ran.append(1), *handlers)
    except TypeError:
        require(not ran, "the body ran although a handler is invalid")
        return
    raise AssertionError(f"an invalid exception spec was accepted: {s!r}")


bad_specs = st.tuples(st.sampled_from([1, "A", None, int, [A], {A}, (A, 1), (int,), ((A,), B), A(), object]), st.integers(0, 2))


causes = st.one_of(st.none(), st.tuples(st.sampled_from(["inst", "cls"]), raised))


def run_raisef(case):
    cls, inst, cause = case
    exc = EXC[cls](1) if inst else EXC[cls]
    c = None if cause is None else EXC[cause[1]](2) if cause[0] == "inst" else EXC[cause[1]]
    try:
        if cause is None and inst:
            raisef(exc)
        else:
            raisef(exc, cause=c)
    except BaseException as e:
        require(e is exc if inst else type(e) is exc, "another exception was raised", e)
        if c is None:
            require(e.__cause__ is None and not e.__suppress_context__, "a plain raise has a cause", e.__cause__)
        else:
            require(e.__cause__ is c if cause[0] == "inst" else type(e.__cause__) is c, "the cause is not the given one", e.__cause__)
        return
    raise AssertionError("raisef returned")


# ---------------------------------------------------------------- remapping

target = st.tuples(st.sampled_from(["A", "B", "C", "D", "StopIteration", "KeyError", "Falsy", "GeneratorExit"]), st.booleans())
mappings = st.lists(st.tuples(spec, target), max_size=3)
remaps = st.tuples(st.lists(st.tuples(st.sampled_from(["with", "in", "deco"]), mappings), min_size=1, max_size=3), st.one_of(st.just("ret"), raised, raised), st.booleans(), st.booleans())


def run_remap(case):
    layers, what, cls, lookup = case
    orig = None if what == "ret" else EXC[what](1)

    def body():
        if what == "ret":
            return tok
        raise (EXC[what] if cls else orig)
    tok = Token()
    f = body
    maps = []
    for how, m in layers:
        mapping = {}
        for s, (t, inst) in m:
            key = tuple(EXC[x] for x in s) if isinstance(s, tuple) else EXC[s]
            if key not in mapping:
                mapping[key] = EXC[t](("mapped", len(maps), len(mapping))) if inst else EXC[t]
        maps.append(mapping)
        before = dict(mapping)
        f = wrap(how, mapping, f)
    # model: what each layer does
    expected = None if what == "ret" else (EXC[what] if cls else orig)
    chain = [expected]
    for mapping in maps:
        if expected is None:
            break
        t = expected if isinstance(expected, type) else type(expected)
        for key, to in mapping.items():
            if issubclass(t, key):
                expected = to
                chain.append(to)
                break
    try:
        r = f()
    except BaseException as e:
        require(expected is not None, "an exception out of nothing", e)
        for want in reversed(chain):
            require(e is not None, "the chain of causes is too short", chain)
            require(e is want if not isinstance(want, type) else type(e) is want, "another exception or cause than the mapping says", (e, want))
            e = e.__cause__
        require(e is None, "too many causes", e)
    else:
        require(expected is None, "the exception was lost", r)
        require(r is tok, "the value was not passed through", r)
    for m, b in zip(maps[-1:], [before]):
        eq(m, b, "the mapping was changed")


def wrap(how, mapping, f):
    if how == "in":
        return lambda: reraise_in(f, mapping)
    if how == "deco":
        return reraise(mapping)(f)

    def g():
        with reraise(mapping):
            return f()
    return g


# ---------------------------------------------------------------- tracebacks, other threads

def run_traceback(case):
    depth, level, kind = case
    exc = EXC[kind]("x")
    seen = {}

    def rec(k):
        if k:
            return rec(k - 1)
        seen["frames"] = []
        f = sys._getframe(0)
        while f is not None:
            seen["frames"].append(f)
            f = f.f_back
        if level is None:
            return equip_with_traceback(exc)
        return equip_with_traceback(exc, level)
    r = rec(depth)
    require(r is exc, "not the same exception")
    got = []
    tb = exc.__traceback__
    while tb is not None:
        got.append(tb.tb_frame)
        tb = tb.tb_next
    want = seen["frames"][(1 if level is None else level) - 1:] if level != 0 else None
    if level == 0:
        require(got[-1].f_code.co_name == "equip_with_traceback" and got[-2::-1] == seen["frames"], "the traceback must include everything at level 0")
    else:
        require(got == want[::-1], "the traceback is not the call stack", ([f.f_code.co_name for f in got][-5:], [f.f_code.co_name for f in want][:5]))
    traceback.format_exception(exc)
    seen.clear()
    exc.__traceback__ = None


class Inject(Exception):
    pass


def run_async(case):
    scenario, n = case
    results = [None] * n
    go = [threading.Event() for _ in range(n)]
    stop = threading.Event()

    def worker(i):
        try:
            go[i].set()
            while not stop.is_set():
                time.sleep(0.001)
            results[i] = "done"
        except Inject:
            results[i] = "injected"
    dead = threading.Thread(target=lambda: None)
    if scenario != "new":
        dead.start()
        dead.join()
    threads = [threading.Thread(target=worker, args=(i,)) for i in range(n)]
    for t in threads:
        t.start()
    for e in go:
        e.wait()
    try:
        if scenario == "one":
            async_raise(threads[-1], Inject)
            threads[-1].join(10)
            require(results[-1] == "injected", "the exception did not reach the thread", results)
        else:
            try:
                async_raise(dead, Inject)
            except ValueError:
                pass
            else:
                raise AssertionError("async_raise accepted a thread that is not running")
            time.sleep(0.003)
    finally:
        stop.set()
        for t in threads:
            t.join(10)
    require(all(r == "done" for r in (results[:-1] if scenario == "one" else results)), "the exception was raised in another thread", (scenario, results))


# ---------------------------------------------------------------- helpers

@st.composite
def functions(draw):
    params = draw(signatures())
    return params, draw(st.lists(calls(params), min_size=1, max_size=2)), draw(st.sampled_from(["def", "lambda", "nested", "method", "wrapped", "gen", "closure"])), \
        draw(st.lists(st.sampled_from(["f", "g", "my_name", "<odd name>", "x.y", ""]), min_size=1, max_size=2)), draw(st.booleans())


def run_rename(case):
    params, cs, kind, names, raises = case
    pl = paramlist(params)
    res = "[" + ", ".join(f"({p[0]!r}, {p[0]})" for p in params) + "]"
    if raises:
        res = "boom(" + res + ")"
    src = {"def": f"def orig({pl}):\n    'doc'\n    return {res}\n", "lambda": f"orig = lambda {pl}: {res}\n",
           "nested": f"def outer():\n    def inner({pl}):\n        'doc'\n        return {res}\n    return inner\norig = outer()\n",
           "closure": f"def outer(free):\n    return lambda {pl}: [('free', free)] + {res}\norig = outer(42)\n",
           "method": f"class K:\n    @staticmethod\n    def m({pl}):\n        return {res}\norig = K.m\n",
           "wrapped": f"import functools\ndef real({pl}):\n    return {res}\n@functools.wraps(real)\ndef orig(*a, **k):\n    return real(*a, **k)\n",
           "gen": f"def orig({pl}):\n    yield {res}\n"}[kind]

    def boom(x):
        raise A(x)
    ns = {"boom": boom}
    run_source(src, ns)
    f = ns["orig"]
    f.extra = tok = Token()
    f.__annotations__["z"] = int
    snap = (f.__name__, f.__qualname__, f.__code__.co_name, f.__doc__, dict(f.__dict__), f.__defaults__, f.__kwdefaults__)
    g = f
    for name in names:
        g = namelambda(name)(g)
        eq(g.__name__, name, "__name__")
        idx = snap[1].rfind(".")
        eq(g.__code__.co_name, name, "the name in stack traces")
        require(g.__qualname__.endswith(name), "__qualname__", g.__qualname__)
    if "." not in "".join(names):
        eq(g.__qualname__, snap[1][:idx + 1] + names[-1], "__qualname__")
    eq((f.__name__, f.__qualname__, f.__code__.co_name, f.__doc__, dict(f.__dict__), f.__defaults__, f.__kwdefaults__), snap, "the original function was changed")
    require(g.extra is tok and g.__doc__ == f.__doc__ and g.__module__ == f.__module__ and g.__annotations__ == f.__annotations__, "attributes were lost")
    eq(str(inspect.signature(g)), str(inspect.signature(f)), "the signature was changed")
    for args, kwargs in cs:
        if kind == "gen":
            a, b = outcome(lambda: list(f(*args, **kwargs))), outcome(lambda: list(g(*args, **kwargs)))
        else:
            a, b = outcome(lambda: f(*args, **kwargs)), outcome(lambda: g(*args, **kwargs))
        eq(b, a, "the renamed function behaves differently")
        if raises and kind != "gen":
            try:
                g(*args, **kwargs)
            except A as e:
                require(names[-1] in [x.name for x in traceback.extract_tb(e.__traceback__)], "the new name is not in the stack trace")
    for x in (1, "s", None, len, int, ns):
        require(namelambda("q")(x) is x, "something that is not a function was changed")


class Layer:
    pass


onions = st.tuples(st.integers(0, 5), st.booleans(), st.booleans(), st.sampled_from(["none", "false", "obj", "str", "missing"]), st.sampled_from(["inner", "name", "seq"]))


def run_onion(case):
    depth, has_default, setit, core, name = case
    layers = [Layer() for _ in range(depth + 1)]
    for a, b in zip(layers, layers[1:]):
        setattr(a, name, b)
    value = {"none": None, "false": False, "obj": object(), "str": "s"}.get(core)
    if core != "missing":
        setattr(layers[-1], name, value)
    dflt = Token()
    args = (dflt,) if has_default else ()
    if depth == 0 and core == "missing":
        if has_default:
            require(getattrrec(layers[0], name, dflt) is dflt, "default")
        else:
            try:
                getattrrec(layers[0], name)
            except AttributeError:
                pass
            else:
                raise AssertionError("no AttributeError for a missing attribute")
    else:
        want = value if core != "missing" else layers[-1]
        require(getattrrec(layers[0], name, *args) is want, "not the innermost value")
    if setit:
        new = Token()
        setattrrec(layers[0], name, new)
        # the innermost layer that has the attribute
        inner = layers[-1] if core != "missing" else layers[-2] if depth else layers[0]
        require(getattr(inner, name) is new, "the value was not set in the innermost layer")
        for a, b in zip(layers, layers[1:]):
            if a is inner:
                break
            require(getattr(a, name) is b, "an outer layer was changed")
        require(getattrrec(layers[0], name) is new, "the value set is not read back")


popops = st.lists(st.one_of(st.just(("next",)), st.just(("next",)), st.tuples(st.sampled_from(["append", "insert", "extend"]), st.integers(0, 9)), st.tuples(st.just("clear")), st.tuples(st.just("poplast"))), max_size=12)


class UL(collections.UserList):
    pass


def run_popper(case):
    kind, init, ops = case
    seq = {"list": list, "deque": collections.deque, "ulist": UL}[kind](init)
    model = list(init)
    p = Popper(seq)
    require(iter(p) is p, "iter")
    for op in ops:
        if op[0] == "next":
            try:
                got = ("v", next(p))
            except StopIteration:
                got = ("stop",)
            want = ("v", model.pop(0)) if model else ("stop",)
            eq(got, want, "next item")
        elif op[0] == "append":
            seq.append(op[1])
            model.append(op[1])
        elif op[0] == "insert":
            seq.insert(0, op[1])
            model.insert(0, op[1])
        elif op[0] == "extend":
            seq.extend([op[1], op[1] + 1])
            model.extend([op[1], op[1] + 1])
        elif op[0] == "clear":
            seq.clear()
            model.clear()
        elif model:
            seq.pop()
            model.pop()
        eq(list(seq), model, "the container does not hold the remaining items")
    eq(list(p), model, "remaining items")
    require(not len(seq), "not emptied")


def run_counting(case):
    items, stops, kind = case
    src = {"list": lambda: list(items), "iter": lambda: iter(items), "gen": lambda: (x for x in items), "raising": lambda: boomgen(items)}[kind]()
    it = CountingIterator(src)
    require(iter(it) is it and it.count == 0, "initial count")
    n = 0
    for _ in range(stops):
        try:
            x = next(it)
        except StopIteration:
            require(n == len(items), "ended early", n)
        except A:
            require(n == len(items), "raised early", n)
        else:
            require(x is items[n], "another item")
            n += 1
        eq(it.count, n, "count of items yielded")
    rest = []
    try:
        for x in it:
            rest.append(x)
            eq(it.count, n + len(rest), "count in a loop")
    except A:
        pass
    eq(rest, items[n:], "rest")
    eq(it.count, len(items), "final count")


def boomgen(items):
    yield from items
    raise A


def run_slurp(case):
    kind, items, prior = case
    q = {"fifo": queue.Queue, "lifo": queue.LifoQueue, "prio": queue.PriorityQueue, "simple": queue.SimpleQueue, "bounded": lambda: queue.Queue(len(items) + 1)}[kind]()
    for x in items:
        q.put(x)
    want = list(items)
    if kind == "lifo":
        want.reverse()
    elif kind == "prio":
        want.sort()
    head = [q.get() for _ in range(min(prior, len(items)))]
    got = slurp(q)
    eq(head + got, want, "items lost or in another order")
    require(type(got) is list and q.empty(), "not a list, or the queue is not empty")
    eq(slurp(q), [], "second time")
    q.put(1)
    eq(slurp(q), [1], "after adding an item")


clss = [int, bool, str, object, type, A, B, Exception, 1, "int", None, list, len, A(), collections.abc.Iterable, collections.abc.Hashable]


def run_issub(case):
    c, of = clss[case[0]], case[1]
    of = tuple(clss[i] for i in of) if isinstance(of, tuple) else clss[of]
    if not all(isinstance(x, type) for x in (of if isinstance(of, tuple) else (of,))):
        return
    want = isinstance(c, type) and issubclass(c, of)
    require(safeissubclass(c, of) is want, "safeissubclass", (c, of))


def run_callsite(case):
    name, via = case
    ns = {"callsite_filename": callsite_filename, "curry": curry, "call": call, "callwith": callwith}
    body = {"direct": "r = callsite_filename()", "fn": "def f():\n    return callsite_filename()\nr = f()", "call": "r = call(callsite_filename)", "callwith": "r = callwith()(callsite_filename)",
            "curry": "r = curry(callsite_filename)()", "lambda": "r = (lambda: callsite_filename())()", "callcall": "r = call(call, callsite_filename)"}[via]
    exec(compile(body, name, "exec"), ns)
    eq(ns["r"], name, f"file name of the call site ({via})")


helpers = st.one_of(
    st.tuples(st.just("popper"), st.tuples(st.sampled_from(["list", "deque", "ulist"]), st.lists(st.integers(0, 9), max_size=5), popops)),
    st.tuples(st.just("counting"), st.tuples(st.lists(st.sampled_from([None, 0, "", "a", ()]), max_size=5), st.integers(0, 7), st.sampled_from(["list", "iter", "gen", "raising"]))),
    st.tuples(st.just("slurp"), st.tuples(st.sampled_from(["fifo", "lifo", "prio", "simple", "bounded"]), st.lists(st.integers(0, 9), max_size=6), st.integers(0, 3))),
    st.tuples(st.just("issub"), st.tuples(st.integers(0, len(clss) - 1), st.one_of(st.integers(0, len(clss) - 1), st.lists(st.integers(0, 7), max_size=3).map(tuple)))),
    st.tuples(st.just("onion"), onions),
    st.tuples(st.just("callsite"), st.tuples(st.sampled_from(["a.py", "<b>", "/x/y.py"]), st.sampled_from(["direct", "fn", "call", "callwith", "curry", "lambda", "callcall"]))),
    st.tuples(st.just("badspec"), bad_specs),
    st.tuples(st.just("raisef"), st.tuples(raised, st.booleans(), causes)),
    st.tuples(st.just("traceback"), st.tuples(st.integers(0, 6), st.one_of(st.none(), st.integers(0, 4)), raised)),
    st.tuples(st.just("pack"), st.lists(st.integers(), max_size=4)))
HELPERS = {"popper": run_popper, "counting": run_counting, "slurp": run_slurp, "issub": run_issub, "onion": run_onion, "callsite": run_callsite, "badspec": run_bad_spec, "raisef": run_raisef,
           "traceback": run_traceback, "pack": lambda xs: eq(pack(*xs), tuple(xs), "pack")}


# ---------------------------------------------------------------- time

class Clock:
    def __init__(self):
        self.t = 1000.0

    def __call__(self):
        return self.t


@contextlib.contextmanager
def fake_clock():
    """Replace the clock, whichever way the code refers to it."""
    clock = Clock()
    saved = []
    for mod in (time, unpythonic.misc, unpythonic.timeutil):
        for name in ("monotonic", "perf_counter", "time"):
            if callable(getattr(mod, name, None)):
                saved.append((mod, name, getattr(mod, name)))
                setattr(mod, name, clock)
    try:
        yield clock
    finally:
        for mod, name, old in saved:
            setattr(mod, name, old)


durations = st.one_of(st.integers(0, 200), st.integers(0, 10**6), st.builds(lambda d, h, m, s: d * 86400 + h * 3600 + m * 60 + s, st.integers(0, 3), st.integers(0, 23), st.integers(0, 59), st.integers(0, 59)),
                      st.floats(0, 1e7), st.floats(0, 130), st.sampled_from([59.99999999, 60.0, 3599.999, 3600.0, 86399.9, 86400.0, 1.0, 1.9, 0.5, 119.999]))


def human(s):
    """Reference formatting."""
    n = int(s)
    d, n = divmod(n, 86400)
    h, n = divmod(n, 3600)
    m, n = divmod(n, 60)
    if not (d or h or m):
        return f"{n} second" + ("" if n == 1 else "s")
    text = f"{m:02d}:{n:02d}"
    if d or h:
        text = f"{h:02d}:" + text
    if d:
        text = f"{d} day" + ("" if d == 1 else "s") + " " + text
    return text


def run_human(s):
    d, h, m, sec = seconds_to_human(s)
    require(all(type(x) is int for x in (d, h, m)), "days, hours and minutes must be integers")
    require(0 <= h < 24 and 0 <= m < 60 and 0 <= sec < 60 and d >= 0, "out of range", (d, h, m, sec))
    require(abs(d * 86400 + h * 3600 + m * 60 + sec - s) <= 1e-9 * max(1, s), "the parts do not add up", (s, d, h, m, sec))
    eq(format_human_time(s), human(s), f"format of {s!r}")


steps = st.floats(0, 100).map(lambda x: round(x, 3))
etas = st.tuples(st.integers(0, 8), st.one_of(st.none(), st.integers(1, 4)), st.lists(st.one_of(st.tuples(st.just("tick"), steps), st.tuples(st.just("tick"), steps), st.tuples(st.just("wait"), steps),
                                                                                     st.tuples(st.just("total"), st.integers(0, 9))), max_size=10))


def run_eta(case):
    total, keep, ops = case
    with fake_clock() as clock:
        e = ETAEstimator(total) if keep is None else ETAEstimator(total, keep)
        t0 = t1 = clock.t
        dts = []
        for op in ops:
            if op[0] == "tick":
                clock.t += op[1]
                dts.append(clock.t - t1)
                t1 = clock.t
                e.tick()
            elif op[0] == "wait":
                clock.t += op[1]
            else:
                total = e.total = op[1]
            eq(e.completed, len(dts), "number of completed tasks")
            eq(e.elapsed, clock.t - t0, "elapsed time")
            est = e.estimate
            if not dts:
                require(est is None, "estimate before the first task completed", est)
                eq(e.formatted_eta, f"elapsed {human(clock.t - t0)}, ETA unknown, total unknown", "text")
                continue
            last = dts[-keep:] if keep else dts
            want = max(total - len(dts), 0) * sum(last) / len(last)
            require(isinstance(est, float) and abs(est - want) <= 1e-9 * max(1, want), "estimate of the remaining time", (est, want))
            eq(e.formatted_eta, f"elapsed {human(clock.t - t0)}, ETA {human(est)}, total {human(clock.t - t0 + est)}", "text")
        # the timer
        buf = io.StringIO()
        fails = None
        with contextlib.redirect_stdout(buf):
            try:
                with timer(p=bool(keep)) as tim:
                    start = clock.t
                    clock.t += sum(o[1] for o in ops)
                    if total % 2:
                        raise A
            except A as err:
                fails = err
        require((fails is not None) == bool(total % 2), "the timer swallowed an exception")
        eq(tim.dt, clock.t - start, "elapsed time of the timer")
        eq(buf.getvalue(), f"{tim.dt}\n" if keep else "", "what the timer prints")


SUITES = [Suite("try", trys(2), run_try, quick=8000, nontrivial=lambda c: "raise" in repr(c) and bool(c[2]), labels=lambda c: [c[1][0], "else" if c[3] else "", "finally" if c[4] else ""]),
          Suite("remap", remaps, run_remap, quick=5000, nontrivial=lambda c: c[1] != "ret" and any(m for h, m in c[0]), labels=lambda c: [h for h, m in c[0]]),
          Suite("rename", functions(), run_rename, quick=2500, nontrivial=lambda c: bool(c[0]), labels=lambda c: [c[2]]),
          Suite("helpers", helpers, lambda c: HELPERS[c[0]](c[1]), quick=8000, nontrivial=lambda c: True, labels=lambda c: [c[0]]),
          Suite("human", durations, run_human, quick=4000, nontrivial=lambda c: c >= 60, labels=lambda c: [type(c).__name__]),
          Suite("eta", etas, run_eta, quick=3000, nontrivial=lambda c: len(c[2]) >= 2, labels=lambda c: [o[0] for o in c[2]]),
          Suite("async", st.tuples(st.sampled_from(["one", "dead", "dead", "new"]), st.integers(1, 4)), run_async, quick=160, nontrivial=lambda c: True, labels=lambda c: [c[0]])]
