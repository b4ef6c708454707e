"""C18: tail calls, functional loops, generator tail chains."""
import contextlib
import functools
import sys

import hypothesis.strategies as st

from vp.core import Suite, require, eq
from vp.gen import run_source
from unpythonic import (trampolined, jump, looped, looped_over, breakably_looped, breakably_looped_over, gtco, gtrampolined, call_ec)

RULE = ("cases are generated programs of mutually (tail-)recursive functions of several kinds, run once with ordinary calls and once with jumps, with short chains and with chains "
        "of thousands of tail calls under a stack budget of a few hundred frames; generated scripts of loop iterations (continue, break, early exit, extra arguments, nesting) against "
        "an explicit loop; chains of generators. Non-trivial: at least one tail call / two iterations / two generators")
TECHNIQUE = "property-based testing of generated programs: differential against the same program with ordinary calls / explicit loops"
ASSUMPTIONS = ["functions that are not trampolined are only entered by a jump", "no jump inside try (that is not a tail position)",
               "the target of a jump is a function or a bound method, not a decorated version of a trampolined function"]


class Err(Exception):
    pass


class Err2(Exception):
    pass


@contextlib.contextmanager
def stack_budget(n):
    """Allow only n more frames from here."""
    f, depth = sys._getframe(), 0
    while f is not None:
        f, depth = f.f_back, depth + 1
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(depth + n)
    try:
        yield
    finally:
        sys.setrecursionlimit(old)


# ---------------------------------------------------------------- tail calls

KINDS = ["tramp", "tramp", "plain", "method", "classmethod", "static", "lambda", "inner", "ecinner", "star"]
#: kinds that can be called in a non-tail position
CALLABLE = {"tramp", "method", "classmethod", "static", "lambda", "inner", "star"}

consts = st.integers(0, 9)
target = st.integers(0, 3)
style = st.sampled_from(["pos", "named", "mixed", "star", "kwstar", "default"])
tail = st.tuples(st.just("tail"), target, consts, style)
pre = st.one_of(st.tuples(st.just("log"), consts), st.tuples(st.just("call"), target, consts, style), st.tuples(st.just("trycall"), target, consts, st.integers(0, 1)),
                st.tuples(st.just("finallycall"), target, consts))
end = st.one_of(tail, tail, tail, tail, st.tuples(st.just("ret"), consts), st.tuples(st.just("raise"), st.integers(0, 1)), st.tuples(st.just("cond"), target, target, consts),
                st.tuples(st.just("func"), target, consts), st.tuples(st.just("none")))
body = st.tuples(st.lists(pre, max_size=2), end)
# a function: kind, what to do at n <= 0, the behaviours that n % len selects
fdef = st.tuples(st.sampled_from(KINDS), st.one_of(st.tuples(st.just("ret"), consts), st.tuples(st.just("ret"), consts), st.tuples(st.just("raise"), st.integers(0, 1)),
                                                   st.tuples(st.just("fin"), target)), st.lists(body, min_size=1, max_size=3))
progs = st.tuples(st.lists(fdef, min_size=1, max_size=4), st.integers(0, 7), st.booleans())

# only tail calls: long chains
ltail = st.tuples(st.just("tail"), target, consts, style)
lend = st.one_of(ltail, ltail, ltail, st.tuples(st.just("cond"), target, target, consts))
lbody = st.tuples(st.lists(st.one_of(st.tuples(st.just("log"), consts), st.tuples(st.just("call"), target, consts, style)), max_size=1), lend)
ldef = st.tuples(st.sampled_from([k for k in KINDS if k != "ecinner"]), st.tuples(st.just("ret"), consts), st.lists(lbody, min_size=1, max_size=3))
longprogs = st.tuples(st.lists(ldef, min_size=1, max_size=4), st.integers(1500, 2500), st.booleans())


def argtext(sty, n, acc, k):
    return {"pos": f"{n}, {acc}, {k}", "named": f"target={k}, acc={acc}, n={n}", "mixed": f"{n}, acc={acc}, target={k}", "star": f"*[{n}, {acc}], target={k}",
            "kwstar": f"{n}, **dict(acc={acc}, target={k})", "default": f"{n}, {acc}"}[sty]


def source(case, tco):
    defs, n0, _ = case
    N = len(defs)

    def ref(i):
        i %= N
        return {"method": f"o.m{i}", "classmethod": f"O.m{i}", "static": f"O.m{i}"}.get(defs[i][0], f"f{i}")

    def callee(i):
        """The nearest target that may be called normally, or None."""
        for j in range(N):
            if defs[(i + j) % N][0] in CALLABLE:
                return ref(i + j)
        return None

    def tailcall(i, args):
        return f"return jump({ref(i)}, {args})" if tco else f"return {ref(i)}({args})"

    def emit_end(e, ind):
        k = e[0]
        if k == "tail":
            return [ind + tailcall(e[1], argtext(e[3], "n - 1", f"(acc + {e[2]}) % 1009", "(target + n) % 7"))]
        if k == "fin":
            return [ind + "if n == 0:", ind + "    " + tailcall(e[1], "-1, acc + 1"), ind + "return acc"]
        if k == "ret":
            return [ind + f"return [n, acc, target, {e[1]}]" if e[1] % 2 else ind + "return acc"]
        if k == "raise":
            return [ind + f"raise {['Err', 'Err2'][e[1]]}(acc)"]
        if k == "none":
            return [ind + "return"]
        if k == "cond":
            a, b = argtext("pos", "n - 1", "acc + 1", "target"), argtext("named", "n - 1", f"acc + {e[3]}", "1")
            if tco:
                return [ind + f"return jump({ref(e[1])}, {a}) if acc % 2 else jump({ref(e[2])}, {b})"]
            return [ind + f"return {ref(e[1])}({a}) if acc % 2 else {ref(e[2])}({b})"]
        if k == "func":  # return a function as a value: not a call
            c = callee(e[1])
            return [ind + (f"return {c}" if c and defs[e[1] % N][0] == "tramp" else "return len")]
        raise ValueError(k)

    def emit_pre(p, ind):
        if p[0] == "log":
            return [ind + f"log.append(({p[1]}, n, acc, target))"]
        c = callee(p[1])
        if c is None:
            return []
        args = argtext(p[3] if p[0] == "call" else "pos", "min(n - 2, 3)", f"acc + {p[2]}", "2")
        get = f"{c}({args})"
        use = "acc += x if isinstance(x, int) else 1"
        if p[0] == "call":
            return [ind + f"x = {get}", ind + "log.append(fix(x))", ind + use]
        if p[0] == "trycall":
            return [ind + "try:", ind + f"    x = {get}", ind + f"except {['Err', '(Err, Err2)'][p[3]]} as e:", ind + "    x = 3", ind + "    log.append(repr(e))", ind + use]
        return [ind + "try:", ind + f"    x = {get}", ind + "finally:", ind + f"    log.append('finally {p[2]}')", ind + use]

    def emit_body(d, ind):
        out = [ind + "log.append(n) if n % 97 == 0 or n < 9 else None", ind + "if n <= 0:"] + emit_end(d[1], ind + "    ")
        for j, (pres, e) in enumerate(d[2]):
            out.append(ind + f"if n % {len(d[2])} == {j}:")
            for p in pres:
                if len(d[2]) == 3 or n0 < 100:
                    out += emit_pre(p, ind + "    ")
                else:  # long chains: not too many non-tail calls
                    out += [ind + "    if n % 100 < 3:"] + emit_pre(p, ind + "        ") + [ind + "        pass"]
            out += emit_end(e, ind + "    ")
        return out
    dec = "@trampolined" if tco else ""
    sig = "n, acc=0, target=5"
    top, cls = [], ["class O:", "    z = 1"]
    for i, d in enumerate(defs):
        kind = d[0]
        if kind in ("tramp", "plain"):
            top += [dec if kind == "tramp" else "", f"def f{i}({sig}):"] + emit_body(d, "    ")
        elif kind == "star":
            top += [dec, f"def f{i}(*args, **kwargs):", f"    return f{i}_(*args, **kwargs)", f"def f{i}_({sig}):"] + emit_body(d, "    ")
        elif kind == "lambda":
            top += [f"def f{i}_({sig}):"] + emit_body(d, "    ")
            if tco:
                top += [f"f{i} = trampolined(lambda {sig}: jump(f{i}_, n, acc, target))"]
            else:
                top += [f"f{i} = (lambda {sig}: f{i}_(n, acc, target))"]
        elif kind == "inner":  # the body is in a function defined afresh for each call
            top += [dec, f"def f{i}({sig}):", f"    def inner({sig}):"] + emit_body(d, "        ") + ["    return jump(inner, n, acc, target)" if tco else "    return inner(n, acc, target)"]
        elif kind == "ecinner":  # do-it-now decorator inside a trampoline
            top += [f"def f{i}({sig}):", "    " + dec, "    @call_ec", "    def result(ec, n=n, acc=acc, target=target):"] + emit_body(d, "        ") + ["    return result"]
        else:
            extra = {"method": [], "classmethod": ["    @classmethod"], "static": ["    @staticmethod"]}[kind]
            me = {"method": "self, ", "classmethod": "cls, ", "static": ""}[kind]
            check = {"method": ["        assert self is o"], "classmethod": ["        assert cls is O"], "static": []}[kind]
            cls += extra + ["    " + dec, f"    def m{i}({me}{sig}):"] + check + emit_body(d, "        ")
    start = callee(0)
    return "\n".join(top + cls + ["o = O()", f"result = {start}"])


class TooLong(BaseException):
    pass


class Log(list):
    def append(self, x):
        if len(self) > 20000:
            raise TooLong()
        super().append(x)


def outcome(case, tco, budget):
    log = Log()
    ns = {"log": log, "trampolined": trampolined, "jump": jump, "call_ec": call_ec, "Err": Err, "Err2": Err2,
          "fix": lambda x: x if isinstance(x, (int, list, type(None))) else getattr(x, "__name__", repr(x))}
    run_source(source(case, tco), ns)
    f = ns["result"]
    if f is None:
        return None
    try:
        with stack_budget(budget) if budget else contextlib.nullcontext():
            x = f(case[1], target=case[1] % 3) if case[2] else f(case[1])
        r = "value", ns["fix"](x)
    except (Err, Err2) as e:
        r = type(e).__name__, e.args
    except TooLong:
        r = "toolong", None
    return r, list(log)


def run_tail(case):
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(100000)
    try:
        want = outcome(case, False, None)
    finally:
        sys.setrecursionlimit(old)
    if want is None or want[0][0] == "toolong":
        return
    got = outcome(case, True, 400 if case[1] < 100 else 250)
    eq(got[0], want[0], "result")
    eq(got[1], want[1], "side effects")


def has_tail(case):
    return any(e[0] in ("tail", "cond") for d in case[0] for _, e in d[2])


# ---------------------------------------------------------------- loops

val = st.integers(0, 50)
maybe = st.one_of(st.none(), val)
nest = st.sampled_from(["direct", "direct", "nested", "comp"])
# what the body does at one iteration
act = st.deferred(lambda: st.one_of(
    st.tuples(st.just("loop"), maybe, maybe, st.sampled_from(["pos", "named"]), nest), st.tuples(st.just("loop"), val, maybe, st.sampled_from(["pos", "named"]), nest),
    st.tuples(st.just("loop"), val, maybe, st.sampled_from(["pos", "named"]), nest),
    st.tuples(st.just("cnt"), maybe, st.sampled_from(["pos", "named"]), nest), st.tuples(st.just("cnt"), maybe, st.sampled_from(["pos", "named"]), nest),
    st.tuples(st.just("inner"), st.sampled_from(FORMS), st.lists(act, max_size=4), st.integers(0, 4)),
    st.tuples(st.just("brk"), val, st.sampled_from(["return", "noreturn", "nested", "outer"])), st.tuples(st.just("return"), maybe), st.tuples(st.just("raise"), st.booleans())))
FORMS = ["looped", "breakably_looped", "looped_over", "breakably_looped_over"]
loops = st.tuples(st.sampled_from(FORMS), st.lists(act, max_size=6), st.integers(0, 6), st.one_of(st.none(), val), st.sampled_from(["list", "gen", "range", "failing"]))


class Items:
    """Count what is taken from an iterable."""
    def __init__(self, n, kind, log):
        self.n, self.kind, self.log = n, kind, log

    def __iter__(self):
        if self.kind == "range":
            return iter(range(self.n))
        return self.gen()

    def gen(self):
        for i in range(self.n):
            self.log.append(("take", i))
            yield i
        if self.kind == "failing":
            raise Err("source")
        self.log.append("end of input")


class Break(BaseException):
    def __init__(self, who, value):
        self.who, self.value = who, value


def apply(how, f, *a, **k):
    """Call f directly, or inside other functions."""
    if how == "nested":
        return (lambda: (lambda: f(*a, **k))())()
    if how == "comp":
        return [f(*a, **k) for _ in (1,)][0]
    return f(*a, **k)


def send(f, first, extra, how, nested):
    a = () if first is None else (first,)
    if extra is not None and how == "pos" and (first is not None or f is None):
        return apply(nested, f, *a, extra)
    return apply(nested, f, *a, **({} if extra is None else {"extra": extra}))


def real_loop(form, acts, n, acc0, kind, log, closures, outer):
    """Run with unpythonic. outer: list of break functions of the enclosing loops"""
    state = [0]

    def step(loop, x, acc, cnt, brk, extra, forever):
        i = state[0]
        state[0] += 1
        log.append((form, i, x, acc, extra))
        closures.append(lambda: (x, acc, extra))
        if forever and i >= n:
            return acc
        a = acts[i % len(acts)] if acts else ("loop", i, None, "pos", "direct")
        if a[0] == "cnt" and cnt is None:
            a = ("loop", None, *a[1:])
        if a[0] == "loop":
            _, first, extra1, how, nested = a
            if first is None or extra1 is None or how == "named":
                return apply(nested, loop, *(() if first is None else (first,)), **({} if extra1 is None else {"extra": extra1}))
            return apply(nested, loop, first, extra1)
        if a[0] == "cnt":
            _, extra1, how, nested = a
            if extra1 is None:
                return apply(nested, cnt)
            return apply(nested, cnt, extra1) if how == "pos" else apply(nested, cnt, extra=extra1)
        if a[0] == "brk":
            if a[2] == "outer" and outer:
                outer[-1](("outer", a[1]))
                log.append("not reached")
            if brk is None:
                return a[1]
            if a[2] == "return":
                return brk(a[1])
            if a[2] == "noreturn":
                brk(a[1])
                log.append("not reached")
            else:
                [brk(v) for v in (a[1], 99)]
                log.append("not reached")
        if a[0] == "return":
            return a[1]
        if a[0] == "raise":
            raise Err(a[1])
        if a[0] == "inner":
            r = real_loop(a[1], a[2], a[3], 100 + i, "list", log, closures, outer + ([brk] if brk else []))
            log.append(("inner gave", r))
            return loop(acc if r is None else r)
    items = Items(n, kind, log)
    if form == "looped":
        @looped
        def r(loop, acc=acc0, extra=None):
            return step(loop, None, acc, None, None, extra, True)
        return r
    if form == "breakably_looped":
        @breakably_looped
        def r(loop, brk, acc=acc0, extra=None):
            return step(loop, None, acc, None, brk, extra, True)
        return r
    if form == "looped_over":
        @looped_over(items, acc=acc0)
        def r(loop, x, acc, extra=None):
            return step(loop, x, acc, None, None, extra, False)
        return r

    @breakably_looped_over(items, acc=acc0)
    def r(loop, x, acc, cnt, brk, extra=None):
        return step(loop, x, acc, cnt, brk, extra, False)
    return r


def model_loop(form, acts, n, acc0, kind, log, closures, outer):
    over, breakable = form.endswith("_over"), form.startswith("breakably")
    me = object()
    it = iter(Items(n, kind, log)) if over else None
    acc, extra, i = acc0, None, 0
    try:
        while True:
            x = None
            if over:
                x = next(it, me)
                if x is me:
                    return acc
            log.append((form, i, x, acc, extra))
            closures.append(lambda x=x, acc=acc, extra=extra: (x, acc, extra))
            if not over and i >= n:
                return acc
            a = acts[i % len(acts)] if acts else ("loop", i, None, "pos", "direct")
            i += 1
            if a[0] == "cnt" and not (over and breakable):
                a = ("loop", None, *a[1:])
            if a[0] == "loop":
                # looped has no memory: an argument not given takes its default
                acc = a[1] if a[1] is not None else acc if over else acc0
                extra = a[2]
            elif a[0] == "cnt":
                extra = a[1]
            elif a[0] == "brk":
                if a[2] == "outer" and outer:
                    raise Break(outer[-1], ("outer", a[1]))
                return a[1]
            elif a[0] == "return":
                return a[1]
            elif a[0] == "raise":
                raise Err(a[1])
            else:
                r = model_loop(a[1], a[2], a[3], 100 + i - 1, "list", log, closures, outer + ([me] if breakable else []))
                log.append(("inner gave", r))
                acc, extra = acc if r is None else r, None
    except Break as e:
        if e.who is me:
            return e.value
        raise


def run_loops(case):
    res = []
    for f in (real_loop, model_loop):
        log, closures = [], []
        try:
            r = "value", f(*case, log, closures, [])
        except Err as e:
            r = "Err", e.args
        res.append((r, log, [c() for c in closures]))
    eq(res[0][1], res[1][1], "iterations")
    eq(res[0][0], res[1][0], "result of the loop")
    eq(res[0][2], res[1][2], "variables captured by closures at each iteration")


def run_longloop(case):
    form, n, every, brk_at = case
    seen = [0]

    def go():
        if form == "looped":
            @looped
            def r(loop, acc=0, i=0):
                seen[0] += 1
                return loop(acc + i, i + 1) if i < n else acc
        elif form == "breakably_looped":
            @breakably_looped
            def r(loop, brk, acc=0, i=0):
                seen[0] += 1
                if i == brk_at:
                    brk(("brk", acc))
                return loop(i=i + 1, acc=acc + i) if i < n else acc
        elif form == "looped_over":
            @looped_over(range(n), acc=0)
            def r(loop, x, acc):
                seen[0] += 1
                return loop() if x % every == 0 else loop(acc + x)
        else:
            @breakably_looped_over(range(n), acc=0)
            def r(loop, x, acc, cnt, brk):
                seen[0] += 1
                if x == brk_at:
                    brk(("brk", acc))
                return cnt() if x % every == 0 else loop(acc + x)
        return r
    with stack_budget(200):
        got = go()
    skip = form.endswith("_over")
    want, count = 0, 0
    for i in range(n + (0 if skip else 1)):
        count += 1
        if form.startswith("breakably") and i == brk_at:
            want = ("brk", want)
            break
        if i < n and not (skip and i % every == 0):
            want += i
    eq(got, want, "result of a long loop")
    eq(seen[0], count, "number of iterations")


def run_arity(case):
    form, npos, ndef, va = case
    need = {"looped": 1, "breakably_looped": 2, "looped_over": 3, "breakably_looped_over": 5}[form]
    ps = [f"p{i}" for i in range(npos)] + [f"d{i}=7" for i in range(ndef)] + (["*va"] if va else [])
    log = []
    ns = {"log": log}
    run_source(f"def body({', '.join(ps)}):\n    log.append(1)\n    return 42", ns)
    ok = npos <= need and (va or need <= npos + ndef)
    f = {"looped": looped, "breakably_looped": breakably_looped, "looped_over": looped_over([1, 2], acc=3), "breakably_looped_over": breakably_looped_over([1, 2], acc=3)}[form]
    try:
        r = "value", f(ns["body"])
    except ValueError:
        r = "ValueError", None
    eq(r, ("value", 42) if ok else ("ValueError", None), "body arity")
    eq(log, [1] if ok else [], "calls of the body")


# ---------------------------------------------------------------- generators

gend = st.sampled_from(["next", "next", "next", "next", "none", "list", "str", "empty", "dict", "int", "badbatch", "raise", "typeerror", "iter", "notiter"])
gkind = st.sampled_from(["tramp", "tramp", "plain", "gtco"])
gchain = st.tuples(st.lists(st.tuples(gkind, st.lists(val, max_size=3), gend), min_size=1, max_size=6), st.sampled_from(["tramp", "gtco"]), st.integers(0, 12), st.sampled_from(["iterate", "iterate", "close", "throw", "send"]))


class Batch:
    def __init__(self, items, exc):
        self.items, self.exc = items, exc

    def __iter__(self):
        yield from self.items
        if self.exc:
            raise self.exc


class NotIter:
    __iter__ = None

    def __eq__(self, other):
        return isinstance(other, NotIter)


def gbuild(chain, log, i, force=None):
    kind, items, e = chain[i % len(chain)]
    if i >= 3 * len(chain):
        e = "none"

    def g(n):
        log.append(("start", n))
        got = None
        for x in items:
            try:
                got = yield x if got is None else (x, got)
            except Err as exc:
                log.append("thrown in")
                yield "caught"
                raise Err2() from exc
            except GeneratorExit:
                log.append(("closed", n))
                raise
        log.append(("end", n))
        if e == "next":
            return gbuild(chain, log, n + 1)
        if e == "raise":
            raise Err("end")
        return {"none": None, "list": [1, 2], "str": "ab", "empty": (), "dict": {5: 6}, "int": 42, "badbatch": Batch([7, 8], Err("batch")), "typeerror": Batch([7], TypeError("batch")),
                "iter": iter([1, 2, 3]), "notiter": NotIter()}[e]
    k = force or kind
    return {"tramp": gtrampolined(g), "plain": g, "gtco": lambda n: gtco(g(n))}[k](i)


def gmodel(chain, log):
    """Flat version: one generator with explicit loop over the chain."""
    i = 0
    while True:
        kind, items, e = chain[i % len(chain)]
        if i >= 3 * len(chain):
            e = "none"
        log.append(("start", i))
        got = None
        for x in items:
            try:
                got = yield x if got is None else (x, got)
            except Err as exc:
                log.append("thrown in")
                yield "caught"
                raise Err2() from exc
            except GeneratorExit:
                log.append(("closed", i))
                raise
        log.append(("end", i))
        if e == "next":
            i += 1
            continue
        if e == "raise":
            raise Err("end")
        batch = {"list": [1, 2], "str": "ab", "dict": [5], "iter": [1, 2, 3], "badbatch": [7, 8], "typeerror": [7]}.get(e, [])
        for x in batch:
            yield x
        if e == "badbatch":
            raise Err("batch")
        if e == "typeerror":
            raise TypeError("batch")
        return {"int": 42, "notiter": NotIter()}.get(e)


def gdrive(it, k, how):
    out = []
    try:
        for j in range(k):
            # the items of a non-generator last batch cannot take sent values; send only to the generators
            out.append(it.send(j) if how == "send" and j else next(it))
        if how == "close":
            it.close()
            out.append("closed")
        elif how == "throw":
            out.append(("after throw", it.throw(Err("x"))))
        out += list(it)
        out.append(("end",))
    except StopIteration as e:
        out.append(("stop", e.value))
    except (Err, Err2) as e:
        out.append(repr(e))
    except TypeError as e:
        out.append("TypeError " + str(e))
    return out


def run_gtco(case):
    chain, how, k, drive = case
    if drive == "send" and any(e in ("list", "str", "dict", "iter", "badbatch", "typeerror") for _, _, e in chain):
        drive = "iterate"
    res = []
    log = []
    it = iter(gbuild(chain, log, 0, "tramp")) if how == "tramp" else gtco(gbuild(chain, log, 0, "plain"))
    got = gdrive(it, k, drive)
    wlog = []
    want = gdrive(gmodel(chain, wlog), k, drive)
    eq(got, want, "chain of generators")
    eq(log, wlog, "what the generators ran")


def run_glong(case):
    kinds, n, per, tail_ = case
    made = []

    def mk(i):
        def g():
            for j in range(per):
                yield (i, j)
            if i < n:
                return mk(i + 1)
            return {"none": None, "list": ["z"], "tuple": ("z", "y")}[tail_]
        k = kinds[i % len(kinds)]
        return gtrampolined(g)() if k == "tramp" else gtco(g()) if k == "gtco" else g()
    with stack_budget(150):
        got = list(gtco(mk(0)) if kinds[0] == "plain" else mk(0))
    want = [(i, j) for i in range(n + 1) for j in range(per)] + {"none": [], "list": ["z"], "tuple": ["z", "y"]}[tail_]
    eq(got, want, "long chain of generators")


SUITES = [
    Suite("tail calls", progs, run_tail, quick=8000, nontrivial=has_tail),
    Suite("long chains", longprogs, run_tail, quick=400, nontrivial=has_tail),
    Suite("loops", loops, run_loops, quick=8000, nontrivial=lambda c: c[2] >= 2),
    Suite("long loops", st.tuples(st.sampled_from(FORMS), st.integers(500, 3000), st.integers(2, 5), st.integers(0, 4000)), run_longloop, quick=100),
    Suite("body arity", st.tuples(st.sampled_from(FORMS), st.integers(0, 6), st.integers(0, 3), st.booleans()), run_arity, quick=300),
    Suite("generator chains", gchain, run_gtco, quick=8000, nontrivial=lambda c: any(e == "next" for _, _, e in c[0])),
    Suite("long generator chains", st.tuples(st.lists(st.sampled_from(["tramp", "plain"]), min_size=1, max_size=3), st.integers(300, 1500), st.integers(0, 2),
                                             st.sampled_from(["none", "list", "tuple"])), run_glong, quick=60),
]
