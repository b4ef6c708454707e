"""C29: automatic TCO and automatic return preserve the program; tail calls do not grow the stack."""
import contextlib
import re
import sys

from hypothesis import strategies as st

from checks.c18 import stack_budget
from vp.core import Suite, eq, require
from vp.macro import run_module

RULE = ("cases are programs of functions (def, lambda, method, class and static method, property, nested, decorated with memoize, curry, catch or a user decorator, generator, coroutine) whose return values "
        "nest calls, conditionals, and/or chains, let, do, aif, cond, lambdas and escapes, with returns in branches, loops, with and try; the program under tco is compared with the same program "
        "without it (results, exceptions, trace of side effects); recursion families with all calls in tail position run in a bounded stack; autoreturn programs are compared with the returns written out; "
        "non-trivial: at least two kinds of tail position are used and a call in one of them ran")
ASSUMPTIONS = ["escape continuations are used in the two basic forms that the documentation supports; what is called in the argument of an escape does not escape again by the same continuation, and there is no with or try between the escape and its catch point",
               "no assignment expressions in the last item of an and/or chain",
               "user decorators are not mixed with the library's own decorators on one function",
               "functions do not inspect their own stack frame (locals, eval, bare super as the return value)"]

CONSTS = ["0", "1", "2", "''", "'s'", "None", "()", "(3,)", "False", "True"]
HEAD = ("from unpythonic.syntax import macros, tco, autoreturn, let, letseq, letrec, do, do0, local, delete, aif, it, cond\n"
        "from unpythonic import call_ec, catch, throw, memoize, curry, Values, looped, looped_over, breakably_looped, breakably_looped_over, trampolined, call\n")


class Halt(BaseException):
    pass


class G:
    """Draws program text. The values are constants and tuples of them; nothing depends on their types."""

    def __init__(self, draw, stack=False, auto=False, conts=False):
        self.draw = draw
        self.feats = set()
        self.k = 0
        self.names = 0
        self.budget = draw(st.integers(6, 40))
        self.stack = stack
        self.targets = []       # (render function, kinds)
        self.ec = None
        self.auto = auto
        self.conts = conts      # for C30: what a continuations block supports
        self.ops = ["or"] if conts else ["or", "and"]
        self.depth = 0

    def n(self, k):
        return self.draw(st.integers(0, k - 1))

    def pick(self, xs):
        return xs[self.n(len(xs))]

    def tag(self):
        self.k += 1
        return self.k

    def fresh(self):
        self.names += 1
        return f"v{self.names}"

    # vs: names readable here; n is among them in a function
    def data(self, vs, d):
        """An expression whose value matters; calls in it are not tail calls (and in stack mode there are none)."""
        self.budget -= 1
        k = self.n(14 if d > 0 and self.budget > 0 else 4)
        if k <= 1:
            return self.pick(CONSTS)
        if k <= 3:
            return self.pick(vs)
        if k == 4:
            return f"t({self.tag()}, {self.data(vs, d - 1)})"
        if k == 5:
            if self.stack:      # thousands of rounds: the values must not grow
                return f"({self.pick(CONSTS)}, {self.pick(CONSTS)})"
            return f"({self.data(vs, d - 1)}, {self.data(vs, d - 1)})"
        if k == 6:
            return f"({self.data(vs, d - 1)} == {self.data(vs, d - 1)})"
        if k == 7:
            return f"({self.data(vs, d - 1)} {self.pick(self.ops)} {self.data(vs, d - 1)})"
        if k == 8:
            return f"(not {self.data(vs, d - 1)})"
        if self.stack:
            return f"t({self.tag()}, {self.data(vs, d - 1)})"
        if k in (9, 10):
            return f"t({self.tag()}, {self.call(vs, d - 1)})"
        if k == 11:
            self.feats.add("nontail-lambda")
            return f"apply(lambda: {self.tail(vs, d - 1)})"
        if k == 12:
            return f"[{self.tail(vs, d - 1)} for _ in (0, 1)][{self.n(2)}]"
        return f"({self.tail(vs, d - 1)},)[0]"

    def arg(self, vs, d):
        return self.data(vs, min(d, 1))

    def call(self, vs, d):
        """A call of one of the functions of the program."""
        self.budget -= 1
        if "n" not in vs or not self.targets:
            return f"t({self.tag()}, {self.arg(vs, d)})"
        return self.pick(self.targets)(vs, d)

    def tail(self, vs, d):
        """An expression in tail position."""
        self.budget -= 1
        k = self.n(26 if d > 0 and self.budget > 0 else 4)
        T = lambda: self.tail(vs, d - 1)  # noqa: E731
        D = lambda: self.data(vs, min(d - 1, 1))  # noqa: E731
        if k <= 4:
            return self.call(vs, d)
        if k == 5:
            return self.data(vs, d)
        if k in (6, 7, 8):
            self.feats.add("ifexp")
            return f"({T()} if {D()} else {T()})"
        if k in (9, 10, 11):
            self.feats.add("and/or")
            return "(" + f" {self.pick(self.ops)} ".join([D() for _ in range(1 + self.n(3))] + [T()]) + ")"
        if k == 12:
            self.feats.add("and/or")
            return f"(({D()} and {D()}) or ({D()} {self.pick(self.ops)} {T()}))"
        if k in (13, 14, 15):
            self.feats.add("let")
            kind = self.pick(["let", "letseq", "letrec"])
            v, w = self.fresh(), self.fresh()
            if kind == "letrec":
                self.feats.add("letrec")
                b = f"{v} := (lambda n: ({self.tail([v_ for v_ in vs if v_ != 'n'] + ['n'], d - 2)}) if n <= 0 else {v}(dec(n)))"
                body = f"{v}(n)" if "n" in vs else f"{v}(1)"
                return f"letrec[{b}][{body}]"
            b = f"{v} := {D()}, {w} := {self.data(vs + [v], min(d - 1, 1)) if kind == 'letseq' else D()}"
            inner = vs + [v, w]
            body = self.tail(inner, d - 1)
            if self.n(3) == 0:
                self.feats.add("do")
                body = f"[{self.data(inner, 1)}, {body}]"
            return f"{kind}[{b}][{body}]" if self.n(2) else f"{kind}[[{b}] in {body}]"
        if k in (16, 17):
            self.feats.add("do")
            v = self.fresh()
            items = [f"local[{v} := {D()}]"]
            inner = vs + [v]
            if self.n(2):
                items.append(self.data(inner, 1))
            if self.n(3) == 0:
                items.append(f"({v} := {self.data(inner, 1)})")
            return f"do[{', '.join(items)}, {self.tail(inner, d - 1)}]"
        if k == 18:
            self.feats.add("do0")
            return f"do0[{D()}, {D()}]"
        if k in (19, 20):
            self.feats.add("aif")
            return f"aif[{D()}, {self.tail(vs + ['it'], d - 1)}, {self.tail(vs + ['it'], d - 1)}]"
        if k in (21, 22):
            self.feats.add("cond")
            if self.n(3) == 0:
                return f"cond[[{D()}, {D()}], [{D()}, {T()}], {T()}]"
            return f"cond[{D()}, {T()}, {D()}, {T()}, {T()}]"
        if k == 23:
            self.feats.add("lambda")
            v = self.fresh()
            return f"(lambda {v}: {self.tail(vs + [v], d - 1)})({D()})"
        if k == 24:
            self.feats.add("lambda default")
            v, w = self.fresh(), self.fresh()
            if self.n(2):
                return f"(lambda {v}={D()}, {w}=(lambda {v}: {self.tail(vs + [v], d - 2)}): {w}({v}))()"
            return f"(lambda {v}, *{w}, **kw: {self.tail(vs + [v, w], d - 1)})({D()}, {D()})"
        if self.stack:
            return self.call(vs, d)
        if self.conts or self.n(2):
            self.feats.add("values")
            return f"Values({D()}, k={D()})"
        self.feats.add("callec")
        e = self.fresh() if self.n(2) else "ec"
        return f"call_ec(lambda {e}: ({D()}, {e}({self.tail(vs, d - 1)}), t({self.tag()}, 0)))"

    # ------------------------------------------------------------ statements
    def ret(self, vs, d):
        return "return " + self.tail(vs, d) if self.n(12) else "return"

    def block(self, vs, d, tailpos=True, ret=True, ctx=False):
        """-> lines; ret: ends in a return; ctx: inside a with or try, where in stack mode the return value is data"""
        out = []
        for _ in range(self.n(3)):
            out += self.stmt(vs, d - 1, ctx)
        if ret:
            out += self.final(vs, d, ctx)
        elif not out:
            out.append(f"t({self.tag()}, 0)")
        return out

    def final(self, vs, d, ctx):
        self.budget -= 1
        k = self.n(12) if d > 0 and self.budget > 0 else 0
        ind = lambda ls: ["    " + x for x in ls]  # noqa: E731
        if k <= 3:
            if ctx and self.stack:
                return ["return " + self.data(vs, d)]
            return [self.ret(vs, d)]
        if k <= 5:
            self.feats.add("if")
            return [f"if {self.data(vs, 1)}:"] + ind(self.block(vs, d - 1, ctx=ctx)) + ["else:"] + ind(self.block(vs, d - 1, ctx=ctx))
        if self.conts and k in (6, 7):
            k = 8
        if k == 6:
            self.feats.add("with")
            return [f"with cm({self.tag()}, {self.n(2)}):"] + ind(self.block(vs, d - 1, ctx=True)) + self.final(vs, d - 1, ctx)
        if k == 7:
            self.feats.add("try")
            e = self.n(4)
            out = ["try:"] + ind([f"raise_({self.data(vs, 1)})"] + self.block(vs, d - 1, ctx=True))
            fin = self.n(3) == 0
            if e:
                out += ["except ValueError:"] + ind(self.block(vs, d - 1, ctx=ctx or fin))
                if self.n(3) == 0:
                    out += ["else:"] + ind(self.block(vs, d - 1, ctx=ctx or fin))
            if fin or not e:
                out += ["finally:"] + ind(self.block(vs, 0, ret=False))
            return out + self.final(vs, d - 1, ctx)
        if k == 8:
            self.feats.add("loop")
            return [f"for a in (0, {self.pick(CONSTS)}):"] + ind([f"if {self.data(vs, 1)}:"] + ind(self.block(vs, d - 1, ctx=ctx))) + self.final(vs, d - 1, ctx)
        if k == 9:
            self.feats.add("match")
            return [f"match {self.data(vs, 1)}:"] + ind(["case 0:"] + ind(self.block(vs, d - 1, ctx=ctx)) + ["case (b, _):"] + ind(self.block(vs, d - 1, ctx=ctx)) + ["case _:"] + ind(self.block(vs, d - 1, ctx=ctx)))
        # nested function
        self.feats.add("nested def")
        f = self.fresh()
        inner = [v for v in vs if v not in "nxab"] + ["n", "x", "a", "b"]
        out = [f"def {f}(n, x):", "    a = b = x"] + ind(self.block(inner, d - 1))
        if self.n(2) and not self.stack and not self.conts:
            self.feats.add("callec")
            e = self.fresh() if self.n(2) else "ec"
            saved, self.targets = self.targets, list(self.targets)
            out = ["@call_ec", f"def {f}({e}):", "    a = b = x"] + ind(
                [f"def esc(n): {e}({self.call(vs, 1)})" if self.n(2) else f"esc = lambda n: {e}({self.call(vs, 1)})",
                 f"if {self.data(vs, 1)}: esc({vs[0]})"] + [self.ret(vs, d - 1)])
            self.targets = saved
            return out + [f"return {f}"]
        if ctx and self.stack:
            return out + ["return " + self.data(vs, d)]
        return out + [f"return {f}(dec(n), {self.data(vs, 1)})" if "n" in vs else f"return {f}(1, {self.data(vs, 1)})"]

    def stmt(self, vs, d, ctx):
        self.budget -= 1
        k = self.n(10) if d > 0 and self.budget > 0 else self.n(2)
        ind = lambda ls: ["    " + x for x in ls]  # noqa: E731
        if k == 0:
            return [f"{self.pick('ab')} = {self.data(vs, 1)}"]
        if k <= 3:
            return [f"t({self.tag()}, {self.data(vs, d)})"]
        if k <= 6:
            self.feats.add("if")
            return [f"if {self.data(vs, 1)}:"] + ind(self.block(vs, d - 1, ret=self.n(3) > 0, ctx=ctx))
        if k in (7, 8) and self.conts:
            return [f"with cm({self.tag()}, {self.n(2)}):"] + ind([f"t({self.tag()}, {self.call(vs, d)})", f"raise_({self.data(vs, 1)})"])
        if k == 7:
            self.feats.add("with")
            return [f"with cm({self.tag()}, {self.n(2)}):"] + ind(self.block(vs, d - 1, ret=self.n(2) > 0, ctx=True))
        if k == 8:
            self.feats.add("try")
            return ["try:"] + ind([f"raise_({self.data(vs, 1)})"] + self.block(vs, d - 1, ret=self.n(2) > 0, ctx=True)) + ["except ValueError:"] + ind(self.block(vs, d - 1, ret=self.n(2) > 0, ctx=ctx))
        self.feats.add("loop")
        return [f"for a in (0, {self.pick(CONSTS)}):"] + ind(self.block(vs, d - 1, ret=self.n(3) == 0, ctx=ctx))

    # ------------------------------------------------------------ programs
    def args(self, vs, d, style, names=("n", "x")):
        a, b = "dec(n)", self.arg(vs, d)
        return {0: f"{a}, {b}", 1: f"x={b}, n={a}", 2: f"*({a}, {b})", 3: f"{a}, **{{'x': {b}}}"}[style]

    def target(self, f):
        return lambda vs, d: f"{f}({self.args(vs, d, self.pick([0, 0, 0, 1, 2, 3]))})"

    def program(self):
        kinds = ["def", "def", "lambda", "lambda", "method", "class", "static", "curry"]
        if not self.stack and not self.conts:
            kinds += ["property", "memoize", "deco", "wraps", "gen", "async", "catch", "curry1", "genlambda", "looped", "brk", "memolambda"]
        fs = []
        for i in range(1 + self.n(4)):
            fs.append((f"f{i}", self.pick(kinds)))
        for f, kind in fs:
            self.feats.add("kind " + kind)
            if kind in ("method", "class", "static"):
                o = {"method": "o", "class": self.pick(["o", "C"]), "static": self.pick(["o", "C"])}[kind]
                self.targets.append(self.target(f"{o}.{f}"))
            elif kind == "property":
                self.targets.append(lambda vs, d, f=f: f"P(dec(n), {self.arg(vs, d)}).{f}")
            elif kind == "gen" or kind == "genlambda":
                self.targets.append(lambda vs, d, f=f: f"drain({f}({self.args(vs, d, 0)}))")
            elif kind == "async":
                self.targets.append(lambda vs, d, f=f: f"drive({f}({self.args(vs, d, 0)}))")
            elif kind == "curry1":
                self.targets.append(lambda vs, d, f=f: f"{f}(dec(n))({self.arg(vs, d)})")
            elif kind in ("looped", "brk"):
                self.targets.append(lambda vs, d, f=f: f"{f}(dec(n), {self.arg(vs, d)})")
            else:
                self.targets.append(self.target(f))
        ind = lambda ls: ["    " + x for x in ls]  # noqa: E731
        out, cls, props = [], [], []
        vs = ["n", "x", "a", "b"]
        for f, kind in fs:
            base = "return " + self.data(["x"], 1)
            body = lambda: ["a = b = x", "if n <= 0:", "    " + base] + self.block(vs, 3)  # noqa: E731
            lam = lambda: f"lambda n, x: ({self.data(['x'], 1)}) if n <= 0 else {self.tail(['n', 'x'], 4)}"  # noqa: E731
            if kind == "def":
                out += [f"def {f}(n, x):"] + ind(body())
            elif kind == "lambda":
                out += [f"{f} = {lam()}"]
            elif kind == "memolambda":
                out += [f"{f} = memoize({lam()})"]
            elif kind in ("curry", "memoize"):
                out += ["@" + kind, f"def {f}(n, x):"] + ind(body())
            elif kind == "curry1":
                out += ["@curry", f"def {f}(n, x):"] + ind(body())
            elif kind in ("deco", "wraps"):
                out += ["@" + {"deco": "pair", "wraps": "wpair"}[kind], f"def {f}(n, x):"] + ind(body())
            elif kind == "method":
                cls += [f"def {f}(self, n, x):"] + ind(body())
            elif kind == "class":
                cls += ["@classmethod", f"def {f}(cls, n, x):"] + ind(body())
            elif kind == "static":
                cls += ["@staticmethod", f"def {f}(n, x):"] + ind(body())
            elif kind == "property":
                props += ["@property", f"def {f}(self):"] + ind(["n, x = self.n, self.x"] + body())
            elif kind == "gen":
                out += [f"def {f}(n, x):"] + ind(["yield x"] + body())
            elif kind == "genlambda":
                out += [f"{f} = lambda n, x: (yield x) or ({self.tail(['n', 'x'], 2)} if n > 0 else 0)"]
            elif kind == "async":
                out += [f"async def {f}(n, x):"] + ind(["await nap()"] + body())
            elif kind == "catch":
                out += ["@catch()", f"def {f}(n, x):", "    a = b = x"] + ind(["if n <= 0:", f"    throw({self.data(['x'], 1)})"] + [f"throw({self.tail(vs, 2)})" if self.n(2) else self.ret(vs, 3)])
            elif kind == "looped":
                out += [f"def {f}(n, x):"] + ind([f"@looped_over(map(lambda x: {self.tail(['n', 'x'], 1)}, range(n)), acc=())" if self.n(2) else "@looped_over(range(n), acc=())",
                                                  "def r(loop, x, acc):", "    a = b = acc", f"    if {self.data(['x', 'acc'], 1)}:", f"        return {self.tail(['n', 'x', 'acc'], 2)}", "    return loop(acc + (x,))",
                                                  "return r"])
            elif kind == "brk":
                out += [f"def {f}(n, x):"] + ind(["@breakably_looped" if self.n(2) else "@breakably_looped_over(range(5), acc=())"])
                if out[-1].endswith("looped"):
                    out += ind(["def r(loop, brk, i=0):"])
                    nxt = "loop(i + 1)"
                else:
                    out += ind(["def r(loop, i, acc, cnt, brk):"])
                    nxt = self.pick(["loop(acc + (i,))", "cnt()"])
                out += ind(["    if i >= 2:", f"        {self.pick(['', 'return '])}brk({self.tail(['n', 'x', 'i'], 2)})", f"    return {nxt}", "return r"])
        if cls:
            out += ["class C:"] + ind(cls) + ["o = C()"]
        if props:
            out += ["class P:"] + ind(["def __init__(self, n, x):", "    self.n, self.x = n, x"] + props)
        return out, fs


def invoke(fs, ns, n, x):
    """Call each function of the program with (n, x)."""
    for f, kind in fs:
        if kind in ("method", "class", "static"):
            yield lambda f=f: getattr(ns["o"], f)(n, x)
        elif kind == "property":
            yield lambda f=f: getattr(ns["P"](n, x), f)
        elif kind in ("gen", "genlambda"):
            yield lambda f=f: drain(ns[f](n, x))
        elif kind == "async":
            yield lambda f=f: drive(ns[f](n, x))
        elif kind == "curry1":
            yield lambda f=f: ns[f](n)(x)
        else:
            yield lambda f=f: ns[f](n, x)


def drain(g):
    out = []
    try:
        while True:
            out.append(next(g))
    except StopIteration as e:
        return (tuple(out), e.value)


def drive(c):
    try:
        while True:
            c.send(None)
    except StopIteration as e:
        return e.value


class nap:
    def __await__(self):
        yield 1


def pair(f):
    def w(*a, **k):
        return (f(*a, **k), "deco")
    return w


def wpair(f):
    from functools import wraps

    @wraps(f)
    def w(*a, **k):
        return ("deco", f(*a, **k))
    return w


FUEL = 150


def show(v):
    return re.sub(r" at 0x[0-9a-f]+|vp_generated_\d+", "", repr(v))


def world(limit):
    """-> names for a program, its trace"""
    log = []
    fuel = [0]

    def tick():
        fuel[0] += 1
        if fuel[0] > limit:
            raise Halt

    def t(k, v):
        tick()
        log.append((k, show(v)))
        return v

    def dec(n):
        tick()
        return n - 1

    def raise_(v):
        if v:
            raise ValueError(v)

    @contextlib.contextmanager
    def cm(k, suppress):
        log.append(("enter", k))
        try:
            yield
        except ValueError:
            log.append(("suppress", k, suppress))
            if not suppress:
                raise
        finally:
            log.append(("exit", k))

    def apply(f):
        return f()
    return dict(t=t, dec=dec, raise_=raise_, cm=cm, apply=apply, drain=drain, drive=drive, nap=nap, pair=pair, wpair=wpair), log, fuel


def outcome(thunk):
    try:
        r = thunk()
        return ("value", show(r))
    except Halt:
        return ("out of fuel",)
    except Exception as e:
        return ("raise", type(e).__name__, show(str(e)))


def execute(src, fs, inputs, limit=FUEL, extra=None):
    names, log, fuel = world(limit)
    if extra:
        names = extra(names)
    ns, exc = run_module(src, names)
    require(exc is None, f"raised at definition {exc!r}\n", src)
    out = []
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(20000)    # the program without tco must run out of fuel first
    try:
        for n, x in inputs:
            for thunk in invoke(fs, ns, n, x):
                fuel[0] = 0
                out.append(outcome(thunk))
    finally:
        sys.setrecursionlimit(old)
    return out, log


INPUTS = [(2, 0), (3, "s"), (1, ())]


def indent(ls, head, imports=None):
    return (imports or HEAD) + head + "\n" + "\n".join("    " + x for x in ls) + "\n"


@st.composite
def programs(draw):
    g = G(draw)
    lines, fs = g.program()
    return ("\n".join(lines), tuple(fs), tuple(sorted(g.feats)))


def compare(text, fs, inputs, head0, head1, text1=None, extra=None, head=None):
    src1 = indent((text1 or text).split("\n"), head1, head)
    want, wlog = execute(indent(text.split("\n"), head0, head), fs, inputs, extra=extra)
    got, glog = execute(src1, fs, inputs, extra=extra)
    eq(got, want, f"outcomes of\n{src1}\n")
    eq(glog, wlog, f"trace of\n{src1}\n")


def run_programs(case):
    text, fs, _ = case
    compare(text, fs, INPUTS, "if 1:", "with tco:")


# ---------------------------------------------------------------- bounded stack

@st.composite
def loops(draw):
    g = G(draw, stack=True)
    lines, fs = g.program()
    return ("\n".join(lines), tuple(fs), tuple(sorted(g.feats)))


N = 120


def run_loops(case):
    text, fs, _ = case
    inputs = [(N, 0), (N, "s")]
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(20000)
    try:
        want, wlog = execute(indent(text.split("\n"), "if 1:"), fs, inputs, limit=10 ** 6)
    finally:
        sys.setrecursionlimit(limit)
    src = indent(text.split("\n"), "with tco:")
    names, log, fuel = world(10 ** 6)
    ns, exc = run_module(src, names)
    require(exc is None, f"raised at definition {exc!r}\n", src)
    got = []
    for n, x in inputs:
        for thunk in invoke(fs, ns, n, x):
            with stack_budget(90):
                got.append(outcome(thunk))
    eq(got, want, f"outcomes in a bounded stack of\n{src}\n")
    eq(log, wlog, f"trace of\n{src}\n")


# ---------------------------------------------------------------- autoreturn

class A(G):
    """Function bodies, as pairs (with the returns written out, without)."""

    def body(self, vs, d):
        pre = []
        for _ in range(self.n(2)):
            pre += self.stmt(vs, d - 1, False)
        e, i = self.last(vs, d)
        return pre + e, pre + i

    def both(self, heads, bodies):
        """heads: lines, one before each body"""
        e, i = [], []
        for h, (be, bi) in zip(heads, bodies):
            hs = h.split("\n")
            pad = hs[-1][:len(hs[-1]) - len(hs[-1].lstrip())] + "    "
            e += hs + [pad + x for x in be]
            i += hs + [pad + x for x in bi]
        return e, i

    def last(self, vs, d):
        k = self.n(16) if d > 0 and self.budget > 0 else 0
        self.budget -= 1
        B = lambda: self.body(vs, d - 1)  # noqa: E731
        if k <= 3:
            x = self.tail(vs, d)
            return ["return " + x], [x]
        if k == 4:
            x = self.pick(["a = " + self.data(vs, 1), "pass", "del a", "global zz", "assert 1", "raise_(1); raise KeyError", "return " + self.tail(vs, 1)])
            return [x], [x]
        if k in (5, 6):
            self.feats.add("if")
            heads, bodies = [f"if {self.data(vs, 1)}:"], [B()]
            for _ in range(self.n(3)):
                heads.append(f"elif {self.data(vs, 1)}:")
                bodies.append(B())
            if self.n(3):
                heads.append("else:")
                bodies.append(B())
            return self.both(heads, bodies)
        if k in (7, 8):
            self.feats.add("with")
            return self.both([f"with cm({self.tag()}, {self.n(2)}):"], [B()])
        if k in (9, 10, 11):
            self.feats.add("try")
            pre = f"raise_({self.data(vs, 1)})"
            plain = lambda: (lambda s: (s, s))(self.block(vs, 1, ret=False))  # noqa: E731
            orelse, fin = self.n(3) == 0, self.n(3) == 0
            e, i = plain() if orelse else B()
            heads, bodies = ["try:"], [([pre] + e, [pre] + i)]
            for exc in ["ValueError", "(KeyError, TypeError)", "Exception as b"][:1 + self.n(3)]:
                heads.append(f"except {exc}:")
                mark = [f"t({self.tag()}, 0)"]
                e, i = B()
                bodies.append((mark + e, mark + i))
            if orelse:
                heads.append("else:")
                bodies.append(B())
            if fin:
                heads.append("finally:")
                bodies.append(plain())
            return self.both(heads, bodies)
        if k in (12, 13):
            self.feats.add("nested def")
            f = self.fresh()
            inner = [v for v in vs if v not in "xab"] + ["x", "a", "b"]
            e, i = self.body(inner, d - 1)
            e, i = self.both([self.pick(["", "", "", "@wpair\n"]) + f"def {f}(x=3):"], [(["a = b = x"] + e, ["a = b = x"] + i)])
            return e + [f"return {f}"], i
        if k == 14:
            self.feats.add("class")
            f = self.fresh()
            e, i = self.body([v for v in vs if v not in "xab"] + ["x", "a", "b"], d - 1)
            e, i = self.both([f"class {f}:\n    def m(self, x):"], [(["a = b = x"] + e, ["a = b = x"] + i)])
            return e + [f"return {f}"], i
        self.feats.add("loop")
        x = [f"for a in (0, {self.pick(CONSTS)}):"] + ["    " + y for y in self.block(vs, d - 1, ret=self.n(2) == 0)]
        return x, x


@st.composite
def implicit(draw):
    g = A(draw, auto=True)
    fs = [(f"f{i}", "def") for i in range(1 + g.n(2))]
    for f, _ in fs:
        g.targets.append(g.target(f))
    oe, oi = [], []
    for f, _ in fs:
        e, i = g.body(["n", "x", "a", "b"], 4)
        head = [f"def {f}(n, x):", "    a = b = x", "    if n <= 0:", "        return x"]
        oe += head + ["    " + x for x in e]
        oi += head + ["    " + x for x in i]
    return ("\n".join(oe), "\n".join(oi), tuple(fs), tuple(sorted(g.feats)))


def deep(thunk):
    """Look into returned functions and classes."""
    r = thunk()
    for _ in range(3):
        if isinstance(r, type):
            r = ("class", r.__name__, r().m(1) if hasattr(r, "m") else None)
            r = r[2] if callable(r[2]) else r
        elif callable(r):
            r = r()
    return "callable" if callable(r) else r


def run_implicit(case):
    explicit, bare, fs, _ = case

    def go(text, head):
        src = indent(text.split("\n"), head)
        names, log, fuel = world(FUEL)
        ns, exc = run_module(src, names)
        require(exc is None, f"raised at definition {exc!r}\n", src)
        out = []
        for n, x in INPUTS:
            for thunk in invoke(fs, ns, n, x):
                fuel[0] = 0
                out.append(outcome(lambda: deep(thunk)))
        return out, log, src
    want, wlog, _ = go(explicit, "if 1:")
    for head in ("with autoreturn:", "with autoreturn, tco:"):
        got, log, src = go(bare, head)
        eq(got, want, f"outcomes of\n{src}\n")
        eq(log, wlog, f"trace of\n{src}\n")


def nontrivial(case):
    f = set(case[-1])
    return len([x for x in f if not x.startswith("kind")]) >= 2


SUITES = [
    Suite("programs", programs(), run_programs, quick=2000, shards=8, nontrivial=nontrivial, labels=lambda c: c[-1]),
    Suite("stack", loops(), run_loops, quick=1000, shards=8, nontrivial=nontrivial, labels=lambda c: c[-1]),
    Suite("autoreturn", implicit(), run_implicit, quick=1500, shards=8, nontrivial=nontrivial, labels=lambda c: c[-1]),
]
