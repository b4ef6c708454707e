"""C31: automatic laziness evaluates only what is needed, once, to the same values."""
import sys
import warnings
from contextlib import contextmanager

from hypothesis import strategies as st

from unpythonic import Lazy, box, car, cdr, cons, force, unbox

from vp.core import Suite, eq, require
from vp.macro import run_module

RULE = ("cases are programs in a lazify block (alone, or combined with tco or autocurry) of functions, lambdas and methods with positional, default, keyword-only, star and double-star parameters that call each other with "
        "arguments in every syntactic form (references, expressions, container literals, constructor calls, starred), with let bindings, explicit lazy[] and lazyrec[], assignments, loops, exceptions and calls into strict code; "
        "every evaluation leaves a numbered trace, some arguments raise; the oracle is a call-by-need interpreter for trace and values, and the strict program for the values of pure programs; "
        "non-trivial: some argument was never evaluated, and some was used twice or more")
ASSUMPTIONS = ["assignments, loops, with and do locals are strict (documented); references passed as arguments are resolved (not forced) at the call",
               "an opaque argument of a container constructor call is evaluated when the outer call is made",
               "sets are excluded (items of unevaluated sets have no defined order), and {**d} is excluded (the macro expander cannot splice it)",
               "class instantiation is a strict call"]
HEAD = ("from unpythonic.syntax import macros, lazify, lazy, lazyrec, tco, autocurry, let, letseq, letrec, do, local\n"
        "from unpythonic import box, unbox, cons, car, cdr\n")
FUEL = 60
warnings.filterwarnings("ignore", category=SyntaxWarning)
CONSTS = ["0", "1", "2", "3", "4", "5", "1", "2", "3", "'s'", "None", "False", "True"]


class Halt(BaseException):
    pass


class Boom(Exception):
    pass


class TooMuch(BaseException):
    """The program builds an exponentially large or cyclic value, or does not end."""


WORK = [0]


def work():
    WORK[0] += 1
    if WORK[0] > 6000:
        raise TooMuch()


class G:
    def __init__(self, draw, pure, combo):
        self.draw = draw
        self.pure = pure
        self.combo = combo
        self.k = 0
        self.fresh = 0
        self.budget = draw(st.integers(10, 70))
        self.feats = set()
        self.fns = []  # signatures

    def n(self, k):
        return self.draw(st.integers(0, k - 1))

    def pick(self, xs):
        return xs[self.n(len(xs))]

    def tag(self):
        self.k += 1
        return self.k

    def name(self, p="v"):
        self.fresh += 1
        return f"{p}{self.fresh}"

    # sc: dict(vs=readable names, own=names assignable here, fns=[(name, signature)] of local functions, up=names of enclosing functions, nl=set of declared nonlocals)
    def const(self):
        return ("c", self.pick(CONSTS))

    def ref(self, sc):
        if not sc["vs"]:
            return self.const()
        vs = sc["vs"][-4:] if self.n(4) else sc["vs"]
        return ("v", self.pick(vs))

    def lref(self, sc):
        """A reference to something that probably is a list or tuple."""
        ls = [x for x in sc["vs"] if x.startswith("l")]
        return ("v", self.pick(ls[-4:])) if ls and self.n(5) else self.ref(sc)

    def listlike(self, sc, d):
        if self.n(3) == 0 and any(x.startswith("l") for x in sc["vs"]):
            return self.lref(sc)
        items = [self.arg(sc, d - 1) if self.n(2) else ("t", self.tag(), self.const()) for _ in range(1 + self.n(3))]
        e = (self.pick(["list", "list", "tuple"]), items)
        return e if self.n(4) else ("lazy", e)

    def twice(self, sc):
        self.feats.add("twice")
        x = self.ref(sc)
        y = self.pick([x, ("t", self.tag(), x), ("not", x), ("tuple", [x]), ("==", x, x)])
        return self.pick([("tuple", [x, y]), ("if", ("is", x, self.const()), y, x), ("and", x, y), ("or", ("not", x), y), ("list", [y, x])])

    def expr(self, sc, d=3):
        self.budget -= 1
        k = self.n(32 if d > 0 and self.budget > 0 else 7)
        if k >= 30:
            return self.twice(sc)
        E = lambda: self.expr(sc, d - 1)  # noqa: E731
        if k <= 1:
            return self.const()
        if k <= 4:
            return self.ref(sc)
        if k == 5:
            return ("boom", self.tag()) if self.n(3) == 0 else self.const() if self.n(2) else self.attr()
        if k == 6:
            return ("t", self.tag(), self.ref(sc))
        if k <= 8:
            return ("t", self.tag(), E())
        if k <= 13:
            return self.call(sc, d)
        if k == 14:
            return ("if", E(), E(), E())
        if k == 15:
            return (self.pick(["and", "or"]), E(), E())
        if k == 16:
            return (self.pick(["==", "<", "+", "is"]), E(), E())
        if k == 17:
            return (self.pick(["not", "fstr"]), E())
        if k <= 20:
            return self.container(sc, d)
        if k <= 22:
            return self.subscript(sc, d)
        if k == 23:
            return self.lam(sc, d)
        if k <= 25:
            return self.let(sc, d)
        if k == 26:
            self.feats.add("do")
            v = self.name()
            inner = dict(sc, vs=sc["vs"] + [v])
            return ("do", v, E(), self.expr(inner, d - 1), self.expr(inner, d - 1))
        if k == 27:
            self.feats.add("strict-callback")
            return ("smap", self.fn(sc, d), self.container(sc, d - 1, ["list", "tuple"]))
        if k == 28 and not self.combo:
            v = self.name("g")
            self.feats.add("genexp")
            return ("gen", v, E(), self.expr(dict(sc, vs=sc["vs"] + [v], own=[]), d - 1))
        return (self.pick(["len", "unbox", "car"]), self.ref(sc) if self.n(2) else E())

    def attr(self):
        self.feats.add("attribute")
        return ("attr", self.pick(["a1", "a2"])) if not self.pure else self.const()

    def fn(self, sc, d):
        """A function value of one argument, more or less."""
        fs = [x for x, sig in self.fns + sc["fns"]]
        if self.n(2) and fs:
            return ("v", self.pick(fs))
        return self.lam(sc, d)

    def lam(self, sc, d):
        self.feats.add("lambda")
        p, dflt = self.name("p"), None
        ps = [("pos", p, None)]
        if self.n(3) == 0:
            q, dflt = self.name("p"), self.expr(dict(sc), 1)
            ps.append(("pos", q, dflt))
        inner = dict(sc, vs=sc["vs"] + [x[1] for x in ps], own=[])
        return ("lam", ps, self.expr(inner, d - 1))

    def let(self, sc, d):
        kind = self.pick(["let", "letseq", "letrec"])
        self.feats.add(kind)
        bs, vs = [], sc["vs"]
        for _ in range(1 + self.n(3)):
            v = self.name("b")
            bs.append((v, self.expr(dict(sc, vs=(vs if kind != "let" else sc["vs"])), d - 1)))
            vs = vs + [v]
        inner = dict(sc, vs=vs)
        pre = None
        if not self.pure and self.n(4) == 0:
            self.feats.add("let-assign")
            pre = (self.pick(bs)[0], self.expr(inner, d - 1))
        return ("let", kind, bs, pre, self.expr(inner, d - 1))

    def container(self, sc, d, kinds=None):
        E = lambda: self.expr(sc, d - 1)  # noqa: E731
        if self.combo:  # a constructor call in tail position becomes an ordinary call
            kinds = [x for x in kinds or ["list", "tuple", "dict"] if x in ("list", "tuple", "dict")]
        kind = self.pick(kinds or ["list", "list", "tuple", "tuple", "dict", "clist", "ctuple", "cdict", "box", "cons", "clistx"])
        self.feats.add("container")
        if kind in ("list", "tuple"):
            xs = []
            for _ in range(self.n(4)):
                if self.n(6) == 0:
                    self.feats.add("starred-item")
                    xs.append(("star", self.container(sc, d - 1, ["list", "tuple"]) if d > 0 and self.n(2) else self.expr(sc, d - 1)))
                else:
                    xs.append(E())
            return (kind, xs)
        if kind == "dict":
            return ("dict", [(self.const(), E()) for _ in range(self.n(3))])
        if kind in ("clist", "ctuple"):
            return (kind, self.container(sc, d - 1, ["list", "tuple", "clist"]) if d > 0 else ("list", []))
        if kind == "clistx":
            return ("clist", E())
        if kind == "cdict":
            return ("cdict", [(k, E()) for k in ("ka", "kb")[:self.n(3)]])
        if kind == "box":
            return ("box", E())
        return ("cons", E(), E())

    def subscript(self, sc, d):
        self.feats.add("subscript")
        idx = self.pick([("c", "0"), ("c", "0"), ("c", "1"), ("c", "-1"), ("c", "'ka'"), ("slice",), ("slice",), None]) or self.expr(sc, d - 1)
        if idx == ("slice",):
            self.feats.add("slice")
            idx = ("slice", *(self.pick([None, ("c", "0"), ("c", "1"), ("c", "-1"), ("t", self.tag(), ("c", "1")), self.ref(sc)]) for _ in range(2)))
        k = self.n(8)
        if k <= 4 or d <= 0:
            base = self.lref(sc)
        elif k == 5:
            base = self.subscript(sc, d - 1)
        elif k == 6:
            base = self.container(sc, d - 1, ["list", "tuple", "clist", "cdict"])
        else:
            base = ("if", self.expr(sc, 1), self.lref(sc), self.lref(sc))
        return ("sub", base, idx)

    def arg(self, sc, d, x=""):
        if x.startswith("l") and self.n(6):
            return self.listlike(sc, d)
        k = self.n(9)
        if k <= 1:
            return self.ref(sc)
        if k == 2:
            return ("boom", self.tag())
        if k == 3:
            return self.container(sc, d - 1)
        if k == 4:
            return ("lazy", self.expr(sc, d - 1))
        return self.expr(sc, d - 1)

    def call(self, sc, d):
        fs = self.fns + sc["fns"] + sc["fns"]
        if not fs:
            return ("t", self.tag(), self.expr(sc, d - 1))
        f, sig = self.pick(fs)
        if self.combo == "autocurry" and any(k in ("args", "kw") for k, _, _ in sig):
            return ("t", self.tag(), self.expr(sc, d - 1))
        args, named = [], False
        pos = [x for x in sig if x[0] == "pos"]
        for kind, x, dflt in sig:
            if kind == "pos":
                if dflt is not None and self.n(2):
                    named = True
                    continue
                args.append((x if named or self.n(5) == 0 else None, self.arg(sc, d, x)))
                named = args[-1][0] is not None
            elif kind == "args":
                if not named and len(args) == len(pos):
                    for _ in range(self.n(3)):
                        args.append((None, self.arg(sc, d)))
            elif kind == "ko":
                if dflt is None or self.n(2):
                    args.append((x, self.arg(sc, d, x)))
            else:
                for x in ("ka", "kb")[:self.n(3)]:
                    args.append((x, self.arg(sc, d)))
        if self.combo != "autocurry":
            if self.n(5) == 0:  # splice some positional arguments
                m = 0
                while m < len(args) and args[m][0] is None:
                    m += 1
                if m:
                    i = self.n(m)
                    self.feats.add("starred-arg")
                    items = [a for _, a in args[i:m]]
                    args[i:m] = [("*", (self.pick(["list", "tuple"]), items))]
            elif self.n(6) == 0:
                kw = [a for a in args if a[0] is not None]
                if kw:
                    self.feats.add("dstarred-arg")
                    args = [a for a in args if a[0] is None]
                    args.append(("**", ("dict", [(("c", repr(x)), a) for x, a in kw]) if self.n(2) else ("cdict", kw)))
            elif self.n(12) == 0 and sc["vs"]:
                self.feats.add("starred-arg")
                args = [("*", self.ref(sc))]
        return ("call", f, args)

    # ------------------------------------------------ statements
    def block(self, sc, d, n=None):
        out = []
        for _ in range(self.n(3) if n is None else n):
            out += self.stmt(sc, d)
        return out

    def stmt(self, sc, d):
        self.budget -= 1
        k = self.n(13)
        if k <= 2:
            v = self.name()
            e = self.expr(sc, 2)
            sc["vs"] = sc["vs"] + [v]
            sc["own"] = sc["own"] + [v]
            sc["decl"].add(v)
            return [("set", v, e)]
        if k == 3:
            if self.n(3):
                v = self.name()
                e = ("lazy", self.expr(sc, 2)) if self.n(2) else ("lazyrec", self.container(sc, 2))
            else:
                e = ("lazyrec", (self.pick(["list", "tuple"]), [self.expr(sc, 2) for _ in range(1 + self.n(3))]))
                v = self.name("l")
            self.feats.add("explicit lazy")
            sc["vs"] = sc["vs"] + [v]
            sc["own"] = sc["own"] + [v]
            sc["decl"].add(v)
            return [("set", v, e)]
        if k == 4:
            return [("expr", ("t", self.tag(), self.expr(sc, 2)))]
        if k == 5 and d > 0:
            a, b = dict(sc), dict(sc)
            return [("ifs", self.expr(sc, 1), self.block(a, d - 1, 1), self.block(b, d - 1))]
        if k == 6 and d > 0 and not self.pure:
            v = self.name("i")
            a = dict(sc, vs=sc["vs"] + [v])
            self.feats.add("for")
            sc["decl"].add(v)
            return [("for", v, self.container(sc, 1, ["list", "tuple"]) if self.n(2) else self.lref(sc), self.block(a, d - 1, 1))]
        if k == 7 and d > 0:
            a, b = dict(sc), dict(sc)
            self.feats.add("try")
            return [("try", self.block(a, d - 1, 1), self.pick(["Boom", "Exception"]), self.block(b, d - 1))]
        if k <= 9 and not self.pure and sc["vs"]:
            j = self.n(5)
            if j <= 1 and sc["own"]:
                self.feats.add("augassign")
                return [("aug", self.pick(sc["own"]), self.expr(sc, 1))]
            if j == 2 and sc["own"]:
                self.feats.add("reassign")
                return [("set", self.pick(sc["own"]), self.expr(sc, 1))]
            if j == 3:
                return [("append", self.ref(sc), self.expr(sc, 1))]
            if self.n(4) == 0:
                self.feats.add("attribute")
                return [("setattr", self.pick(["a1", "a2"]), ("lazy", self.expr(sc, 1)) if self.n(3) == 0 else self.expr(sc, 1), self.n(3) == 0)]
            return [("setitem", self.lref(sc), self.pick([("c", "0"), ("c", "0"), ("c", "-1"), ("c", "'ka'")]), ("c", "1") if self.n(3) == 0 else self.expr(sc, 1), self.n(2))]
        if k == 10 and d > 0:
            return self.nested(sc, d)
        if k == 11 and not self.pure and sc["up"]:
            v = self.pick(sc["up"])
            if v not in sc["decl"]:
                sc["nl"].add(v)
                self.feats.add("nonlocal")
                return [(self.pick(["set", "aug"]), v, self.expr(sc, 1))]
        return [("expr", self.expr(sc, 2))]

    def sig(self, sc, wild=True):
        ps, dfl = [], False
        for _ in range(self.n(4)):
            dfl = dfl or self.n(4) == 0
            ps.append(("pos", self.name("p" if dfl or self.n(3) else "l"), self.default(sc) if dfl else None))
        if wild and self.n(4) == 0:
            ps.append(("args", self.name("p"), None))
        for _ in range(self.n(2)):
            ps.append(("ko", self.name("p" if self.n(4) else "l"), self.default(sc) if self.n(2) else None))
        if wild and self.n(5) == 0:
            ps.append(("kw", self.name("p"), None))
        return ps

    def default(self, sc):
        self.feats.add("default")
        fns, self.fns = self.fns, []  # not defined yet, possibly
        e = self.pick([("c", "5"), ("t", self.tag(), self.const()), self.ref(sc)]) if self.n(3) else self.expr(dict(sc), 1)
        self.fns = fns
        return e

    def body(self, sc, sig, d):
        inner = dict(vs=sc["vs"] + [x[1] for x in sig], own=[x[1] for x in sig], fns=list(sc["fns"]), up=sc["up"] + sc["fown"], decl={x[1] for x in sig}, nl=set())
        inner["fown"] = inner["own"]
        stmts = self.block(inner, d)
        return sorted(inner["nl"]), stmts + [("ret", self.result(inner, sig))]

    def result(self, sc, sig):
        if not sig or self.n(3) == 0:
            return self.expr(sc, 3)
        e = self.twice(dict(sc, vs=[x[1] for x in sig]))
        return e if self.n(2) else self.pick([("if", self.expr(sc, 1), e, self.expr(sc, 2)), ("tuple", [e, self.expr(sc, 2)])])

    def nested(self, sc, d):
        f = self.name("f")
        sig = self.sig(sc, self.combo != "autocurry")
        sc["fown"] = list(sc["own"])
        self.feats.add("nested def")
        nl, body = self.body(sc, sig, d - 1)
        sc["fns"] = sc["fns"] + [(f, sig)]
        return [("def", "def", f, sig, nl, body)]


def blank():
    return dict(vs=[], own=[], fns=[], up=[], fown=[], decl=set(), nl=set())


@st.composite
def programs(draw, pure=False, combo=None):
    g = G(draw, pure, combo)
    top = blank()
    stmts = []
    for _ in range(g.n(3)):
        v = g.name("v" if g.n(2) else "l")
        stmts.append(("set", v, ("lazyrec", ("list", [("t", g.tag(), g.const()) for _ in range(1 + g.n(3))])) if v.startswith("l") else g.pick([g.const(), ("list", [g.const(), g.const()]), ("lazyrec", ("list", [("t", g.tag(), g.const()), ("boom", g.tag())])), ("lazy", ("t", g.tag(), g.const()))])))
        top["vs"] = top["vs"] + [v]
    if not pure:
        for a in ("a1", "a2"):
            if g.n(3):
                stmts.append(("setattr", a, g.pick([("c", "1"), ("lazy", ("t", g.tag(), ("c", "2"))), ("lazyrec", ("list", [("t", g.tag(), ("c", "3")), ("boom", g.tag())]))]), 0))
    kinds = []
    for _ in range(1 + g.n(3)):
        kind = g.pick(["def", "def", "def", "lam", "method", "wrap"])
        f = g.name("f")
        kinds.append((kind, f, g.sig(dict(top, vs=[]), combo != "autocurry")))
        g.fns.append((f if kind != "method" else "o." + f, kinds[-1][2]))
    for kind, f, sig in kinds:
        if kind == "lam":
            stmts.append(("def", "lam", f, sig, [], [("ret", g.result(dict(top, vs=top["vs"] + [x[1] for x in sig]), sig))]))
        else:
            nl, body = g.body(top, sig, 2)
            stmts.append(("def", kind, f, sig, [], body))
    runs = [g.call(dict(top), 3) if g.n(4) else g.expr(dict(top), 3) for _ in range(2 + g.n(3))]
    return stmts, runs, combo, pure, sorted(g.feats)


# ---------------------------------------------------------------- text

def R(e):
    k = e[0]
    if k in ("c", "v"):
        return e[1]
    if k == "boom":
        return f"boom({e[1]})"
    if k == "t":
        return f"t({e[1]}, {R(e[2])})"
    if k == "call":
        return f"{e[1]}({', '.join(RA(a) for a in e[2])})"
    if k == "if":
        return f"({R(e[2])} if {R(e[1])} else {R(e[3])})"
    if k in ("and", "or", "==", "<", "+", "is"):
        return f"({R(e[1])} {k} {R(e[2])})" if k != "is" else f"({R(e[1])} is (None if True else {R(e[2])}))"
    if k == "not":
        return f"(not {R(e[1])})"
    if k == "fstr":
        return 'f"{(%s) == 1}"' % R(e[1]).replace('"', "'") if '"' not in R(e[1]) else f"(not {R(e[1])})"
    if k == "list":
        return "[" + ", ".join(RI(x) for x in e[1]) + "]"
    if k == "tuple":
        return "(" + "".join(RI(x) + ", " for x in e[1]) + ")"
    if k == "dict":
        return "{" + ", ".join(f"{R(a)}: {R(b)}" for a, b in e[1]) + "}"
    if k == "clist":
        return f"list({R(e[1])})"
    if k == "ctuple":
        return f"tuple({R(e[1])})"
    if k == "cdict":
        return "dict(" + ", ".join(f"{a}={R(b)}" for a, b in e[1]) + ")"
    if k in ("box", "len", "unbox", "car"):
        return f"{k}({R(e[1])})"
    if k in ("cons", "smap"):
        return f"{k}({R(e[1])}, {R(e[2])})"
    if k == "sub":
        return f"{R(e[1])}[{R(e[2])}]"
    if k == "slice":
        return ":".join("" if x is None else R(x) for x in e[1:])
    if k == "attr":
        return f"o.{e[1]}"
    if k == "lam":
        return f"(lambda {RS(e[1])}: {R(e[2])})"
    if k == "let":
        bs = ", ".join(f"{v} := {R(x)}" for v, x in e[2])
        body = R(e[4]) if e[3] is None else f"[{e[3][0]} := {R(e[3][1])}, {R(e[4])}]"
        if e[3] is None and e[4][0] == "list":
            body = f"[{body}]"  # a bare list is a sequence of expressions
        return f"{e[1]}[{bs}][{body}]"
    if k == "do":
        return f"do[local[{e[1]} := {R(e[2])}], {R(e[3])}, {R(e[4])}]"
    if k == "gen":
        return f"tuple({R(e[3])} for {e[1]} in {R(e[2])})"
    if k in ("lazy", "lazyrec"):
        return f"{k}[{R(e[1])}]"
    raise AssertionError(e)


def RI(x):
    return "*" + R(x[1]) if x[0] == "star" else R(x)


def RA(a):
    x, e = a
    return R(e) if x is None else x + R(e) if x in ("*", "**") else f"{x}={R(e)}"


def RS(sig):
    out, bare = [], False
    for kind, x, d in sig:
        if kind == "args":
            bare = True
            out.append("*" + x)
        elif kind == "kw":
            out.append("**" + x)
        else:
            if kind == "ko" and not bare:
                out.append("*")
                bare = True
            out.append(x if d is None else f"{x}={R(d)}")
    return ", ".join(out)


def S(s, ind=""):
    k = s[0]
    if k == "set":
        return [f"{ind}{s[1]} = {R(s[2])}"]
    if k == "aug":
        return [f"{ind}{s[1]} += {R(s[2])}"]
    if k == "expr":
        return [f"{ind}{R(s[1])}"]
    if k == "append":
        return [f"{ind}{R(s[1])}.append({R(s[2])})"]
    if k == "setitem":
        return [f"{ind}{R(s[1])}[{R(s[2])}] {'+=' if s[4] else '='} {R(s[3])}"]
    if k == "setattr":
        return [f"{ind}o.{s[1]} {'+=' if s[3] else '='} {R(s[2])}"]
    if k == "ret":
        return [f"{ind}return {R(s[1])}"]
    if k == "ifs":
        return [f"{ind}if {R(s[1])}:"] + B(s[2], ind) + [f"{ind}else:"] + B(s[3], ind)
    if k == "for":
        return [f"{ind}for {s[1]} in {R(s[2])}:"] + B(s[3], ind)
    if k == "try":
        return [f"{ind}try:"] + B(s[1], ind) + [f"{ind}except {s[2]}:"] + B(s[3], ind)
    if k == "def":
        _, kind, f, sig, nl, body = s
        if kind == "lam":
            return [f"{ind}{f} = lambda {RS(sig)}: (tick() or {R(body[0][1])})"]
        pre = [f"{ind}    tick()"]
        if nl:
            pre.insert(0, f"{ind}    nonlocal {', '.join(nl)}")
        if kind == "method":
            inner = [f"{ind}class C{f}:"] + ["    " + ln for ln in [f"{ind}def {f}(self, {RS(sig)}):"] + pre + B(body, ind)] + [f"{ind}o.{f} = C{f}().{f}"]
            return inner
        return ([f"{ind}@wrap"] if kind == "wrap" else []) + [f"{ind}def {f}({RS(sig)}):"] + pre + B(body, ind)
    raise AssertionError(s)


def B(stmts, ind):
    return [ln for s in stmts for ln in S(s, ind + "    ")] or [ind + "    pass"]


WRAP = ["def wrap(wf):",
        "    def wg(*wa, **wk):",
        "        return wf(*wa, **wk)",
        "    return wg"]


def text(stmts, runs, head):
    ls = list(WRAP)
    for s in stmts:
        ls += S(s)
    for r in runs:
        ls += [f"out(lambda: {R(r)})"]
    return HEAD + head + "\n" + "\n".join("    " + ln for ln in ls) + "\n"


# ---------------------------------------------------------------- the call-by-need interpreter

class P:
    def __init__(self, thunk):
        self.thunk = thunk
        self.state = None
        self.uses = 0

    def get(self):
        self.uses += 1
        if self.state is None:
            try:
                self.state = (self.thunk(), None)
            except Exception as err:
                self.state = (None, err)
        if self.state[1] is not None:
            raise self.state[1]
        return self.state[0]


def one(x):
    return x.get() if isinstance(x, P) else x


def deep(x):
    work()
    if isinstance(x, P):
        return x.get()
    if isinstance(x, list):
        x[:] = [deep(y) for y in x]
        return x
    if isinstance(x, tuple):
        return tuple([deep(y) for y in x])
    if isinstance(x, dict):
        x.update({k: deep(v) for k, v in x.items()})
        return x
    if isinstance(x, box):
        x << deep(unbox(x))
        return x
    if isinstance(x, cons):
        a = deep(car(x))
        return cons(a, deep(cdr(x)))
    return x


class Frame:
    def __init__(self, parent, local=None):
        self.vars = {}
        self.parent = parent
        self.nl = set()
        self.local = local  # None: any name

    def where(self, x):
        f = self
        while x not in f.vars:
            f = f.parent
            if f is None:
                raise NameError(x)
        return f


class Ret(Exception):
    def __init__(self, value):
        self.value = value


class Fn:  # a function of the program
    def __init__(self, it, sig, defaults, nl, body, frame, ticks):
        self.__dict__.update(it=it, sig=sig, defaults=defaults, nl=nl, body=body, frame=frame, ticks=ticks)

    def __call__(self, *args, **kw):
        fr = Frame(self.frame)
        args = list(args)
        kwrest = None
        star = None
        for kind, x, d in self.sig:
            if kind == "pos":
                if args:
                    if x in kw:
                        raise TypeError("twice")
                    fr.vars[x] = args.pop(0)
                elif x in kw:
                    fr.vars[x] = kw.pop(x)
                elif x in self.defaults:
                    fr.vars[x] = self.defaults[x]
                else:
                    raise TypeError("missing")
            elif kind == "args":
                star = x
                fr.vars[x] = tuple(args)
                args = []
            elif kind == "ko":
                if x in kw:
                    fr.vars[x] = kw.pop(x)
                elif x in self.defaults:
                    fr.vars[x] = self.defaults[x]
                else:
                    raise TypeError("missing")
            else:
                kwrest = x
        if kwrest:
            fr.vars[kwrest] = kw
        elif kw:
            raise TypeError("extra")
        if args and star is None:
            raise TypeError("extra")
        fr.nl = set(self.nl)
        if self.ticks:
            self.it.tick()
        try:
            self.it.run(self.body, fr)
        except Ret as r:
            return r.value


class Strict:
    def __init__(self, f):
        self.f = f

    def __call__(self, *args, **kw):
        return self.f(*args, **kw)


REFS = ("v", "sub", "attr")


class Interp:
    def __init__(self, world):
        self.tick = world["tick"]
        self.trace = world["trace"]
        self.promises = []
        self.top = Frame(None)
        self.attrs = {}
        self.w = world

    def promise(self, e, fr):
        p = P(lambda: self.ev(e, fr, "full"))
        self.promises.append(p)
        return p

    def mode(self, x, mode):
        return deep(x) if mode == "full" else one(x) if mode == "flat" else x

    def ev(self, e, fr, mode="full"):
        work()
        k = e[0]
        if mode == "flat" and k not in ("v", "sub", "attr", "list", "tuple", "if", "and", "or", "clist", "ctuple", "box", "cons", "call"):
            mode = "full"
        if k == "c":
            return eval(e[1])
        if k == "v":
            return self.mode(fr.where(e[1]).vars[e[1]], mode)
        if k == "boom":
            return self.w["boom"](e[1])
        if k == "t":
            return self.w["t"](e[1], deep(self.arg(e[2], fr)))
        if k == "call":
            return self.call(e, fr)
        if k == "if":
            return self.ev(e[2] if self.ev(e[1], fr, mode) else e[3], fr, mode)
        if k == "and":
            return self.ev(e[1], fr, mode) and self.ev(e[2], fr, mode)
        if k == "or":
            return self.ev(e[1], fr, mode) or self.ev(e[2], fr, mode)
        if k == "not":
            return not self.ev(e[1], fr)
        if k == "fstr":
            return f"{self.ev(e[1], fr) == 1}" if '"' not in R(e[1]) else not self.ev(e[1], fr)
        if k == "is":
            return self.ev(e[1], fr) is None
        if k in ("==", "<", "+"):
            a = self.ev(e[1], fr)
            b = self.ev(e[2], fr)
            return a == b if k == "==" else a < b if k == "<" else a + b
        if k in ("list", "tuple"):
            out = []
            for x in e[1]:
                if x[0] == "star":
                    out.extend(self.ev(x[1], fr, mode))
                else:
                    out.append(self.ev(x, fr, mode))
            return out if k == "list" else tuple(out)
        if k == "dict":
            return {self.ev(a, fr, mode): self.ev(b, fr, mode) for a, b in e[1]}
        if k in ("clist", "ctuple"):
            return (list if k == "clist" else tuple)(self.ev(e[1], fr, mode))
        if k == "cdict":
            return {a: self.ev(b, fr, mode) for a, b in e[1]}
        if k == "box":
            return box(self.ev(e[1], fr, mode))
        if k == "cons":
            a = self.ev(e[1], fr, mode)
            return cons(a, self.ev(e[2], fr, mode))
        if k in ("len", "unbox", "car"):
            return {"len": len, "unbox": unbox, "car": car}[k](deep(self.arg(e[1], fr)))
        if k == "smap":
            f, xs = deep((self.arg(e[1], fr), self.arg(e[2], fr)))
            return [f(x) for x in xs]
        if k == "sub":
            a = self.ev(e[1], fr, "flat")
            if e[2][0] == "slice":
                b = slice(*[None if x is None else self.ev(x, fr) for x in e[2][1:]])
            else:
                b = self.ev(e[2], fr, "full")
            return self.mode(a[b], mode)
        if k == "attr":
            return self.mode(self.getattr(e[1]), mode)
        if k == "lam":
            return self.function(e[1], [], [("ret", e[2])], fr, False)
        if k == "let":
            return self.let(e, fr)
        if k == "do":
            f2 = Frame(fr)
            f2.vars[e[1]] = self.ev(e[2], fr)
            self.ev(e[3], f2)
            return self.ev(e[4], f2)
        if k == "gen":
            f2 = Frame(fr)
            out = []
            for x in self.ev(e[2], fr, "full"):
                f2.vars[e[1]] = x
                out.append(self.ev(e[3], f2))
            return tuple(out)
        if k == "lazy":
            return self.promise(e[1], fr)
        if k == "lazyrec":
            return self.rec(e[1], fr)
        raise AssertionError(e)

    def getattr(self, a):
        if a not in self.attrs:
            raise AttributeError(a)
        return self.attrs[a]

    def let(self, e, fr):
        _, kind, bs, pre, body = e
        f2 = Frame(fr)
        for v, x in bs:
            f2.vars[v] = self.arg(x, fr if kind == "let" else f2)
        if pre:
            f2.where(pre[0]).vars[pre[0]] = self.ev(pre[1], f2)
        return self.ev(body, f2)

    def arg(self, e, fr):
        return self.ev(e, fr, "off") if e[0] in REFS else self.rec(e, fr)

    LITERAL = ("list", "tuple", "dict", "clist", "ctuple", "cdict", "box", "cons")

    def rec(self, e, fr):
        k = e[0]
        if k in ("list", "tuple"):
            out = []
            for x in e[1]:
                if x[0] == "star":
                    out.extend(self.rec(x[1], fr) if x[1][0] in self.LITERAL else self.ev(x[1], fr))
                else:
                    out.append(self.rec(x, fr))
            return out if k == "list" else tuple(out)
        if k == "dict":
            return {self.ev(a, fr): self.rec(b, fr) for a, b in e[1]}
        if k in ("clist", "ctuple"):
            x = self.rec(e[1], fr) if e[1][0] in self.LITERAL else self.ev(e[1], fr)
            return (list if k == "clist" else tuple)(x)
        if k == "cdict":
            return {a: self.rec(b, fr) for a, b in e[1]}
        if k == "box":
            return box(self.rec(e[1], fr))
        if k == "cons":
            a = self.rec(e[1], fr)
            return cons(a, self.rec(e[2], fr))
        if k == "gen":  # tuple(...) of an opaque argument
            return self.ev(e, fr)
        if k == "lazy":
            return self.promise(e[1], fr)
        return self.promise(e, fr)

    def call(self, e, fr):
        name = e[1]
        if name.startswith("o.") and name not in self.top.vars:
            raise AttributeError(name)
        f = deep(fr.where(name).vars[name])
        args, kw = [], {}
        for x, a in e[2]:
            if x in ("*", "**"):
                v = self.ev(a, fr, "flat") if a[0] in REFS else self.rec(a, fr) if a[0] in self.LITERAL else self.ev(a, fr)
                if x == "*":
                    args.extend(v)
                else:
                    kw.update(v)
            elif x is None:
                args.append(self.arg(a, fr))
            else:
                kw[x] = self.arg(a, fr)
        if not isinstance(f, Fn):
            args = deep(tuple(args))
            kw = deep(kw)
        return f(*args, **kw)

    def function(self, sig, nl, body, fr, ticks):
        defaults = {}
        for want in ("pos", "ko"):  # in Python, the defaults of keyword-only parameters are evaluated last
            for kind, x, d in sig:
                if kind == want and d is not None:
                    defaults[x] = self.ev(d, fr, "off") if d[0] in REFS else self.ev(d, fr)
        return Fn(self, sig, defaults, nl, body, fr, ticks)

    def store(self, x, v, fr):
        (fr.parent.where(x) if x in fr.nl else fr).vars[x] = v

    def run(self, stmts, fr):
        for s in stmts:
            k = s[0]
            if k == "set":
                self.store(s[1], self.ev(s[2], fr), fr)
            elif k == "aug":
                f2 = fr.parent.where(s[1]) if s[1] in fr.nl else fr
                v = deep(f2.vars[s[1]])
                f2.vars[s[1]] = v
                w = self.ev(s[2], fr)
                v = f2.vars[s[1]]
                v += w
                f2.vars[s[1]] = v
            elif k == "expr":
                self.ev(s[1], fr)
            elif k == "append":
                f = self.ev(s[1], fr, "flat").append
                f(deep(self.arg(s[2], fr)))
            elif k == "setitem":
                if s[4]:
                    a = self.ev(s[1], fr, "flat")
                    b = self.ev(s[2], fr)
                    v = deep(a[b])
                    v += self.ev(s[3], fr)
                    a[b] = v
                else:
                    v = self.ev(s[3], fr)
                    a = self.ev(s[1], fr, "flat")
                    a[self.ev(s[2], fr)] = v
            elif k == "setattr":
                if s[3]:
                    v = deep(self.getattr(s[1]))
                    v += self.ev(s[2], fr)
                else:
                    v = self.ev(s[2], fr)
                self.attrs[s[1]] = v
            elif k == "ret":
                raise Ret(self.ev(s[1], fr))
            elif k == "ifs":
                self.run(s[2] if self.ev(s[1], fr) else s[3], fr)
            elif k == "for":
                for x in self.ev(s[2], fr):
                    work()
                    fr.vars[s[1]] = x
                    self.run(s[3], fr)
            elif k == "try":
                try:
                    self.run(s[1], fr)
                except Ret:
                    raise
                except (Boom if s[2] == "Boom" else Exception):
                    self.run(s[3], fr)
            elif k == "def":
                _, kind, f, sig, nl, body = s
                v = self.function(sig, nl, body, fr, True)
                fr.vars["o." + f if kind == "method" else f] = v
            else:
                raise AssertionError(s)


# ---------------------------------------------------------------- running

class O:
    pass


def world():
    trace, outs, left = [], [], [FUEL]

    def t(k, v):
        trace.append(k)
        return v

    def boom(k):
        trace.append(-k)
        raise Boom(k)

    def tick():
        left[0] -= 1
        if left[0] < 0:
            raise Halt()

    def smap(f, xs):
        return [f(x) for x in xs]

    def out(thunk):
        try:
            r = ("value", show(thunk()))
        except Exception as err:
            r = ("raised", type(err).__name__, err.args if isinstance(err, Boom) else None)
        outs.append(r)
        trace.append("out")
        return r
    return dict(trace=trace, outs=outs, t=t, boom=boom, tick=tick, smap=smap, out=out, o=O(), Boom=Boom)


def show(x):
    work()
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [show(y) for y in x])
    if isinstance(x, dict):
        return ("dict", [(k, show(v)) for k, v in x.items()])
    if isinstance(x, box):
        return ("box", show(unbox(x)))
    if isinstance(x, cons):
        return ("cons", show(car(x)), show(cdr(x)))
    if isinstance(x, (P, Lazy)):
        return "promise"
    if callable(x):
        return "function"
    return repr(x)


HEADS = {None: "with lazify:", "tco": "with lazify, tco:", "autocurry": "with lazify, autocurry:"}


def real(src):
    w = world()
    end = None
    try:
        _, exc = run_module(src, {k: w[k] for k in ("t", "boom", "tick", "smap", "out", "o", "Boom")})
        end = type(exc).__name__ if exc is not None else None
    except Halt:
        end = "halt"
    return w, end


def model(stmts, runs):
    WORK[0] = 0
    w = world()
    it = Interp(w)
    end = None
    try:
        it.run(stmts, it.top)
        for r in runs:
            w["out"](lambda: it.ev(r, it.top))
    except Halt:
        end = "halt"
    except Exception as err:
        end = type(err).__name__
    return w, end, it


@contextmanager
def room():
    """Make the fuel run out before the stack."""
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(20000)
    try:
        yield
    finally:
        sys.setrecursionlimit(old)


@room()
def run(case):
    stmts, runs, combo, pure, feats = case
    try:
        w0, e0, it = model(stmts, runs)
    except TooMuch:
        return
    if combo == "autocurry" and (e0 == "TypeError" or any(x[:2] == ("raised", "TypeError") for x in w0["outs"])):
        return  # a callback was called with too few arguments; currying makes this legal
    WORK[0] = -10 ** 9
    src = text(stmts, runs, HEADS[combo])
    w1, e1 = real(src)
    require(w0["trace"] == w1["trace"], f"evaluation order {w1['trace']} ({e1}), call by need gives {w0['trace']} ({e0}), in\n{src}")
    eq(w1["outs"], w0["outs"], f"results in\n{src}")
    eq(e1, e0, f"how the program ended, in\n{src}")
    if pure:
        plain = text(stmts, runs, "if True:").replace("lazyrec[", "idn[").replace("lazy[", "idn[").replace("from unpythonic.syntax import macros, lazify, lazy, lazyrec, tco, autocurry,", "from unpythonic.syntax import macros,")
        w2 = world()
        WORK[0] = 0
        try:
            _, exc = run_module(plain, dict({k: w2[k] for k in ("t", "boom", "tick", "smap", "out", "o", "Boom")}, idn=Idn()))
        except (Halt, TooMuch):
            return
        for a, b in zip(w2["outs"], w1["outs"]):
            if a[0] == "value":
                eq(b, a, f"result in lazy and strict evaluation of\n{src}")
            else:
                break  # the strict program did not terminate normally


class Idn:
    def __getitem__(self, x):
        return x


@room()
def uses(case):
    stmts, runs, combo, pure, feats = case
    try:
        w, e, it = model(stmts, runs)
    except TooMuch:
        return []
    return it.promises


def nontrivial(case):
    ps = uses(case)
    return any(p.state is None for p in ps) and any(p.uses >= 2 for p in ps)


def labels(case):
    return case[4] + [case[2] or "lazify alone"] + (["pure"] if case[3] else [])


# ---------------------------------------------------------------- explicit lazyrec

class Lit(G):
    def expr(self, sc, d=3):
        k = self.n(6 if d > 0 else 3)
        if k == 0:
            return self.const()
        if k == 1:
            return ("boom", self.tag())
        if k == 2:
            return ("t", self.tag(), self.const())
        if k == 3:
            return ("if", self.expr(sc, d - 1), self.expr(sc, d - 1), self.expr(sc, d - 1))
        return self.container(sc, d - 1)


@st.composite
def literals(draw):
    g = Lit(draw, True, None)
    return g.container(blank(), 4), g.n(3)


def run_literal(case):
    e, style = case
    w = world()
    it = Interp(w)
    src = HEAD + f"x = {'lazyrec' if style else 'lazy'}[{R(e)}]\n"
    try:
        m = it.rec(e, it.top) if style else it.promise(e, it.top)
        e0 = None
    except Exception as err:
        m, e0 = None, type(err).__name__
    w1 = world()
    try:
        ns, exc = run_module(src, {k: w1[k] for k in ("t", "boom", "tick", "smap", "out", "o", "Boom")})
    except SyntaxError:
        raise
    eq((type(exc).__name__ if exc else None, w1["trace"]), (e0, w["trace"]), f"creating\n{src}")
    if e0:
        return
    x = ns["x"]
    eq(show(x), show(m), f"parts left to be evaluated in\n{src}")
    for i in range(2):
        a = w["out"](lambda: deep(m))
        b = w1["out"](lambda: force(x))
        eq((b, w1["trace"]), (a, w["trace"]), f"force number {i + 1} of\n{src}")


SUITES = [
    Suite("programs", programs(), run, quick=1000, nontrivial=nontrivial, labels=labels),
    Suite("pure", programs(pure=True), run, quick=600, nontrivial=nontrivial, labels=labels),
    Suite("tco", programs(combo="tco"), run, quick=250, nontrivial=nontrivial, labels=labels),
    Suite("autocurry", programs(combo="autocurry"), run, quick=250, nontrivial=nontrivial, labels=labels),
    Suite("literals", literals(), run_literal, quick=250, nontrivial=lambda c: len(repr(c)) > 60),
]
