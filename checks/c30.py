"""C30: captured continuations resume exactly the rest of the computation."""
import re
import sys

from hypothesis import strategies as st

from unpythonic import Values, identity, jump, trampolined

from checks import c29
from vp.core import Suite, eq, require
from vp.macro import run_module

RULE = ("cases are programs of continuation-enabled functions (def, method, lambda, nested def; cc implicit or explicit) whose bodies capture continuations at up to four points each (single, multiple, starred, no target; "
        "conditional; at the top level of the block; get_cc), assign variables of this and earlier parts, call each other in tail and non-tail position, replace cc, stash cc and resume stashed continuations, "
        "followed by a history of resumptions from outside; the oracle is an interpreter in which a continuation is a chain of function parts with their environments; non-trivial: some continuation was resumed a second time, or one function captured twice")
ASSUMPTIONS = ["continuation-enabled functions tail-call only continuation-enabled functions (documented)",
               "no return inside with or try in a continuations block (the interaction with exceptions is documented as unfinished), no generators or coroutines",
               "a variable is not read before it is assigned in the scope of its part of the function (documented scope boundary)",
               "a falsy item of an and chain before a tail call is sent as False (fixed by the existing tests), so chains use or"]
HEAD = ("from unpythonic.syntax import macros, continuations, call_cc, let, do\n"
        "from unpythonic.syntax import get_cc\n"
        "from unpythonic import Values\n")
CONSTS = ["0", "1", "2", "'s'", "None", "()", "False", "True"]
FUEL = 80


class Halt(BaseException):
    pass


# ---------------------------------------------------------------- programs
# function: dict(name, kind, cc, r, segs, params)
# segment: dict(targets, star, decl, word, stmts, end)
#   targets: names; decl: names declared nonlocal/global; end: ("ret", r) | ("none",) | ("callcc", cond, call, call)

class G:
    def __init__(self, draw):
        self.draw = draw
        self.k = 0
        self.fresh = 0
        self.budget = draw(st.integers(8, 60))
        self.feats = set()
        self.fns = []

    def n(self, k):
        return self.draw(st.integers(0, k - 1))

    def pick(self, xs):
        return xs[self.n(len(xs))]

    def tag(self):
        self.k += 1
        return self.k

    def name(self, p="v"):
        self.fresh += 1
        return f"{p}{self.fresh}"

    # sc: dict(vs=readable names, ccs=names holding a cc, fns=local functions, seg=current segment, incc=whether cc is in scope)
    def data(self, sc, d=2):
        self.budget -= 1
        k = self.n(9 if d > 0 and self.budget > 0 else 4)
        if k <= 1 or (k <= 3 and not sc["vs"]):
            return ("c", self.pick(CONSTS))
        if k <= 3:
            v = self.pick(sc["vs"])
            if v not in sc["seg"]["locals"]:
                sc["seg"]["outer"].add(v)
            return ("v", v)
        if k == 4:
            return ("t", self.tag(), self.data(sc, d - 1))
        if k == 5:
            return ("pair", self.data(sc, d - 1), self.data(sc, d - 1))
        if k == 6:
            return ("same", self.data(sc, d - 1), self.data(sc, d - 1))
        if k == 7:
            return ("ifexp", self.data(sc, d - 1), self.data(sc, d - 1), self.data(sc, d - 1))
        return ("or", self.data(sc, d - 1), self.data(sc, d - 1))

    def ccexpr(self, sc):
        k = self.n(4)
        if k == 0:
            return ("identity",)
        if k == 1 and sc["ccs"]:
            v = self.pick(sc["ccs"])
            if v not in sc["seg"]["locals"]:
                sc["seg"]["outer"].add(v)
            self.feats.add("stored cc")
            return ("v", v)
        self.feats.add("cc from stash")
        return ("K", 1, self.n(4))

    def call(self, sc, r, tail=False):
        """A call of something continuation-enabled that returns r values."""
        self.budget -= 1
        over = self.ccexpr(sc) if tail and r == 1 and self.n(5) == 0 else None
        if over:
            self.feats.add("cc override")
        k = self.n(8)
        if k == 0 and r == 1:
            self.feats.add("resume inside")
            return ("call", ("C", 1, self.n(4)), [self.data(sc, 1)], "pos", over)
        local = [f for f in sc["fns"] if f["r"] == r]
        if local and k <= 3:
            f = self.pick(local)
            if f["name"] not in sc["seg"]["locals"]:
                sc["seg"]["outer"].add(f["name"])
            where = "local"
        else:
            fs = [f for f in self.fns if f["r"] == r]
            if not fs:
                return ("call", ("C", r, self.n(4)), [self.data(sc, 1) for _ in range(r)], "pos", None)
            where, f = "fn", self.pick(fs)
        tgt = (where, f["name"], f["kind"])
        self.feats.add("kind " + f["kind"])
        a = ("dec", "n") if "n" in sc["vs"] and self.n(8) else ("dec", self.pick(["1", "2"]))
        if a[1] == "n" and "n" not in sc["seg"]["locals"]:
            sc["seg"]["outer"].add("n")
        style = "kw" if f["cc"] == "posdefault" else self.pick(["pos", "kw", "star"])
        return ("call", tgt, [a, self.data(sc, 1)], style, over)

    def ret(self, sc, r, d=2):
        self.budget -= 1
        k = self.n(9 if d > 0 and self.budget > 0 else 4)
        if k <= 1:
            if r == 1:
                return ("d", self.data(sc))
            # by convention, in these programs the last one of three values is named
            if r == 3:
                self.feats.add("named value")
            return ("values", [self.data(sc, 1) for _ in range(r)], self.n(12) > 0)
        if k <= 3:
            return self.call(sc, r, tail=True)
        if k == 4:
            return ("if", self.data(sc, 1), self.ret(sc, r, d - 1), self.ret(sc, r, d - 1))
        if k == 5 and r == 1:
            self.feats.add("or")
            return ("orr", self.data(sc, 1), self.ret(sc, r, d - 1))
        if k == 6:
            self.feats.add("do")
            return ("do", [("t", self.tag(), self.data(sc, 1)) for _ in range(1 + self.n(2))], self.ret(sc, r, d - 1))
        if k == 7:
            self.feats.add("let")
            v = self.name()
            return ("let", v, self.data(sc, 1), self.ret(dict(sc, vs=sc["vs"] + [v], seg=dict(sc["seg"], locals=sc["seg"]["locals"] | {v})), r, d - 1))
        return self.call(sc, r, tail=True)

    def function(self, name, kind, r, outer, depth):
        """outer: scope of the enclosing segment or None"""
        cc = self.pick(["implicit", "implicit", "kwonly", "pos", "posdefault"])
        fn = dict(name=name, kind=kind, cc=cc, r=r, segs=[])
        base = outer or dict(vs=[], ccs=[], fns=[], chain=[])
        seg = dict(targets=["n", "x"], star=None, decl=[], word="nonlocal", stmts=[], end=None, locals={"n", "x"}, outer=set())
        sc = dict(vs=[v for v in base["vs"] if v not in ("n", "x")] + ["n", "x"], ccs=list(base["ccs"]), fns=list(base["fns"]), seg=seg, incc=True,
                  chain=[v for v in base["chain"] if v not in ("n", "x")])
        return fn, sc

    def fill(self, fn, sc, depth, outerseg=None):
        r = fn["r"]
        if fn["kind"] == "lambda":
            seg = sc["seg"]
            seg["end"] = ("ret", self.ret(sc, r, 3))
            fn["segs"].append(seg)
            return
        ncap = self.pick([0, 0, 1, 1, 1, 2, 2, 3, 4]) if r == 1 else 0
        if depth > 0:
            ncap = min(ncap, 2)
        if ncap >= 2:
            self.feats.add("captures twice")
        for i in range(ncap + 1):
            seg = sc["seg"]
            if i == 0 and depth > 0 and sc["chain"] and self.n(3) == 0:
                self.declare(sc)
            self.stmts(sc, r, depth)
            if i < ncap:
                sc = self.capture(sc, r)
            else:
                seg["end"] = ("ret", self.ret(sc, r, 3)) if self.n(6) or r != 1 else ("none",)
            fn["segs"].append(seg)

    def declare(self, sc):
        names = [v for v in sc["chain"] if v not in sc["seg"]["locals"]]
        if names:
            ds = {self.pick(names) for _ in range(1 + self.n(2))}
            sc["seg"]["decl"] = sorted(ds)
            sc["seg"]["outer"] |= ds
            self.feats.add("nonlocal")

    def capture(self, sc, r, top=False):
        """Ends the segment in a call_cc; -> scope of the next"""
        seg = sc["seg"]
        self.feats.add("call_cc")
        k = self.n(8)
        if k == 0:
            self.feats.add("get_cc")
            m = self.n(3)
            targets, star = ["k"] + [self.name() for _ in range(m)], None
            targets[0] = self.name("k")
            call = ("call", ("getcc",), [self.data(sc, 1) for _ in range(m)], "pos", None)
            seg["end"] = ("callcc", None, call, None)
        else:
            r2 = self.pick([1, 1, 1, 2, 3])
            if not any(f["r"] == r2 for f in self.fns):
                r2 = 1
            shape = self.n(4)
            nt, hasstar = [(r2, False), (r2, True), (max(r2 - 1, 0), True), (r2, False) if r2 > 1 else (0, False)][shape]
            targets, star = [self.target(sc) for _ in range(nt)], (self.name("s") if hasstar else None)
            if r2 == 3:
                targets = [self.target(sc), self.target(sc)] + targets[2:]
                if shape == 2 or self.n(12):
                    targets[2:] = ["vk"]
            if len(set(targets)) != len(targets):
                targets = [self.name() if v != "vk" or i < 2 else v for i, v in enumerate(targets)]
            if k in (1, 2):
                self.feats.add("conditional")
                a, b = self.call(sc, r2), self.call(sc, r2)
                w = self.n(5)
                if w == 0:
                    a = None
                elif w == 1:
                    b = None
                elif w == 2 and k == 1:
                    a = b = None
                seg["end"] = ("callcc", self.data(sc, 1), a, b)
            elif k == 3 and self.n(3) == 0:
                seg["end"] = ("callcc", None, None, None)
            else:
                seg["end"] = ("callcc", None, self.call(sc, r2), None)
        new = dict(targets=targets, star=star, decl=[], word="nonlocal", stmts=[], end=None, locals=set(targets) | ({star} if star else set()), outer=set())
        chain = [v for v in sc["chain"]] + [v for v in sorted(seg["locals"]) if v not in sc["chain"] and not v.startswith("w")]
        vs = [v for v in sc["vs"] if v not in new["locals"]] + targets + ([star] if star else [])
        sc2 = dict(sc, seg=new, vs=vs, ccs=[v for v in sc["ccs"] if v not in new["locals"]], fns=list(sc["fns"]), chain=[v for v in chain if v not in new["locals"]])
        if self.n(2) == 0:
            self.declare(sc2)
        return sc2

    def target(self, sc):
        if self.n(4) == 0 and sc["vs"]:     # the targets may shadow variables of earlier parts
            v = self.pick(sc["vs"])
            if v[0] in "vx":
                self.feats.add("target shadows")
                return v
        return self.name()

    def assignable(self, sc):
        seg = sc["seg"]
        k = self.n(4)
        if k == 0 and seg["decl"]:
            return self.pick(seg["decl"])
        own = [v for v in sorted(seg["locals"]) if v[0] in "vx"]
        if k == 1 and own:
            return self.pick(own)
        if k == 2:
            cands = [v for v in sc["vs"] if v[0] in "vx" and v not in seg["outer"] and v not in seg["locals"] and v not in seg["decl"]]
            if cands:
                self.feats.add("shadow")
                return self.pick(cands)
        return self.name()

    def bind(self, sc, v):
        if v not in sc["seg"]["decl"]:
            sc["seg"]["locals"].add(v)
            if v in sc["chain"]:
                sc["chain"] = [c for c in sc["chain"] if c != v]
        if v not in sc["vs"]:
            sc["vs"] = sc["vs"] + [v]

    def stmts(self, sc, r, depth, top=False):
        seg = sc["seg"]
        seg["stmts"].append(("e", ("t", self.tag(), self.data(sc, 1))))
        for _ in range(self.n(4) if self.budget > 0 else 0):
            k = self.n(13)
            if k <= 2:
                d = self.data(sc)
                v = self.assignable(sc)
                seg["stmts"].append(("set", v, d))
                self.bind(sc, v)
            elif k == 3:
                seg["stmts"].append(("e", ("t", self.tag(), self.data(sc))))
            elif k in (4, 5):
                c = self.call(sc, self.pick([1, 1, r]))
                v = self.assignable(sc)
                self.feats.add("non-tail call")
                seg["stmts"].append(("call", v, c, self.n(4) == 0))
                self.bind(sc, v)
            elif k == 6:
                seg["stmts"].append(("e", ("raise", self.data(sc, 1))))
            elif k == 7 and not top:
                seg["stmts"].append(("ifret", self.data(sc, 1), self.ret(sc, r, 1)))
            elif k in (8, 9) and not top:
                self.feats.add("stash")
                seg["stmts"].append(("stash", r))
            elif k == 10 and not top and r == 1:
                self.feats.add("set cc")
                seg["stmts"].append(("setcc", self.ccexpr(sc)))
            elif k == 11 and not top and r == 1:
                v = self.name("q")
                seg["stmts"].append(("keepcc", v))
                seg["locals"].add(v)
                sc["ccs"] = sc["ccs"] + [v]
            elif k == 12 and depth < 2 and self.budget > 0:
                self.feats.add("nested def")
                kind = self.pick(["def", "def", "lambda"])
                f, inner = self.function(self.name("w"), kind, 1, dict(sc, chain=sorted(set(sc["chain"]) | {v for v in seg["locals"] if v[0] in "vxs"}) if not top else []), depth + 1)
                self.fill(f, inner, depth + 1)
                used = set()
                for s in f["segs"]:
                    used |= s["outer"]
                seg["outer"] |= used - seg["locals"]
                seg["stmts"].append(("def", f))
                seg["locals"].add(f["name"])
                sc["fns"] = sc["fns"] + [f]
        for v in sc["vs"]:
            if v[0] == "k" and v in seg["locals"] and self.n(2):
                seg["stmts"].append(("keepk", len(seg["targets"]), v))

    def program(self):
        m = 1 + self.n(4)
        for i in range(m):
            kind = self.pick(["def", "def", "def", "lambda", "method", "static"])
            r = self.pick([1, 1, 1, 1, 2, 3]) if i else 1
            f, sc = self.function(f"f{i}", kind, r, None, 0)
            self.fns.append((f, sc))
        both = self.fns
        self.fns = [f for f, _ in both]
        for f, sc in both:
            self.fill(f, sc, 0)
        top = None
        if self.n(2):
            self.feats.add("top level")
            top = self.toplevel()
        return self.fns, top

    def toplevel(self):
        self.budget += 10
        seg = dict(targets=[], star=None, decl=[], word="global", stmts=[], end=None, locals=set(), outer=set())
        sc = dict(vs=[], ccs=[], fns=[], seg=seg, incc=False, chain=[])
        segs = []
        ncap = self.n(4)
        for i in range(ncap + 1):
            seg = sc["seg"]
            self.stmts(sc, 1, 1, top=True)
            if i < ncap:
                sc = self.capture(sc, 1, top=True)
            else:
                seg["end"] = ("none",)
            segs.append(seg)
        return dict(name="<top>", kind="top", cc="implicit", r=1, segs=segs, wrap=bool(self.n(2)))


# ---------------------------------------------------------------- rendering

def rdata(d):
    k = d[0]
    if k in ("c", "v"):
        return d[1]
    if k == "t":
        return f"t({d[1]}, {rdata(d[2])})"
    if k == "pair":
        return f"pair({rdata(d[1])}, {rdata(d[2])})"
    if k == "same":
        return f"same({rdata(d[1])}, {rdata(d[2])})"
    if k == "ifexp":
        return f"({rdata(d[2])} if {rdata(d[1])} else {rdata(d[3])})"
    if k == "or":
        return f"({rdata(d[1])} or {rdata(d[2])})"
    if k == "dec":
        return f"dec({d[1]})"
    if k == "raise":
        return f"raise_({rdata(d[1])})"
    raise AssertionError(k)


def rcc(c):
    return {"identity": lambda: "identity", "v": lambda: c[1], "K": lambda: f"K({c[1]}, {c[2]})"}[c[0]]()


def rcall(c):
    _, tgt, args, style, over = c
    a = [rdata(x) for x in args]
    if tgt[0] == "C":
        f = f"C({tgt[1]}, {tgt[2]})"
    elif tgt[0] == "getcc":
        f = "get_cc"
    else:
        f = ("o." if tgt[2] in ("method", "static") else "") + tgt[1]
        if style == "kw":
            a = [a[0], f"x={a[1]}"]
        elif style == "star":
            a = [f"*({a[0]}, {a[1]})"]
    if over:
        a.append(f"cc={rcc(over)}")
    return f"{f}({', '.join(a)})"


def rret(e):
    k = e[0]
    if k == "d":
        return rdata(e[1])
    if k == "values":
        xs = list(map(rdata, e[1]))
        if len(xs) == 3 and e[2]:
            xs[2] = "vk=" + xs[2]
        return f"Values({', '.join(xs)})"
    if k == "call":
        return rcall(e)
    if k == "if":
        return f"({rret(e[2])} if {rdata(e[1])} else {rret(e[3])})"
    if k == "orr":
        return f"({rdata(e[1])} or {rret(e[2])})"
    if k == "do":
        return f"do[{', '.join([rdata(x) for x in e[1]] + [rret(e[2])])}]"
    if k == "let":
        return f"let[[{e[1]} := {rdata(e[2])}] in {rret(e[3])}]"
    raise AssertionError(k)


def rsegs(segs, top=False):
    out = []
    for i, s in enumerate(segs):
        if i:
            e = segs[i - 1]["end"]
            call = rcall(e[2]) if e[2] else "None"
            if e[1]:
                call = f"{call} if {rdata(e[1])} else {rcall(e[3]) if e[3] else 'None'}"
            ts = list(s["targets"]) + ([f"*{s['star']}"] if s["star"] else [])
            lhs = "" if not ts else ", ".join(ts) + ("," if len(ts) == 1 and s["star"] else "") + " = "
            if len(ts) == 1 and s["star"]:
                lhs = f"{ts[0]}, = " if s.get("comma") else f"[{ts[0]}] = "
            out.append(f"{lhs}call_cc[{call}]")
        for word, names in s["decl"]:
            out.append(f"{word} {', '.join(names)}")
        for x in s["stmts"]:
            k = x[0]
            if k == "e":
                out.append(rdata(x[1]))
            elif k == "set":
                out.append(f"{x[1]} = {rdata(x[2])}")
            elif k == "call":
                if x[3]:
                    out += ["try:", f"    {x[1]} = {rcall(x[2])}", "except ValueError:", f"    {x[1]} = 'caught'"]
                else:
                    out.append(f"{x[1]} = {rcall(x[2])}")
            elif k == "ifret":
                out += [f"if {rdata(x[1])}:", f"    return {rret(x[2])}"]
            elif k == "stash":
                out.append(f"stash({x[1]}, cc)")
            elif k == "setcc":
                out.append(f"cc = {rcc(x[1])}")
            elif k == "keepcc":
                out.append(f"{x[1]} = cc")
            elif k == "keepk":
                out.append(f"stash({x[1]}, {x[2]})")
            elif k == "def":
                out += rfn(x[1])
            else:
                raise AssertionError(k)
        if s["end"][0] == "ret":
            out.append(f"return {rret(s['end'][1])}")
    return out


def rfn(f):
    ps = {"implicit": "n, x", "kwonly": "n, x, *, cc", "pos": "n, x, cc", "posdefault": "n, cc, x=0"}[f["cc"]]
    if f["kind"] == "lambda":
        return [f"{f['name']} = lambda {ps}: {rret(f['segs'][0]['end'][1])}"]
    deco = []
    if f["kind"] == "method":
        ps = "self, " + ps
    elif f["kind"] == "static":
        deco = ["@staticmethod"]
    return deco + [f"def {f['name']}({ps}):"] + ["    " + x for x in rsegs(f["segs"])]


def render(fns, top):
    out = []
    for f in fns:
        if f["kind"] not in ("method", "static"):
            out += rfn(f)
    ms = [f for f in fns if f["kind"] in ("method", "static")]
    if ms:
        out.append("class O:")
        for f in ms:
            out += ["    " + x for x in rfn(f)]
        out.append("o = O()")
    body = ["with continuations:"] + ["    " + x for x in out]
    if top is None:
        return HEAD + "\n".join(body) + "\n"
    t = ["with continuations:"] + ["    " + x for x in rsegs(top["segs"], top=True)]
    if top["wrap"]:
        t = ["def outer():"] + ["    " + x for x in t]
    else:
        t = ["keepns(globals())"] + t
    return HEAD + "\n".join(body + t) + "\n"


# ---------------------------------------------------------------- the model

class Ret(Exception):
    def __init__(self, v):
        self.v = v


class K:
    """A continuation: None stands for the identity; a part of a function, with the rest of what its function returns to; or a composition."""

    def __init__(self, frame=None, pcc=None, first=None, then=None):
        self.frame = frame      # (function, index of segment, environment the segment is nested in)
        self.pcc = pcc
        self.first = first
        self.then = then


ID = K()


class A(list):
    """Positional and named values."""
    def __init__(self, vals, kw):
        super().__init__(vals)
        self.kw = kw


def chain(pcc, cc):
    """Run pcc (may be None) and then cc."""
    if pcc is None or pcc is ID:
        return cc
    if cc is ID:
        return pcc
    return K(first=pcc, then=cc)


def show(v):
    if isinstance(v, (K, tuple)) or callable(v) or isinstance(v, Values):
        if isinstance(v, tuple):
            return "(" + ", ".join(map(show, v)) + ")"
        if isinstance(v, Values):
            return "Values(" + ", ".join(map(show, v.rets)) + "".join(f", {k}={show(x)}" for k, x in v.kwrets.items()) + ")"
        return "<k>"
    return repr(v)


class World:
    """What both the program and the model can do."""

    def __init__(self):
        self.log = []
        self.fuel = FUEL
        self.ks = {1: [], 2: [], 3: []}

    def tick(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise Halt

    def t(self, k, v):
        self.tick()
        self.log.append((k, show(v)))
        return v

    def dec(self, n):
        self.tick()
        return n - 1 if isinstance(n, int) else 0

    def raise_(self, v):
        if v == "s":
            raise ValueError(v)

    def same(self, a, b):
        return show(a) == show(b)

    def pair(self, a, b):
        return (a, b) if len(show(a) + show(b)) < 100 else "big"

    def stash(self, r, k):
        if (callable(k) or isinstance(k, K)) and len(self.ks[r]) < 12:
            self.ks[r].append(k)


class Model:
    def __init__(self, fns, top, w):
        self.w = w
        self.fns = {f["name"]: f for f in fns}
        self.top = top

    # environments: (dict, set of local names, parent)
    def lookup(self, env, v):
        e = env
        while e is not None:
            if v in e[1]:
                return e[0][v]
            e = e[2]
        raise AssertionError(v)

    def assign(self, env, v, x):
        e = env
        while e is not None:
            if v in e[1]:
                e[0][v] = x
                return
            e = e[2]
        raise AssertionError(v)

    def data(self, d, env):
        k = d[0]
        w = self.w
        if k == "c":
            return eval(d[1])
        if k == "v":
            return self.lookup(env, d[1])
        if k == "t":
            return w.t(d[1], self.data(d[2], env))
        if k == "pair":
            return w.pair(self.data(d[1], env), self.data(d[2], env))
        if k == "same":
            return w.same(self.data(d[1], env), self.data(d[2], env))
        if k == "ifexp":
            return self.data(d[2] if self.data(d[1], env) else d[3], env)
        if k == "or":
            return self.data(d[1], env) or self.data(d[2], env)
        if k == "dec":
            return w.dec(self.lookup(env, d[1]) if d[1] == "n" else int(d[1]))
        if k == "raise":
            return w.raise_(self.data(d[1], env))
        raise AssertionError(k)

    def ccexpr(self, c, env):
        if c[0] == "identity":
            return ID
        if c[0] == "v":
            return self.lookup(env, c[1])
        ks = self.w.ks[c[1]]
        return ks[c[2] % len(ks)] if ks else ID

    def call(self, c, env, cc):
        """cc: what to continue with, a function of the override"""
        _, tgt, args, _, over = c
        if tgt[0] == "C":
            ks = self.w.ks[tgt[1]]
            k = ks[tgt[2] % len(ks)] if ks else ID
            vals = [self.data(a, env) for a in args]
            return self.apply(k, vals, cc(over and self.ccexpr(over, env)))
        if tgt[0] == "getcc":
            k = cc(None)
            return self.apply(k, [k] + [self.data(a, env) for a in args])
        f, fenv = self.lookup(env, tgt[1]) if tgt[0] == "local" else (self.fns[tgt[1]], None)
        vals = [self.data(a, env) for a in args]
        return self.invoke(f, fenv, vals, cc(None if over is None else self.ccexpr(over, env)))

    def invoke(self, f, fenv, vals, cc):
        return self.segment(f, 0, fenv, vals, None, cc)

    def apply(self, k, vals, cc=ID):
        if k is ID:
            return identity(*vals, **getattr(vals, "kw", {})) if cc is ID else self.apply(cc, vals)
        if k.first is not None:
            return self.apply(k.first, vals, chain(k.then, cc))
        f, i, env = k.frame
        return self.segment(f, i, env, vals, k.pcc, cc)

    def send(self, vals, pcc, cc):
        return self.apply(cc, vals) if pcc is None else self.apply(pcc, vals, cc)

    def segment(self, f, i, parent, vals, pcc, cc):
        seg = f["segs"][i]
        env = ({}, seg["locals"], parent)
        if seg["targets"] or seg["star"]:
            nt = len(seg["targets"])
            for v, x in zip(seg["targets"], vals):
                env[0][v] = x
            for v, x in getattr(vals, "kw", {}).items():
                if v in env[0] or v not in seg["targets"]:
                    raise TypeError("named argument")
                env[0][v] = x
            if len(env[0]) < nt or (len(vals) > nt and not seg["star"]):
                raise TypeError("arity")
            if seg["star"]:
                env[0][seg["star"]] = tuple(vals[nt:])
        elif len(vals) > 1 or getattr(vals, "kw", None):
            raise TypeError("arity")
        return self.body(f, i, env, pcc, cc)

    def body(self, f, i, env, pcc, cc):
        seg = f["segs"][i]
        for x in seg["stmts"]:
            k = x[0]
            if k == "e":
                self.data(x[1], env)
            elif k == "set":
                self.assign(env, x[1], self.data(x[2], env))
            elif k == "call":
                try:
                    v = self.call(x[2], env, lambda over: over or ID)
                except ValueError:
                    if not x[3]:
                        raise
                    v = "caught"
                self.assign(env, x[1], v)
            elif k == "ifret":
                if self.data(x[1], env):
                    return self.ret(x[2], env, pcc, cc)
            elif k == "stash":
                self.w.stash(x[1], cc)
            elif k == "setcc":
                cc = self.ccexpr(x[1], env)
            elif k == "keepcc":
                self.assign(env, x[1], cc)
            elif k == "keepk":
                self.w.stash(x[1], self.lookup(env, x[2]))
            elif k == "def":
                self.assign(env, x[1]["name"], (x[1], env))
        e = seg["end"]
        if e[0] == "none":
            if f["kind"] == "top":
                return None
            return self.send([None], pcc, cc)
        if e[0] == "ret":
            return self.ret(e[1], env, pcc, cc)
        nxt = f["segs"][i + 1]
        rest = chain(pcc, cc)
        cont = K(frame=(f, i + 1, env), pcc=None if rest is ID else rest)
        c = e[2]
        if e[1] is not None and not self.data(e[1], env):
            c = e[3]
        if c is None:
            return self.apply(cont, [None] * len(nxt["targets"]))
        return self.call(c, env, lambda over: cont)

    def ret(self, e, env, pcc, cc):
        k = e[0]
        if k == "d":
            v = self.data(e[1], env)
            return self.send(A(v.rets, v.kwrets) if isinstance(v, Values) else [v], pcc, cc)
        if k == "values":
            vs = [self.data(d, env) for d in e[1]]
            return self.send(A(vs[:2], {"vk": vs[2]}) if len(vs) == 3 and e[2] else vs, pcc, cc)
        if k == "call":
            return self.call(e, env, lambda over: chain(pcc, cc if over is None else over))
        if k == "if":
            return self.ret(e[2] if self.data(e[1], env) else e[3], env, pcc, cc)
        if k == "orr":
            v = self.data(e[1], env)
            if v:
                return self.send(A(v.rets, v.kwrets) if isinstance(v, Values) else [v], pcc, cc)
            return self.ret(e[2], env, pcc, cc)
        if k == "do":
            for d in e[1]:
                self.data(d, env)
            return self.ret(e[2], env, pcc, cc)
        if k == "let":
            return self.ret(e[3], ({e[1]: self.data(e[2], env)}, {e[1]}, env), pcc, cc)
        raise AssertionError(k)


# ---------------------------------------------------------------- running both

def finish(fns, top):
    """Declarations by kind of scope."""
    def words(f, outerlocals, istop):
        for i, s in enumerate(f["segs"]):
            names = sorted(s["decl"])
            if istop and not f["wrap"]:
                g = [v for v in names if v in f["segs"][0]["locals"] and not any(v in p["locals"] for p in f["segs"][1:i])]
            else:
                g = []
            s["decl"] = [(w, ns) for w, ns in (("global", g), ("nonlocal", [v for v in names if v not in g])) if ns]
            for x in s["stmts"]:
                if x[0] == "def":
                    words(x[1], None, False)
            s["locals"] = sorted(s["locals"])
            del s["outer"], s["word"]
    for f in fns:
        words(f, None, False)
    if top:
        words(top, None, True)


@st.composite
def programs(draw):
    g = G(draw)
    fns, top = g.program()
    finish(fns, top)
    history = draw(st.lists(st.tuples(st.integers(0, 9), st.sampled_from([1, 1, 1, 2, 3]), st.integers(0, 6), st.sampled_from([0, 1, "s", None, ()])), min_size=2, max_size=7))
    return (fns, top, tuple(history), tuple(sorted(g.feats)))


def outcome(f):
    try:
        return ("value", show(f()))
    except Halt:
        return ("out of fuel",)
    except Exception as e:
        return ("raise", type(e).__name__)


def drive(w, call, resume, hastop, history, fns):
    out = []
    resumed = set()
    again = 0

    def step(thunk):
        w.fuel = FUEL
        out.append(outcome(thunk))
    if hastop:
        step(lambda: call(None, None))
    for f in fns:
        step(lambda: call(f, (2, "s")))
    for what, r, i, x in history:
        ks = w.ks[r]
        if what < 8 and ks:
            j = i % len(ks)
            if (r, j) in resumed:
                again += 1
            resumed.add((r, j))
            step(lambda: resume(ks[j], [x] + [1] * (r - 1)))
        else:
            f = fns[i % len(fns)]
            step(lambda: call(f, (i % 3, x)))
    return out, again


def run_model(case):
    fns, top, history, _ = case
    w = World()
    m = Model(fns, top, w)

    def call(f, args):
        if f is None:
            m.invoke(top, None, [], ID)
            return None
        return m.invoke(f, None, list(args), ID)
    return drive(w, call, lambda k, vals: m.apply(k, vals), top is not None, history, fns), w.log


@trampolined
def cid(*vals, cc=identity):
    return jump(cc, *vals)


def run_real(case, src):
    fns, top, history, _ = case
    w = World()

    def kget(r, i):
        ks = w.ks[r]
        return ks[i % len(ks)] if ks else identity

    def cget(r, i):
        k = kget(r, i)
        return cid if k is identity else k
    names = dict(t=enable(w.t), dec=w.dec, raise_=w.raise_, same=enable(w.same), pair=enable(w.pair), stash=w.stash, K=kget, C=cget, identity=identity)
    inline = top is not None and not top["wrap"]
    mod = []

    def call(f, args):
        if f is None:
            if inline:      # the part at the top level of the module runs at import
                _, exc = run_module(src, dict(names, keepns=mod.append))
                require(mod, f"raised at definition {exc!r}\n", src)
                if exc is not None:
                    raise exc
                return None
            return mod[0]["outer"]()
        ns = mod[0]
        if f["kind"] in ("method", "static"):
            return getattr(ns["o"], f["name"])(*args[:1], x=args[1])
        return ns[f["name"]](*args[:1], x=args[1])
    if not inline:
        ns, exc = run_module(src, names)
        require(exc is None, f"raised at definition {exc!r}\n", src)
        mod.append(ns)
    return drive(w, call, lambda k, vals: k(*vals), top is not None, history, fns), w.log


def run_programs(case):
    fns, top, history, _ = case
    src = render(fns, top)
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(20000)
    try:
        (want, _), wlog = run_model(case)
        (got, _), glog = run_real(case, src)
    finally:
        sys.setrecursionlimit(old)
    eq(got, want, f"outcomes of\n{src}\nhistory {history!r}: ")
    eq(glog, wlog, f"trace of\n{src}\nhistory {history!r}: ")


def nontrivial(case):
    feats = case[3]
    (_, again), _ = run_model(case)
    return again > 0 or "captures twice" in feats


# ---------------------------------------------------------------- no captures

@st.composite
def plain(draw):
    g = c29.G(draw, conts=True)
    lines, fs = g.program()
    return ("\n".join(lines), tuple(fs), tuple(sorted(g.feats)))


def enable(f):
    """For functions that may appear in tail position."""
    @trampolined
    def g(*args, cc=identity):
        v = f(*args)
        return jump(cc, *v.rets, **v.kwrets) if isinstance(v, Values) else jump(cc, v)
    return g


def run_plain(case):
    text, fs, _ = case
    c29.compare(text, fs, c29.INPUTS, "if 1:", "with continuations:", extra=lambda names: dict(names, t=enable(names["t"]), apply=enable(names["apply"])), head=PLAINHEAD)


PLAINHEAD = c29.HEAD.replace("tco,", "continuations,")

SUITES = [
    Suite("plain", plain(), run_plain, quick=1000, shards=4, nontrivial=c29.nontrivial, labels=lambda c: c[-1]),
    Suite("programs", programs(), run_programs, quick=4000, shards=8, nontrivial=nontrivial, labels=lambda c: c[-1]),
]
