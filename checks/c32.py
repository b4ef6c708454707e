"""C32: automatic currying lets every call be split without changing results."""
import functools
import re

from hypothesis import strategies as st

from checks import c29
from vp.core import Suite, eq
from vp.macro import run_module

RULE = ("cases are programs in an autocurry block (alone, or combined with tco, namedlambda or lazify) of functions, lambdas, methods and nested functions with required, optional, keyword-only, star and double-star parameters, "
        "some returning functions, plain or with known decorators, whose calls are split at random into successive partial calls, with stored partials completed several times and passed on as values; "
        "the oracle is the program in plain Python with every split call rewritten to one complete call evaluated in the same order; non-trivial: some call that was made was split, or passed extra arguments on")
ASSUMPTIONS = ["optional arguments are given no later than the last required one (currying calls a function when its required parameters are bound)",
               "extra arguments that no function takes are decided by C01",
               "under lazify only values are compared, since evaluation order is then another property"]
HEAD = ("from unpythonic.syntax import macros, autocurry, lazify, tco, namedlambda, let, do, local\n"
        "from unpythonic import curry, memoize\n")
CONSTS = ["0", "1", "2", "'s'", "None", "(3, 4)"]


class Boom(Exception):
    pass


class G:
    def __init__(self, draw, combo):
        self.draw = draw
        self.combo = combo
        self.k = 0
        self.fresh = 0
        self.budget = draw(st.integers(8, 50))
        self.feats = set()

    def n(self, k):
        return self.draw(st.integers(0, k - 1))

    def pick(self, xs):
        return xs[self.n(len(xs))]

    def tag(self):
        self.k += 1
        return self.k

    def name(self, p):
        self.fresh += 1
        return f"{p}{self.fresh}"

    # sc: dict(vs=data names, fns=[(text, sig, ret)], parts=[(name, f, items left)])
    def data(self, sc, d=2):
        self.budget -= 1
        k = self.n(16 if d > 0 and self.budget > 0 else 4)
        if k == 0 or (k <= 2 and not sc["vs"]):
            return ("c", self.pick(CONSTS))
        if k <= 2:
            return ("c", self.pick(sc["vs"]))
        if k == 3:
            return ("t", self.tag(), ("c", self.pick(CONSTS + sc["vs"])))
        if k == 4:
            return ("t", self.tag(), self.data(sc, d - 1))
        if k == 5:
            return ("tuple", [self.data(sc, d - 1) for _ in range(1 + self.n(2))])
        if k == 6:
            return ("if", self.data(sc, d - 1), self.data(sc, d - 1), self.data(sc, d - 1))
        if k == 7:
            return ("boom", self.tag()) if self.n(3) == 0 else ("builtin", self.pick(["len", "str", "repr", "id0", "sorted", "list"]), self.data(sc, d - 1))
        if k == 8 and sc["fns"]:
            v, c = self.name("b"), self.partial(sc, d - 1)
            if c is not None:
                part, left = c
                self.feats.add("let partial")
                return ("let", v, part, ("tuple", [self.finish(dict(sc), v, left, d - 1), self.finish(dict(sc), v, left, d - 1)]))
        if k == 9:
            v = self.name("b")
            return ("let", v, self.data(sc, d - 1), self.data(dict(sc, vs=sc["vs"] + [v]), d - 1))
        if k == 10 and sc["fns"]:
            c = self.partial(sc, d - 1, one=True)
            if c is not None:
                self.feats.add("partial as a value")
                part, left = c
                return self.pick([("hof", part, self.data(sc, d - 1)), ("map", part, [self.data(sc, d - 1) for _ in range(self.n(3))]), ("hofs", part, self.data(sc, d - 1))])
        if k == 11:
            self.feats.add("lambda called")
            sig = self.sig()
            lam = ("lam", sig, self.data(dict(sc, vs=sc["vs"] + self.datanames(sig)), d - 1))
            return ("call", lam, *self.chunks(self.items(sig, sc, d - 1), sig, None, sc, d))
        return self.call(sc, d)

    def datanames(self, sig):
        return [x for k, x, dflt in sig]

    def sig(self, wild=True):
        ps, dfl = [], False
        for _ in range(self.pick([1, 2, 2, 3, 3, 4])):
            dfl = dfl or self.n(5) == 0
            ps.append(("pos", self.name("p"), self.pick(CONSTS) if dfl else None))
        if wild and self.n(6) == 0:
            ps.append(("args", self.name("p"), None))
        for _ in range(self.n(6) // 4):
            ps.append(("ko", self.name("p"), self.pick(CONSTS) if self.n(2) else None))
        if wild and self.n(8) == 0:
            ps.append(("kw", self.name("p"), None))
        return ps

    def items(self, sig, sc, d):
        """Arguments for one complete call: [(name or None, expr, required)]."""
        out, named, skipped = [], False, False
        npos = sum(k == "pos" for k, _, _ in sig)
        for kind, x, dflt in sig:
            if kind == "pos":
                if dflt is not None and self.n(2):
                    skipped = True
                    continue
                named = named or self.n(5) == 0 or skipped
                out.append((x if named else None, self.data(sc, d), dflt is None))
            elif kind == "args":
                if not named and not skipped and len(out) == npos:
                    for _ in range(self.n(3)):
                        out.append((None, self.data(sc, d), False))
            elif kind == "ko":
                if dflt is None or self.n(2):
                    out.append((x, self.data(sc, d), dflt is None))
            else:
                for x in ("ka", "kb")[:self.n(3)]:
                    out.append((x, self.data(sc, d), False))
        return out

    def order(self, items):
        """Move named arguments around."""
        pos = [x for x in items if x[0] is None]
        kw = [x for x in items if x[0] is not None]
        seq = pos
        for x in kw:
            seq.insert(len(seq) if self.n(2) else self.n(len(seq) + 1), x)
        return seq

    def cut(self, seq, complete=True):
        """-> chunks; the last required argument is in the last chunk."""
        last = max([i for i, x in enumerate(seq) if x[2]], default=0)
        cuts = [i for i in range(1, last + 1) if self.n(2)]
        if complete and self.n(5) == 0:
            cuts = []
        out, a = [], 0
        for c in cuts + [len(seq)]:
            out.append(self.tidy(seq[a:c]))
            a = c
        return out

    def tidy(self, chunk):
        # a positional argument cannot follow a named one; there is no harm in swapping them in one step
        return [x for x in chunk if x[0] is None] + [x for x in chunk if x[0] is not None]

    def chunks(self, items, sig, ret, sc, d):
        """-> [(items of this level, items of the next)] with a chunk list for each further level."""
        seq = self.order(items)
        cs = [(c, []) for c in self.cut(seq)]
        own = len(cs)
        if own > 1:
            self.feats.add("split")
        if ret is not None:
            more = self.items(ret, sc, d - 1)
            cs2 = self.cut(self.order(more))
            full = all(x[0] is None for x in items) and sum(k == "pos" for k, _, _ in sig) == len(items) and not any(k in ("args", "kw") for k, _, _ in sig)
            if full and self.n(2) and all(x[0] is None for x in cs2[0]):
                self.feats.add("extra arguments")
                cs[-1] = (cs[-1][0], cs2[0])
                cs2 = cs2[1:]
            cs += [([], c) for c in cs2]
        return own, cs

    def call(self, sc, d):
        if not sc["fns"]:
            return ("t", self.tag(), self.data(sc, d - 1))
        f, sig, ret = self.pick(sc["fns"])
        return ("call", ("c", f), *self.chunks(self.items(sig, sc, d - 1), sig, ret, sc, d))

    def partial(self, sc, d, one=False):
        """A partial application -> (expr, what is left) or None."""
        fs = [(f, sig) for f, sig, ret in sc["fns"] if ret is None]
        if not fs:
            return None
        f, sig = self.pick(fs)
        items = self.items(sig, sc, d)
        if one:  # exactly one positional argument left
            pos = [x for x in items if x[0] is None and x[2]]
            if not pos or len(pos) != sum(x[0] is None for x in items):
                return None
            seq, left = self.order([x for x in items if x is not pos[-1]]), [pos[-1]]
            if not seq:
                return None
        else:
            seq = self.order(items)
            last = max([i for i, x in enumerate(seq) if x[2]], default=0)
            if not last:
                return None
            c = 1 + self.n(last)
            seq, left = seq[:c], seq[c:]
        cs, a = [], 0
        for c in [i for i in range(1, len(seq)) if self.n(2)] + [len(seq)]:
            cs.append((self.tidy(seq[a:c]), []))
            a = c
        self.feats.add("stored partial")
        return ("part", ("c", f), len(cs), cs), left

    def finish(self, sc, g, left, d):
        seq = [(x, self.data(sc, d), r) for x, e, r in left]
        cs = [(c, []) for c in self.cut(seq)]
        return ("fin", g, len(cs), cs)

    def function(self, sc, kind, depth=1):
        f = self.name("f")
        sig = self.sig()
        ret = self.sig(wild=False) if self.n(3) == 0 else None
        inner = dict(sc, vs=sc["vs"] + self.datanames(sig))
        if ret is not None:
            self.feats.add("returns a function")
        stmts = []
        if kind != "lam":
            for _ in range(self.n(3)):
                k = self.n(4)
                if k == 0 and depth:
                    s, fn = self.function(inner, self.pick(["def", "lam"]), depth - 1)
                    stmts.append(s)
                    inner = dict(inner, fns=inner["fns"] + [fn])
                elif k == 1:
                    c = self.partial(inner, 1)
                    if c is not None:
                        g = self.name("g")
                        stmts.append(("set", g, c[0]))
                        for _ in range(2):
                            v = self.name("v")
                            stmts.append(("set", v, self.finish(inner, g, c[1], 1)))
                            inner = dict(inner, vs=inner["vs"] + [v])
                else:
                    v = self.name("v")
                    stmts.append(("set", v, self.data(inner, 1)))
                    inner = dict(inner, vs=inner["vs"] + [v])
        if ret is None:
            body = self.data(inner, 2)
        else:
            body = ("lam", ret, self.data(dict(inner, vs=inner["vs"] + self.datanames(ret)), 1))
        deco = self.pick([None, None, None, None, "memoize", "curry", "wrapper"]) if kind == "def" else None
        if deco == "memoize" and (any(k in ("args", "kw") for k, _, _ in sig) or self.combo == "lazify"):
            deco = None
        if deco:
            self.feats.add(deco)
        self.feats.add(kind)
        ref = f"o.{f}" if kind == "method" else f"fs['{f}']" if kind == "table" else f
        return ("def", kind, deco, f, sig, stmts, body), (ref, sig, ret)


COMBOS = {"": "with autocurry:", "tco": "with autocurry, tco:", "namedlambda": "with namedlambda, autocurry:", "lazify": "with lazify, autocurry:"}


@st.composite
def programs(draw, combos=("", "tco", "namedlambda")):
    combo = draw(st.sampled_from(combos))
    g = G(draw, combo)
    sc = dict(vs=[], fns=[])
    stmts = []
    for _ in range(1 + g.n(3)):
        s, fn = g.function(sc, g.pick(["def", "def", "lam", "method", "table"]))
        stmts.append(s)
        sc = dict(sc, fns=sc["fns"] + [fn])
    g.budget = max(g.budget, 8)
    runs = [g.call(sc, 2) if g.n(4) else g.data(sc, 3) for _ in range(1 + g.n(3))]
    outside = [g.call(sc, 1) for _ in range(g.n(3))]
    g.budget = 0
    outside = [x for x in outside if not re.search(r"'(let|part|fin|lam)'", repr(x))]
    return combo, stmts, runs, outside, sorted(g.feats)


# ---------------------------------------------------------------- text

class Text:
    def __init__(self, curried):
        self.curried = curried

    def R(self, e):
        k = e[0]
        R = self.R
        if k == "c":
            return e[1]
        if k == "t":
            return f"t({e[1]}, {R(e[2])})"
        if k == "boom":
            return f"boom({e[1]})"
        if k == "tuple":
            return "(" + "".join(R(x) + ", " for x in e[1]) + ")"
        if k == "if":
            return f"({R(e[2])} if {R(e[1])} else {R(e[3])})"
        if k == "builtin":
            x = R(e[2])
            return {"len": f"len(({x}, ))", "str": f"str({x})[:9]", "repr": f"repr({x})[:9]", "id0": f"max([0, 1], key=lambda _: [{x}] == [None])",
                    "sorted": f"sorted([2, 1], key=lambda q: (q, {x}))", "list": f"list(({x}, 1))"}[e[1]]
        if k == "let":
            return f"let[{e[1]} := {R(e[2])}][{R(e[3])}]"
        if k == "hof":
            return f"hof({R(e[1])}, {R(e[2])})"
        if k == "hofs":
            return f"hof({R(e[1])})({R(e[2])})" if self.curried else f"hof({R(e[1])}, {R(e[2])})"
        if k == "map":
            return f"tuple(map({R(e[1])}, [{', '.join(R(x) for x in e[2])}]))"
        if k == "lam":
            return f"(lambda {self.sig(e[1])}: {R(e[2])})"
        if k in ("call", "part", "fin"):
            f = e[1] if k == "fin" else R(e[1])
            if self.curried:
                return f + "".join("(" + ", ".join(self.arg(x) for x in a + b) + ")" for a, b in e[3])
            out = []
            for a, b in e[3]:
                seen = a + b
                pos = "".join(R(x[1]) + ", " for x in seen if x[0] is None)
                kw = ", ".join(f"{x[0]}={R(x[1])}" for x in seen if x[0] is not None)
                out.append(f"lambda: (({pos}), dict({kw}))")
            # which positional arguments belong to the function itself, and after which step it is called
            plan = [sum(x[0] is None for x in a) for a, b in e[3]]
            return f"steps({k!r}, {f}, {e[2]}, {plan}, {', '.join(out)})"
        raise AssertionError(e)

    def arg(self, x):
        return self.R(x[1]) if x[0] is None else f"{x[0]}={self.R(x[1])}"

    def sig(self, sig):
        out, bare = [], False
        for kind, x, d in sig:
            if kind == "args":
                bare = True
                out.append("*" + x)
            elif kind == "kw":
                out.append("**" + x)
            else:
                if kind == "ko" and not bare:
                    out.append("*")
                    bare = True
                out.append(x if d is None else f"{x}={d}")
        return ", ".join(out)

    def S(self, s, ind):
        if s[0] == "set":
            return [f"{ind}{s[1]} = {self.R(s[2])}"]
        _, kind, deco, f, sig, stmts, body = s
        if kind == "lam":
            return [f"{ind}{f} = lambda {self.sig(sig)}: {self.R(body)}"]
        if kind == "method":
            out = [f"{ind}class C{f}:", f"{ind}    def {f}(self, {self.sig(sig)}):"]
            for x in stmts:
                out += self.S(x, ind + "        ")
            return out + [f"{ind}        return {self.R(body)}", f"{ind}o.{f} = C{f}().{f}"]
        out = [f"{ind}@{deco}"] if deco and (self.curried or deco != "curry") else []
        out.append(f"{ind}def {f}({self.sig(sig)}):")
        for x in stmts:
            out += self.S(x, ind + "    ")
        out.append(f"{ind}    return {self.R(body)}")
        if kind == "table":
            out.append(f"{ind}fs['{f}'] = {f}")
        return out

    def module(self, combo, stmts, runs, outside):
        ls = ["def hof(hf, hx):", "    return hf(hx)"]
        for s in stmts:
            ls += self.S(s, "")
        for r in runs:
            ls.append(f"out(lambda: {self.R(r)})")
        head = COMBOS[combo] if self.curried else "if True:"
        return HEAD + head + "\n" + "\n".join("    " + x for x in ls) + "\n" + "".join(f"out(lambda: {self.R(r)})\n" for r in outside)


class Part:
    """A call that lacks arguments."""
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw

    def __call__(self, *args, **kw):
        return self.f(*self.args, *args, **self.kw, **kw)


def steps(kind, f, own, plan, *chunks):
    """What the steps of a call mean: collect the arguments, call at the last step that has arguments of the function itself."""
    args, kw = (f.args, f.kw) if kind == "fin" else ((), {})
    if kind == "fin":
        f = f.f
    last = own - 1
    rest = len(plan) > own
    for i, (n, chunk) in enumerate(zip(plan, chunks)):
        a, k = chunk()
        if i > last:
            args, kw = args + a, {**kw, **k}
            continue
        args, kw = args + a[:n], {**kw, **k}
        if i == last:
            if kind == "part":
                return Part(f, args, kw)
            f = f(*args, **kw)
            args, kw = a[n:], {}
            rest = rest or bool(args)
    return f(*args, **kw) if rest else f


def wrapper(f):
    @functools.wraps(f)
    def wrapped(*args, **kw):
        return f(*args, **kw)
    return wrapped


class O:
    pass


def show(x):
    if isinstance(x, (tuple, list)):
        return (type(x).__name__, [show(y) for y in x])
    if isinstance(x, dict):
        return {k: show(v) for k, v in x.items()}
    return "function" if callable(x) else repr(x)


def execute(src):
    trace, outs = [], []

    def t(k, v):
        trace.append(k)
        return v

    def boom(k):
        trace.append(-k)
        raise Boom(k)

    def out(thunk):
        try:
            outs.append(("value", show(thunk())))
        except Exception as err:
            outs.append(("raised", type(err).__name__, str(err) if isinstance(err, Boom) else ""))
        trace.append("out")
    _, exc = run_module(src, dict(t=t, boom=boom, out=out, o=O(), fs={}, steps=steps, wrapper=wrapper))
    return trace, outs, None if exc is None else f"{type(exc).__name__}: {exc}"


def run(case):
    combo, stmts, runs, outside, feats = case
    a = Text(False).module(combo, stmts, runs, outside)
    b = Text(True).module(combo, stmts, runs, outside)
    ta, oa, ea = execute(a)
    tb, ob, eb = execute(b)
    if combo != "lazify":
        eq((eb, ob, tb), (ea, oa, ta), f"how it ended, results and evaluation order of\n{b}\ncompared with the complete calls\n{a}")
        return
    for x, y in zip(oa, ob):
        if x[0] != "value":
            break
        eq(y, x, f"result of\n{b}\ncompared with the complete calls\n{a}")
    else:
        eq((eb, len(ob)), (ea, len(oa)), f"how this ended\n{b}")


def nontrivial(case):
    return bool({"split", "extra arguments", "stored partial"} & set(case[4]))


# ---------------------------------------------------------------- complete calls

HEAD2 = c29.HEAD.replace("macros,", "macros, autocurry,", 1)


def run_complete(case):
    text, fs, _ = case
    c29.compare(text, fs, c29.INPUTS, "if 1:", "with autocurry:", head=HEAD2)


# ---------------------------------------------------------------- builtins and other callables

class Thing:
    """Defined outside of the block."""
    def __init__(self, a, b=2, *, c=3):
        self.v = (a, b, c)

    def __call__(self, x, y=0):
        return (self.v, x, y)

    def m(self, x, *ys, **kw):
        return (x, ys, sorted(kw))

    @classmethod
    def cm(cls, x):
        return (cls.__name__, x)

    @staticmethod
    def sm(x, y):
        return (x, y)

    def __repr__(self):
        return f"Thing{self.v}"


def ident(x):
    return x


CALLS = ["len({l})", "max({l})", "max({i}, {j})", "min({l}, key=lambda q: -q)", "sum({l})", "sum({l}, {i})", "sorted({l})", "sorted({l}, reverse=True)", "sorted({l}, key=lambda q: -q)", "list({l})", "tuple({l})",
         "dict(a={i}, b={j})", "dict([(1, {i})])", "set({l})", "str({i})", "repr({s})", "int('{i}')", "int('{i}1', 16)", "float({i})", "abs(-{i})", "divmod({i}, 3)", "pow(2, {i})", "pow(2, {i}, 5)", "round({i}.5)", "range({i})",
         "list(range({i}, {j}))", "list(range(0, 9, 2))", "list(zip({l}, {l}))", "list(map(lambda q: q + 1, {l}))", "list(map(lambda q, w: (q, w), {l}, {l}))", "list(filter(None, {l}))", "list(filter(lambda q: q > 1, {l}))",
         "list(enumerate({l}))", "list(enumerate({l}, {i}))", "list(reversed({l}))", "any({l})", "all({l})", "isinstance({i}, int)", "issubclass(bool, int)", "getattr({s}, 'upper')()", "getattr({s}, 'nope', {i})", "hasattr({s}, 'upper')",
         "type({i})", "callable(len)", "chr(65 + {i})", "ord('A')", "hex({i})", "bin({i})", "hash({i})", "iter({l}).__next__()", "next(iter([{i}]))", "next(iter(()), {i})", "slice({i}, {j})", "bool({i})", "bytes([{i}])", "complex({i}, {j})",
         "frozenset({l})", "object().__class__", "format({i}, '03d')", "{s}.upper()", "{s}.join(['a', 'b'])", "{s}.replace('a', 'b')", "'{{}}-{{}}'.format({i}, {j})", "{s}.split()", "{s}.split('b')", "{s}.startswith('a')", "{s}.center(5)", "{s}.center(5, '*')",
         "({l}).count({i})", "{{'a': {i}}}.get('a')", "{{'a': {i}}}.get('b', {j})", "list({{'a': {i}}}.items())", "{{'a': {i}}}.setdefault('b', {j})", "{{'a': {i}}}.pop('a')", "dict.fromkeys({l}, {i})", "str.upper({s})", "list.__len__({l})",
         "int.from_bytes(b'ab', 'big')", "({i}).bit_length()", "({i}).__add__({j})",
         "Thing({i}).v", "Thing({i}, {j}).v", "Thing({i}, c={j}).v", "Thing(*{l}[:1], **{{'c': {i}}}).v", "Thing({i})({j})", "Thing({i})({j}, y={i})", "thing.m({i})", "thing.m({i}, {j}, k={i})", "Thing.cm({i})", "thing.cm({i})", "Thing.sm({i}, {j})", "thing.sm({i}, {j})",
         "functools.partial(Thing.sm, {i})({j})", "functools.reduce(lambda q, w: q + w, {l}, {i})", "itemgetter(0)({l})", "attrgetter('v')(thing)", "methodcaller('upper')({s})", "ident({i})", "ident(ident)({i})", "ident(x={i})", "ident(*[{i}])", "ident(**{{'x': {i}}})",
         "list(itertools.chain({l}, {l}))", "list(itertools.islice({l}, {i}))", "deque({l})", "Counter({l})", "Color({k})", "Pt({i}, {j})", "Pt(x={i}, y={j})", "Pt({i}, {j})._replace(x=0)", "super_case({i}).m({j})",
         "(lambda: {i})()", "(lambda *a: a)()", "(lambda *a, **k: (a, k))({i}, z={j})", "(lambda q={i}: q)()", "re.sub('a', lambda m: m.group(0) + 'x', {s})", "ValueError({i}).args", "print", "eval('{i} + 1')", "'out' in globals()", "vars(thing)", "'upper' in dir({s})", "sorted(locals())[:1]", "add({i}, {j})", "add({i})({j})", "mul({i})({j})", "operator.sub({i})({j})"]
ATOMS = dict(i=["0", "1", "2", "3"], j=["4", "5"], s=["'abc'", "'a b'", "''"], l=["[3, 1, 2]", "[1]", "(1, 2)"], k=["1", "2"])
BHEAD = ("from unpythonic.syntax import macros, autocurry\n"
         "import functools, itertools, operator, re\n"
         "from operator import add, mul, itemgetter, attrgetter, methodcaller\n"
         "from collections import deque, Counter, namedtuple\n"
         "from enum import Enum\n")
BBODY = ["class Color(Enum):", "    A = 1", "    B = 2", "Pt = namedtuple('Pt', 'x y')",
         "class Base:", "    def __init__(self, a):", "        self.a = a", "    def m(self, b):", "        return (self.a, b)",
         "class super_case(Base):", "    def __init__(self, a):", "        super().__init__(a + 1)", "    def m(self, b):", "        return ('sub', super().m(b))"]


@st.composite
def calls(draw):
    out = []
    for _ in range(draw(st.integers(1, 6))):
        c = draw(st.sampled_from(CALLS))
        out.append(c.format(**{k: draw(st.sampled_from(v)) for k, v in ATOMS.items()}))
    return tuple(out), draw(st.sampled_from(["plain", "in def", "in lambda", "star"]))


def run_calls(case):
    cs, where = case
    ls = list(BBODY)
    for i, c in enumerate(cs):
        if where == "in def":
            ls += [f"def f{i}(u, w):", f"    x = {c}", "    return (u, x, w)", f"out(f{i}(1, 2))"]
        elif where == "in lambda":
            ls += [f"out((lambda u, w: (u, {c}, w))(1, 2))"]
        elif where == "star":
            ls += [f"out(*[{c}])"]
        else:
            ls += [f"out({c})"]
    res = []
    for head in ("if True:", "with autocurry:"):
        got = []
        src = BHEAD + head + "\n" + "\n".join("    " + x for x in ls) + "\n"
        if head == "if True:":
            src = re.sub(r"(add|mul|sub)\((\d)\)\((\d)\)", r"\1(\2, \3)", src)
        ns, exc = run_module(src, dict(out=lambda x: got.append(re.sub("vp_generated_[0-9]+|0x[0-9a-f]+", "", repr(x))), Thing=Thing, thing=Thing(0), ident=ident))
        res.append((got, repr(exc)))
    eq(res[1], res[0], f"results in an autocurry block of\n{src}")


SUITES = [
    Suite("complete", c29.programs(), run_complete, quick=200, nontrivial=lambda c: len(c[0]) > 200, labels=lambda c: c[2]),
    Suite("builtins", calls(), run_calls, quick=300, nontrivial=lambda c: len(c[0]) > 1, labels=lambda c: [c[1]]),
    Suite("split", programs(), run, quick=1500, nontrivial=nontrivial, labels=lambda c: c[4] + [c[0]]),
    Suite("lazy", programs(combos=("lazify",)), run, quick=250, nontrivial=nontrivial, labels=lambda c: c[4]),
]
