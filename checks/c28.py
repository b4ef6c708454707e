"""C28: let and do macros implement lexical scoping."""
import textwrap

import hypothesis.strategies as st

from vp.core import Suite, require, eq
from vp.macro import run_macros

RULE = ("cases are programs of nested let/letseq/letrec expressions (all surface syntaxes), do/do0 with local and delete, implicit do, lambdas with defaults, comprehensions, conditionals, "
        "calls and assignments, and of functions decorated with dlet/dletseq/dletrec/blet/bletseq/bletrec containing assignments, deletions, loops, branches, nested functions, classes and "
        "global/nonlocal declarations, all over a handful of names so that shadowing is the rule. Non-trivial: the program reads or assigns at least one let or do variable, and some name is "
        "bound in two scopes at once")
TECHNIQUE = "grammar-based program generation, differential against a reference interpreter with explicit environments"
ASSUMPTIONS = ["assigning an ordinary Python variable from inside a let/do expression nested in it is not generated (a walrus cannot do that in Python)",
               "creation and deletion of local variables in a decorated function take effect from the next statement (documented)",
               "a local variable is not read before the statement that creates it, unless a let or do variable of that name is around it",
               "decorators, defaults and annotations of the decorated function itself do not mention let variables; let decorators are not stacked on one function",
               "the bindings of dletseq do not mention the name of the function"]

I, F = "abc", "fg"
# Targets of list, set and dict comprehensions are p and q, which no Python function binds: CPython 3.12 may
# otherwise confuse the target with a variable of the same name captured by a function next to the comprehension,
# or with a global of the same name read by a comprehension around it. Hence p and q are never read as globals.
P = "pq"
V = I + P
GLOBALS = {"a": 501, "b": 502, "c": 503, "p": 504, "q": 505}
FUEL = 60
MACROS = ("from unpythonic.syntax import macros, let, letseq, letrec, dlet, dletseq, dletrec, blet, bletseq, bletrec, do, do0, local, delete, where\n")


# ---------------------------------------------------------------- static scopes, used by the generator
# A scope is (kind, names, declared, parent); kind "env" or "py"; names: frozenset.
def env(names, parent):
    return ("env", frozenset(names), (), parent)


def py(names, parent, declared=()):
    return ("py", frozenset(names), tuple(declared), parent)


def lookup(sc, x):
    """-> ("env"|"py"|"declared", scope) or None for a global"""
    while sc is not None:
        kind, names, declared, parent = sc
        for d, where in declared:
            if d == x:
                return ("declared", where)
        if x in names:
            return (kind, sc)
        sc = parent
    return None


class G:
    def __init__(self, draw):
        self.draw = draw
        self.budget = draw(st.integers(5, 40))
        self.tags = 0
        self.feats = set()

    def n(self, k):
        return self.draw(st.integers(0, k - 1))

    def pick(self, xs):
        return xs[self.n(len(xs))]

    def tag(self):
        self.tags += 1
        return self.tags

    def readable(self, sc, pool, blocked):
        """Names of the pool that may be read: those resolving to an env are always fine; others unless `blocked`
        (locals of the current function that are not bound yet, or deleted)."""
        out = []
        for x in pool:
            r = lookup(sc, x)
            if (r and r[0] == "env") or x not in blocked and (r or x not in P):
                out.append(x)
        return out

    def var(self, sc, pool, blocked):
        xs = self.readable(sc, pool, blocked)
        return ("var", self.pick(xs)) if xs else None

    # `blocked`: see above. `pw`: Python variables that a walrus here can assign.
    def int(self, sc, d, blocked=frozenset(), pw=frozenset()):
        self.budget -= 1
        if d <= 0 or self.budget <= 0:
            return (self.var(sc, V, blocked) if self.n(4) else None) or ("num", self.n(50))
        k = self.n(19)
        sub = lambda: self.int(sc, d - 1, blocked, pw)  # noqa: E731
        if k <= 2:
            return self.var(sc, V, blocked) or ("num", 7)
        if k == 3:
            return ("t", self.tag(), sub())
        if k == 4:
            return ("add", sub(), sub())
        if k == 5:
            return ("if", sub(), sub(), sub())
        if k == 6:
            return (self.pick(["or", "and"]), sub(), sub())
        if k in (7, 8):
            xs = [x for x in V if (lookup(sc, x) or ("",))[0] == "env" or x in pw]
            if not xs:
                return sub()
            x = self.pick(xs)
            isenv = lookup(sc, x) and lookup(sc, x)[0] == "env"
            if isenv:
                self.feats.add("assign")
            return ("set", x, sub(), self.pick([":=", ":=", "<<"]) if isenv else ":=")
        if k in (9, 10):
            return ("call", self.fun(sc, d - 1, blocked), sub())
        if k in (11, 12, 13, 14):
            return self.let(sc, d, blocked, self.int)
        if k in (15, 16):
            self.feats.add("do")
            items, _ = self.items(sc, d, blocked, self.int)
            return ("do", items, False) if self.n(3) or items[0][0] == "local" and items[0][1] in F else ("do", items, True)
        return self.comp(sc, d, blocked)

    def fun(self, sc, d, blocked=frozenset(), pw=frozenset()):
        k = self.n(4)
        if k == 0 or d <= 0:
            v = self.var(sc, F, blocked)
            if v:
                return v
        if k == 1 and d > 0 and self.budget > 0:
            return self.let(sc, d, blocked, self.fun)
        return self.lam(sc, d, blocked)

    def lam(self, sc, d, blocked):
        self.budget -= 1
        ps = []
        free = list(I)
        for i in range(1 + self.n(3)):
            x = free.pop(self.n(len(free)))
            ps.append((x, self.int(sc, d - 1, blocked) if i else None))
        names = frozenset(x for x, _ in ps)
        inner = py(names, sc)
        return ("lam", tuple(ps), self.int(inner, d - 1, blocked - names, names))

    def comp(self, sc, d, blocked):
        self.feats.add("comprehension")
        gens = []
        inner, b = sc, blocked
        targets = set()
        plan = []
        br = self.pick(["[]", "()", "()", "{}", "{:}"])
        for _ in range(1 + self.n(2)):
            shape = self.pick(["x", "x", "(x, y)", "[x, y]"])
            if br == "()":
                xs = [self.pick(I)] if shape == "x" else [I[i] for i in ((0, 1), (1, 2), (2, 0))[self.n(3)]]
            else:
                xs = [self.pick(P)] if shape == "x" else list(P)
            targets |= set(xs)
            plan.append((shape, xs))
        inner = py(targets, sc)
        b = blocked - targets
        bound = set()
        for i, (shape, xs) in enumerate(plan):
            # before their own loop, the targets of the comprehension are unbound
            isc, ib = (sc, blocked) if i == 0 else (inner, b | (targets - bound))
            its = tuple(tuple(self.int(isc, d - 2, ib) for _ in xs) for _ in range(self.n(3)))
            bound |= set(xs)
            cond = self.int(inner, d - 2, b | (targets - bound)) if self.n(3) == 0 else None
            gens.append((shape, tuple(xs), its, cond))
        return ("sum", br, self.int(inner, d - 1, b), self.int(inner, d - 2, b), tuple(gens))

    def bindings(self, kind, sc, d, blocked):
        """-> (bindings, inner scope)"""
        k = 1 + self.n(3)
        pool = list(V + F)
        bs = []
        if kind.endswith("seq"):
            for _ in range(k):
                x = self.pick(pool)
                bs.append((x, (self.int if x in V else self.fun)(sc, d - 1, blocked)))
                sc = env([x], sc)
            return tuple(bs), sc
        xs = [pool.pop(self.n(len(pool))) for _ in range(k)]
        inner = env(xs, sc)
        for i, x in enumerate(xs):
            if kind.endswith("rec"):
                if x in F:
                    # a function may mention any binding; it might still run too early, which raises
                    v = self.lam(inner, d - 1, blocked)
                else:
                    # plain values mention earlier bindings only
                    v = self.int(self.partial(inner, xs[i:], sc), d - 1, blocked | frozenset(xs[i:]))
            else:
                v = (self.int if x in V else self.fun)(sc, d - 1, blocked)
            bs.append((x, v))
        return tuple(bs), inner

    @staticmethod
    def partial(inner, hidden, sc):
        # the hidden names are looked up as Python variables (never readable here, see blocked)
        return py(hidden, inner)

    def let(self, sc, d, blocked, body):
        kind = self.pick(["let", "let", "letseq", "letrec"])
        self.feats.add(kind)
        bs, inner = self.bindings(kind, sc, d, blocked)
        if any(lookup(sc, x) for x, _ in bs):
            self.feats.add("shadowing")
        b = blocked
        if self.n(3) == 0:
            items, _ = self.items(inner, d, b, body)
        else:
            items = (body(inner, d - 1, b),)
        return ("let", kind, bs, items, self.n(12))

    def items(self, sc, d, blocked, last):
        """Items of a do -> (items, scope)"""
        declared = []
        items = []
        cur = env([], sc)
        for _ in range(self.n(4)):
            k = self.n(4)
            if k == 0 and len(declared) < 3:
                x = self.pick([y for y in V + F if y not in declared])
                v = (self.int if x in V else self.fun)(cur, d - 1, blocked)
                items.append(("local", x, v, self.pick([":=", ":=", "<<"])))
                if lookup(sc, x):
                    self.feats.add("shadowing")
                self.feats.add("local")
                declared.append(x)
                cur = env(declared, sc)
            elif k == 1 and declared and self.n(2):
                x = declared.pop(self.n(len(declared)))
                self.feats.add("delete")
                items.append(("delete", x))
                cur = env(declared, sc)
            else:
                items.append(self.int(cur, d - 1, blocked))
        items.append(last(cur, d - 1, blocked))
        return tuple(items), cur

    # ------------------------------------------------------------ functions
    def decorated(self, sc, d, blocked, name, call):
        kind = self.pick(["let", "letseq", "letrec"])
        self.feats.add(("b" if call else "d") + kind)
        bs, inner = self.bindings(kind, sc, d, blocked)
        if any(lookup(sc, x) for x, _ in bs):
            self.feats.add("shadowing")
        if kind == "letseq" and mentions(bs, name):
            bs, inner = (("a", ("num", 3)),), env(["a"], sc)
        params = []
        if not call:
            free = list(I)
            for _ in range(self.n(3)):
                if free:
                    params.append(free.pop(self.n(len(free))))
        return ("deco", ("b" if call else "d") + kind, bs, name, tuple(params), self.body(inner, d, params, name), self.n(5))

    def body(self, sc, d, params, name):
        """Statements of a function, with scope `sc` around it."""
        declared, decl = [], []
        for x in I:
            if x not in params and self.n(9) == 0:
                # nonlocal needs a variable of a function around, however many lets are in between
                where = sc
                while where is not None and not (where[0] == "py" and x in where[1] and where[2] != "comp"):
                    where = where[3]
                if where is not None and self.n(2):
                    kw, target = "nonlocal", where
                else:
                    kw, target = "global", None
                # (a name that an enclosing function declares elsewhere cannot be declared nonlocal)
                if kw == "nonlocal" and any(x == y for y, _ in self.declared_around(sc)):
                    continue
                decl.append((kw, x))
                declared.append((x, target))
        # every name that this function binds anywhere is its local
        mine = [x for x in I if x not in params and x not in dict(declared) and self.n(3) == 0]
        minef = [x for x in F if self.n(4) == 0]
        state = {"bound": set(params), "mine": set(mine) | set(minef), "declared": tuple(declared), "params": set(params)}
        state["own"] = {name} if name in I and name not in params and name not in dict(declared) else set()
        scope = py(set(params) | ({name} if name in I + F else set()), sc, declared)
        stmts, _ = self.suite(scope, d, state, True)
        return tuple(decl) + stmts

    @staticmethod
    def declared_around(sc):
        while sc is not None:
            yield from sc[2]
            sc = sc[3]

    def view(self, scope, state):
        kind, _, declared, parent = scope
        extra = {n for n in scope[1] if n in F} | state["own"]  # the name of the function itself
        return py(state["bound"] | extra, parent, declared), frozenset((state["mine"] | state["own"]) - state["bound"])

    def suite(self, scope, d, state, top):
        out = []
        for _ in range(1 + self.n(4)):
            out.append(self.stmt(scope, d, state))
            if self.budget <= 0:
                break
        if top:
            sc, bl = self.view(scope, state)
            out.append(("return", self.int(sc, 2, bl)))
        return tuple(out), None

    def stmt(self, scope, d, state):
        self.budget -= 1
        sc, bl = self.view(scope, state)
        pw = frozenset(x for x in I if x in state["bound"] and x in state["mine"] | state["params"] or x in dict(state["declared"]))
        pw = frozenset(x for x in pw if (lookup(sc, x) or ("",))[0] != "env")
        k = self.n(15) if d > 0 and self.budget > 0 else self.n(7)
        e = lambda: self.int(sc, 2, bl, pw)  # noqa: E731
        if k <= 1:
            return ("expr", ("t", self.tag(), e()))
        if k in (2, 3):
            xs = [x for x in I if x in state["mine"] | state["params"] or x in dict(state["declared"])]
            if xs:
                x = self.pick(xs)
                s = ("assign", x, e())
                if x in state["mine"]:
                    state["bound"].add(x)
                    self.feats.add("local variable")
                return s
        if k == 4:
            xs = [x for x in state["bound"] & state["mine"] if x in I and (lookup(scope[3], x) or ("",))[0] == "env"]
            if xs:
                x = self.pick(sorted(xs))
                state["bound"].discard(x)
                self.feats.add("del")
                return ("del", x)
        if k in (5, 6):
            return ("expr", e())
        if k <= 6:
            return ("expr", ("t", self.tag(), e()))
        if k in (7, 8):
            c = e()
            a, _ = self.suite(scope, d - 1, state, False)
            b, _ = self.suite(scope, d - 1, state, False) if self.n(2) else ((), None)
            return ("ifs", c, a, b)
        if k == 9:
            xs = [x for x in I if x in state["mine"] | state["params"]]
            if xs:
                x = self.pick(xs)
                its = tuple(e() for _ in range(self.n(3)))
                if x in state["mine"]:
                    state["bound"].add(x)
                    self.feats.add("local variable")
                b, _ = self.suite(scope, d - 1, state, False)
                return ("for", x, its, b)
        if k in (10, 11):
            xs = [x for x in F if x in state["mine"]]
            if xs:
                x = self.pick(xs)
                state["bound"].add(x)
                sc2, _ = self.view(scope, state)
                free = list(I)
                ps = tuple((free.pop(self.n(len(free))), self.int(sc, 1, bl) if i else None) for i in range(1 + self.n(2)))
                # inside, names that are not bound yet in this function must not be read, unless bound by the inner one
                self.feats.add("nested def")
                return ("def", x, ps, self.nested(sc2, d - 1, [p for p, _ in ps], x, bl - {x}))
        if k in (12, 13):
            call = bool(self.n(2))
            pool = [x for x in I if x in state["mine"]] if call else [x for x in F if x in state["mine"]]
            if pool:
                x = self.pick(pool)
                s = self.nested_decorated(sc, d - 1, bl, x, call)
                state["bound"].add(x)
                return s
        return ("class", self.tag(), self.int(sc, 2, bl), self.int(sc, 2, bl))

    def nested(self, sc, d, params, name, bl):
        saved = self.readable
        inner_blocked = bl

        def readable(scope, pool, blocked):
            return saved(scope, pool, blocked | frozenset(x for x in inner_blocked if self.reaches(scope, x, sc)))
        self.readable = readable
        try:
            return self.body(sc, d, params, name)
        finally:
            self.readable = saved

    @staticmethod
    def reaches(scope, x, stop):
        """Whether looking up x from `scope` gets as far as `stop`."""
        while scope is not None and scope is not stop:
            if x in scope[1] or any(x == y for y, _ in scope[2]):
                return False
            scope = scope[3]
        return True

    def nested_decorated(self, sc, d, bl, x, call):
        saved = self.readable

        def readable(scope, pool, blocked):
            return saved(scope, pool, blocked | frozenset(y for y in bl | {x} if self.reaches(scope, y, sc)))
        self.readable = readable
        try:
            return self.decorated(sc, d, bl | {x}, x, call)
        finally:
            self.readable = saved


def mentions(tree, x):
    if isinstance(tree, tuple):
        return any(mentions(t, x) for t in tree)
    return tree == x


@st.composite
def expressions(draw):
    g = G(draw)
    prog = tuple(("r", g.int(None, 4)) for _ in range(1 + g.n(2)))
    return prog, sorted(g.feats)


@st.composite
def functions(draw):
    g = G(draw)
    prog = []
    for i in range(1 + g.n(2)):
        call = g.n(3) == 0
        s = g.decorated(None, 3, frozenset(), f"h{i}", call)
        prog.append(s)
        for _ in range(1 + g.n(3)):
            prog.append(("use", f"h{i}", tuple(g.n(9) for _ in s[4]), call))
    return tuple(prog), sorted(g.feats)


# ---------------------------------------------------------------- rendering
def rb(bs, style):
    """Bindings, in a style: 0 walrus, 1 shift, 2 tuples, 3 lists"""
    if style == 0:
        return ", ".join(f"{x} := {R(e)}" for x, e in bs)
    if style == 1:
        return ", ".join(f"{x} << {R(e)}" for x, e in bs)
    if style == 2:
        return ", ".join(f"({x}, {R(e)})" for x, e in bs)
    return ", ".join(f"[{x}, {R(e)}]" for x, e in bs)


def seq(items):
    out = []
    for it in items:
        if it[0] == "local":
            out.append(f"local[{it[1]} {it[3]} {R(it[2])}]")
        elif it[0] == "delete":
            out.append(f"delete[{it[1]}]")
        else:
            out.append(R(it))
    return ", ".join(out)


def R(e):
    k = e[0]
    if k == "num":
        return str(e[1])
    if k == "var":
        return e[1]
    if k == "t":
        return f"t({e[1]}, {R(e[2])})"
    if k == "add":
        return f"(({R(e[1])} + {R(e[2])}) % 1009)"
    if k == "if":
        return f"({R(e[2])} if {R(e[1])} % 2 else {R(e[3])})"
    if k in ("or", "and"):
        return f"({R(e[1])} {k} {R(e[2])})"
    if k == "set":
        return f"({e[1]} {e[3]} {R(e[2])})"
    if k == "call":
        return f"({R(e[1])})({R(e[2])})"
    if k == "lam":
        ps = ", ".join(x if d is None else f"{x}={R(d)}" for x, d in e[1])
        return f"(lambda {ps}: (tick(), {R(e[2])})[1])"
    if k == "do":
        m = "do0" if e[2] else "do"
        return f"{m}[{seq(e[1])},]" if len(e[1]) == 1 else f"{m}[{seq(e[1])}]"
    if k == "let":
        _, kind, bs, items, s = e
        body = R(items[0]) if len(items) == 1 else "[" + seq(items) + "]"
        if s < 4:
            return f"{kind}[{rb(bs, s)}][{body}]"
        if s == 4:
            return f"{kind}({rb(bs, 0)})[{body}]"
        if s == 5:
            return f"{kind}({rb(bs, 2)})[{body}]"
        if s in (6, 7):
            return f"{kind}[[{rb(bs, (0, 2)[s - 6])}] in {body}]"
        if s == 8:
            return f"{kind}[({rb(bs, 3)},) in {body}]"
        if s == 9:
            return f"{kind}[{body}, where[{rb(bs, 0)}]]"
        if s == 10:
            return f"{kind}[{body}, where({rb(bs, 2)})]"
        return f"{kind}[{body}, where[{rb(bs, 1)}]]"
    if k == "sum":
        _, br, elt, elt2, gens = e
        parts = []
        for shape, xs, its, cond in gens:
            t = xs[0] if shape == "x" else f"({xs[0]}, {xs[1]})" if shape[0] == "(" else f"[{xs[0]}, {xs[1]}]"
            els = ", ".join(R(i[0]) if shape == "x" else "(" + ", ".join(map(R, i)) + ")" for i in its)
            parts.append(f"for {t} in [{els}]" + (f" if {R(cond)} % 2" if cond else ""))
        g = " ".join(parts)
        if br == "[]":
            return f"sum([{R(elt)} {g}])"
        if br == "()":
            return f"sum({R(elt)} {g})"
        if br == "{}":
            return f"sum({{{R(elt)} {g}}})"
        return f"sum({{{R(elt)}: {R(elt2)} {g}}}.values())"
    raise AssertionError(k)


def suite(stmts):
    return textwrap.indent("\n".join(S(s) for s in stmts) or "pass", "  ")


def S(s):
    k = s[0]
    if k == "r":
        return f"r.append({R(s[1])})"
    if k == "expr":
        return R(s[1])
    if k == "assign":
        return f"{s[1]} = {R(s[2])}"
    if k == "del":
        return f"del {s[1]}"
    if k == "return":
        return f"return {R(s[1])}"
    if k in ("global", "nonlocal"):
        return f"{k} {s[1]}"
    if k == "ifs":
        return f"if {R(s[1])} % 2:\n{suite(s[2])}" + (f"\nelse:\n{suite(s[3])}" if s[3] else "")
    if k == "for":
        return f"for {s[1]} in [{', '.join(map(R, s[2]))}]:\n{suite(s[3])}"
    if k == "def":
        ps = ", ".join(x if d is None else f"{x}={R(d)}" for x, d in s[2])
        return f"def {s[1]}({ps}):\n  tick()\n{suite(s[3])}"
    if k == "class":
        return f"class K:\n  q = {R(s[2])}\n  def m(self):\n    return {R(s[3])}\nt({s[1]}, K.q)\nt({s[1]}, K().m())"
    if k == "use":
        return f"r.append({s[1]})" if s[3] else f"r.append({s[1]}({', '.join(map(str, s[2]))}))"
    if k == "deco":
        _, kind, bs, name, params, body, style = s
        args = f"[{rb(bs, style)}]" if style < 4 else f"({rb(bs, 0)})"
        ps = ", ".join(p if name.startswith("h") or i == 0 else f"{p}=3" for i, p in enumerate(params))
        if not name.startswith("h") and not kind.startswith("b") and not params:
            ps = "_=0"  # functions of the pool are called with one argument
        return f"@{kind}{args}\ndef {name}({ps}):\n  tick()\n{suite(body)}"
    raise AssertionError(k)


# ---------------------------------------------------------------- reference interpreter
class Fuel(Exception):
    pass


class Unbound(Exception):
    pass


class Scope:
    """A view of a storage: the names visible at some point of the program."""
    def __init__(self, store, names, parent, declared=None):
        self.store, self.names, self.parent, self.declared = store, names, parent, declared or {}

    def find(self, x):
        s = self
        while s.parent is not None:
            if x in s.declared:
                return s.declared[x]
            if x in s.names:
                return s.store
            s = s.parent
        return s.store

    def get(self, x):
        st = self.find(x)
        if x not in st:
            raise Unbound(x)
        return st[x]

    def set(self, x, v):
        self.find(x)[x] = v
        return v


class Return(Exception):
    pass


class Interp:
    def __init__(self):
        self.trace = []
        self.fuel = 0
        self.glob = dict(GLOBALS)
        self.glob["f"] = lambda n: (self.tick(), (n + 11) % 1009)[1]
        self.glob["g"] = lambda n: (self.tick(), (2 * n) % 1009)[1]
        self.top = Scope(self.glob, set(), None)
        self.r = []

    def tick(self):
        self.fuel += 1
        if self.fuel > FUEL:
            raise Fuel

    def t(self, tag, v):
        self.trace.append((tag, v))
        return v

    def ev(self, e, sc):
        k = e[0]
        ev = self.ev
        if k == "num":
            return e[1]
        if k == "var":
            return sc.get(e[1])
        if k == "t":
            return self.t(e[1], ev(e[2], sc))
        if k == "add":
            a = ev(e[1], sc)
            return (a + ev(e[2], sc)) % 1009
        if k == "if":
            return ev(e[2], sc) if ev(e[1], sc) % 2 else ev(e[3], sc)
        if k == "or":
            return ev(e[1], sc) or ev(e[2], sc)
        if k == "and":
            return ev(e[1], sc) and ev(e[2], sc)
        if k == "set":
            v = ev(e[2], sc)
            st = sc.find(e[1])
            if getattr(st, "fixed", False) and e[1] not in st:
                raise Unbound(e[1])
            st[e[1]] = v
            return v
        if k == "call":
            f = ev(e[1], sc)
            return f(ev(e[2], sc))
        if k == "lam":
            return self.function(e[1], sc, lambda inner: ev(e[2], inner))
        if k == "do":
            return self.do(e[1], sc, e[2])
        if k == "let":
            inner = self.bind(e[1], e[2], sc)
            return ev(e[3][0], inner) if len(e[3]) == 1 else self.do(e[3], inner, False)
        if k == "sum":
            return self.comp(e, sc)
        raise AssertionError(k)

    def function(self, params, sc, run):
        names = [x for x, _ in params]
        defaults = {x: self.ev(d, sc) for x, d in params if d is not None}

        def fn(v):
            store = dict(defaults)
            store[names[0]] = v
            inner = Scope(store, set(names), sc)
            self.tick()
            return run(inner)
        return fn

    def do(self, items, sc, first):
        store = {}
        names = set()
        out = None
        for i, it in enumerate(items):
            cur = Scope(store, frozenset(names), sc)
            if it[0] == "local":
                v = store[it[1]] = self.ev(it[2], cur)
                names.add(it[1])
            elif it[0] == "delete":
                v = store.pop(it[1])
                names.discard(it[1])
            else:
                v = self.ev(it, cur)
            if i == 0 or not first:
                out = v
        return out

    def bind(self, kind, bs, sc):
        if kind.endswith("seq"):
            for x, e in bs:
                sc = Scope(_Fixed({x: self.ev(e, sc)}), {x}, sc)
            return sc
        if kind.endswith("rec"):
            inner = Scope(_Fixed(), {x for x, _ in bs}, sc)
            for x, e in bs:
                inner.store[x] = self.ev(e, inner)
            return inner
        return Scope(_Fixed({x: self.ev(e, sc) for x, e in bs}), {x for x, _ in bs}, sc)

    def comp(self, e, sc):
        _, br, elt, elt2, gens = e
        store = {}
        inner = Scope(store, {x for g in gens for x in g[1]}, sc)
        out = []

        def loop(i):
            if i == len(gens):
                k = self.ev(elt, inner)
                out.append((k, self.ev(elt2, inner)) if br == "{:}" else k)
                return
            shape, xs, its, cond = gens[i]
            isc = sc if i == 0 else inner
            vals = [[self.ev(x, isc) for x in it] for it in its]
            for v in vals:
                store.update(zip(xs, v))
                if cond is None or self.ev(cond, inner) % 2:
                    loop(i + 1)
        loop(0)
        return sum(dict(out).values()) if br == "{:}" else sum(set(out)) if br == "{}" else sum(out)

    # -- statements
    def exec_body(self, stmts, fs):
        try:
            self.suite(stmts, fs)
        except Return as r:
            return r.args[0]

    def suite(self, stmts, fs):
        """fs: the function state: [current view]"""
        for s in stmts:
            self.stmt(s, fs)

    def bindname(self, fs, x):
        sc = fs[0]
        if x not in sc.declared and x not in sc.names:
            fs[0] = Scope(sc.store, sc.names | {x}, sc.parent, sc.declared)

    def scan(self, stmts, fs):
        """Take into account the bindings made and deleted by statements that are not executed."""
        for s in stmts:
            k = s[0]
            if k in ("assign", "def"):
                self.bindname(fs, s[1])
            elif k == "deco":
                self.bindname(fs, s[3])
            elif k == "del":
                self.unbind(fs, s[1])
            elif k == "ifs":
                self.scan(s[2], fs)
                self.scan(s[3], fs)
            elif k == "for":
                self.bindname(fs, s[1])
                self.scan(s[3], fs)

    def unbind(self, fs, x):
        sc = fs[0]
        fs[0] = Scope(sc.store, sc.names - {x}, sc.parent, sc.declared)

    def assign(self, fs, x, v):
        sc = fs[0]
        (sc.declared.get(x) if x in sc.declared else sc.store)[x] = v
        self.bindname(fs, x)

    def stmt(self, s, fs):
        k = s[0]
        if k == "expr":
            self.ev(s[1], fs[0])
        elif k == "assign":
            self.assign(fs, s[1], self.ev(s[2], fs[0]))
        elif k == "del":
            if s[1] not in fs[0].store:
                raise Unbound(s[1])
            del fs[0].store[s[1]]
            self.unbind(fs, s[1])
        elif k == "return":
            raise Return(self.ev(s[1], fs[0]))
        elif k in ("global", "nonlocal"):
            pass
        elif k == "ifs":
            if self.ev(s[1], fs[0]) % 2:
                self.suite(s[2], fs)
                self.scan(s[3], fs)
            else:
                self.scan(s[2], fs)
                self.suite(s[3], fs)
        elif k == "for":
            vals = [self.ev(e, fs[0]) for e in s[2]]
            self.bindname(fs, s[1])
            start = fs[0]
            for v in vals:
                fs[0] = start
                fs[0].store[s[1]] = v
                self.suite(s[3], fs)
            fs[0] = start
            self.scan(s[3], fs)
        elif k == "def":
            _, name, params, body = s
            sc = fs[0]
            defaults = {x: self.ev(d, sc) for x, d in params if d is not None}
            self.bindname(fs, name)
            outer = fs[0]
            outer.store[name] = self.make(outer, [x for x, _ in params], defaults, body)
        elif k == "class":
            sc = fs[0]
            q = self.ev(s[2], sc)
            self.t(s[1], q)
            self.t(s[1], self.ev(s[3], sc))
        elif k == "deco":
            v = self.deco(s, fs[0], fs)
            self.bindname(fs, s[3])
            fs[0].store[s[3]] = v
        else:
            raise AssertionError(k)

    def declared(self, body, sc):
        out = {}
        for s in body:
            if s[0] == "global":
                out[s[1]] = self.glob
            elif s[0] == "nonlocal":
                w = sc
                while not (w.parent is not None and not isinstance(w.store, _Fixed) and s[1] in w.names):
                    w = w.parent
                out[s[1]] = w.store
        return out

    def make(self, sc, names, defaults, body, around=None):
        def fn(*vals):
            store = dict(defaults)
            store.update(zip(names, vals))
            self.tick()
            return self.exec_body(body, [Scope(store, frozenset(names), sc, self.declared(body, sc))])
        return fn

    def deco(self, s, sc, fs):
        _, kind, bs, name, params, body, _ = s
        inpool = not name.startswith("h")
        defaults = {p: 3 for p in params[1:]} if inpool else {}
        # the name of the function is visible inside
        view = sc
        if inpool and fs is not None:
            view = Scope(sc.store, sc.names | {name}, sc.parent, sc.declared)
        env = self.bind(kind, bs, sc)

        def fn(*vals):
            store = dict(defaults)
            store.update(zip(params, vals))
            self.tick()
            own = Scope(view.store, {name}, env) if inpool else env
            return self.exec_body(body, [Scope(store, frozenset(params), own, self.declared(body, env))])
        if kind.startswith("b"):
            return fn()
        return fn

    def run(self, prog):
        uses = {}
        for s in prog:
            if s[0] == "r":
                self.r.append(self.ev(s[1], self.top))
            elif s[0] == "deco":
                uses[s[3]] = self.deco(s, self.top, None)
            else:
                self.r.append(uses[s[1]] if s[3] else uses[s[1]](*s[2]))


class _Fixed(dict):
    fixed = True


def run(case):
    prog, _ = case
    it = Interp()
    want = None
    try:
        it.run(prog)
    except Fuel:
        want = "out of fuel"
    except Unbound:
        want = "unbound"
    src = MACROS + "\n".join(S(s) for s in prog)
    trace, r = [], []
    fuel = [0]

    def tick():
        fuel[0] += 1
        if fuel[0] > FUEL:
            raise Fuel

    def t(tag, v):
        trace.append((tag, v))
        return v
    ns = dict(GLOBALS, t=t, tick=tick, r=r, f=lambda n: (tick(), (n + 11) % 1009)[1], g=lambda n: (tick(), (2 * n) % 1009)[1])
    names = set(ns) | {s[3] for s in prog if s[0] == "deco"}
    got = None
    after = ns
    from vp.macro import run_module
    after, exc = run_module(src, ns)
    if isinstance(exc, Fuel):
        got = "out of fuel"
    elif isinstance(exc, (NameError, AttributeError)) and want:
        got = "unbound"
    elif exc is not None:
        require(False, f"raised {type(exc).__name__}: {exc}"[:300], src)
    eq(trace, it.trace, "trace of\n" + src + "\n")
    eq(got, want, "outcome of\n" + src + "\n")
    eq(r, it.r, "results of\n" + src + "\n")
    for x in GLOBALS:
        eq(after[x], it.glob[x], f"global {x} after\n" + src + "\n")
    extra = {x for x in after if x not in names and not x.startswith(("__", "_mcpyrate"))} - {"mcpyrate", "unpythonic"}
    require(not extra or want, "names leaked into the module", extra, src)


def nontrivial(case):
    f = case[1]
    return "shadowing" in f


# ---------------------------------------------------------------- unpythonic.syntax.simplelet
# The classical let: each form is checked against the lambda it stands for.

@st.composite
def simple(draw, depth=3):
    """-> (text with macros, text of the same in plain Python)"""
    k = draw(st.integers(0, 9)) if depth else draw(st.integers(0, 2))
    sub_ = lambda: draw(simple(depth - 1))
    if k <= 1:
        x = draw(st.sampled_from("abcd"))
        return x, x
    if k == 2:
        x = str(draw(st.integers(0, 9)))
        return x, x
    if k == 3:
        (m1, p1), (m2, p2) = sub_(), sub_()
        op = draw(st.sampled_from(["+", "-", "*", "and", "or"]))
        return f"({m1} {op} {m2})", f"({p1} {op} {p2})"
    if k == 4:
        (m1, p1), x = sub_(), draw(st.sampled_from("abcd"))
        m2, p2 = sub_()
        return f"(lambda {x}: {m1})({m2})", f"(lambda {x}: {p1})({p2})"
    if k == 5:
        (m1, p1), x = sub_(), draw(st.sampled_from("abcd"))
        return f"sum({m1} for {x} in range(3))", f"sum({p1} for {x} in range(3))"
    if k == 6:
        m1, p1 = sub_()
        return f"t({m1})", f"t({p1})"
    kind = draw(st.sampled_from(["let", "letseq"]))
    n = draw(st.integers(1, 3))
    names = draw(st.permutations("abcd"))[:n] if kind == "let" else draw(st.lists(st.sampled_from("abcd"), min_size=n, max_size=n))
    bs = [(x, sub_()) for x in names]
    mb, pb = sub_()
    m = f"{kind}[{', '.join(f'[{x}, {v}]' for x, (v, _) in bs)}][{mb}]"
    if kind == "let":
        return m, f"(lambda {', '.join(names)}: {pb})({', '.join(v for _, (_, v) in bs)})"
    for x, (_, v) in reversed(bs):
        pb = f"(lambda {x}: {pb})({v})"
    return m, pb


def run_simple(case):
    m, p = case
    out = []
    for src in (f"from unpythonic.syntax.simplelet import macros, let, letseq\nr = {m}\n", f"r = {p}\n"):
        log = []
        ns = dict(a=501, b=502, c=503, d=504, t=lambda x: log.append(x) or x)
        mod = run_macros(src, **ns)
        out.append((mod["r"], log))
    eq(out[0], out[1], f"value and order of evaluation of {m}")


SUITES = [
    Suite("simplelet", simple(), run_simple, quick=1500, shards=4, nontrivial=lambda c: c[0].count("let") > 1, labels=lambda c: [k for k in ("let[", "letseq[") if k in c[0]]),
    Suite("expressions", expressions(), run, quick=4000, shards=8, nontrivial=nontrivial, labels=lambda c: c[1]),
    Suite("functions", functions(), run, quick=4000, shards=8, nontrivial=nontrivial, labels=lambda c: c[1]),
]
