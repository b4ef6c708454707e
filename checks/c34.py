"""C34: lambda extensions keep function semantics, names and closures."""
import re

from hypothesis import strategies as st

from vp.core import Suite, eq, require
from vp.macro import run_module

RULE = ("cases are programs of nested functions, lambdas, let forms, classes, loops and comprehensions that reuse a few names, under random subsets of the blocks quicklambda, multilambda, envify and namedlambda; "
        "the oracle is the same program in plain Python, written at the same time, where every variable is a cell of its own, so that no name can be resolved wrongly; results, traces and function names are compared; "
        "non-trivial: the program uses a construct of an active block")
ASSUMPTIONS = ["a function name given to the result of a decorated lambda is decided for decorators that return the function or a wrapper, not for ones that return unrelated functions",
               "lambdas that suspend (yield, await) are excluded",
               "a walrus on a name that belongs to no environment follows Python and is used only as a naming form"]
HEAD = "from unpythonic.syntax import macros, quicklambda, multilambda, envify, namedlambda, fn, let, letseq, letrec, dlet, dletseq, blet, bletseq, do, local, delete, where\n"
POOL = ["x", "y", "z"]


class Var:
    def __init__(self, r, kind, sig=None):
        self.r = r        # reference text for reading it
        self.kind = kind  # formal, env, plain, func
        self.sig = sig


class Sig:
    """Parameters: (name, kind, has default); kind: p positional-only, a ordinary, s star, k keyword-only, d double star."""
    def __init__(self, params):
        self.params = params


class G:
    def __init__(self, draw, blocks):
        self.draw = draw
        self.blocks = blocks
        self.q = "quicklambda" in blocks
        self.m = "multilambda" in blocks
        self.e = "envify" in blocks
        self.nm = "namedlambda" in blocks
        self.k = 0
        self.budget = draw(st.integers(6, 45))
        self.feats = set()
        self.T = []   # lines of the program
        self.R = []   # lines of the reference
        self.under = None
        self.envassigned, self.rebound = set(), set()
        self.split = not self.nm   # a lambda is named by its line, so keep those statements on one line

    def n(self, k):
        return self.draw(st.integers(0, k - 1))

    def pick(self, xs):
        return xs[self.n(len(xs))]

    def new(self, p="c"):
        self.k += 1
        return f"{p}{self.k}"

    def here(self):
        return self.line0 + sum(1 + t.count("\n") for t in self.T)

    def loc(self):
        return f"<lambda at :{self.here()}>" if self.nm else "<lambda>"

    def named(self, name):
        return name if self.nm else "<lambda>"

    # ------------------------------------------------------------ expressions: -> (text, reference)
    def leaf(self, sc):
        names = [n for n, v in sorted(sc.items()) if v.kind != "func"]
        if self.under is not None and self.n(2):
            p = self.new("u")
            self.under.append(p)
            return "_", p
        if names and self.n(4):
            n = self.pick(names)
            return self.read(n, sc[n])
        c = str(self.n(10))
        return c, c

    def read(self, n, v):
        if v.kind == "star":
            return f"H({n})", f"H({v.r})"
        return n, v.r

    def expr(self, sc, d=3):
        self.budget -= 1
        if d <= 0 or self.budget <= 0:
            return self.leaf(sc)
        k = self.n(24)
        if k < 3:
            return self.leaf(sc)
        if k == 3:
            a, b = self.expr(sc, d - 1), self.expr(sc, d - 1)
            op = self.pick(["+", "-"])
            return f"({a[0]} {op} {b[0]})", f"({a[1]} {op} {b[1]})"
        if k == 4:
            t = self.new("")
            a = self.expr(sc, d - 1)
            return f"L({t}, {a[0]})", f"L({t}, {a[1]})"
        if k == 5:
            a, b, c = self.expr(sc, d - 1), self.expr(sc, d - 1), self.expr(sc, d - 1)
            return f"({a[0]} if {b[0]} else {c[0]})", f"({a[1]} if {b[1]} else {c[1]})"
        if k == 6:
            return self.letform(sc, d)
        if k in (7, 8):
            return self.assign(sc, d)
        if k == 9:
            return self.gen(sc, d)
        if k in (10, 11):
            return self.lamcall(sc, d)
        if k in (12, 13):
            return self.quick(sc, d)
        if k in (14, 15):
            return self.naming(sc, d)
        if k == 16:
            a, b = self.doform(sc, d, 2 + self.n(2))
            return f"do[{a}]", b
        if k == 17:
            fs = [n for n, v in sorted(sc.items()) if v.kind == "func"]
            if fs:
                f = self.pick(fs)
                a = self.args(sc, sc[f].sig, d)
                return f"{f}({a[0]})", f"{sc[f].r}({a[1]})"
        if k == 18:
            items = [(self.expr(sc, d - 1), self.expr(sc, d - 1)) for _ in range(1 + self.n(2))]
            return ("H({" + ", ".join(f"{a[0]}: {b[0]}" for a, b in items) + "})",
                    "H({" + ", ".join(f"{a[1]}: {b[1]}" for a, b in items) + "})")
        if k in (19, 20):
            # a lambda that is called several times and keeps state
            return self.counter(sc, d)
        items = [self.expr(sc, d - 1) for _ in range(1 + self.n(2))]
        return "H([" + ", ".join(a[0] for a in items) + "])", "H([" + ", ".join(a[1] for a in items) + "])"

    def settable(self, sc):
        return [n for n, v in sorted(sc.items()) if v.kind == "env" or (self.e and v.kind in ("formal", "star") and v.r not in self.rebound)]

    def assign(self, sc, d):
        names = self.settable(sc)
        if not names:
            return self.expr(sc, d - 1)
        n = self.pick(names)
        if sc[n].kind in ("formal", "star"):
            self.feats.add("assigned formal")
            self.envassigned.add(sc[n].r)
        a = self.expr(sc, d - 1)
        sep = self.pick(["<<", ":="])
        return f"({n} {sep} {a[0]})", f"S({sc[n].r[:-3]}, {a[1]})"

    def gen(self, sc, d):
        # In Python 3.12, the other comprehensions are inlined into the function, and a target that shadows a captured
        # variable then confuses Python itself; so only a generator expression may shadow names.
        form = self.n(4)
        pool = POOL if form == 0 else ["q1", "q2"]
        n, c = self.pick(pool), self.new("k")
        it = self.expr(sc, d - 1)  # drawn first, but written last; so no underscores in it
        if "_" in re.findall(r"\b_\b", it[0]):
            return it
        keep, self.under = self.under, None
        inner = {**sc, n: Var(c, "plain")}
        extra = ("", "")
        if self.n(3) == 0:
            # another loop; the iterable is evaluated inside the comprehension
            m, k = self.pick(pool), self.new("k")
            second = self.leaf({i: v for i, v in inner.items() if i != m or m == n})
            if m != n:
                inner = {**inner, m: Var(k, "plain")}
                extra = (f" for {m} in [{second[0]}, 4]", f" for {k} in [{second[1]}, 4]")
                self.feats.add("two loops")
        if self.n(2):
            c1 = self.leaf(inner)
            c2 = self.leaf(inner)
            op = self.pick(["<=", "!=", ">"])
            extra = (f"{extra[0]} if {c1[0]} {op} {c2[0]}", f"{extra[1]} if {c1[1]} {op} {c2[1]}")
            self.feats.add("comprehension condition")
        b = self.expr(inner, d - 1)
        if form == 3:
            key = self.leaf(inner)
        self.under = keep
        self.feats.add("comprehension")
        t, r = f"for {n} in ({it[0]}, 3){extra[0]}", f"for {c} in ({it[1]}, 3){extra[1]}"
        if form == 3:
            return f"H({{{key[0]}: {b[0]} {t}}})", f"H({{{key[1]}: {b[1]} {r}}})"
        p1, p2 = (("(", ")"), ("[", "]"), ("{", "}"))[form]
        return f"sum({p1}{b[0]} {t}{p2})", f"sum({p1}{b[1]} {r}{p2})"

    def letform(self, sc, d):
        names = []
        for n in POOL:
            if self.n(2):
                names.append(n)
        names = names or ["x"]
        form = self.n(4)
        keep = self.under
        if form == 3:
            self.under = None
        vals = [self.expr(sc, d - 1) for _ in names]
        cs = [self.new() for _ in names]
        inner = {**sc, **{n: Var(c + "[0]", "env") for n, c in zip(names, cs)}}
        if self.n(2):
            a, b = self.doform(inner, d, 1 + self.n(2))
            body = (f"[{a}]", b)
        else:
            body = self.expr(inner, d - 1)
            if body[0].startswith("["):
                body = (f"({body[0]})", body[1])
        self.under = keep
        sep = self.pick(["<<", ":="])
        bs = ", ".join(f"{n} {sep} {v[0]}" if form else f"({n}, {v[0]})" for n, v in zip(names, vals))
        r = f"(lambda {', '.join(cs)}: {body[1]})({', '.join('[' + v[1] + ']' for v in vals)})"
        if form in (0, 1):
            return f"let[{bs}][{body[0]}]", r
        if form == 2:
            return f"let[[{bs}] in {body[0]}]", r
        return f"let[{body[0]}, where[{bs}]]", r

    def doform(self, sc, d, k):
        """Items of a do, with locals."""
        sc, texts, refs, cells = dict(sc), [], [], []
        mine = {}
        for i in range(k):
            if i < k - 1 and len(texts) < k and self.n(2):
                if mine and self.n(4) == 0:
                    n = self.pick(sorted(mine))
                    old = mine.pop(n)
                    if old is None:
                        sc.pop(n)
                    else:
                        sc[n] = old
                    texts.append(f"delete[{n}]")
                    refs.append("None")
                    self.feats.add("delete")
                    continue
                n, c = self.pick(POOL), self.new()
                if n in mine:
                    continue
                a = self.expr(sc, d - 1)
                cells.append(c)
                mine[n] = sc.get(n)
                sc[n] = Var(c + "[0]", "env")
                texts.append(f"local[{n} {self.pick(['<<', ':='])} {a[0]}]")
                refs.append(f"S({c}, {a[1]})")
                self.feats.add("local")
                continue
            a = self.expr(sc, d - 1)
            texts.append(a[0])
            refs.append(a[1])
        while len(texts) < min(k, 2):
            texts.append("0")
            refs.append("0")
        text = ", ".join(texts)
        ref = f"({', '.join(refs)},)[-1]"
        if cells:
            ref = f"(lambda {', '.join(cells)}: {ref})({', '.join('[None]' for _ in cells)})"
        return text, ref

    def signature(self):
        ps, names = [], list(POOL)
        default = False
        for kind in "paskd":
            for _ in range(self.n(2) if kind in "sd" else self.n(3) if kind == "a" else self.n(4) // 3 + self.n(4) // 3):
                if not names:
                    break
                n = names.pop(self.n(len(names)))
                has = kind in "pak" and bool(self.n(2))
                if kind in "pa":
                    has = has or default
                    default = default or has
                ps.append((n, kind, has))
        return Sig(ps)

    def params(self, sc, sig, d):
        """-> parameter list texts and the text binding cells in the reference"""
        ts, rs, cells, seen = [], [], [], set()
        for i, (n, kind, has) in enumerate(sig.params):
            if kind == "k" and "s" not in seen and "k" not in seen:
                ts.append("*")
                rs.append("*")
            star = {"s": "*", "d": "**"}.get(kind, "")
            t = r = star + n
            if has:
                a = self.expr(sc, d - 1)
                t, r = f"{n}={a[0]}", f"{n}={a[1]}"
            ts.append(t)
            rs.append(r)
            seen.add(kind)
            if kind == "p" and not any(k == "p" for _, k, _ in sig.params[i + 1:]):
                ts.append("/")
                rs.append("/")
            cells.append((n, self.new(), kind))
        return ", ".join(ts), ", ".join(rs), cells

    def args(self, sc, sig, d):
        ts, rs, kws = [], [], []
        skipped = False
        for n, kind, has in sig.params:
            if kind in "pa":
                if has and self.n(2):
                    skipped = True
                    continue
                if skipped and kind == "p":
                    continue
                a = self.leaf(sc)
                if skipped or (kind == "a" and self.n(3) == 0):
                    skipped = True
                    kws.append((n, a))
                    continue
                ts.append(a[0])
                rs.append(a[1])
            elif kind == "k":
                if not has or self.n(2):
                    kws.append((n, self.leaf(sc)))
            elif kind == "s" and not skipped:
                for _ in range(self.n(3)):
                    a = self.leaf(sc)
                    ts.append(a[0])
                    rs.append(a[1])
            elif kind == "d":
                for _ in range(self.n(2)):
                    kws.append(("w", self.leaf(sc)))
        ts += [f"{n}={a[0]}" for n, a in kws]
        rs += [f"{n}={a[1]}" for n, a in kws]
        return ", ".join(ts), ", ".join(rs)

    def lam(self, sc, d, sig=None, body=None):
        """-> (text, reference, signature)"""
        sig = self.signature() if sig is None else sig
        ps, prs, cells = self.params(sc, sig, d)
        inner = {**sc, **{n: Var(c + "[0]", "star" if k in "sd" else "formal") for n, c, k in cells}}
        if body is not None:
            b = body(inner)
        elif self.n(3) == 0:
            if self.m:
                self.feats.add("multi")
                a, r = self.doform(inner, d, 1 + self.n(3))
                b = (f"[{a}]", r)
            else:
                a = self.expr(inner, d - 1)
                b = (f"[{a[0]}]", f"[{a[1]}]")
        elif self.n(8) == 0:
            a = self.expr(inner, d - 1)
            b = (f"[[{a[0]}, 5]]", f"[{a[1]}, 5]" if self.m else f"[[{a[1]}, 5]]")
        else:
            b = self.expr(inner, d - 1)
        t = f"lambda {ps}: {b[0]}" if ps else f"lambda: {b[0]}"
        r = f"(lambda {prs}: {self.wrap(cells, b[1])})"
        if cells:
            self.feats.add("formals")
        return t, r, sig

    def wrap(self, cells, body):
        if not cells:
            return body
        return f"(lambda {', '.join(c for _, c, _ in cells)}: {body})({', '.join('[' + n + ']' for n, _, _ in cells)})"

    def lamcall(self, sc, d):
        t, r, sig = self.lam(sc, d)
        a = self.args(sc, sig, d)
        return f"H(({t})({a[0]}))", f"H({r}({a[1]}))"

    def counter(self, sc, d):
        """let over lambda, or lambda over lambda; called several times"""
        if self.e and self.n(2):
            n = self.pick(POOL)
            t, r, _ = self.lam(sc, d, Sig([(n, "a", False)]), lambda inner: self.paren(self.lam(inner, d, Sig([]), lambda i2: self.assign_to(i2, n, d))[:2]))
            a = self.leaf(sc)
            self.feats.add("assigned formal")
            return f"twice(({t})({a[0]}))", f"twice({r}({a[1]}))"
        t, r, _ = self.lam(sc, d, Sig([]))
        return f"twice(0 or ({t}))", f"twice({r})"

    @staticmethod
    def paren(x):
        return f"({x[0]})", x[1]

    def assign_to(self, sc, n, d):
        a = self.expr(sc, d - 1)
        return f"({n} {self.pick(['<<', ':='])} ({n} + {a[0]}))", f"S({sc[n].r[:-3]}, ({sc[n].r} + {a[1]}))"

    def quick(self, sc, d):
        keep, self.under = self.under, []
        if self.q and self.m and self.n(2):
            a, r = self.doform(sc, d, 1 + self.n(3))
            b = (f"[{a}]", r)
            self.feats.add("quick multi")
        else:
            b = self.expr(sc, d - 1)
        us, self.under = self.under, keep
        self.feats.add("quick")
        args = [self.leaf(sc) for _ in us]
        body = b[0]
        if self.n(3) == 0 and "lambda" not in body and "\n" not in body and self.split:
            parts = re.split(r"(, | [-+] )", body)
            if len(parts) > 1:
                i = 1 + 2 * self.n(len(parts) // 2)
                body = "".join(parts[:i + 1]) + "\n" + "".join(parts[i + 1:])
                self.feats.add("several lines")
        t = f"fn[{body}]({', '.join(a[0] for a in args)})"
        return t, f"(lambda {', '.join(us)}: {b[1]})({', '.join(a[1] for a in args)})"

    # a lambda in a position that names it (or does not)
    def literal(self, sc, d):
        """-> (text, reference) of a function of no arguments"""
        k = self.n(4)
        if k == 0 and self.q:
            keep, self.under = self.under, []
            b = self.expr(sc, 0)
            us, self.under = self.under, keep
            if not us:
                self.feats.add("quick")
                return f"fn[{b[0]}]", f"(lambda: {b[1]})"
        if k == 1 and self.nm:
            t, r, _ = self.lam(sc, d, self.optional())
            return f"ident({t})", r
        if k == 2 and self.nm:
            t, r, _ = self.lam(sc, d, self.optional())
            return f"wrapper(wrapper({t}))", r
        t, r, _ = self.lam(sc, d, self.optional())
        return f"({t})" if self.n(2) else t, r

    def optional(self):
        return Sig([p for p in self.signature().params if p[1] in "sd" or p[2]])

    def naming(self, sc, d):
        self.feats.add("naming")
        k = self.n(9)
        f = self.pick(["f", "g", "x"])
        if k == 0:
            t, r = self.literal(sc, d)
            if self.n(4) == 0:
                # not named arguments, but the items of a literal dict
                return f"K(**{{'{f}': {t}}})", f"K(**{{'{f}': N({self.named(f)!r}, {r})}})"
            return f"K({f}={t})", f"K({f}=N({self.named(f)!r}, {r}))"
        if k == 1:
            items = []
            for _ in range(1 + self.n(2)):
                key = self.pick(['"f"', '"g h"', "1", "None", "('t', 1)", "f'q'", "b'f'"])
                t, r = self.literal(sc, d)
                name = self.named(eval(key)) if key in ('"f"', '"g h"') else self.loc()
                items.append((key, t, f"N({name!r}, {r})"))
            return ("D({" + ", ".join(f"{a}: {b}" for a, b, _ in items) + "})", "D({" + ", ".join(f"{a}: {c}" for a, _, c in items) + "})")
        if k == 2:
            t, r = self.literal(sc, d)
            form = self.pick(["let[{0} << {1}][K1(0, {0})]", "let[[{0} << {1}] in K1(0, {0})]", "let[(({0}), {1})][K1(0, {0})]", "let[K1(0, {0}), where[{0} << {1}]]",
                              "let[[{0} := {1}] in K1(0, {0})]", "letseq[{0} << {1}][K1(0, {0})]", "letrec[{0} << {1}][K1(0, {0})]", "letrec[K1(0, {0}), where[{0} := {1}]]"])
            return form.format("h", f"({t})"), f"K1(0, N({self.named('h')!r}, {r}))"
        if k == 3:
            t, r = self.literal(sc, d)
            return f"let[h << None][[h << ({t}), K1(0, h)]]", f"K1(0, N({self.named('h')!r}, {r}))"
        if k == 4:
            t, r, _ = self.lam(sc, d, self.optional())
            return f"K1(0, {t})", f"K1(0, N({self.loc()!r}, {r}))"
        if k == 5:
            t, r = self.literal(sc, d)
            c = self.new()
            return f"do[local[h << ({t})], K1(0, h)]", f"(lambda {c}: K1(0, {c}))(N({self.named('h')!r}, {r}))"
        if k == 6:
            # in the function position of a call with named arguments
            a, b = self.naming(sc, d - 1) if d > 0 else self.leaf(sc)
            t, r, _ = self.lam(sc, 0, self.optional())
            return f"(lambda w, h: ({a}, h))(w=1, h={t})[0]", f"(lambda w, h: ({b}, h))(w=1, h={r})[0]"
        if k == 7:
            # in a default
            a, b = self.naming(sc, d - 1) if d > 0 else self.leaf(sc)
            return f"K(h=lambda w={a}: w)", f"K(h=N({self.named('h')!r}, lambda w={b}: w))"
        t, r, _ = self.lam(sc, 0, self.optional())
        return f"K(h=lambda w={t}: K1(0, w))", f"K(h=N({self.named('h')!r}, lambda w=N({self.loc()!r}, {r}): K1(0, w)))"

    # ------------------------------------------------------------ statements
    # every name of a scope is one of: formal, local (a cell), nonlocal, global, or free
    def emit(self, ind, t, r=None):
        self.T.append("    " * ind + t)
        if r is not None:
            self.R.append("    " * ind + r)

    def ref(self, ind, r):
        self.R.append("    " * ind + r)

    def function(self, ind, sc, fname, outer, d, head=None):
        """A def statement. `outer`: names that can be declared nonlocal -> their Var."""
        sig = self.signature()
        head = sc if head is None else head
        ps, prs, cells = self.params(head, sig, 1)
        deco = self.n(6) == 0
        if deco:
            a = self.expr(head, 1)
            self.emit(ind, f"@dec({a[0]})", f"@dec({a[1]})")
        self.emit(ind, f"def {fname}({ps}):", f"def {fname}({prs}):")
        doc = self.n(4) == 0
        if doc:
            self.emit(ind + 1, '"""The doc."""', '"""The doc."""')
        formals = {n: Var(c + "[0]", "star" if k in "sd" else "formal") for n, c, k in cells}
        for n, c, _ in cells:
            self.ref(ind + 1, f"{c} = [{n}]")
        if cells:
            self.feats.add("formals")
        local, declared = {}, {}
        for n in POOL:
            if n in formals:
                continue
            k = self.n(5)
            if k == 0 and n in outer:
                self.emit(ind + 1, f"nonlocal {n}")
                declared[n] = outer[n]
                self.feats.add("nonlocal")
            elif k == 1:
                self.emit(ind + 1, f"global {n}")
                declared[n] = Var(f"G{n}[0]", "global")
                self.feats.add("global")
            elif k == 2:
                c = self.new()
                self.ref(ind + 1, f"{c} = [None]")
                local[n] = Var(c + "[0]", "plain")
                if n in sc:
                    self.feats.add("shadowing local")
        scope = {n: v for n, v in sc.items() if n not in local}
        scope.update(formals)
        # a variable of the surrounding function, not assigned yet, can be assigned here, but not yet read
        scope.update({n: v for n, v in declared.items() if v.kind == "global" or (n in sc and sc[n].r == v.r)})
        for n, v in declared.items():
            if n not in scope or scope[n].r != v.r:
                scope.pop(n, None)
        own = {**formals, **declared, **local}
        visible = {n: v for n, v in {**outer, **formals, **local}.items() if n not in declared or declared[n].kind != "global"}
        self.suite(ind + 1, scope, own, visible, d)
        for n in local:
            if n not in scope:
                self.emit(ind + 1, f"{n} = 0", f"{local[n].r} = 0")
                scope[n] = local[n]
        a = self.expr(scope, 2)
        self.emit(ind + 1, f"return {a[0]}", f"return {a[1]}")
        return sig

    def suite(self, ind, scope, own, outer, d):
        """Statements. scope: readable names (updated); own: names assignable here."""
        def writable(v):
            return v.kind in ("formal", "star", "plain", "global")
        for _ in range(1 + self.n(4)):
            self.budget -= 1
            k = self.n(15) if self.budget > 0 else 0
            names = [n for n, v in sorted(own.items()) if writable(v)]
            if k <= 1 and names:
                n = self.pick(names)
                a = self.expr(scope, 2)
                self.emit(ind, f"{n} = {a[0]}", f"{own[n].r} = {a[1]}")
                scope[n] = own[n]
            elif k == 2 and names:
                n = self.pick(names)
                if n not in scope or own[n].kind == "star":
                    continue
                a = self.expr(scope, 2)
                self.emit(ind, f"{n} += {a[0]}", f"{own[n].r} += {a[1]}")
            elif k == 3 and names:
                n = self.pick(names)
                a = self.expr(scope, 1)
                self.emit(ind, f"w, *{n} = [1, {a[0]}, 2]", f"w, *{own[n].r} = [1, {a[1]}, 2]")
                a = self.expr({m: v for m, v in scope.items() if m != n}, 1)
                self.emit(ind, f"{n} = {a[0]}", f"{own[n].r} = {a[1]}")
                scope[n] = own[n]
            elif k == 4 and names:
                n = self.pick(names)
                a = self.expr(scope, 1)
                self.emit(ind, f"for {n} in [2, {a[0]}]:", f"for {own[n].r} in [2, {a[1]}]:")
                scope[n] = own[n]
                b = self.expr(scope, 2)
                self.emit(ind + 1, f"out({b[0]})", f"out({b[1]})")
            elif k == 5 and names:
                n = self.pick(names)
                if n in scope and own[n].kind == "formal":
                    self.emit(ind, f"del {n}", f"{own[n].r} = None")
                    a = self.expr({m: v for m, v in scope.items() if m != n}, 1)
                    self.emit(ind, f"{n} = {a[0]}", f"{own[n].r} = {a[1]}")
                    self.feats.add("del")
            elif k in (6, 7) and d > 0:
                f = self.new("f")
                sig = self.function(ind, scope, f, outer, d - 1)
                scope[f] = Var(f, "func", sig)
                if self.n(3) == 0:
                    self.emit(ind, f"out({f}.__doc__)", f"out({f}.__doc__)")
                if self.n(2):
                    a = self.args(scope, sig, 1)
                    self.emit(ind, f"out({f}({a[0]}))", f"out({f}({a[1]}))")
            elif k == 8 and d > 0:
                self.klass(ind, scope, outer, d - 1)
            elif k == 9 and self.n(2) and names:
                # a name bound by something that is not an assignment
                n = self.pick(names)
                v = own[n]
                # a formal that is rebound by a def, import or except (anywhere) remains a local variable
                if v.kind == "global" or v.r in self.envassigned:
                    continue
                self.rebound.add(v.r)
                form = self.n(3)
                if form == 1:
                    self.emit(ind, f"import math as {n}", f"import math as w; {v.r} = w")
                elif form == 2:
                    self.emit(ind, "try:", "try:")
                a = self.expr({m: u for m, u in scope.items() if m != n}, 1)
                if form == 0:
                    self.emit(ind, f"def {n}(): return {a[0]}")
                    self.ref(ind, f"{v.r} = lambda: {a[1]}")
                    self.emit(ind, f"out({n}())", f"out({v.r}())")
                elif form == 1:
                    self.emit(ind, f"out({n}.floor({a[0]}))", f"out({v.r}.floor({a[1]}))")
                else:
                    self.emit(ind + 1, f"raise Boom({a[0]})", f"raise Boom({a[1]})")
                    self.emit(ind, f"except Boom as {n}:", "except Boom as w:")
                    self.ref(ind + 1, f"{v.r} = w")
                    self.emit(ind + 1, f"out({n}.args)", f"out({v.r}.args)")
                a = self.expr({m: u for m, u in scope.items() if m != n}, 1)
                self.emit(ind, f"{n} = {a[0]}", f"{v.r} = {a[1]}")
                scope[n] = Var(v.r, "plain")
                own[n] = Var(v.r, "plain")
                self.feats.add("other binding")
            elif k == 10:
                h = self.new("h")
                t, r = self.literal(scope, 2)
                form = self.n(3)
                self.emit(ind, f"if {h} := {t}: pass" if form == 0 and "lambda" not in t.split("(")[0] else f"if ({h} := {t}): pass" if form == 1 else f"{h} = {t}", f"{h} = N({self.named(h)!r}, {r})")
                self.emit(ind, f"out(K1(0, {h}))", f"out(K1(0, {h}))")
                self.feats.add("naming")
            elif k == 11 and self.n(2):
                self.decorated(ind, scope)
            elif k == 12 and names and self.e:
                n = self.pick(names)
                if own[n].kind == "formal" and n in scope and own[n].r not in self.rebound:
                    self.envassigned.add(own[n].r)
                    a = self.expr(scope, 2)
                    self.emit(ind, f"{n} << {a[0]}", f"{own[n].r} = {a[1]}")
                    self.feats.add("assigned formal")
            else:
                a = self.expr(scope, 2)
                self.emit(ind, f"out({a[0]})", f"out({a[1]})")

    def decorated(self, ind, sc):
        """let over def"""
        form = self.pick(["dlet", "dletseq", "blet", "bletseq"])
        t, r = self.literal(sc, 1)
        f = self.new("f")
        self.emit(ind, f"@{form}(h << ({t}))")
        c = self.new()
        self.ref(ind, f"{c} = N({self.named('h')!r}, {r})")
        self.emit(ind, f"def {f}():", f"def {f}():")
        self.emit(ind + 1, "out(K1(0, h))", f"out(K1(0, {c}))")
        t, r, _ = self.lam(sc, 1, self.optional())
        self.emit(ind + 1, f"v = {t}", f"v = N({self.named('v')!r}, {r})")
        self.emit(ind + 1, "return K1(0, v)", "return K1(0, v)")
        self.emit(ind, f"out({f})" if form[0] == "b" else f"out({f}())", f"out({f}())")
        self.feats.add("naming")

    def klass(self, ind, scope, outer, d):
        c = self.new("C")
        self.emit(ind, f"class {c}:")
        attrs, inner = [], dict(scope)
        stored = set()
        for n in POOL:
            if self.n(3) == 0:
                stored.add(n)
        for n in stored:
            inner.pop(n, None)
        inner = {m: v for m, v in inner.items() if m in POOL}
        for n in sorted(stored):
            a = self.expr(inner, 1)
            k = self.new("k")
            self.emit(ind + 1, f"{n} = {a[0]}")
            self.ref(ind, f"{k} = {a[1]}")
            # visible in the class body only, and not in nested functions: so read it directly
            self.emit(ind + 1, f"out({n})")
            self.ref(ind, f"out({k})")
            attrs.append((n, k))
        f = self.new("f")
        sig = self.function(ind + 1, scope, f, outer, d, inner)
        line = next(i for i in range(len(self.R) - 1, -1, -1) if re.match(rf"\s*def {f}\(", self.R[i]))
        start = line - 1 if self.R[line - 1].lstrip().startswith("@dec") and self.R[line - 1].startswith("    " * (ind + 1) + "@") else line
        for i in range(start, len(self.R)):
            self.R[i] = self.R[i][4:]
        self.ref(ind, f"{c} = type('C', (), dict({', '.join(f'{n}={k}' for n, k in attrs)}))")
        self.emit(ind, f"out([getattr({c}, n, None) for n in ('x', 'y', 'z')])", f"out([getattr({c}, n, None) for n in ('x', 'y', 'z')])")
        self.feats.add("class")
        if self.n(4):
            a = self.args(scope, sig, 1)
            self.emit(ind, f"out({c}.__dict__['{f}']({a[0]}))", f"out({f}({a[1]}))")
            self.feats.add("method call")

    def program(self, extra):
        self.line0 = HEAD.count("\n") + 2 + extra
        sc = {n: Var(f"G{n}[0]", "global") for n in POOL}
        k = 1 + self.n(2)
        for _ in range(k):
            if self.n(2):
                a = self.expr(sc, 3)
                self.emit(1, f"out({a[0]})", f"out({a[1]})")
            else:
                f = self.new("f")
                sig = self.function(1, sc, f, {}, 2)
                a = self.args({}, sig, 1)
                self.emit(1, f"out({f}({a[0]}))", f"out({f}({a[1]}))")
        return self.T, self.R


BLOCKS = ["quicklambda", "multilambda", "envify", "namedlambda"]


@st.composite
def programs(draw):
    blocks = [b for b in BLOCKS if draw(st.integers(0, 2))] or [draw(st.sampled_from(BLOCKS))]
    g = G(draw, blocks)
    nested = draw(st.booleans())
    T, R = g.program(len(blocks) - 1 if nested else 0)
    return (tuple(blocks), nested, "\n".join(T), "\n".join(R), tuple(sorted(g.feats)))


class Boom(Exception):
    pass


class Work(Exception):
    pass


def world():
    log = []
    fuel = [20000]

    def note(x):
        fuel[0] -= 1
        if fuel[0] < 0:
            raise Work
        log.append(x)

    def H(v):
        if isinstance(v, int):
            return v
        if isinstance(v, (tuple, list)):
            return (7 * len(v) + sum((i + 2) * H(x) for i, x in enumerate(v))) % 1009
        if isinstance(v, dict):
            return H([(H(a), H(b)) for a, b in v.items()]) + 1
        if v is None:
            return 11
        if isinstance(v, str):
            return 13
        raise TypeError(f"a {type(v).__name__}")

    def L(k, v):
        note((k, v))
        return v

    def S(c, v):
        c[0] = v
        return v

    def nm(f):
        return re.sub(r"<lambda at .*:(\d+)>", r"<lambda at :\1>", f.__name__)

    def N(name, f):
        f.__name__ = name
        return f

    def K(**kw):
        assert len(kw) == 1
        r = 0
        for k, f in kw.items():
            note((k, nm(f)))
            r = H(f())
        return r

    def K1(a, f):
        note(("name", nm(f)))
        return H(f())

    def D(d):
        for k, f in d.items():
            note((k, nm(f)))
        return sum(H(f()) for f in d.values())

    def ident(f):
        return f

    def wrapper(f):
        import functools

        @functools.wraps(f)
        def g(*a, **k):
            return f(*a, **k)
        return g

    def twice(f):
        return H([H(f()), H(f())])

    def dec(v):
        note(("dec", v))
        return ident

    names = dict(H=H, L=L, S=S, N=N, K=K, K1=K1, D=D, ident=ident, wrapper=wrapper, twice=twice, dec=dec, out=lambda v: note(("out", v)), Boom=Boom)
    return names, log


def assemble(blocks, nested, text):
    if not nested:
        return HEAD + f"with {', '.join(blocks)}:\n" + text + "\n"
    src = HEAD + "".join("    " * i + f"with {b}:\n" for i, b in enumerate(blocks))
    return src + "\n".join("    " * (len(blocks) - 1) + line for line in text.split("\n")) + "\n"


def run_programs(case):
    blocks, nested, text, ref, _ = case
    names, wlog = world()
    for n, v in zip(POOL, (101, 102, 103)):
        names[f"G{n}"] = [v]
    try:
        exec(compile("if 1:\n" + ref, "<reference>", "exec"), names)
    except Work:
        return
    src = assemble(blocks, nested, text)
    names, glog = world()
    names.update(zip(POOL, (101, 102, 103)))
    ns, exc = run_module(src, names)
    require(exc is None, f"raised {exc!r}\n", src)
    eq(glog, wlog, f"trace of\n{src}\n(plain equivalent:\n{ref}\n)")


def nontrivial(case):
    blocks, _, _, _, feats = case
    return bool(set(feats) & {"quick"}) or ("multilambda" in blocks and "multi" in feats) or ("envify" in blocks and "formals" in feats) or ("namedlambda" in blocks and "naming" in feats)


def labels(case):
    return list(case[0]) + list(case[4])


SUITES = [
    Suite("programs", programs(), run_programs, quick=2500, nontrivial=nontrivial, labels=labels),
]
