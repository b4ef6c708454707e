"""C35: convenience syntax macros mean their documented expansion."""
import ast
import re

from hypothesis import strategies as st

from checks import c34
from vp.core import Suite, eq, require
from vp.macro import run_macros, run_module

RULE = ("cases are programs over aif, cond, let_syntax and abbrev (expressions, templates, statement blocks), prefix notation with quotes, autoref blocks on changing objects, dbg and nb, nested in each other and in let, do and lambdas; "
        "the oracle is the same program in plain Python, written at the same time with every construct spelled out (each variable a cell of its own, each abbreviation substituted by hand, each name lookup a call); "
        "the traces of evaluations, and results, are compared; non-trivial: the program uses one of the constructs")
ASSUMPTIONS = ["let_syntax has no hygiene, so names bound in an abbreviation are chosen not to clash with names used at its use sites",
               "names in class bodies inside an autoref block, and starred items in prefix tuples, are excluded (documented or structural limits)"]
HEAD = "from unpythonic.syntax import macros, aif, it, cond, let_syntax, abbrev, expr, block, prefix, q, u, kw, autoref, dbg, nb, let, letseq, letrec, dlet, blet, do, do0, local, delete, where\n"
POOL = ["x", "y", "z"]
Var = c34.Var


class G:
    def __init__(self, draw, prefix=False):
        self.draw = draw
        self.prefix = prefix
        self.k = 0
        self.budget = draw(st.integers(6, 45))
        self.feats = set()
        self.T, self.R = [], []
        self.line0 = HEAD.count("\n") + 1
        self.ql = 0
        self.fresh = 0       # inside an abbreviation: names are unique
        self.subst = 0       # inside the body of a let_syntax: source text of dbg differs
        self.noit = 0
        self.abbrevs = []    # (name, number of formals or None, render(args) -> reference text)

    def n(self, k):
        return self.draw(st.integers(0, k - 1))

    def pick(self, xs):
        return xs[self.n(len(xs))]

    def new(self, p="c"):
        self.k += 1
        return f"{p}{self.k}"

    def binder(self):
        return self.new("b") if self.fresh else self.pick(POOL)

    def sep(self):
        return self.pick(["<<", ":="])

    # ------------------------------------------------------------ calls and tuples
    def style(self):
        """How the coming call is written. As a prefix tuple, it leaves any quotes, for its parts, too."""
        if self.prefix and self.n(3):
            ops = ["u"] * self.ql if self.n(4) or self.ql == 0 else ["q"] + ["u"] * (self.ql + 1)
            ql, self.ql = self.ql, 0
            return ops, ql
        return None

    def call(self, style, f, rf, args, kws=()):
        """f, rf: texts of the operator"""
        rs = [a[1] for a in args] + [f"{k}={a[1]}" for k, a in kws]
        if style:
            ops, self.ql = style
            self.feats.add("prefix")
            items = ops + [f] + [a[0] for a in args]
            if kws:
                self.feats.add("kw")
                if self.n(3) == 0:  # the rightmost wins
                    items.append(f"kw({kws[0][0]}=boom())")
                if len(kws) > 1 and self.n(2):
                    items += [f"kw({k}={a[0]})" for k, a in kws]
                else:
                    items.append("kw(" + ", ".join(f"{k}={a[0]}" for k, a in kws) + ")")
            t = "(" + ", ".join(items) + ("," if len(items) == 1 else "") + ")"
        else:
            t = f"{f}(" + ", ".join([a[0] for a in args] + [f"{k}={a[0]}" for k, a in kws]) + ")"
        return t, f"{rf}({', '.join(rs)})"

    def tup(self, sc, d):
        """A tuple as data. -> through H, to have a number"""
        if not self.prefix:
            items = [self.expr(sc, d - 1) for _ in range(self.n(3))]
            text = ", ".join(a[0] for a in items) + ("," if len(items) == 1 else "")
        else:
            more = 1 if self.ql == 0 else self.n(2)
            ql, self.ql = self.ql, self.ql + more
            items = []
            for _ in range(self.n(3)):
                items.append(self.expr(sc, d - 1))
            self.ql = ql
            if items:
                texts = ["q"] * more + [a[0] for a in items]
                text = ", ".join(texts) + ("," if len(texts) == 1 else "")
                self.feats.add("quote")
            else:
                text = ""
        r = ", ".join(a[1] for a in items) + ("," if len(items) == 1 else "")
        t = f"({text})"
        return f"H({t})", f"H(({r}))"

    def sub(self, t):
        """Text t as the whole of a subscript: there a tuple means several macro arguments."""
        if self.prefix and t.startswith("("):
            return f"0 or {t}"
        return t

    # ------------------------------------------------------------ expressions
    def leaf(self, sc):
        names = sorted(sc)
        if self.noit and "it" in names:
            names.remove("it")
        if names and self.n(4):
            n = self.pick(names)
            return n, sc[n].r
        ab = [a for a in self.abbrevs if a[1] is None]
        if ab and self.n(2):
            return self.use(self.pick(ab), sc, 0)
        c = str(self.n(6))
        return c, c

    def use(self, a, sc, d):
        name, formals, render = a
        self.feats.add("abbreviation used")
        if formals is None:
            return name, render([])
        ql, self.ql = self.ql, 0
        self.ql = ql
        args = [self.expr(sc, d - 1) for _ in range(formals)]
        r = render([x[1] for x in args])
        if self.n(2):
            if formals == 1:
                return f"{name}[{self.sub(args[0][0])}]", r
            return f"{name}[{', '.join(x[0] for x in args)}]", r
        return f"{name}({', '.join(x[0] for x in args)})", r

    def expr(self, sc, d=3):
        self.budget -= 1
        if d <= 0 or self.budget <= 0:
            return self.leaf(sc)
        k = self.n(24)
        if k < 2:
            return self.leaf(sc)
        if k == 2:
            a, b = self.expr(sc, d - 1), self.expr(sc, d - 1)
            op = self.pick(["+", "-"])
            return f"({a[0]} {op} {b[0]})", f"({a[1]} {op} {b[1]})"
        if k in (3, 4, 5):
            t, style = self.new(""), self.style()
            a = self.expr(sc, d - 1)
            return self.call(style, "L", "L", [(t, t), a])
        if k == 6:
            style = self.style()
            a, b = self.expr(sc, d - 1), self.expr(sc, d - 1)
            if self.n(2):
                return self.call(style, "M", "M", [a, b])
            return self.call(style, "M", "M", [a], [("y", b)] + ([("z", self.expr(sc, d - 1))] if self.n(2) else []))
        if k == 7:
            a, b, c = self.expr(sc, d - 1), self.expr(sc, d - 1), self.expr(sc, d - 1)
            return f"({a[0]} if {b[0]} else {c[0]})", f"({a[1]} if {b[1]} else {c[1]})"
        if k in (8, 9, 10):
            if self.noit:
                return self.condform(sc, d)
            return self.aifform(sc, d)
        if k in (11, 12):
            return self.condform(sc, d)
        if k == 13:
            return self.letform(sc, d)
        if k == 14:
            names = [n for n, v in sorted(sc.items()) if v.kind == "env" and n != "it"]
            if names:
                n = self.pick(names)
                a = self.expr(sc, d - 1)
                return f"({n} {self.sep()} {a[0]})", f"S({sc[n].r[:-3]}, {a[1]})"
            return self.expr(sc, d - 1)
        if k == 15:
            n, c, style = self.binder(), self.new(), self.style()
            b = self.expr({**sc, n: Var(c, "plain")}, d - 1)
            a = self.expr(sc, d - 1)
            return self.call(style, f"(lambda {n}: {b[0]})", f"(lambda {c}: {b[1]})", [a])
        if k == 16:
            a, r = self.doform(sc, d, 2 + self.n(2))
            return f"do[{a}]", r
        if k in (17, 18):
            return self.tup(sc, d)
        if k == 19:
            return self.debug(sc, d)
        if k in (20, 21):
            return self.syntaxform(sc, d)
        ab = [a for a in self.abbrevs if a[1] is not None]
        if ab:
            return self.use(self.pick(ab), sc, d)
        return self.leaf(sc)

    def part(self, sc, d):
        """A part of aif or cond: an expression, or several in brackets."""
        k = self.n(6)
        if k == 0:
            a, r = self.doform(sc, d, 1 + self.n(3))
            self.feats.add("do part")
            return f"[{a}]", r
        if k == 1:
            items = [self.expr(sc, d - 1) for _ in range(self.n(3))]
            return "[[" + ", ".join(a[0] for a in items) + "]]", "[" + ", ".join(a[1] for a in items) + "]"
        return self.expr(sc, d - 1)

    def aifform(self, sc, d):
        if self.n(4) == 0:
            a, r = self.doform(sc, d, 1 + self.n(3))
            a = (f"[{a}]", r)
            self.feats.add("do part")
        else:
            a = self.expr(sc, d - 1)
        c = self.new()
        inner = {**sc, "it": Var(f"{c}[0]", "it")}
        b, o = self.part(inner, d), self.part(inner, d)
        self.feats.add("aif")
        return f"H(aif[{a[0]}, {b[0]}, {o[0]}])", f"H((lambda {c}: {b[1]} if {c}[0] else {o[1]})([{a[1]}]))"

    def condform(self, sc, d):
        k = self.n(3)
        parts = [self.part(sc, d) for _ in range(2 * k + 3)]
        self.feats.add("cond")
        r = parts[-1][1]
        for i in range(len(parts) - 3, -1, -2):
            r = f"({parts[i + 1][1]} if {parts[i][1]} else {r})"
        return f"H(cond[{', '.join(a[0] for a in parts)}])", f"H({r})"

    def letform(self, sc, d):
        names = []
        for n in POOL:
            if self.n(2):
                names.append(n)
        names = [self.new("b") for _ in names] if self.fresh else names
        names = names or [self.binder()]
        form = self.n(4)
        vals = [self.expr(sc, d - 1) for _ in names]
        cs = [self.new() for _ in names]
        inner = {**sc, **{n: Var(c + "[0]", "env") for n, c in zip(names, cs)}}
        if self.n(2):
            a, b = self.doform(inner, d, 1 + self.n(2))
            body = (f"[{a}]", b)
        else:
            body = self.expr(inner, d - 1)
        sep = self.sep()
        bs = ", ".join(f"{n} {sep} {v[0]}" if form else f"({n}, {v[0]})" for n, v in zip(names, vals))
        r = f"(lambda {', '.join(cs)}: {body[1]})({', '.join('[' + v[1] + ']' for v in vals)})"
        if form in (0, 1):
            return f"let[{bs}][{self.sub(body[0])}]", r
        if form == 2:
            return f"let[[{bs}] in {body[0]}]", r
        return f"let[{body[0]}, where[{bs}]]", r

    def doform(self, sc, d, k):
        sc, texts, refs, cells, mine = dict(sc), [], [], [], {}
        for i in range(k):
            if i < k - 1 and self.n(2):
                if mine and self.n(4) == 0:
                    n = self.pick(sorted(mine))
                    old = mine.pop(n)
                    if old is None:
                        sc.pop(n)
                    else:
                        sc[n] = old
                    texts.append(f"delete[{n}]")
                    refs.append("None")
                    continue
                n, c = self.binder(), self.new()
                if n in mine:
                    continue
                a = self.expr(sc, d - 1)
                cells.append(c)
                mine[n] = sc.get(n)
                sc[n] = Var(c + "[0]", "env")
                texts.append(f"local[{n} {self.sep()} {a[0]}]")
                refs.append(f"S({c}, {a[1]})")
                continue
            a = self.expr(sc, d - 1)
            texts.append(a[0])
            refs.append(a[1])
        while len(texts) < min(k, 2):
            texts.append("0")
            refs.append("0")
        ref = f"({', '.join(refs)},)[-1]"
        if cells:
            ref = f"(lambda {', '.join(cells)}: {ref})({', '.join('[None]' for _ in cells)})"
        return ", ".join(texts), ref

    def debug(self, sc, d):
        before = set(self.feats)
        self.feats = set()
        t, r = self.expr(sc, d - 1)
        pure = not self.feats and "[" not in t and not self.subst and not self.fresh and not sc and not self.prefix
        self.feats |= before | {"dbg"}
        text = ast.unparse(ast.parse(t, mode="eval")) if pure else None
        line = self.line0 + len(self.T) if pure else None
        return f"dbg[{self.sub(t)}]", f"DB({text!r}, {r}, {line})"

    # ------------------------------------------------------------ abbreviations
    def abbreviation(self, d, later):
        """One definition -> (name, formals, text of the right-hand side, render). `later`: abbreviations it may use."""
        keep = self.abbrevs, self.ql
        self.abbrevs = later
        self.fresh += 1
        self.noit += 1
        formals = None
        if self.n(2):
            formals = sorted({self.pick(["x", "y", "z", "p"]) for _ in range(1 + self.n(2))})
            if self.fresh > 1:  # inside another abbreviation, whose formals would be substituted here
                formals = [self.new("p") for _ in formals]
            if self.n(2):
                formals = formals[::-1]
            marks = {f: self.new("PH_") + "_" for f in formals}
            # the formals are not variables: nothing can shadow them here, since binders are fresh
            t, r = self.expr({f: Var(f"({m})", "formal") for f, m in marks.items()}, d)

            def render(args, r=r, marks=marks, formals=formals):
                m = {marks[f]: a for f, a in zip(formals, args)}
                return "(" + re.sub(r"PH_\d+_", lambda x: m.get(x.group(0), x.group(0)), r) + ")"
        else:
            t, r = self.expr({}, d)

            def render(args, r=r):
                return f"({r})"
        self.noit -= 1
        self.fresh -= 1
        self.abbrevs, self.ql = keep
        return self.new("n"), formals, t, render

    def syntaxform(self, sc, d):
        """let_syntax or abbrev, expression form"""
        ql, self.ql = self.ql, self.ql
        kind = self.pick(["let_syntax", "abbrev"])
        bare, temp = [], []
        count = 1 + self.n(2)
        # definitions are made last to first: each may use the ones that are substituted after it
        defs = []
        outer = self.abbrevs
        for _ in range(count):
            a = self.abbreviation(d - 1, outer + bare + (temp if False else []))
            if a[1] is None:
                bare.insert(0, a[:2] + (a[3],))
                defs.insert(0, a)
            else:
                defs.append(a)
        temps = [a for a in defs if a[1] is not None]
        # templates may also use later templates: one more, in front
        if temps and self.n(2):
            a = self.abbreviation(d - 1, outer + bare + [(x[0], len(x[1]), x[3]) for x in temps])
            if a[1] is not None:
                defs.insert(0, a)
        # bare names keep their order among themselves, and so do the templates
        keep = self.abbrevs
        self.abbrevs = outer + [(a[0], None if a[1] is None else len(a[1]), a[3]) for a in defs]
        self.subst += 1
        if self.n(3) == 0:
            t, r = self.doform(sc, d, 1 + self.n(2))
            t = f"[{t}]"
        else:
            t, r = self.expr(sc, d - 1)
        self.subst -= 1
        self.abbrevs = keep
        self.ql = ql
        sep = self.sep()
        style = self.pick(["[]", "()"]) if sep == "<<" else None

        def lhs(a):
            if a[1] is None:
                return a[0]
            return f"{a[0]}[{', '.join(a[1])}]" if style == "[]" else f"{a[0]}({', '.join(a[1])})"
        if any(a[1] is not None for a in defs):
            sep = "<<"  # walrus takes bare names only
            style = style or "[]"
        bs = ", ".join(f"{lhs(a)} {sep} {a[2]}" for a in defs)
        self.feats.add(kind)
        form = self.n(3)
        if form == 0:
            return f"{kind}[{bs}][{self.sub(t)}]", r
        if form == 1:
            return f"{kind}[[{bs}] in {t}]", r
        return f"{kind}[{t}, where[{bs}]]", r

    # ------------------------------------------------------------ statements
    def emit(self, ind, t, r=None):
        self.T.append("    " * ind + t)
        if r is not None:
            self.R.append("    " * ind + r)

    def stmts(self, ind, sc, count, d=3):
        for _ in range(count):
            k = self.n(8) if self.budget > 0 else 0
            if k < 4:
                style = self.style()
                a = self.expr(sc, d)
                t, r = self.call(style, "out", "out", [a])
                self.emit(ind, t, r)
            elif k == 4:
                f, n, c = self.new("f"), self.pick(POOL), self.new()
                self.emit(ind, f"def {f}({n}):", f"def {f}({c}):")
                a = self.expr({**sc, n: Var(c, "plain")}, d)
                self.emit(ind + 1, f"return {a[0]}", f"return {a[1]}")
                style = self.style()
                a = self.expr(sc, 1)
                t, r = self.call(style, f, f, [a])
                self.emit(ind, f"out({t})", f"out({r})")
            elif k == 5:
                f, n, c = self.new("f"), self.pick(POOL), self.new()
                a = self.expr(sc, d - 1)
                deco = self.pick(["dlet", "blet"])
                self.emit(ind, f"@{deco}({n} << {a[0]})", f"{c} = [{a[1]}]")
                self.emit(ind, f"def {f}():", f"def {f}():")
                a = self.expr({**sc, n: Var(c + "[0]", "env")}, d - 1)
                self.emit(ind + 1, f"return {a[0]}", f"return {a[1]}")
                self.emit(ind, f"out({f})" if deco == "blet" else f"out({f}())", f"out({f}())")
            elif k == 6 and self.prefix:
                a, b = self.expr(sc, 1), self.expr(sc, 1)
                v = self.new("v")
                self.ql, ql = 1, self.ql
                a, b = self.expr(sc, 1), self.expr(sc, 1)
                self.ql = ql
                self.emit(ind, f"{v}, {v}_ = (q, {a[0]}, {b[0]})", f"{v}, {v}_ = ({a[1]}, {b[1]})")
                self.emit(ind, f"out({v} + {v}_)", f"out({v} + {v}_)")
                self.feats.add("quote")
            else:
                self.emit(ind, "if 1:", "if 1:")
                a = self.expr(sc, d)
                self.emit(ind + 1, f"out({a[0]})", f"out({a[1]})")

    def blocks(self, ind, sc, d=2):
        """with let_syntax: ..."""
        kind = self.pick(["let_syntax", "abbrev"])
        self.emit(ind, f"with {kind}:", "if 1:")
        self.feats.add(kind + " block")
        keep = self.abbrevs
        stmts = []
        self.emit(ind + 1, "out(0)", "out(0)")
        for _ in range(2 + self.n(4)):
            k = self.n(6)
            if k < 2:
                # `with expr` definitions come in order: each may use the earlier ones
                name, formals, t, render = self.abbreviation(d, list(self.abbrevs))
                if formals is not None and any(a[1] is None and a[0] in formals for a in self.abbrevs):
                    continue
                self.emit(ind + 1, f"with expr as {name}:" if formals is None else f"with expr[{', '.join(formals)}] as {name}:")
                self.emit(ind + 2, t)
                self.abbrevs = self.abbrevs + [(name, None if formals is None else len(formals), render)]
            elif k == 2:
                # a block of statements
                name = self.new("s")
                formals = None
                self.fresh += 1
                self.noit += 1
                sub = {}
                if self.n(2):
                    formals = ["p", "x"][:1 + self.n(2)]
                    marks = {f: self.new("PH_") + "_" for f in formals}
                    sub = {f: Var(f"({m})", "formal") for f, m in marks.items()}
                self.emit(ind + 1, f"with block as {name}:" if formals is None else f"with block[{', '.join(formals)}] as {name}:")
                refs = []
                for _ in range(1 + self.n(2)):
                    a = self.expr(sub, d)
                    self.emit(ind + 2, f"out({a[0]})")
                    refs.append(f"out({a[1]})")
                if self.n(2):
                    self.emit(ind + 2, "if count[0] > 2:")
                    a = self.expr(sub, 1)
                    self.emit(ind + 3, f"out({a[0]})")
                    refs.append(f"count[0] > 2 and out({a[1]})")
                self.noit -= 1
                self.fresh -= 1
                stmts.append((name, formals, marks if formals else {}, refs))
            elif k == 3 and stmts:
                name, formals, marks, refs = self.pick(stmts)
                if formals is None:
                    self.emit(ind + 1, name)
                    m = {}
                else:
                    args = [self.expr(sc, 1) for _ in formals]
                    m = {marks[f]: a[1] for f, a in zip(formals, args)}
                    self.emit(ind + 1, f"{name}[{', '.join(a[0] for a in args)}]" if self.n(2) else f"{name}({', '.join(a[0] for a in args)})")
                for r in refs:
                    self.R.append("    " * (ind + 1) + re.sub(r"PH_\d+_", lambda x: m.get(x.group(0), x.group(0)), r))
                self.feats.add("block used")
            else:
                self.subst += 1
                self.stmts(ind + 1, sc, 1, d)
                self.subst -= 1
        self.abbrevs = keep

    def program(self):
        ind = 0
        if self.prefix:
            self.emit(0, "with prefix:", "if 1:")
            ind = 1
        for _ in range(1 + self.n(2)):
            if self.n(3) == 0 and not self.prefix:
                self.blocks(ind, {})
            else:
                self.stmts(ind, {}, 1 + self.n(2))


@st.composite
def programs(draw, prefix):
    g = G(draw, prefix)
    g.program()
    return ("\n".join(g.T), "\n".join(g.R), tuple(sorted(g.feats)))


class Work(Exception):
    pass


class DB:
    def __init__(self, text, value, line):
        self.text, self.value, self.line = text, value, line

    def __eq__(self, other):
        return self.value == other.value and (None in (self.text, other.text) or (self.text == other.text and self.line == other.line))

    def __repr__(self):
        return f"DB({self.text!r}, {self.value!r}, {self.line!r})"


def world():
    log = []
    fuel = [20000]

    def note(x):
        fuel[0] -= 1
        if fuel[0] < 0:
            raise Work
        log.append(x)

    def H(v):
        if isinstance(v, int):
            return v
        if isinstance(v, (tuple, list)):
            return (7 * len(v) + sum((i + 2) * H(x) for i, x in enumerate(v)) + (isinstance(v, tuple))) % 1009
        if v is None:
            return 11
        raise TypeError(f"a {type(v).__name__}")

    def L(k, v):
        note((k, H(v)))
        return H(v)

    def M(x, y=1, z=2):
        note(("M", H(x), H(y), H(z)))
        return (H(x) * 3 + H(y) * 5 - H(z)) % 1009

    def S(c, v):
        c[0] = v
        return v

    def dbg(text, v, line):
        note(DB(text, v, line))
        return v

    def boom():
        raise ValueError("evaluated")

    def out(v):
        note(("out", v))

    names = dict(H=H, L=L, S=S, M=M, DB=dbg, out=out, boom=boom, count=[3])
    return names, log


def printer(log_dbg):
    def p(k, v, *, filename, lineno):
        try:
            k = ast.unparse(ast.parse(k, mode="eval"))
        except SyntaxError:  # macros in it
            pass
        return log_dbg(k, v, lineno)
    return p


def run_programs(case):
    from unpythonic import dyn
    text, ref, _ = case
    names, wlog = world()
    try:
        exec(compile(ref, "<reference>", "exec"), names)
    except Work:
        return
    src = HEAD + text + "\n"
    names, glog = world()
    with dyn.let(dbgprint_expr=printer(names["DB"])):
        ns, exc = run_module(src, names)
    require(exc is None, f"raised {exc!r}\n", src)
    eq(glog, wlog, f"trace of\n{src}\n(plain equivalent:\n{ref}\n)")


def nontrivial(case):
    return bool(set(case[2]) & {"aif", "cond", "let_syntax", "abbrev", "let_syntax block", "abbrev block", "prefix", "quote", "dbg"})


def labels(case):
    return list(case[2])


# ---------------------------------------------------------------- autoref
AHEAD = "from unpythonic.syntax import macros, autoref, autocurry, let, letseq, do, local, aif, it, dlet, where\n"
NUMS = ["a", "b", "c", "len", "e"]
OBJS = ["p", "r"]


class A:
    """Programs with autoref blocks. In the reference, each lookup of a name is a call of `res`."""
    def __init__(self, draw):
        self.draw = draw
        self.k = 0
        self.budget = draw(st.integers(6, 40))
        self.T, self.R = [], []
        self.refs = []       # variables in the reference that hold the objects, innermost first
        self.named = set()   # as-names: never looked up
        self.feats = set()
        self.funcs = 0

    n, pick, new, emit = G.n, G.pick, G.new, G.emit

    def name(self, n, sc):
        if n in sc:
            return n, sc[n]
        if not self.refs or n in self.named:
            return n, n
        return n, f"res(({', '.join(self.refs)},), {n!r}, lambda: {n})"

    def obj(self, sc):
        n = self.pick(OBJS + sorted(self.named))
        return self.name(n, sc)

    def L(self, t, r, sc):
        k = self.new("")
        return f"L({k}, {t})", f"{self.name('L', sc)[1]}({k}, {r})"

    def expr(self, sc, d=3):
        self.budget -= 1
        if d <= 0 or self.budget <= 0:
            k = 0
        else:
            k = self.n(16)
        if k < 3:
            if self.n(6) == 0:
                c = str(self.n(6))
                return c, c
            return self.name(self.pick(NUMS), sc)
        if k == 3:
            a, b = self.expr(sc, d - 1), self.expr(sc, d - 1)
            return f"({a[0]} - {b[0]})", f"({a[1]} - {b[1]})"
        if k in (4, 5):
            return self.L(*self.expr(sc, d - 1), sc)
        if k == 6:
            o = self.obj(sc)
            a = self.pick(["a", "b"])
            self.feats.add("attribute")
            return f"G({o[0]}.p, {a!r})", f"{self.name('G', sc)[1]}({o[1]}.p, {a!r})"
        if k == 7:
            s, i = self.name("s", sc), self.expr(sc, d - 1)
            self.feats.add("subscript")
            return f"s[{i[0]} % 3]", f"{s[1]}[{i[1]} % 3]"
        if k == 8:
            n = self.pick(NUMS)
            b = self.expr({k: v for k, v in sc.items() if k != n}, d - 1)
            a = self.expr(sc, d - 1)
            self.feats.add("lambda")
            return f"(lambda {n}: {b[0]})({a[0]})", f"(lambda {n}: {b[1]})({a[1]})"
        if k == 9:
            names = self.pick([["a"], ["b", "e"], ["c"], ["len"]])
            vals = [self.expr(sc, d - 1) for _ in names]
            cs = [self.new("k") for _ in names]
            b = self.expr({**sc, **{n: c + "[0]" for n, c in zip(names, cs)}}, d - 1)
            bs = ", ".join(f"{n} << {v[0]}" for n, v in zip(names, vals))
            self.feats.add("let")
            return (f"let[{bs}][{b[0]}]" if self.n(2) else f"let[{b[0]}, where[{bs}]]",
                    f"(lambda {', '.join(cs)}: {b[1]})({', '.join('[' + v[1] + ']' for v in vals)})")
        if k == 10:
            n, c = self.pick(NUMS), self.new("k")
            a = self.expr(sc, d - 1)
            inner = {**sc, n: c + "[0]"}
            b = self.expr(inner, d - 1)
            b2 = self.expr(inner, d - 1)
            self.feats.add("do")
            return f"do[local[{n} << {a[0]}], {b[0]}, {b2[0]}]", f"(lambda {c}: ({b[1]}, {b2[1]})[-1])([{a[1]}])"
        if k == 11:
            n = self.pick(NUMS)
            s = self.name("s", sc)
            b = self.expr({k: v for k, v in sc.items() if k != n}, d - 1)
            f = self.name("sum", sc)
            return f"sum({b[0]} for {n} in s)", f"{f[1]}({b[1]} for {n} in {s[1]})"
        if k == 12:
            a, b, c = self.expr(sc, d - 1), self.expr(sc, d - 1), self.expr(sc, d - 1)
            return f"({a[0]} if {b[0]} else {c[0]})", f"({a[1]} if {b[1]} else {c[1]})"
        if k == 13:
            a = self.expr(sc, d - 1)
            return f"int(f'{{{a[0]}}}')", f"{self.name('int', sc)[1]}(f'{{{a[1]}}}')"
        if k == 14:
            # changes while the expression is evaluated
            o, v, n = self.obj(sc), self.expr(sc, d - 1), self.pick(NUMS)
            self.feats.add("change")
            return f"put({o[0]}, {n!r}, {v[0]})", f"{self.name('put', sc)[1]}({o[1]}, {n!r}, {v[1]})"
        o, n = self.obj(sc), self.pick(NUMS + ["s", "p"])
        self.feats.add("change")
        return f"rem({o[0]}, {n!r})", f"{self.name('rem', sc)[1]}({o[1]}, {n!r})"

    def out(self, ind, a, sc):
        self.emit(ind, f"out({a[0]})", f"{self.name('out', sc)[1]}({a[1]})")

    def stmts(self, ind, count, d=3, sc=None):
        sc = sc or {}
        for _ in range(count):
            k = self.n(12) if self.budget > 0 else 0
            if k < 3:
                self.out(ind, self.expr(sc, d), sc)
            elif k in (3, 4, 5, 6) and len(self.refs) < 3 and not self.funcs:
                o = self.obj(sc)
                v = self.new("o") if self.n(2) else None
                h = v or self.new("h")
                self.emit(ind, f"with autoref[L(0, {o[0]})]" + (f" as {v}" if v else "") + ":", f"{h} = {self.name('L', sc)[1]}(0, {o[1]})")
                self.R.append("    " * ind + "if 1:")
                if v:
                    self.named.add(v)
                    self.feats.add("as")
                self.refs.insert(0, h)
                self.feats.add(f"depth {len(self.refs)}")
                self.stmts(ind + 1, 1 + self.n(4), d)
                self.refs.pop(0)
            elif k == 7:
                n = self.pick(NUMS)
                a = self.expr(sc, d)
                if self.n(3):
                    self.emit(ind, f"{n} = {a[0]}", f"{n} = {a[1]}")
                else:  # reads the variable natively, so it must be one
                    self.emit(ind, f"{n} = 1; {n} += {a[0]}", f"{n} = 1; {n} += {a[1]}")
                self.feats.add("store")
            elif k == 8:
                n = self.pick(NUMS)
                s = self.name("s", sc)
                self.emit(ind, f"for {n} in s:", f"for {n} in {s[1]}:")
                self.out(ind + 1, self.expr(sc, d - 1), sc)
                self.feats.add("store")
            elif k == 9 and not self.funcs:
                f, n, m = self.new("f"), self.pick(NUMS), self.pick(NUMS)
                a = self.expr(sc, d - 1)
                self.emit(ind, f"def {f}({n}, *, kk={a[0]}):", f"def {f}({n}, *, kk={a[1]}):")
                self.funcs += 1
                a = self.expr(sc, 1)
                c = self.name("kk", sc)
                # every variable used must be bound before use: the locals are those two
                self.emit(ind + 1, f"{m} = L(0, kk - 1)", f"{m} = {self.name('L', sc)[1]}(0, {c[1]} - 1)")
                a = self.expr(sc, d - 1)
                self.emit(ind + 1, f"return {a[0]}", f"return {a[1]}")
                self.funcs -= 1
                a = self.expr(sc, 1)
                self.out(ind, (f"{f}({a[0]})", f"{self.name(f, sc)[1]}({a[1]})"), sc)
                self.feats.add("def")
            elif k == 10:
                n, c = self.pick(NUMS), self.new("k")
                f = self.new("f")
                a = self.expr(sc, d - 1)
                self.emit(ind, f"@dlet({n} << {a[0]})", f"{c} = [{a[1]}]")
                self.emit(ind, f"def {f}():", f"def {f}():")
                a = self.expr({**sc, n: c + "[0]"}, d - 1)
                self.emit(ind + 1, f"return {a[0]}", f"return {a[1]}")
                self.out(ind, (f"{f}()", f"{self.name(f, sc)[1]}()"), sc)
                self.feats.add("dlet")
            else:
                n = self.pick(NUMS)
                a = self.expr(sc, 1)
                if self.n(2):
                    self.emit(ind, f"try: raise E({a[0]})", f"try: raise {self.name('E', sc)[1]}({a[1]})")
                    self.emit(ind, f"except E as ex: {n} = ex.args[0]", f"except {self.name('E', sc)[1]} as ex: {n} = {self.name('ex', sc)[1]}.args[0]")
                else:
                    self.emit(ind, f"tmp = {a[0]}; del tmp", f"tmp = {a[1]}; del tmp")
                    self.out(ind, (f"({n} := {a[0]})", f"({n} := {a[1]})"), sc)
                self.feats.add("store")

    def program(self):
        ind = 0
        infunc = self.n(2)
        if infunc:
            self.emit(0, "def main(a, s, p):", "def main(a, s, p):")
            ind = 1
            for n in ["b", "c", "e"]:
                if self.n(2):
                    self.emit(1, f"{n} = 7", f"{n} = 7")
                else:
                    self.emit(1, f"global {n}", f"global {n}")
            self.emit(1, "global len", "global len")
        v = self.new("h")
        o = self.pick(OBJS)
        curry = self.n(4) == 0
        self.emit(ind, f"with autoref[{o}]{', autocurry' if curry else ''}:")
        if curry:
            self.feats.add("autocurry")
        self.R.append("    " * ind + f"{v} = {o}")
        self.R.append("    " * ind + "if 1:")
        self.refs = [v]
        self.stmts(ind + 1, 2 + self.n(3))
        self.refs = []
        if infunc:
            self.emit(0, "main(3, [4, 5, 6], r)", "main(3, [4, 5, 6], r)")


ATTRS = NUMS + ["s", "p", "L", "out", "sum", "kk", "r", "int"]


@st.composite
def autorefs(draw):
    g = A(draw)
    g.program()
    objs = tuple((draw(st.integers(0, 3)), tuple(sorted(draw(st.sets(st.sampled_from(ATTRS), max_size=6))))) for _ in range(4))
    return ("\n".join(g.T), "\n".join(g.R), objs, tuple(sorted(g.feats)))


class Obj:
    def __init__(self, k, kind):
        self._k, self._kind = k, kind

    def __eq__(self, other):
        return isinstance(other, Obj) and self._k == other._k

    __hash__ = None


class Slow(Obj):
    """Attributes that are not in the instance"""
    def __getattr__(self, n):
        if n == "b" and self._kind == 2:
            return 70 + self._k
        raise AttributeError(n)

    @property
    def c(self):
        if self._kind == 3:
            return 80
        raise AttributeError("c")


def aworld(spec):
    log = []
    fuel = [5000]
    objs = [(Slow if kind > 1 else Obj)(i, kind) for i, (kind, _) in enumerate(spec)]

    def note(x):
        fuel[0] -= 1
        if fuel[0] < 0:
            raise Work
        log.append(x)

    def makeL(k0):
        def L(k, v):
            note((k0, k, v if not isinstance(v, Obj) else ("obj", v._k)))
            return v
        return L

    def makeout(k0):
        def out(v):
            note(("out", k0, v if not isinstance(v, Obj) else ("obj", v._k)))
        return out

    def G_(o, n):
        return getattr(o, n, 9)

    def put(o, n, v):
        try:
            setattr(o, n, v)
        except AttributeError:
            note("read-only")
        return v

    def rem(o, n):
        had = n in vars(o)
        if had:
            delattr(o, n)
        return int(had)

    class E(Exception):
        pass

    def res(os, n, default):
        for o in os:
            if hasattr(o, n):
                return getattr(o, n)
        return default()

    for i, (kind, attrs) in enumerate(spec):
        for j, n in enumerate(attrs):
            v = (makeL(i) if n == "L" else makeout(i) if n == "out" else (lambda xs: 1000 + sum(xs)) if n == "sum" else (lambda s: 5) if n == "int"
                 else [i, 8, 3] if n == "s" else objs[(i + j + 1) % len(objs)] if n in ("p", "r") else 10 * i + j)
            if not (n == "c" and isinstance(objs[i], Slow)):
                setattr(objs[i], n, v)
    for o in objs:
        o.__dict__.setdefault("p", objs[0])
    return dict(L=makeL(None), out=makeout(None), G=G_, put=put, rem=rem, E=E, res=res, p=objs[1], r=objs[2], s=[1, 2, 3], a=1, b=2, c=3, e=4, len=5), log


def run_autoref(case):
    text, ref, spec, _ = case
    names, wlog = aworld(spec)
    wexc = gexc = None
    try:
        exec(compile(ref, "<reference>", "exec"), names)
    except Work:
        return
    except Exception as exc:
        wexc = exc
    names, glog = aworld(spec)
    src = AHEAD + text + "\n"
    ns, gexc = run_module(src, names)
    what = f"of\n{src}\nwith objects {spec} (plain equivalent:\n{ref}\n)"
    eq(glog, wlog, f"trace {what}")
    eq(type(gexc), type(wexc), f"exception {gexc!r} instead of {wexc!r} {what}")


def nontrivial_autoref(case):
    return len(case[3]) > 1


# ---------------------------------------------------------------- dbg blocks and nb
DHEAD = "from unpythonic.syntax import macros, dbg, nb, let, do, local\n"


class D:
    """Programs with debug blocks or notebooks"""
    def __init__(self, draw):
        self.draw = draw
        self.k = 0
        self.budget = draw(st.integers(4, 30))
        self.T, self.R = [], []
        self.pname = None
        self.feats = set()

    n, pick, new, emit = G.n, G.pick, G.new, G.emit

    def line(self):
        return DHEAD.count("\n") + len(self.T) + 1

    def expr(self, d=2, under=False):
        self.budget -= 1
        k = self.n(9) if d > 0 and self.budget > 0 else self.n(2)
        if k == 0:
            c = str(self.n(9))
            return c, c
        if k == 1:
            v = self.pick(["x", "y"] + (["_"] if under else []))
            return v, v
        if k in (2, 3):
            t = self.new("")
            a = self.expr(d - 1, under)
            return f"L({t}, {a[0]})", f"L({t}, {a[1]})"
        if k == 4:
            a, b = self.expr(d - 1, under), self.expr(d - 1, under)
            return f"T({a[0]}, {b[0]})", f"T({a[1]}, {b[1]})"
        if k == 5 and self.pname:
            return self.printing(d)
        if k == 6:
            a = self.expr(d - 1, under)
            return f"(lambda z: {a[0]})(0)", f"(lambda z: {a[1]})(0)"
        if k == 7:
            a = self.expr(d - 1, under)
            return f"N({a[0]})", f"N({a[1]})"
        a, b, c = self.expr(d - 1, under), self.expr(d - 1, under), self.expr(d - 1, under)
        return f"({a[0]} if {b[0]} else {c[0]})", f"({a[1]} if {b[1]} else {c[1]})"

    def printing(self, d):
        """A call to the print function"""
        line = self.line()
        args, texts, vals = [], [], []
        for _ in range(self.n(4)):
            a = self.expr(d - 1)
            if self.n(6) == 0:
                self.feats.add("starred")
                args.append(f"*xs")
                texts.append("*xs")
                vals.append("(*xs,)")
            else:
                args.append(a[0])
                texts.append(a[0])
                vals.append(a[1])
        kws = []
        k = self.n(8)
        if k == 0:
            kws = [("sep", repr(self.pick(["", "\n", "; ", " | \n"])))]
        elif k == 1:
            kws = [("sep", "None")]
        elif k == 2:
            a = self.expr(d - 1)
            kws = [("end", repr("!\n"))]
        self.feats.add("print")
        kt = [f"{a}={b}" for a, b in kws]
        c = lambda xs: ", ".join(xs) + ("," if len(xs) == 1 else "")
        return (f"{self.pname}({', '.join(args + kt)})",
                f"P_{self.pname}(({c([repr(t) for t in texts])}), ({c(vals)}), {line}{''.join(', ' + x for x in kt)})")

    def stmt(self, ind, nb):
        k = self.n(7)
        if k < 3 and self.pname:
            self.emit(ind, *self.printing(2))
        elif k < 4:
            v = self.pick(["x", "y"])
            a = self.expr(2, nb)
            self.emit(ind, f"{v} = {a[0]}", f"{v} = {a[1]}")
        elif k == 4:
            self.emit(ind, "for y in [1, 2]:", "for y in [1, 2]:")
            a = self.expr(2, nb)
            self.emit(ind + 1, a[0], a[1])
        elif k == 5:
            f = self.new("f")
            self.emit(ind, f"def {f}(x):", f"def {f}(x):")
            a = self.expr(2)
            self.emit(ind + 1, a[0], a[1])
            a = self.expr(2)
            self.emit(ind + 1, f"return {a[0]}", f"return {a[1]}")
            a = self.expr(1)
            self.emit(ind, f"y = {f}({a[0]})", f"y = {f}({a[1]})")
        else:
            a = self.expr(2, nb)
            if nb == 1:
                self.top(ind, a)
            else:
                self.emit(ind, a[0], a[1])

    def top(self, ind, a):
        """An expression at the top level of a notebook"""
        self.emit(ind, a[0], f"_ = {a[1]}")
        self.R.append("    " * ind + f"if _ is not None: {self.nbp}(_)")
        self.feats.add("nb")

    def program(self):
        ind = 0
        if self.n(3) == 0:
            self.emit(0, "def main(x, y):", "def main(x, y):")
            ind = 1
            main = True
        else:
            main = False
        for _ in range(1 + self.n(2)):
            if self.n(2):
                custom = self.n(2)
                self.pname = "prt" if custom else "print"
                self.emit(ind, "with dbg[prt]:" if custom else "with dbg:", "if 1:")
                for _ in range(1 + self.n(4)):
                    self.stmt(ind + 1, 0)
                if custom:
                    self.emit(ind + 1, "print(x)", "print(x)")
                self.pname = None
            else:
                custom = self.n(3)
                self.nbp = ["print", "np", "pick(np)"][custom]
                self.emit(ind, "with nb:" if not custom else f"with nb[{self.nbp}]:", "if 1:")
                self.R.append("    " * (ind + 1) + "_ = None")
                for _ in range(1 + self.n(5)):
                    if self.n(2):
                        self.top(ind + 1, self.expr(2, True))
                    else:
                        self.stmt(ind + 1, 1)
        if main:
            self.emit(0, "main(1, 2)", "main(1, 2)")


@st.composite
def debugs(draw):
    g = D(draw)
    g.program()
    return ("\n".join(g.T), "\n".join(g.R), tuple(sorted(g.feats)))


def norm(t):
    return t if t.startswith("*") else ast.unparse(ast.parse(t, mode="eval"))


def run_debug(case):
    import io
    from contextlib import redirect_stdout
    from mcpyrate import unparse
    text, ref, _ = case

    def dworld():
        log = []

        def L(k, v):
            log.append((k, v))
            return v

        def T(a, b):
            return (a, b)

        def N(v):
            log.append(("N", v))
            return None

        def prt(ks, vs, *, filename, lineno, **kws):
            log.append(("prt", tuple(norm(k) for k in ks), vs, lineno, kws))
            return len(ks)

        def P_prt(ks, vs, lineno, **kws):
            return prt(ks, vs, filename=None, lineno=lineno, **kws)

        def P_print(ks, vs, lineno, sep=", ", **kws):
            if sep is None:
                sep = ", "
            header = f"[HERE:{lineno}] "
            items = [f"{k if k[0] == '*' else unparse(ast.parse(k, mode='eval').body)}: {v}" for k, v in zip(ks, vs)]
            print(sep.join(header + i for i in items) if "\n" in sep else header + sep.join(items), **kws)

        def np(v):
            log.append(("nb", v))

        def pick(f):
            return f
        return dict(L=L, T=T, N=N, prt=prt, P_prt=P_prt, P_print=P_print, np=np, pick=pick, x=1, y=2, xs=[7, 8, 9]), log

    names, wlog = dworld()
    wout = io.StringIO()
    with redirect_stdout(wout):
        exec(compile(ref, "<reference>", "exec"), names)
    names, glog = dworld()
    src = DHEAD + text + "\n"
    gout = io.StringIO()
    with redirect_stdout(gout):
        ns, exc = run_module(src, names)
    what = f"of\n{src}\n(plain equivalent:\n{ref}\n)"
    require(exc is None, f"raised {exc!r} {what}")
    eq(glog, wlog, f"trace {what}")
    eq(re.sub(r"(?m)\[[^\]:]*:(\d+)\] ", r"[HERE:\1] ", gout.getvalue()), wout.getvalue(), f"output {what}")


# ---------------------------------------------------------------- nested local abbreviations
# Pure expressions, so that substituting a template is the same as calling a function. Environments map a name to (formals, expression, environment).

class N:
    def __init__(self, draw):
        self.draw = draw
        self.budget = draw(st.integers(4, 30))
        self.fresh = self.below = 0
        self.feats = set()

    def pick(self, *xs):
        return self.draw(st.sampled_from(xs))

    def expr(self, vis, formals, depth=3, avoid=()):
        """vis: {name: number of formals}"""
        d = self.draw
        self.budget -= 1
        k = d(st.integers(0, 9)) if depth and self.budget > 0 else d(st.integers(0, 3))
        usable = sorted(n for n in vis if n not in avoid)
        if k == 0:
            return ("int", d(st.integers(0, 9)))
        if k == 1:
            return ("var", self.pick("g0", "g1"))
        if k == 2 and formals:
            return ("formal", self.pick(*formals))
        if (k in (3, 4, 5, 6) or k <= 2) and usable:
            n = self.pick(*usable)
            if depth or not vis[n]:
                return ("use", n, [self.expr(vis, formals, depth - 1, avoid) for _ in range(vis[n])])
            return ("int", d(st.integers(0, 9)))
        if k in (7, 3, 4):
            return ("op", self.pick("+", "-", "*"), self.expr(vis, formals, depth - 1, avoid), self.expr(vis, formals, depth - 1, avoid))
        if k == 8:
            return ("lambda", self.expr(vis, formals, depth - 1, avoid))
        if depth and self.budget > 0:
            macro = self.pick("let_syntax", "let_syntax", "abbrev")
            # an abbrev expands outside in: no shadowing below it
            names = d(st.permutations(["A", "B", "C", "D"]))[:d(st.integers(1, 2))]
            self.below += macro == "abbrev"
            if self.below:
                names = [f"E{self.fresh + i}" for i in range(len(names))]
                self.fresh += len(names)
            self.feats.add(macro)
            if any(n in vis for n in names):
                self.feats.add("shadowing expression")
            bs = []
            for n in names:
                fs = ["x", "y"][:d(st.integers(0, 2))]
                if self.below:
                    fs = [f"{x}{n}" for x in fs]
                bs.append((n, fs, self.expr(vis, [*formals, *fs], depth - 1, (*avoid, *names))))
            body = self.expr({**vis, **{n: len(fs) for n, fs, _ in bs}}, formals, depth - 1, avoid)
            self.below -= macro == "abbrev"
            return ("syn", macro, bs, body)
        return ("int", d(st.integers(0, 9)))

    def body(self, vis, formals, depth, top):
        """the statements of a `with let_syntax`"""
        d = self.draw
        out = []
        own = set()
        mentioned = set()  # by definitions in this block, so not to be defined later in it
        vis = dict(vis)
        for _ in range(d(st.integers(2, 5))):
            k = d(st.integers(0, 6))
            if k <= 2:
                names = [n for n in "ABCD" if n not in own and n not in mentioned]
                if not names:
                    continue
                n = self.pick(*names)
                fs = ["x", "y"][:d(st.integers(0, 2))]
                if n in vis:
                    self.feats.add("shadowing definition")
                e = self.expr({k: v for k, v in vis.items() if k != n}, [*formals, *fs], 2)
                out.append(("def", n, fs, e))
                own.add(n)
                mentioned |= used(e)
                vis[n] = len(fs)
            elif k <= 4 or not depth or self.budget <= 0:
                out.append(("emit", self.expr(vis, formals)))
            else:
                self.feats.add("nested block")
                out.append(("with", self.pick("plain", "if", "def", "for", "try"), self.body(vis, formals, depth - 1, False)))
        out.append(("emit", self.expr(vis, formals)))
        return out


def used(e):
    """names of abbreviations in an expression, also bound ones"""
    if e[0] == "use":
        return {e[1]}.union(*map(used, e[2]))
    if e[0] == "op":
        return used(e[2]) | used(e[3])
    if e[0] == "lambda":
        return used(e[1])
    if e[0] == "syn":
        return {n for n, _, _ in e[2]}.union(used(e[3]), *(used(v) for _, _, v in e[2]))
    return set()


@st.composite
def nestings(draw):
    g = N(draw)
    b = g.body({}, [], 3, True)
    return b, sorted(g.feats)


def ntext(e):
    k = e[0]
    if k == "int":
        return str(e[1])
    if k in ("var", "formal"):
        return e[1]
    if k == "use":
        return e[1] + (f"[{', '.join(map(ntext, e[2]))}]" if e[2] else "")
    if k == "op":
        return f"({ntext(e[2])} {e[1]} {ntext(e[3])})"
    if k == "lambda":
        return f"(lambda: {ntext(e[1])})()"
    bs = ", ".join(f"[{n}{'[' + ', '.join(fs) + ']' if fs else ''}, {ntext(v)}]" for n, fs, v in e[2])
    return f"{e[1]}[{bs}][{ntext(e[3])}]"


def nvalue(e, env, formals):
    k = e[0]
    if k == "int":
        return e[1]
    if k == "var":
        return {"g0": 100, "g1": 1000}[e[1]]
    if k == "formal":
        return formals[e[1]]
    if k == "use":
        fs, body, env2, formals2 = env[e[1]]
        return nvalue(body, env2, {**formals2, **dict(zip(fs, [nvalue(a, env, formals) for a in e[2]]))})
    if k == "op":
        a, b = nvalue(e[2], env, formals), nvalue(e[3], env, formals)
        return a + b if e[1] == "+" else a - b if e[1] == "-" else a * b
    if k == "lambda":
        return nvalue(e[1], env, formals)
    return nvalue(e[3], {**env, **{n: (fs, v, env, formals) for n, fs, v in e[2]}}, formals)


def nlines(body, env, out, ind="    "):
    """-> source lines; appends to out what the program is to append"""
    lines = []
    env = dict(env)
    for s in body:
        if s[0] == "def":
            _, n, fs, e = s
            lines += [f"{ind}with expr{'[' + ', '.join(fs) + ']' if fs else ''} as {n}:", f"{ind}    {ntext(e)}"]
            env[n] = (fs, e, dict(env), {})
        elif s[0] == "emit":
            lines.append(f"{ind}out.append({ntext(s[1])})")
            out.append(nvalue(s[1], env, {}))
        else:
            head, tail = {"plain": ([], []), "if": (["if 1:"], []), "def": (["def f():"], ["f()"]), "for": (["for _ in [1]:"], []), "try": (["try:"], ["finally:", "    pass"])}[s[1]]
            more = "    " if head else ""
            lines += [ind + x for x in head] + [f"{ind}{more}with let_syntax:"] + nlines(s[2], env, out, ind + more + "    ") + [ind + x for x in tail]
    return lines


def run_nesting(case):
    want, got = [], []
    src = "from unpythonic.syntax import macros, let_syntax, abbrev, expr, block\nwith let_syntax:\n" + "\n".join(nlines(case[0], {}, want)) + "\n"
    run_macros(src, out=got, g0=100, g1=1000)
    eq(got, want, f"values of\n{src}")


SUITES = [
    Suite("nested abbreviations", nestings(), run_nesting, quick=700, shards=4, nontrivial=lambda c: bool(c[1]), labels=lambda c: c[1]),
    Suite("programs", programs(False), run_programs, quick=1000, shards=2, nontrivial=nontrivial, labels=labels),
    Suite("prefix", programs(True), run_programs, quick=1000, shards=2, nontrivial=nontrivial, labels=labels),
    Suite("autoref", autorefs(), run_autoref, quick=900, shards=4, nontrivial=nontrivial_autoref, labels=lambda case: list(case[3])),
    Suite("debug", debugs(), run_debug, quick=600, nontrivial=lambda case: bool(case[2]), labels=labels),
]
