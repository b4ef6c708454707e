"""C37: dialects run ordinary programs with exactly their added semantics."""
import re
import sys

from hypothesis import strategies as st

import unpythonic
from checks import c29, c31, c32, c34, c35
from vp.core import Suite, eq, require
from vp.macro import run_module

RULE = ("cases are whole modules in the dialects Lispython, Lispy, Pytkell and Listhell, with a random prologue (docstring, future imports, dialect import, macro imports, other imports) and a generated body: "
        "functions with implicit returns, mutually recursive tail calls run in a bounded stack, multi-expression, quick and named lambdas; call-by-need programs with trace and raising arguments; calls split into partial calls; "
        "prefix-form programs with quotes and named arguments; and uses of every name in the dialect's standard environment; the oracles are the same program in plain Python with the features written out, "
        "a call-by-need interpreter, and values worked out in plain Python; non-trivial: the body uses a feature plain Python lacks")
ASSUMPTIONS = ["the restrictions of the generators of C29, C31, C32, C34 and C35, whose macros the dialects apply",
               "a dialect module is compiled from a string by the macro compiler, as the import hook does from a file"]

ENV = {
    "Lispython": "cons car cdr ll llist nil prod dyn Values".split(),
    "Lispy": [],
    "Pytkell": "foldl foldr scanl scanr s imathify gmathify frozendict memoize fupdate fup gmemoize imemoize fimemoize islice take drop split_at first second nth last flip rotate cons car cdr ll llist nil".split(),
    "Listhell": ["apply"],
}
ALIAS = {"Pytkell": {"compose": "composerc"}, "Listhell": {"compose": "composerc"}}
MACROS = {
    "Lispython": "fn where let letseq letrec dlet dletseq dletrec blet bletseq bletrec local delete do do0 let_syntax abbrev block expr cond".split(),
    "Lispy": [],
    "Pytkell": "lazy lazyrec where let letseq letrec dlet dletseq dletrec blet bletseq bletrec local delete do do0 cond forall".split(),
    "Listhell": "q u kw".split(),
}


# ---------------------------------------------------------------- the prologue

@st.composite
def prologues(draw, dialects):
    d = draw(st.sampled_from(dialects))
    doc = draw(st.sampled_from([None, None, "One line.", "Two\nlines.", "a 'quoted' text"]))
    return (d, doc, draw(st.booleans()), draw(st.booleans()), draw(st.integers(0, 2)))


def prologue(p, imports, macros):
    """-> source lines; `macros` are those the body needs; the ones the dialect has are not imported"""
    d, doc, fut, other, where = p
    ls = []
    if doc is not None:
        ls.append('"""' + doc + '"""')
    if fut:
        ls.append("from __future__ import annotations")
    need = [m for m in macros if m not in MACROS[d]]
    mac = ["from unpythonic.syntax import macros, " + ", ".join(need)] if need else []
    dia = [f"from unpythonic.dialects import dialects, {d}", "# ()"]  # mcpyrate looks for the end of this import no further than the first parenthesis
    ls += dia
    rest = [mac, imports, ["import fractions as vp_fractions"] if other else []]
    for i in range(3):
        ls += rest[(i + where) % 3]
    if fut:
        ls += ["def vp_annotated(x: vp_no_such_name): return 1" if d != "Listhell" else "def vp_annotated(x: vp_no_such_name):\n    return 1"]
    return ls


def check_module(p, ns, src):
    d, doc, fut, other, _ = p
    eq(ns.get("__doc__"), doc, f"module docstring of\n{src}\n")
    eq(ns.get("__lang__"), d, f"__lang__ of\n{src}\n")
    if fut:
        got = ns["vp_annotated"].__annotations__["x"]
        require(isinstance(got, str), "the future import has no effect in", src)
        if d != "Pytkell":  # there the text has the code that forces the value
            eq(got, "vp_no_such_name", f"annotation under the future import in\n{src}\n")
    if other:
        require(ns.get("vp_fractions") is sys.modules["fractions"], "ordinary imports missing in", src)
    for n in ENV[d]:
        require(ns.get(n) is getattr(unpythonic, n), f"the name {n} of the dialect's environment is missing in", src)
    for n, m in ALIAS.get(d, {}).items():
        require(ns.get(n) is getattr(unpythonic, m), f"the name {n} of the dialect's environment is missing in", src)
    if d == "Lispy":
        for n in ENV["Lispython"]:
            require(n not in ns or "import" in src and n in src, f"{n} imported implicitly in", src)


def names_in(head):
    m = re.match(r"from unpythonic.syntax import macros, (.*)\n", head)
    return m.group(1).split(", "), [x for x in head[m.end():].split("\n") if x]


LISP_OWN = {"tco", "autoreturn", "quicklambda", "multilambda", "namedlambda"}


# ---------------------------------------------------------------- Lispython: implicit returns

C29M, C29I = names_in(c29.HEAD)
C29M = [m for m in C29M if m not in LISP_OWN]


def run_c29(src, fs, inputs, p=None, limit=c29.FUEL, deep=True, bounded=False):
    names, log, fuel = c29.world(limit)
    ns, exc = run_module(src, names)
    require(exc is None, f"raised at definition {exc!r}\n", src)
    if p is not None:
        check_module(p, ns, src)
    out = []
    for n, x in inputs:
        for thunk in c29.invoke(fs, ns, n, x):
            fuel[0] = 0
            if bounded:
                with c29.stack_budget(90):
                    out.append(c29.outcome(thunk))
            else:
                out.append(c29.outcome((lambda: c29.deep(thunk)) if deep else thunk))
    return out, log


def run_implicit(case):
    p, (explicit, bare, fs, _) = case
    want, wlog = run_c29(c29.indent(explicit.split("\n"), "if 1:"), fs, c29.INPUTS)
    src = "\n".join(prologue(p, C29I, C29M) + [bare]) + "\n"
    got, log = run_c29(src, fs, c29.INPUTS, p)
    eq(got, want, f"outcomes of\n{src}\n")
    eq(log, wlog, f"trace of\n{src}\n")


def run_stack(case):
    p, (text, fs, _) = case
    inputs = [(c29.N, 0), (c29.N, "s")]
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(20000)
    try:
        want, wlog = run_c29(c29.indent(text.split("\n"), "if 1:"), fs, inputs, limit=10 ** 6, deep=False)
    finally:
        sys.setrecursionlimit(limit)
    src = "\n".join(prologue(p, C29I, C29M) + [text]) + "\n"
    got, log = run_c29(src, fs, inputs, p, limit=10 ** 6, bounded=True)
    eq(got, want, f"outcomes in a bounded stack of\n{src}\n")
    eq(log, wlog, f"trace of\n{src}\n")


# ---------------------------------------------------------------- Lispython: lambdas

C34M = [m for m in names_in(c34.HEAD)[0] if m not in LISP_OWN | {"envify"}]


@st.composite
def lambdas(draw):
    g = c34.G(draw, ["quicklambda", "multilambda", "namedlambda"])
    T, R = g.program(0)
    return ("\n".join(T), "\n".join(R), tuple(sorted(g.feats)))


def dedent(text):
    ls = text.split("\n")
    assert all(x.startswith("    ") or not x for x in ls), text
    return "\n".join(x[4:] for x in ls)


def run_lambdas(case):
    p, (text, ref, _) = case
    names, wlog = c34.world()
    for n, v in zip(c34.POOL, (101, 102, 103)):
        names[f"G{n}"] = [v]
    head = prologue(p, [], C34M)
    try:
        exec(compile("if 1:\n" + ref, "<reference>", "exec"), names)
    except c34.Work:
        return
    shift = len("\n".join(head).split("\n")) - 2  # lambdas without a name are named by their line; c34 counts two lines before the body
    src = "\n".join(head + [dedent(text)]) + "\n"
    names, glog = c34.world()
    names.update(zip(c34.POOL, (101, 102, 103)))
    ns, exc = run_module(src, names)
    require(exc is None, f"raised {exc!r}\n", src)
    check_module(p, ns, src)

    def move(x):
        return tuple(re.sub(r"<lambda at :(\d+)>", lambda m: f"<lambda at :{int(m.group(1)) + shift}>", y) if isinstance(y, str) else y for y in x)
    eq(glog, [move(x) for x in wlog], f"trace of\n{src}\n(plain equivalent:\n{ref}\n)")


# ---------------------------------------------------------------- Pytkell

C31M, C31I = names_in(c31.HEAD)
PYT_OWN = {"lazify", "autocurry"}
C31M = [m for m in C31M if m not in PYT_OWN | {"tco"}]
C31I = ["from unpythonic import box, unbox"]


@c31.room()
def run_lazy(case):
    p, (stmts, runs, combo, pure, feats) = case
    try:
        w0, e0, it = c31.model(stmts, runs)
    except c31.TooMuch:
        return
    if e0 == "TypeError" or any(x[:2] == ("raised", "TypeError") for x in w0["outs"]):
        return  # a callback was called with too few arguments; currying makes this legal
    c31.WORK[0] = -10 ** 9
    body = c31.text(stmts, runs, "if 1:")
    body = dedent(body[body.index("if 1:") + 6:].rstrip("\n"))
    src = "\n".join(prologue(p, C31I, C31M) + [body]) + "\n"
    w1 = c31.world()
    e1 = None
    try:
        ns, exc = run_module(src, {k: w1[k] for k in ("t", "boom", "tick", "smap", "out", "o", "Boom")})
        e1 = type(exc).__name__ if exc is not None else None
        if exc is None:
            check_module(p, ns, src)
    except c31.Halt:
        e1 = "halt"
    require(w0["trace"] == w1["trace"], f"evaluation order {w1['trace']} ({e1}), call by need gives {w0['trace']} ({e0}), in\n{src}")
    eq(w1["outs"], w0["outs"], f"results in\n{src}")
    eq(e1, e0, f"how the program ended, in\n{src}")


C32M, C32I = names_in(c32.HEAD)
C32M = [m for m in C32M if m not in {"autocurry", "lazify", "tco", "namedlambda"}]


def run_split(case):
    """Pytkell: values only; the order of evaluation is decided by the suite before this."""
    p, (combo, stmts, runs, outside, feats) = case
    ref = c32.Text(False).module(combo, stmts, runs, outside)
    body = c32.Text(True).module(combo, stmts, runs, [])
    body = dedent(body.split("\n", 3)[3].rstrip("\n"))
    src = "\n".join(prologue(p, C32I if p[0] != "Pytkell" else ["from unpythonic import curry"], C32M) + [body]) + "\n"
    ta, oa, ea = c32.execute(ref)
    tb, ob, eb = c32.execute(src)
    for x, y in zip(oa, ob):
        if x[0] != "value":
            break
        eq(y, x, f"result of\n{src}\ncompared with the complete calls\n{ref}")
    else:
        eq(eb, None, f"how this ended\n{src}")


# ---------------------------------------------------------------- Listhell

C35M = [m for m in names_in(c35.HEAD)[0] if m not in {"prefix", "q", "u", "kw"}]


def run_prefix(case):
    from unpythonic import dyn
    p, (text, ref, _) = case
    names, wlog = c35.world()
    try:
        exec(compile(ref, "<reference>", "exec"), names)
    except c35.Work:
        return
    assert text.startswith("with prefix:\n")
    src = "\n".join(prologue(p, [], C35M) + [dedent(text.split("\n", 1)[1])]) + "\n"
    names, glog = c35.world()
    with dyn.let(dbgprint_expr=c35.printer(lambda k, v, line: names["DB"](None, v, line))):
        ns, exc = run_module(src, names)
    require(exc is None, f"raised {exc!r}\n", src)
    check_module(p, ns, src)
    eq(glog, wlog, f"trace of\n{src}\n(plain equivalent:\n{ref}\n)")


class Prefix(c32.Text):
    """Every call of the generated functions in prefix notation, tuples quoted."""
    def R(self, e):
        k = e[0]
        if k == "c":
            return e[1].replace("(3, 4)", "(q, 3, 4)")
        if k == "tuple":
            return "(tuple, [" + ", ".join(self.R(x) for x in e[1]) + "])"
        if k == "t":
            return f"(t, {e[1]}, {self.R(e[2])})"
        if k == "builtin":
            x = self.R(e[2])
            return {"len": f"(len, [{x}])", "str": f"(str, {x})[:9]", "repr": f"(repr, {x})[:9]", "id0": f"(max, [0, 1], kw(key=lambda _: [{x}] == [None]))",
                    "sorted": f"(sorted, [2, 1], kw(key=lambda z: (tuple, [z, {x}])))", "list": f"(list, [{x}, 1])"}[e[1]]
        if k == "hof":
            return f"(hof, {self.R(e[1])}, {self.R(e[2])})"
        if k == "hofs":
            return f"((hof, {self.R(e[1])}), {self.R(e[2])})"
        if k == "map":
            return f"(tuple, (map, {self.R(e[1])}, [{', '.join(self.R(x) for x in e[2])}]))"
        if k in ("call", "part", "fin"):
            f = e[1] if k == "fin" else self.R(e[1])
            for a, b in e[3]:
                f = "(" + "".join(x + ", " for x in [f] + [self.arg(x) for x in a + b]) + ")"
            return f
        return super().R(e)

    def arg(self, x):
        return self.R(x[1]) if x[0] is None else f"kw({x[0]}={self.R(x[1])})"

    def sig(self, sig):
        return super().sig(sig).replace("(3, 4)", "(q, 3, 4)")


def run_listhell(case):
    p, (combo, stmts, runs, outside, feats) = case
    ref = c32.Text(False).module(combo, stmts, runs, [])
    body = Prefix(True).module(combo, stmts, runs, [])
    body = dedent(body.split("\n", 3)[3].rstrip("\n"))
    src = "\n".join(prologue(p, C32I, C32M) + [body]) + "\n"
    ta, oa, ea = c32.execute(ref)
    tb, ob, eb = c32.execute(src)
    eq((eb, ob, tb), (ea, oa, ta), f"how it ended, results and evaluation order of\n{src}\ncompared with the complete calls\n{ref}")


# ---------------------------------------------------------------- the standard environments
#
# (text in the dialect, plain expression for the value); {a} {b} {c} are integers and {xs} a list of at least three of them.

LET = [
    ("let[x := {a}, y := {b}][x - y]", "{a} - {b}"),
    ("let[[x := {a}, y := {b}] in (x - 2 * y)]", "{a} - 2 * {b}"),
    ("let[x * y, where[x := {a}, y := {b}]]", "{a} * {b}"),
    ("letseq[x := {a}, x := x + {b}][x]", "{a} + {b}"),
    ("letrec[ev := (lambda n: n == 0 or od(n - 1)), od := (lambda n: n != 0 and ev(n - 1))][ev(abs({a}) % 9)]", "abs({a}) % 9 % 2 == 0"),
    ("letrec[f := (lambda n: 1 if n <= 0 else n * f(n - 1))][f({a} % 6)]", "[1, 1, 2, 6, 24, 120][{a} % 6]"),
    ("do[local[x := {a}], local[y := x + {b}], delete[x], y]", "{a} + {b}"),
    ("do0[{a}, local[x := {b}], x]", "{a}"),
    ("cond[{a} > 0, 'pos', {a} < 0, 'neg', 'zero']", "'pos' if {a} > 0 else 'neg' if {a} < 0 else 'zero'"),
]
LETDEF = [
    ("@dlet(x := {a})\ndef {f}(y):\n    (x := x + y)\n    return x", "{f}(1) + {f}({b})", "({a} + 1) + ({a} + 1 + {b})"),
    ("@dletseq(x := {a}, x := x * 2)\ndef {f}():\n    return x", "{f}()", "2 * {a}"),
    ("@dletrec(g := (lambda n: {a} if n <= 0 else g(n - 1)))\ndef {f}(n):\n    return g(n)", "{f}(abs({b}) % 5)", "{a}"),
    ("@blet(x := {a}, y := {b})\ndef {f}():\n    return x - y", "{f}", "{a} - {b}"),
    ("@bletseq(x := {a}, x := x + {b})\ndef {f}():\n    return x", "{f}", "{a} + {b}"),
    ("@bletrec(x := {a}, g := (lambda: x + 1))\ndef {f}():\n    return g()", "{f}", "{a} + 1"),
]
LIST = [
    ("tuple(llist({xs}))", "tuple({xs})"),
    ("car(cdr(ll({a}, {b}, {c})))", "{b}"),
    ("cons({a}, {b}) == cons({a}, {c})", "{b} == {c}"),
    ("list(cons({a}, cons({b}, nil)))", "[{a}, {b}]"),
]
STANDARD = {
    "Lispython": LET + LIST + [
        ("prod({xs})", "__import__('functools').reduce(lambda x, y: x * y, {xs}, 1)"),
        ("(lambda x: [local[y := x + 1], y := y * 2, [y, x]])({a})", "[2 * ({a} + 1), {a}]"),
        ("(lambda x: [[x, {b}]])({a})", "[{a}, {b}]"),
        ("fn[_ - 2 * _]({a}, {b})", "{a} - 2 * {b}"),
        ("list(map(fn[[local[z := _ + 1], z * z]], {xs}))", "[(v + 1) ** 2 for v in {xs}]"),
        ("let_syntax[[h[v] << (v, {b})] in h[{a}]]", "({a}, {b})"),
        ("abbrev[[h << {a}] in h + {b}]", "{a} + {b}"),
        ("Values({a}, k={b})['k'] - Values({a}, k={b})[0]", "{b} - {a}"),
    ],
    "Pytkell": LET + LIST + [
        ("foldl(add)(0)({xs})", "sum({xs})"),
        ("foldl(sub, {a})({xs})", "__import__('functools').reduce(lambda acc, e: e - acc, {xs}, {a})"),
        ("foldr(sub, {a}, {xs})", "__import__('functools').reduce(lambda acc, e: e - acc, {xs}[::-1], {a})"),
        ("list(scanl(add)({a}, {xs}))", "[{a} + sum({xs}[:i]) for i in range(len({xs}) + 1)]"),
        ("list(scanr(add, {a})({xs}))", "[{a} + sum(({xs}[::-1])[:i]) for i in range(len({xs}) + 1)]"),
        ("list(foldr(compose(cons, lambda v: v * {a}), nil)({xs}))", "[v * {a} for v in {xs}]"),
        ("compose(lambda v: v + {a}, lambda v: v * {b})({c})", "{c} * {b} + {a}"),
        ("compose(sub({a}), abs)({b})", "{a} - abs({b})"),
        ("flip(sub)({a})({b})", "{b} - {a}"),
        ("rotate(1)(lambda x, y, z: [x, y, z])({a}, {b}, {c})", "[{c}, {a}, {b}]"),
        ("list(take(4)(s({a}, {a} + 2, ...)))", "[{a} + 2 * i for i in range(4)]"),
        ("list(take(3, drop(2)(s(1, 2, 4, ...))))", "[4, 8, 16]"),
        ("list(take(3)(s({a}, {a} + 1, ...) + imathify({xs})))", "[{a} + i + {xs}[i] for i in range(3)]"),
        ("[first({xs}), second({xs}), nth(2)({xs}), last({xs})]", "[{xs}[0], {xs}[1], {xs}[2], {xs}[-1]]"),
        ("[list(v) for v in split_at(2)({xs})]", "[{xs}[:2], {xs}[2:]]"),
        ("list(islice({xs})[1:])", "{xs}[1:]"),
        ("list(fup({xs})[1] << {a})", "[{xs}[0], {a}] + {xs}[2:]"),
        ("fupdate((1, 2, 3), 1, {a})", "(1, {a}, 3)"),
        ("sorted(frozendict(k={a}, j=1).items())", "[('j', 1), ('k', {a})]"),
        ("list(take(5)(gmathify(lambda: (v for v in {xs}))() * 2))[:3]", "[2 * v for v in {xs}[:3]]"),
        ("(lambda x, y: x)({a})(1 // 0)", "{a}"),
        ("let[x := {a}, y := 1 // 0][x]", "{a}"),
        ("(lambda x, y, z: x - z)({a})(lazy[1 // 0], {b})", "{a} - {b}"),
        ("lazyrec[[{a}, 1 // 0]][0]", "{a}"),
        ("tuple(forall[x := {xs}[:2], y := [{a}, {b}], insist(x != y), deny(x > 50), (x, y)])", "tuple((x, y) for x in {xs}[:2] for y in [{a}, {b}] if x != y and not x > 50)"),
    ],
    "Listhell": [
        ("(max, {a}, {b})", "max({a}, {b})"),
        ("((f3, {a}), {b}, {c})", "[{a}, {b}, {c}]"),
        ("(f3, {a}, kw(z={c}, y={b}))", "[{a}, {b}, {c}]"),
        ("(q, {a}, (u, abs, {b}), (max, {c}))[1:2]", "(abs({b}),)"),
        ("(q, {a}, (q, {b}))", "({a}, ({b},))"),
        ("(apply, f3, {xs}[:3])", "{xs}[:3]"),
        ("(apply, f3, {a}, [{b}, {c}])", "[{a}, {b}, {c}]"),
        ("(apply, f3, {a}, [{b}], kw(z={c}))", "[{a}, {b}, {c}]"),
        ("((compose, lambda v: v + {a}, lambda v: v * {b}), {c})", "{c} * {b} + {a}"),
        ("((compose, (f3, {a}, {b}), abs), {c})", "[{a}, {b}, abs({c})]"),
        ("(lambda x: (f3, x, x))({a})({b})", "[{a}, {a}, {b}]"),
        ("f3({a})({b}, {c})", "[{a}, {b}, {c}]"),
    ],
}
DEFS = {"Lispython": LETDEF, "Pytkell": LETDEF, "Listhell": []}


@st.composite
def standards(draw):
    d = draw(st.sampled_from(sorted(STANDARD)))
    items = draw(st.lists(st.tuples(st.integers(0, len(STANDARD[d]) - 1), st.integers(-4, 9), st.integers(-4, 9), st.integers(-4, 9), st.lists(st.integers(-3, 9), min_size=3, max_size=5)), min_size=1, max_size=4))
    defs = draw(st.lists(st.tuples(st.integers(0, len(DEFS[d]) - 1), st.integers(-4, 9), st.integers(-4, 9)), max_size=2)) if DEFS[d] else []
    return d, items, defs


def run_standard(case):
    p, (d, items, defs) = case
    p = (d,) + p[1:]
    ls, want = [], []
    if d == "Listhell":
        ls += ["def f3(x, y, z):", "    return [x, y, z]"]
    for k, a, b, c, xs in items:
        text, value = STANDARD[d][k]
        m = dict(a=f"({a})", b=f"({b})", c=f"({c})", xs=repr(xs))

        def fill(t):
            return re.sub(r"\{(a|b|c|xs)\}", lambda x: m[x.group(1)], t)
        ls.append(f"out({fill(text)})")
        want.append(eval(fill(value), {}))
    for i, (k, a, b) in enumerate(defs):
        stmts, use, value = DEFS[d][k]
        m = dict(a=f"({a})", b=f"({b})", f=f"g{i}")

        def fill(t):
            return re.sub(r"\{(a|b|f)\}", lambda x: m[x.group(1)], t)
        ls += fill(stmts).split("\n") + [f"out({fill(use)})"]
        want.append(eval(fill(value), {}))
    got = []
    src = "\n".join(prologue(p, ["from operator import add, sub"], ["let"] if d == "Listhell" else []) + ls) + "\n"
    ns, exc = run_module(src, dict(out=got.append))
    require(exc is None, f"raised {exc!r} in\n", src)
    check_module(p, ns, src)
    eq([(type(unpythonic.force(x)), unpythonic.force(x)) for x in got], [(type(x), x) for x in want], f"values of\n{src}\n")


SUITES = [
    Suite("standard", st.tuples(prologues(["Lispython", "Pytkell", "Listhell"]), standards()), run_standard, quick=500, nontrivial=lambda c: len(c[1][1]) + len(c[1][2]) > 1, labels=lambda c: [c[1][0]] + [f"{c[1][0]} {STANDARD[c[1][0]][k[0]][0]}" for k in c[1][1]]),
    Suite("implicit", st.tuples(prologues(["Lispython", "Lispy"]), c29.implicit()), run_implicit, quick=400, nontrivial=lambda c: c29.nontrivial(c[1]), labels=lambda c: [c[0][0]] + list(c[1][-1])),
    Suite("stack", st.tuples(prologues(["Lispython", "Lispy"]), c29.loops()), run_stack, quick=200, nontrivial=lambda c: c29.nontrivial(c[1]), labels=lambda c: [c[0][0]] + list(c[1][-1])),
    Suite("lambdas", st.tuples(prologues(["Lispython", "Lispy"]), lambdas()), run_lambdas, quick=400, nontrivial=lambda c: bool({"quick", "multi", "naming"} & set(c[1][-1])), labels=lambda c: [c[0][0]] + list(c[1][-1])),
    Suite("lazy", st.tuples(prologues(["Pytkell"]), c31.programs(combo="autocurry")), run_lazy, quick=300, nontrivial=lambda c: c31.nontrivial(c[1]), labels=lambda c: c[1][4]),
    Suite("split", st.tuples(prologues(["Pytkell"]), c32.programs(combos=("lazify",))), run_split, quick=200, nontrivial=lambda c: c32.nontrivial(c[1]), labels=lambda c: c[1][4]),
    Suite("prefix", st.tuples(prologues(["Listhell"]), c35.programs(True)), run_prefix, quick=300, nontrivial=lambda c: c35.nontrivial(c[1]), labels=lambda c: list(c[1][-1])),
    Suite("prefix-split", st.tuples(prologues(["Listhell"]), c32.programs(combos=("",))), run_listhell, quick=300, nontrivial=lambda c: c32.nontrivial(c[1]), labels=lambda c: c[1][4]),
]
