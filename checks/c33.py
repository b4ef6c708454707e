"""C33: the scope analyzer agrees with the Python compiler's symbol table."""
import ast
import copy
import re
import symtable
import textwrap

import hypothesis.strategies as st
from hypothesis import assume

from vp.core import Suite, require, eq
import vp.macro  # noqa: F401  (activates the macro expander before the macro library is imported)
from unpythonic.syntax.scopeanalyzer import (get_lexical_variables, get_names_in_store_context, get_names_in_del_context,
                                             extract_args, collect_globals, collect_nonlocals, isnewscope)

RULE = ("cases are Python function definitions generated over all binding forms (assignments to names, tuples, lists, starred, attributes and subscripts; annotated, augmented and walrus "
        "assignments; for, with, except, except*, import, match patterns, del, def, class, type alias, lambda, comprehensions; global and nonlocal declarations), nested in each other; every "
        "scope and every statement of the program is compared with the symbol table the Python compiler makes for it. Non-trivial: at least three different binding forms in the program")
TECHNIQUE = "grammar-based program generation, differential against the Python compiler's symtable"
ASSUMPTIONS = ["a name that a scope only deletes and never binds may be reported either way", "the function's own name counts as in scope (documented)",
               "lambdas are reported by their parameters only, classes by their own and their base names (documented)"]

NAMES = "abcdxy"
names = st.sampled_from(NAMES)


class G:
    """Writes a random program; `forms` records which binding forms were used."""
    def __init__(self, draw):
        self.draw = draw
        self.forms = set()
        self.budget = draw(st.integers(4, 22))
        self.incomp = 0
        self.nowalrus = 0

    def n(self, k):
        return self.draw(st.integers(0, k - 1))

    def name(self):
        return self.draw(names)

    def pick(self, *xs):
        return xs[self.n(len(xs))]

    def form(self, f):
        self.forms.add(f)

    # -- expressions
    def expr(self, depth=2):
        self.budget -= 1
        if depth <= 0 or self.budget <= 0:
            return self.pick(self.name(), "0")
        k = self.n(13)
        if k <= 2:
            return self.name()
        if k == 3:
            return f"{self.name()}({self.expr(depth - 1)}, {self.name()}={self.expr(depth - 1)})"
        if k == 4:
            return f"({self.expr(depth - 1)} + {self.expr(depth - 1)})"
        if k == 5:
            return f"({self.expr(depth - 1)} if {self.expr(depth - 1)} else {self.expr(depth - 1)})"
        if k == 6 and not self.nowalrus:
            self.form("walrus-in-comp" if self.incomp else "walrus")
            return f"({self.name()} := {self.expr(depth - 1)})"
        if k in (7, 8):
            self.form("lambda")
            saved, self.nowalrus, self.incomp = (self.nowalrus, self.incomp), 0, 0
            body = self.expr(depth - 1)
            self.nowalrus, self.incomp = saved
            return f"(lambda {self.params(depth - 1, False)}: {body})"
        if k in (9, 10, 11):
            return self.comp(depth)
        if k == 12:
            return f"[{self.expr(depth - 1)}, *{self.expr(depth - 1)}]"
        return f"{self.name()}[{self.expr(depth - 1)}].{self.name()}"

    def comp(self, depth):
        self.form("comprehension")
        gens = []
        for i in range(1 + self.n(2)):
            self.nowalrus += 1
            it = self.expr(depth - 1)
            self.nowalrus -= 1
            self.incomp += 1
            cond = f" if {self.expr(depth - 1)}" if self.n(3) == 0 else ""
            self.incomp -= 1
            gens.append(f"for {self.target(1, comp=True)} in {it}{cond}")
        self.incomp += 1
        e = self.expr(depth - 1)
        e2 = self.expr(depth - 1)
        self.incomp -= 1
        g = " ".join(gens)
        return self.pick(f"[{e} {g}]", f"{{{e} {g}}}", f"({e} {g})", f"{{{e}: {e2} {g}}}")

    def target(self, depth=1, comp=False):
        k = self.n(9)
        if k == 5:
            return f"{self.name()}.{self.name()}"
        if k == 6:
            return f"{self.name()}[{self.name()}]"
        if k >= 7 and depth:
            self.form("sequence target")
            parts = [self.target(depth - 1) for _ in range(1 + self.n(3))]
            if self.n(3) == 0:
                i = self.n(len(parts))
                parts[i] = "*" + parts[i]
            s = ", ".join(parts) + ","
            return self.pick(f"({s})", f"[{s}]")
        return self.name()

    def params(self, depth, annotate=True):
        pool = list(NAMES)
        out = []
        seen_default = False

        def one():
            x = pool.pop(self.n(len(pool)))
            return x
        npo, npk, nko = self.pick(0, 0, 1), self.n(3), self.pick(0, 0, 1)
        for i in range(npo + npk):
            s = one()
            if annotate and self.n(5) == 0:
                s += ": " + self.expr(depth)
            if seen_default or self.n(4) == 0:
                seen_default = True
                s += "=" + self.expr(depth)
            out.append(s)
            if i == npo - 1:
                out.append("/")
        if self.n(5) == 0:
            out.append("*" + one())
        elif nko:
            out.append("*")
        for _ in range(nko):
            s = one()
            if self.n(2):
                s += "=" + self.expr(depth)
            out.append(s)
        if self.n(5) == 0:
            out.append("**" + one())
        return ", ".join(out)

    # -- patterns
    def pattern(self, depth=2):
        k = self.n(10)
        if k <= 2 or depth == 0:
            return self.name()
        if k == 3:
            return self.pick("_", "0", "None", f"{self.name()}.x")
        if k == 4:
            return f"{self.pattern(depth - 1)} as {self.name()}" if depth == 2 else self.name()
        if k == 5:
            return f"[{self.pattern(depth - 1)}, *{self.pick('_', self.name())}]"
        if k == 6:
            rest = f", **{self.name()}" if self.n(2) else ""
            return f"{{0: {self.pattern(depth - 1)}, {self.name()}.y: {self.pattern(depth - 1)}{rest}}}"
        if k == 7:
            return f"{self.name()}({self.pattern(depth - 1)}, z={self.pattern(depth - 1)})"
        if k == 8:
            return f"({self.pattern(depth - 1)}, {self.pattern(depth - 1)})"
        return "(0 | None)"

    # -- statements
    def suite(self, depth, infunc, isasync, loop=False):
        out = []
        for _ in range(1 + self.n(3)):
            out.append(self.stmt(depth, infunc, isasync, loop))
            if self.budget <= 0:
                break
        return textwrap.indent("\n".join(out), "  ")

    def stmt(self, depth, infunc, isasync, loop=False):
        self.budget -= 1
        simple = depth <= 0 or self.budget <= 0
        k = self.n(13) if simple else self.n(26)
        e = self.expr
        if k == 0:
            self.form("assign")
            return f"{self.target()} = {e()}"
        if k == 1:
            self.form("multi-assign")
            return f"{self.target()} = {self.target()} = {e()}"
        if k == 2:
            self.form("augassign")
            return f"{self.pick(self.name(), self.name() + '.' + self.name())} += {e()}"
        if k == 3:
            self.form("annassign")
            return f"{self.pick(self.name(), self.name() + '.x')}: {e(1)}" + (f" = {e()}" if self.n(2) else "")
        if k == 4:
            return e()
        if k == 5:
            self.form("del")
            return "del " + ", ".join(self.pick(self.name(), self.name(), f"{self.name()}.x", f"{self.name()}[{self.name()}]", f"({self.name()}, [{self.name()}])")
                                      for _ in range(1 + self.n(2)))
        if k == 6:
            self.form("import")
            return self.pick(f"import {self.name()}", f"import {self.name()}.{self.name()}", f"import {self.name()}.{self.name()}.{self.name()} as {self.name()}",
                             f"import {self.name()} as {self.name()}, {self.name()}")
        if k == 7:
            self.form("import from")
            return self.pick(f"from {self.name()} import {self.name()}", f"from .{self.name()} import {self.name()} as {self.name()}, {self.name()}")
        if k == 8:
            return self.pick("pass", f"assert {e()}", f"raise {self.name()}")
        if k == 9:
            return f"return {e()}" if infunc else "pass"
        if k == 10:
            self.form("type alias")
            tp = f"[{self.name()}]" if self.n(2) else ""
            return f"type {self.name()}{tp} = {self.name()}"
        if k in (11, 12):
            self.form("assign")
            return f"{self.name()} = {e()}"
        d = depth - 1
        if k == 13:
            return f"if {e()}:\n{self.suite(d, infunc, isasync)}\nelse:\n{self.suite(d, infunc, isasync)}"
        if k == 14:
            return f"while {e()}:\n{self.suite(d, infunc, isasync)}"
        if k == 15:
            self.form("for")
            a = "async " if isasync and self.n(2) else ""
            return f"{a}for {self.target()} in {e()}:\n{self.suite(d, infunc, isasync)}" + (f"\nelse:\n{self.suite(d, infunc, isasync)}" if self.n(3) == 0 else "")
        if k == 16:
            self.form("with")
            a = "async " if isasync and self.n(2) else ""
            items = ", ".join(f"{e(1)}" + (f" as {self.target()}" if self.n(3) else "") for _ in range(1 + self.n(2)))
            return f"{a}with {items}:\n{self.suite(d, infunc, isasync)}"
        if k == 17:
            self.form("except")
            hs = "".join(f"except {self.name()}" + (f" as {self.name()}" if self.n(2) else "") + f":\n{self.suite(d, infunc, isasync)}\n" for _ in range(1 + self.n(2)))
            if self.n(2):
                hs += f"except:\n{self.suite(d, infunc, isasync)}\n"
            if self.n(3) == 0:
                hs += f"else:\n{self.suite(d, infunc, isasync)}\n"
            if self.n(3) == 0:
                hs += f"finally:\n{self.suite(d, infunc, isasync)}\n"
            return f"try:\n{self.suite(d, infunc, isasync)}\n{hs}".rstrip("\n")
        if k == 18:
            self.form("except*")
            return f"try:\n{self.suite(d, infunc, isasync)}\nexcept* {self.name()} as {self.name()}:\n  {self.name()} = 0"
        if k in (19, 20):
            self.form("match")
            cases = "\n".join(f"  case {self.pattern()}" + (f" if {e()}" if self.n(3) == 0 else "") + ":\n" + textwrap.indent(self.suite(d, infunc, isasync), "  ")
                              for _ in range(1 + self.n(2)))
            return f"match {e()}:\n{cases}"
        if k in (21, 22, 23):
            self.form("def")
            return self.funcdef(d)
        self.form("class")
        bases = ", ".join([self.pick(self.name(), self.name() + ".b", self.expr(1)) for _ in range(self.n(3))] + (["metaclass=" + self.name()] if self.n(4) == 0 else []))
        deco = f"@{self.expr(1)}\n" if self.n(4) == 0 else ""
        tp = f"[{self.name()}T]" if self.n(5) == 0 else ""
        return f"{deco}class {self.name()}{tp}({bases}):\n{self.suite(d, False, False)}"

    def funcdef(self, depth):
        isasync = self.n(5) == 0
        params = self.params(1)
        decl = []
        used = set()
        for kw in ("global", "nonlocal"):
            if self.n(3) == 0:
                xs = [x for x in (self.name(),) + ((self.name(),) if self.n(2) else ()) if x not in used and not re.search(rf"\b{x}\b", params)]
                used |= set(xs)
                if xs:
                    self.form(kw)
                    s = f"{kw} " + ", ".join(xs)
                    decl.append(s if self.n(3) else f"if 0:\n  {s}")
        deco = f"@{self.expr(1)}\n" if self.n(4) == 0 else ""
        tp = f"[{self.name()}T]" if self.n(6) == 0 else ""
        ret = f" -> {self.expr(1)}" if self.n(6) == 0 else ""
        body = self.suite(depth, True, isasync)
        if decl:
            body = textwrap.indent("\n".join(decl), "  ") + "\n" + body
        return f"{deco}{'async ' if isasync else ''}def {self.pick('f', 'g', self.name())}{tp}({params}){ret}:\n{body}"


OUTER = "def _outer():\n  a = b = c = d = x = y = f = g = 0\n"


def table(tree):
    """Symbol table of a function (the only one) around `tree`, a list of statements."""
    src = OUTER + textwrap.indent("\n".join(ast.unparse(genexps(t)) for t in tree), "  ")
    return symtable.symtable(src, "<vp>", "exec").get_children()[0]


class _GenExps(ast.NodeTransformer):
    # CPython 3.12 inlines the other comprehensions, and then merges their variables into the symbols of the function around.
    def visit_ListComp(self, t):
        self.generic_visit(t)
        return ast.GeneratorExp(t.elt, t.generators)
    visit_SetComp = visit_ListComp

    def visit_DictComp(self, t):
        self.generic_visit(t)
        return ast.GeneratorExp(ast.Tuple([t.key, t.value], ast.Load()), t.generators)


def genexps(tree):
    return _GenExps().visit(copy.deepcopy(tree))


@st.composite
def programs(draw):
    g = G(draw)
    if draw(st.integers(0, 3)) == 0:
        src = g.stmt(2, True, False)
    else:
        src = g.funcdef(3)
    try:
        compile(OUTER + textwrap.indent(src, "  "), "<vp>", "exec")
    except SyntaxError:
        assume(False)
    return src, sorted(g.forms)


def names_of(t, f):
    return {s.get_name() for s in t.get_symbols() if f(s)}


def deleted(body):
    out = set()

    def targets(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                targets(x)

    def go(stmts):
        for s in stmts:
            if isinstance(s, ast.Delete):
                for t in s.targets:
                    targets(t)
            elif not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                for f in ("body", "orelse", "finalbody"):
                    go(getattr(s, f, []))
                for f in ("handlers", "cases"):
                    for h in getattr(s, f, []):
                        go(h.body)
    go(body)
    return out


def isbound(s):
    return s.is_assigned() or s.is_imported() or s.is_namespace()


def in_function(body):
    """Symbol table for `body` in a function without parameters, of its own."""
    fn = ast.FunctionDef("_f", ast.arguments([], [], None, [], [], None, []), body, [], None, None, [])
    return table([ast.fix_missing_locations(fn)]).get_children()[0]


def check_body(body, what):
    t = in_function(body)
    stored = names_of(t, isbound)
    dels = deleted(body)
    got = set(get_names_in_store_context(body))
    require(got <= stored, f"{what}: names reported as bound, but are not", sorted(map(str, got - stored)))
    require(stored - dels <= got, f"{what}: bound names not reported", sorted(stored - dels - got))
    eq(set(get_names_in_del_context(body)), dels, f"{what}: names in del context")
    gl = names_of(t, lambda s: s.is_declared_global())
    nl = names_of(t, lambda s: s.is_nonlocal())
    eq(set(collect_globals(body)), gl, f"{what}: declared global")
    # (a nonlocal declared inside a comprehension's walrus is not one of the function)
    eq(set(collect_nonlocals(body)), nl, f"{what}: declared nonlocal")


def stripped(fn):
    fn = copy.deepcopy(fn)
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [z for z in (a.vararg, a.kwarg) if z]:
        x.annotation = None
    a.defaults = [ast.Constant(0) for _ in a.defaults]
    a.kw_defaults = [d and ast.Constant(0) for d in a.kw_defaults]
    if not isinstance(fn, ast.Lambda):
        fn.decorator_list = []
        fn.returns = None
        fn.type_params = []
    return fn


def run(case):
    src, _ = case
    top = ast.parse(OUTER + textwrap.indent(src, "  ")).body[0].body[1]
    before = ast.dump(top)
    for node in ast.walk(top):
        require(isnewscope(node) == isinstance(node, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)),
                "isnewscope", type(node).__name__)
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            what = f"{node.name} at line {node.lineno - 2}"
            t = table([stripped(node)]).get_children()[0]
            params = names_of(t, lambda s: s.is_parameter())
            bound = names_of(t, lambda s: s.is_local() and (isbound(s) or s.is_parameter()))
            declared = names_of(t, lambda s: s.is_declared_global() or s.is_nonlocal())
            dels = deleted(node.body)
            eq(sorted(extract_args(node)), sorted(params), f"{what}: extract_args")
            args, nonlocals = get_lexical_variables(node)
            require(len(args) == len(set(args)) and len(nonlocals) == len(set(nonlocals)), "duplicates", args, nonlocals)
            require(set(args) - {node.name} <= bound, f"{what}: reported as local, but are not", sorted(map(str, set(args) - bound)))
            require(node.name in args and bound - dels <= set(args), f"{what}: locals not reported", sorted(bound - dels - set(args)))
            eq(set(nonlocals), declared, f"{what}: declared global or nonlocal")
            args, nonlocals = get_lexical_variables(node, collect_locals=False)
            eq(set(args), params | {node.name}, f"{what}: arguments")
            eq(set(nonlocals), declared, f"{what}: declared global or nonlocal")
            check_body(node.body, what)
        elif isinstance(node, ast.Lambda):
            t = table([ast.Expr(stripped(node))]).get_children()[0]
            params = names_of(t, lambda s: s.is_parameter())
            eq(sorted(extract_args(node)), sorted(params), "lambda: extract_args")
            args, nonlocals = get_lexical_variables(node)
            eq((set(args), nonlocals), (params, []), "lambda: lexical variables")
        elif isinstance(node, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            t = table([ast.Expr(node)]).get_children()[-1]
            bound = names_of(t, lambda s: s.is_local() and s.get_name() != ".0")
            args, nonlocals = get_lexical_variables(node)
            eq((set(args), nonlocals), (bound, []), "comprehension: lexical variables")
        elif isinstance(node, ast.ClassDef):
            args, nonlocals = get_lexical_variables(node)
            eq((set(args), nonlocals), ({node.name} | {b.id for b in node.bases if isinstance(b, ast.Name)}, []), "class: lexical variables")
        if isinstance(node, ast.stmt):
            check_body([node], f"{type(node).__name__} at line {node.lineno - 2}")
    eq(ast.dump(top), before, "the analyzed tree afterwards")


SUITES = [
    Suite("programs", programs(), run, quick=9000, shards=8, nontrivial=lambda c: len(c[1]) >= 3, labels=lambda c: c[1]),
]
