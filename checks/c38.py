"""C38: destructuring views of let, do and assignment forms, for macro writers."""
import ast
import sys

import vp.macro
from mcpyrate.astfixers import fix_ctx
from vp.macro import expand, create_module
import hypothesis.strategies as st

from vp.core import Suite, require, eq, HarnessError
from unpythonic.syntax.letdoutil import (canonize_bindings, isenvassign, islet, isdo, UnexpandedEnvAssignView, UnexpandedLetView, UnexpandedDoView,
                                         ExpandedLetView, ExpandedDoView)

RULE = ("cases are let/letseq/letrec/let_syntax/abbrev forms, their decorators, do/do0 forms and assignments, with generated bindings and bodies in every surface syntax, "
        "before and after macro expansion (plain and under autocurry), with a replacement for their bindings and body. Non-trivial: two or more bindings or do-items")
TECHNIQUE = ("property-based testing: what a view reads must be what was written, what is written through it must read back, and the edited program, expanded and run, "
             "must give what Python says the edited form means; near-misses must be refused")
ASSUMPTIONS = ["bindings written to a view are in the documented canonical format; the number of bindings of an expanded form does not change, as documented"]

NAMES = ["a", "b", "c", "d", "e1"]
PRE = ("from unpythonic.syntax import (macros, let, letseq, letrec, dlet, dletseq, dletrec, blet, bletseq, bletrec, let_syntax, abbrev, do, do0, local, delete, "
       "where, autocurry)\n")

val = st.integers(0, 9)


@st.composite
def bindings(draw, mode, lo=1, count=None):
    """[(name, value text)], a value referring to earlier names where the form lets it."""
    n = count or draw(st.integers(lo, 4))
    names = draw(st.permutations(NAMES))[:n]
    out = []
    for i, k in enumerate(names):
        v = str(draw(val))
        if i and mode in ("letseq", "letrec") and draw(st.booleans()):
            v = f"{names[draw(st.integers(0, i - 1))]} * 3 + {v}"
        elif draw(st.integers(0, 3)) == 0:
            v = f"f({v}, {draw(val)})"
        elif draw(st.integers(0, 3)) == 0:
            v = f"({v} in [1, 2, 3])"  # `in` also separates bindings and body
        elif draw(st.integers(0, 4)) == 0:
            v = f"({v} << 2)"
        out.append((k, v))
    return out


@st.composite
def body(draw, names):
    terms = [f"{draw(st.integers(1, 5))} * {k}" for k in names] + [str(draw(val))]
    t = draw(st.sampled_from([" + ".join(terms), f"f({terms[0]}, {' - '.join(terms)})", f"({', '.join(terms)},)", f"({terms[0]} in {{1, {terms[-1]}}})"]))
    return t


FORMS = ["lispy", "lispy-call", "in-list", "in-tuple", "where", "where-call", "bare-in", "bare-where"]
STYLES = ["walrus", "shift", "list", "tuple", "pair"]


@st.composite
def let_cases(draw):
    mode = draw(st.sampled_from(["let", "let", "letseq", "letrec", "letrec", "let_syntax", "abbrev"]))
    b = draw(bindings(mode))
    nb = draw(bindings(mode))
    return dict(mode=mode, form=draw(st.sampled_from(FORMS)), style=draw(st.sampled_from(STYLES)), b=b, body=draw(body([k for k, _ in b])), nb=nb,
                nbody=draw(body([k for k, _ in nb])), multi=draw(st.integers(0, 3)) == 0, once=draw(st.sampled_from(["both", "bindings", "body"])))


def write(b, style, paren):
    """Source text of the bindings. `paren`: inside a call, so an unparenthesized walrus is not possible."""
    if style == "pair" and len(b) == 1:
        return f"{b[0][0]}, {b[0][1]}"
    return ", ".join({"walrus": f"({k} := {v})", "shift": f"{k} << {v}", "list": f"[{k}, {v}]", "tuple": f"({k}, {v})", "pair": f"[{k}, {v}]"}[style] for k, v in b)


def let_source(c, b, bd):
    f, style = c["form"], c["style"]
    if style == "tuple" and len(b) == 1:
        style = "list"  # let[((k, v))] is the same source as let[k, v]; covered by "pair"
    t = write(b, style, f.endswith("call"))
    m = c["mode"]
    bd = f"[{bd}, 0, {bd}]" if c["multi"] else bd
    return {"lispy": f"{m}[{t}][{bd}]", "lispy-call": f"{m}({t})[{bd}]", "in-list": f"{m}[[{t}] in {bd}]", "in-tuple": f"{m}[({t},) in {bd}]",
            "where": f"{m}[{bd}, where[{t}]]", "where-call": f"{m}[{bd}, where({t})]", "bare-in": f"[{t}] in {bd}", "bare-where": f"({bd}, where[{t}])"}[f]


def same(tree, text, what):
    eq(ast.dump(ast.parse(ast.unparse(tree), mode="eval")), ast.dump(ast.parse(text, mode="eval")), what)


def f(*args):
    return sum(args) * 7 + len(args)


def meaning(b, bd):
    """What a let form with these bindings and this body means; later values may use earlier names."""
    env = {"f": f}
    for k, v in b:
        env[k] = eval(v, dict(env))
    return eval(bd, env)


def check_bindings(view, b, letsyntax=False):
    got = view.bindings
    require(type(got) is list and all(type(x) is ast.Tuple and len(x.elts) == 2 for x in got), "bindings are not a list of pairs")
    eq([ast.unparse(x.elts[0]) for x in got], [k for k, _ in b], "names")
    for x, (k, v) in zip(got, b):
        require(type(x.elts[0]) is ast.Name, "a name is not an ast.Name")
        same(x.elts[1], v, f"value of {k}")


def canonical(b):
    return [ast.parse(f"({k}, {v})", mode="eval").body for k, v in b]


def evaluate(src):
    from vp.macro import run_macros
    return run_macros(PRE + f"result = {src}\n", f=f)["result"]


def run_let(c):
    src = let_source(c, c["b"], c["body"])
    tree = ast.parse(src, mode="eval").body
    bare = c["form"].startswith("bare")
    kind = "lispy_expr" if c["form"].startswith("lispy") else "in_expr" if "in-" in c["form"] or c["form"] == "bare-in" else "where_expr"
    if bare:
        require(not islet(tree, expanded=False), "the content of a let taken for a let")
    else:
        eq(islet(tree, expanded=False), (kind, c["mode"]), "islet")
    require(not islet(tree, expanded=True) and not isdo(tree, expanded=False), "taken for something else")
    v = UnexpandedLetView(tree)
    eq(v.mode, None if bare else c["mode"], "mode")
    bd = f"[{c['body']}, 0, {c['body']}]" if c["multi"] else c["body"]
    check_bindings(v, c["b"])
    same(v.body, bd, "body")
    eq(ast.unparse(tree), ast.unparse(ast.parse(src, mode="eval").body), "reading a view changed the tree")
    # a view is of the tree, not a copy of it
    b, new = c["b"], c["body"]
    w = UnexpandedLetView(tree)
    if c["once"] != "body":
        b = c["nb"]
        v.bindings = canonical(b)
    if c["once"] != "bindings":
        new = c["nbody"]
        v.body = ast.parse(new, mode="eval").body
    elif {k for k, _ in c["nb"]} != {k for k, _ in c["b"]}:
        new = " + ".join(k for k, _ in b)
        v.body = ast.parse(new, mode="eval").body
    elif c["multi"]:
        new = bd
    if c["once"] == "body" and {k for k, _ in c["nb"]} != {k for k, _ in c["b"]}:
        new = " * ".join(k for k, _ in b)
        v.body = ast.parse(new, mode="eval").body
    for x in (v, w):
        check_bindings(x, b)
        same(x.body, new, "body after writing")
    text = ast.unparse(ast.fix_missing_locations(tree))
    if bare:
        text = f"{c['mode']}[{text}]" if c["form"] == "bare-in" else f"{c['mode']}[{text[1:-1]}]"
    z = UnexpandedLetView(ast.parse(text, mode="eval").body)
    check_bindings(z, b)
    same(z.body, new, "body of the edited source")
    eq(z.mode, c["mode"], "mode of the edited form")
    if new.startswith("[") and c["mode"] in ("let_syntax", "abbrev"):
        return
    want = meaning(b, c["body"] if new == bd and c["multi"] else new)
    eq(evaluate(text), want, f"value of the edited form {text}")


# ---------------------------------------------------------------- decorators

@st.composite
def deco_cases(draw):
    base = draw(st.sampled_from(["let", "letseq", "letrec"]))
    b = draw(bindings(base))
    nb = draw(bindings(base, count=len(b)))
    nb = [(k, v) for (k, _), (_, v) in zip(b, nb)] if base == "let" else [(k, str(draw(val))) for k, _ in b]
    return dict(mode=base, call=draw(st.booleans()), style=draw(st.sampled_from(STYLES)), b=b, nb=nb, body=draw(body([k for k, _ in b])), kind=draw(st.sampled_from("db")))


def run_deco(c):
    style = "list" if c["style"] == "tuple" and len(c["b"]) == 1 else c["style"]
    t = write(c["b"], style, c["call"])
    name = c["kind"] + c["mode"]
    head = f"{name}({t})" if c["call"] else f"{name}[{t}]"
    tree = ast.parse(head, mode="eval").body
    eq(islet(tree, expanded=False), ("decorator", name), "islet")
    v = UnexpandedLetView(tree)
    eq(v.mode, name, "mode")
    check_bindings(v, c["b"])
    for g in (lambda: v.body, lambda: setattr(v, "body", ast.parse("1", mode="eval").body)):
        try:
            g()
        except TypeError:
            continue
        require(False, "a decorator has no body")
    v.bindings = canonical(c["nb"])
    check_bindings(v, c["nb"])
    text = ast.unparse(ast.fix_missing_locations(tree))
    from vp.macro import run_macros
    got = run_macros(PRE + f"@{text}\ndef g():\n    return {c['body']}\nresult = g() if {c['kind'] == 'd'} else g\n", f=f)["result"]
    eq(got, meaning(c["nb"], c["body"]), "value of the edited function")


# ---------------------------------------------------------------- after expansion

@st.composite
def expanded_cases(draw):
    mode = draw(st.sampled_from(["let", "letrec"]))
    b = draw(bindings(mode))
    nb = draw(bindings(mode, count=len(b)))
    return dict(mode=mode, b=b, body=draw(body([k for k, _ in b])), nb=nb, nbody=draw(body([k for k, _ in nb])), curried=draw(st.booleans()),
                deco=draw(st.integers(0, 2)) == 0, what=draw(st.sampled_from(["both", "values", "body", "none"])))


class ToEnv(ast.NodeTransformer):
    def __init__(self, names, env):
        self.names, self.env = names, env

    def visit_Name(self, n):
        return ast.Attribute(value=ast.Name(id=self.env, ctx=ast.Load()), attr=n.id, ctx=ast.Load()) if n.id in self.names else n


def lam(text, names, env):
    return ast.fix_missing_locations(ToEnv(names, env).visit(ast.parse(f"lambda _: {text}", mode="eval").body))


def expanded(src):
    name = f"vp_views_{next(vp.macro._n)}"
    vp.macro._lookup_cache.clear()
    m = create_module(name, filename=f"<{name}>")
    sys.modules.pop(name, None)
    m.__dict__["f"] = f
    return m, expand(src, filename=m.__file__, self_module=name)


def execute(m, tree):
    sys.modules[m.__name__] = m
    try:
        tree = fix_ctx(tree, copy_seen_nodes=False)  # as the macro expander does
        exec(compile(ast.fix_missing_locations(tree), m.__file__, "exec"), m.__dict__)
    finally:
        sys.modules.pop(m.__name__, None)
    return m.__dict__["result"]


class Bag:
    pass


def run_expanded(c):
    t = ", ".join(f"[{k}, {v}]" for k, v in c["b"])
    if c["deco"]:
        lines = [f"@d{c['mode']}[{t}]", "def g():", f"    return {c['body']}", "result = g()"]
    else:
        lines = [f"result = {c['mode']}[{t}][{c['body']}]"]
    src = PRE + ("with autocurry:\n" + "\n".join("    " + x for x in lines) if c["curried"] else "\n".join(lines)) + "\n"
    m, tree = expanded(src)
    found = [n for n in ast.walk(tree) if islet(n)]
    eq(len(found), 1, "expanded let forms found")
    node = found[0]
    eq(islet(node), (("curried" if c["curried"] else "expanded") + ("_decorator" if c["deco"] else "_expr"), c["mode"]), "islet")
    require(not isdo(node) and not islet(node, expanded=False), "taken for something else")
    v = ExpandedLetView(node)
    eq((v.mode, v.curried), (c["mode"], c["curried"]), "mode, curried")
    require(type(v.bindings) is ast.Tuple, "bindings are not an ast.Tuple")

    def names(view):
        return [ast.literal_eval(x.elts[0]) for x in view.bindings.elts]
    eq(names(v), [k for k, _ in c["b"]], "names")
    # what the view reads, evaluated
    sys.modules[m.__name__] = m
    try:
        def value(node):
            return eval(compile(ast.fix_missing_locations(ast.Expression(body=node)), "<view>", "eval"), m.__dict__)
        bag = Bag()
        env = {"f": f}
        for x, (k, txt) in zip(v.bindings.elts, c["b"]):
            got = value(x.elts[1])
            got = got(bag) if c["mode"] == "letrec" else got
            env[k] = eval(txt, dict(env))
            setattr(bag, k, env[k])
            eq(got, env[k], f"value of {k}, as read from the view")
        if not c["deco"]:
            require(type(v.body) is ast.Lambda, "the body is not a lambda")
            eq(v.body.args.args[0].arg, v.envname, "name of the environment")
            eq(value(v.body)(bag), eval(c["body"], env), "body, as read from the view")
    finally:
        sys.modules.pop(m.__name__, None)
    b, bd = c["b"], c["body"]
    if c["what"] in ("both", "values"):
        # renaming needs a new body, too
        ren = c["what"] == "both" and not c["deco"]
        b = c["nb"] if ren else [(k, str(i + 4)) for i, (k, _) in enumerate(c["b"])]
        new = []
        for k, txt in b:
            e = lam(txt, [k2 for k2, _ in b], v.envname) if c["mode"] == "letrec" else ast.parse(txt, mode="eval").body
            new.append(ast.Tuple(elts=[ast.Constant(value=k), e], ctx=ast.Load()))
        v.bindings = ast.Tuple(elts=new, ctx=ast.Load())
        eq(names(v), [k for k, _ in b], "names, after writing")
        eq(names(ExpandedLetView(node)), [k for k, _ in b], "names, in another view")
        if ren:
            bd = c["nbody"]
    elif c["what"] == "body" and not c["deco"]:
        bd = c["body"] + " , 99"
    if c["deco"]:
        for g in (lambda: v.body, lambda: setattr(v, "body", lam("1", [], "q"))):
            try:
                g()
            except TypeError:
                continue
            require(False, "a decorator has no body")
    elif bd != c["body"]:
        bd = f"({bd})"
        v.body = lam(bd, [k for k, _ in b], v.envname)
        eq(v.body.args.args[0].arg, v.envname, "the environment's name is supplied")
    got = execute(m, tree)
    eq(got, meaning(b, bd), "value of the edited, expanded form")


# ---------------------------------------------------------------- do, assignments

@st.composite
def do_cases(draw):
    n = draw(st.integers(2, 5))
    items, have = [], []
    for i in range(n - 1):
        k = draw(st.sampled_from(NAMES))
        how = draw(st.sampled_from(["local", "local", "set", "expr"]))
        ref = f" + {draw(st.sampled_from(have))}" if have and draw(st.booleans()) else ""
        if how == "local" and k not in have:
            items.append(("local", k, f"{draw(val)}{ref}"))
            have.append(k)
        elif how == "set" and k in have:
            items.append(("set", k, f"{draw(val)}{ref}"))
        else:
            items.append(("expr", None, f"f({draw(val)}{ref})"))
    items.append(("expr", None, " + ".join(have + [str(draw(val))])))
    return dict(op=draw(st.sampled_from(["do", "do", "do0"])), items=items, curried=draw(st.booleans()), i=draw(st.integers(0, n - 1)), new=draw(val), style=draw(st.sampled_from(["walrus", "shift"])),
                implicit=draw(st.booleans()))


def do_text(it, style):
    kind, k, v = it
    a = f"{k} << {v}" if style == "shift" else f"{k} := {v}"
    if style == "shift" and " + " in v:
        a = f"{k} << ({v})"
    return {"local": f"local[{a}]", "set": f"({a})", "expr": v}[kind]


def do_meaning(items, op):
    env, out = {"f": f}, []
    for kind, k, v in items:
        x = eval(v, dict(env))
        if k:
            env[k] = x
        out.append(x)
    return out[0] if op == "do0" else out[-1]


def run_do(c):
    texts = [do_text(it, c["style"]) for it in c["items"]]
    src = f"{c['op']}[{', '.join(texts)}]"
    tree = ast.parse(src, mode="eval").body
    require(isdo(tree, expanded=False) and not isdo(tree, expanded=True) and not islet(tree, expanded=False), "isdo")
    target = ast.parse(f"[{', '.join(texts)}]", mode="eval").body if c["implicit"] else tree
    v = UnexpandedDoView(target)
    eq(len(v.body), len(texts), "items")
    for x, t in zip(v.body, texts):
        same(x, t, "item")
    # assignments within
    for x, (kind, k, val_) in zip(v.body, c["items"]):
        inner = x.slice if kind == "local" else x
        if kind == "expr":
            require(not isenvassign(inner), "taken for an assignment")
            try:
                UnexpandedEnvAssignView(inner)
            except TypeError:
                continue
            require(False, "not an assignment")
        eq(isenvassign(inner), ast.LShift if c["style"] == "shift" else ast.NamedExpr, "kind of assignment")
        w = UnexpandedEnvAssignView(inner)
        eq(w.name, k, "name")
        same(w.value, val_, "value")
        # there and back
        w.name = "other"
        eq((UnexpandedEnvAssignView(inner).name, isenvassign(inner)), ("other", isenvassign(x.slice if kind == "local" else x)), "renamed")
        w.name = k
        try:
            w.name = 3
        except TypeError:
            pass
        else:
            require(False, "a name must be a string")
        w.value = ast.parse(f"({val_}) * 2", mode="eval").body
        same(UnexpandedEnvAssignView(inner).value, f"({val_}) * 2", "value written")
    items = [(kind, k, f"({v_}) * 2" if k else v_) for kind, k, v_ in c["items"]]
    newbody = list(v.body)
    newbody.insert(1, ast.parse("f(1)", mode="eval").body)
    v.body = newbody
    items.insert(1, ("expr", None, "f(1)"))
    eq([ast.dump(x) for x in UnexpandedDoView(target).body], [ast.dump(x) for x in newbody], "body written")
    text = ast.unparse(ast.fix_missing_locations(target))
    eq(evaluate(f"let[[zz, 1]][{text}]" if c["implicit"] else text), do_meaning(items, "do" if c["implicit"] else c["op"]), f"value of the edited form {text}")
    # expanded
    n = len(c["items"])
    m, tree = expanded(PRE + (f"with autocurry:\n    result = do[{', '.join(texts)}]\n" if c["curried"] else f"result = do[{', '.join(texts)}]\n"))
    found = [x for x in ast.walk(tree) if isdo(x)]
    eq(len(found), 1, "expanded do forms found")
    node = found[0]
    eq(isdo(node), "curried" if c["curried"] else "expanded", "isdo")
    require(not islet(node), "taken for a let")
    v = ExpandedDoView(node)
    eq(v.curried, c["curried"], "curried")
    eq(len(v.body), n, "items")
    for x in v.body:
        require(type(x) is ast.Lambda and x.args.args[0].arg == v.envname, "an item is not a lambda of the environment")
    have = [k for kind, k, _ in c["items"] if kind == "local"]
    items = list(c["items"])
    i = c["i"]
    new = list(v.body)
    if items[i][0] == "expr":
        upto = [k for kind, k, _ in items[:i] if kind == "local"]
        txt = " + ".join(upto + [str(c["new"])])
        new[i] = lam(txt, upto, v.envname)
        items[i] = ("expr", None, txt)
    v.body = new
    eq([ast.dump(x) for x in ExpandedDoView(node).body], [ast.dump(x) for x in new], "body written")
    require(new[i].args.args[0].arg == v.envname, "the environment's name is supplied")
    eq(execute(m, tree), do_meaning(items, "do"), "value of the edited, expanded form")


# ---------------------------------------------------------------- near misses

NOT_LET = ["let", "lets[[x, 1]][x]", "let.x[[y, 1]][y]", "x.let[[y, 1]][y]", "let[1]", "let[x in y]", "let[[1, 2] in y]", "let[[x, 1] not in y]", "let[y, when[x := 1]]", "let[y, where]",
           "let[y, z, where[x := 1]]", "f(let)[x]", "let[[x, 1] in y in z]", "let()", "do[x, y]", "lambda: 0", "[x, 1]", "dlets[[x, 1]]", "x[dlet]", "Dlet[[x, 1]]", "let[where[x := 1], y]",
           "(let, 1)[0]", "let[{'x': 1} in y]", "let[y, where.x[z, 1]]", "let[y, where[x := 1].z]"]
NOT_DO = ["do", "do[x]", "do(x, y)", "dos[x, y]", "x.do[y, z]", "do[[x, y]]", "do1[x, y]", "let[[x, 1]][x]", "do[x, y][z]"]
NOT_ASSIGN = ["x >> 1", "x == 1", "f(x) << 1", "x.y << 1", "x[0] << 1", "1 << 2", "x", "(x, y)", "(x << 1) + 2", "x < 1"]
NOT_BINDINGS = ["[x, 1], (y, 2)", "[x]", "[x, 1, 2], [y, 1]", "x, 1, y", "1, 2", "[1, x], [2, y]", "x == 1, y == 2", "[x, 1], y", "x.y, 1", "(x := 1), [y, 2]", "f(x), 1", "[f(x), 1], [y, 2]", "x[0] << 1, y << 2"]


def run_not(i):
    what, s = i
    tree = ast.parse(s, mode="eval").body

    def refuses(exc, g):
        try:
            g()
        except exc:
            return
        require(False, s, "accepted by", what)
    if what == "let":
        require(not islet(tree, expanded=False), s, "taken for a let form")
        refuses(TypeError, lambda: UnexpandedLetView(tree))
        refuses(TypeError, lambda: ExpandedLetView(tree))
    elif what == "do":
        require(not isdo(tree, expanded=False), s, "taken for a do form")
        refuses(TypeError, lambda: UnexpandedDoView(tree))
        refuses(TypeError, lambda: ExpandedDoView(tree))
    elif what == "assign":
        require(not isenvassign(tree), s, "taken for an assignment")
        refuses(TypeError, lambda: UnexpandedEnvAssignView(tree))
    else:
        elts = tree.elts if type(tree) in (ast.Tuple, ast.List) else [tree]
        refuses(SyntaxError, lambda: canonize_bindings(elts))


ALL_NOT = [("let", s) for s in NOT_LET] + [("do", s) for s in NOT_DO] + [("assign", s) for s in NOT_ASSIGN] + [("bindings", s) for s in NOT_BINDINGS]

two = lambda c: len(c["b"]) >= 2
SUITES = [
    Suite("let", let_cases(), run_let, quick=2500, shards=8, nontrivial=two, labels=lambda c: [c["mode"], c["form"]]),
    Suite("decorators", deco_cases(), run_deco, quick=500, shards=4, nontrivial=two),
    Suite("expanded let", expanded_cases(), run_expanded, quick=1000, shards=6, nontrivial=two),
    Suite("do", do_cases(), run_do, quick=1000, shards=6, nontrivial=lambda c: True),
    Suite("near misses", st.sampled_from(ALL_NOT), run_not, quick=400, shards=1),
]
