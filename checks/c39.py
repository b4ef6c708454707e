"""C39: malformed uses of the macros are refused when the program is expanded."""
import ast  # noqa: F401

import vp.macro
from vp.macro import expand, create_module
import hypothesis.strategies as st

from vp.core import Suite, require, HarnessError

RULE = ("cases are a malformed use of a macro (chosen from the documented restrictions, with generated names, sizes and positions), together with its well-formed twin, both placed "
        "in the same generated surroundings (module level, function, method, loop, lambda, other macro blocks). Non-trivial: in surroundings other than the module's top level, or with "
        "more than the minimal number of parts")
TECHNIQUE = "property-based testing, metamorphic pairs: the malformed program must be refused at expansion time with a syntax error, its well-formed twin must expand"
ASSUMPTIONS = ["a refusal is any exception at expansion time caused by a SyntaxError; the text of the message is free",
               "duplicate names in let and letrec may also be refused when the form is evaluated"]

MACROS = ("let, letseq, letrec, dlet, dletseq, dletrec, blet, bletrec, let_syntax, abbrev, expr, block, do, do0, local, delete, where, autocurry, autoref, dbg, forall, aif, it, cond, "
          "multilambda, namedlambda, quicklambda, envify, lazify, lazy, lazyrec, nb, prefix, q, u, kw, autoreturn, tco, continuations, call_cc, fn, test, test_raises, test_signals, the, fail")
PRE = f"from unpythonic.syntax import macros, {MACROS}\nfrom unpythonic import *\n"

NAMES = ["a", "b", "c", "x1", "foo"]
name = st.sampled_from(NAMES)


# ---- malformed expressions: each gives (good, bad) texts

@st.composite
def e_do_dup(draw):
    ns = draw(st.permutations(NAMES))[:draw(st.integers(2, 4))]
    good = [f"local[{n} := {i}]" for i, n in enumerate(ns)]
    bad = list(good)
    i, j = sorted(draw(st.permutations(range(len(ns))))[:2])
    bad[j] = f"local[{ns[i]} := 9]"
    op = draw(st.sampled_from(["do", "do0"]))
    tail = ["1"] if op == "do" else []
    pre = ["0"] if op == "do0" else []
    return f"{op}[{', '.join(pre + good + tail)}]", f"{op}[{', '.join(pre + bad + tail)}]"


@st.composite
def e_do_misplaced(draw):
    """local[] and delete[] only at the top level of a do"""
    n = draw(name)
    op = draw(st.sampled_from(["do", "do0"]))
    what = draw(st.sampled_from([f"local[{n}9 := 1]", f"local[{n}9 << 1]", f"delete[{n}]"]))
    inner = draw(st.sampled_from(["[{}]", "f({})", "1 + {}", "(lambda: {})", "({} if f else 0)", "{{1: {}}}", "not {}"]))
    return f"{op}[local[{n} := 1], {what}, f(2)]", f"{op}[local[{n} := 1], {inner.format(what)}, f(2)]"


@st.composite
def e_outside_do(draw):
    n = draw(name)
    what = draw(st.sampled_from([f"local[{n} := 1]", f"delete[{n}]", f"local[{n} << f(1)]"]))
    return f"do[local[{n} := 0], 1]" if "local" in what else f"do[local[{n} := 0], delete[{n}], 1]", what


@st.composite
def e_local_form(draw):
    n = draw(name)
    bad = draw(st.sampled_from([f"local[{n}]", f"local[{n} == 1]", "local[f(1)]", f"local[{n} := 1, {n}2 := 2]", f"local[f.{n} << 1]", f"local[f[0] << 1]"]))
    return f"do[local[{n} := 1], {n}]", f"do[{bad}, 1]"


@st.composite
def e_delete_form(draw):
    n = draw(name)
    bad = draw(st.sampled_from(["delete[1]", f"delete[f.{n}]", f"delete[{n}, {n}]", f"delete[f({n})]", f"delete[{n}[0]]"]))
    return f"do[local[{n} := 1], delete[{n}], 2]", f"do[local[{n} := 1], {bad}, 2]"


@st.composite
def e_do_both(draw):
    n, m = draw(st.permutations(NAMES))[:2]
    return f"do[local[{n} := 1], local[{m} := 2], delete[{n}], 3]", f"do[local[{n} := 1], local[{m} := delete[{n}]], 3]"


@st.composite
def e_bindings(draw):
    m = draw(st.sampled_from(["let", "letseq", "letrec"]))
    ns = draw(st.permutations(NAMES))[:draw(st.integers(2, 4))]
    good = [f"[{n}, {i}]" for i, n in enumerate(ns)]
    bad = list(good)
    k = draw(st.integers(0, len(ns) - 1))
    n = ns[k]
    bad[k] = draw(st.sampled_from([f"[{n}]", f"[{n}, 1, 2]", f"{n}", f"[f.{n}, 1]", f"[{n}[0], 1]", f"['{n}', 1]", f"{n} == 1", f"{{{n}: 1}}", f"[f({n}), 1]", f"*[{n}, 1]"]))
    if bad[k] == n and len(ns) == 2:
        bad[k] = f"[{n}]"  # a name first of two reads as one key, value pair
    form = draw(st.sampled_from(["{m}[{b}][f(1)]", "{m}[[{b}] in f(1)]", "{m}[f(1), where[{b}]]", "{m}({b})[f(1)]"]))
    return form.format(m=m, b=", ".join(good)), form.format(m=m, b=", ".join(bad))


@st.composite
def e_let_shape(draw):
    m = draw(st.sampled_from(["let", "letseq", "letrec", "let_syntax", "abbrev"]))
    n = draw(name)
    bad = draw(st.sampled_from([f"{m}[{n}]", f"{m}[f(1)]", f"{m}[1, 2, 3]", f"{m}[[{n}, 1] not in f({n})]", f"{m}[f(1), when[{n}, 1]]"]))
    return f"{m}[[{n}, 1]][f({n})]", bad


@st.composite
def e_where(draw):
    n = draw(name)
    return f"let[f({n}), where[{n}, 1]]", draw(st.sampled_from([f"f(where[{n}, 1])", f"where[{n}, 1]", "where"]))


@st.composite
def e_letsyntax_dup(draw):
    m = draw(st.sampled_from(["let_syntax", "abbrev"]))
    ns = draw(st.permutations(NAMES))[:draw(st.integers(2, 4))]
    templ = draw(st.lists(st.booleans(), min_size=len(ns), max_size=len(ns)))
    lhs = lambda n, t: f"{n}[z]" if t else n
    good = [f"[{lhs(n, t)}, f({i})]" for i, (n, t) in enumerate(zip(ns, templ))]
    bad = list(good)
    i, j = sorted(draw(st.permutations(range(len(ns))))[:2])
    bad[j] = f"[{lhs(ns[i], templ[j])}, f(9)]"
    return f"{m}[{', '.join(good)}][f(1)]", f"{m}[{', '.join(bad)}][f(1)]"


@st.composite
def e_template_args(draw):
    m = draw(st.sampled_from(["let_syntax", "abbrev"]))
    k = draw(st.integers(1, 3))
    j = draw(st.integers(1, 4).filter(lambda j: j != k))
    formals = ", ".join(f"z{i}" for i in range(k))
    use = lambda n: f"foo[{', '.join(str(i) for i in range(n))}]"
    d = f"[foo[{formals}], f({formals})]"
    return f"{m}[{d}][f({use(k)})]", f"{m}[{d}][f({use(j)})]"


@st.composite
def e_template_formals(draw):
    m = draw(st.sampled_from(["let_syntax", "abbrev"]))
    bad = draw(st.sampled_from(["foo(*z)", "foo(z=1)", "foo(**z)", "f.foo", "3", "'foo'"]))
    return f"{m}[[foo(z), f(z)]][f(foo(1))]", f"{m}[[{bad}, f(1)]][f(1)]"


@st.composite
def e_it(draw):
    good = "aif[f(1), it, f(2)]"
    return good, draw(st.sampled_from(["aif[f(it), 1, 2]", "it", "f(it)", "aif[it, 1, 2]", "(lambda: it)", "aif[f(lambda: it), it, 2]", "cond[it, 1, 2]"]))


@st.composite
def e_cond(draw):
    n = draw(st.integers(1, 3))
    clauses = ", ".join(f"f({i}), {i}" for i in range(n))
    return f"cond[{clauses}, 5]", draw(st.sampled_from([f"cond[{clauses}]", f"cond[{clauses}, 5, 6]", "cond[f(1)]"]))


@st.composite
def e_seq(draw):
    op = draw(st.sampled_from(["do", "do0", "forall"]))
    good = {"do": "do[1, f(2)]", "do0": "do0[1, f(2)]", "forall": "forall[a := range(3), a]"}[op]
    return good, f"{op}[{draw(st.sampled_from(['f(1)', '1', 'f', 'f + 1']))}]"


@st.composite
def e_lazyrec(draw):
    c = draw(st.sampled_from(["tuple", "list", "set", "frozenset"]))
    return f"lazyrec[{c}([f(1), 2])]", f"lazyrec[{c}([f(1)], [2])]"


@st.composite
def e_the(draw):
    return "test[f(1) == the[f(1)]]", draw(st.sampled_from(["the[f(1)]", "f(the[1])", "[the[2]]"]))


@st.composite
def e_testargs(draw):
    t = draw(st.sampled_from(["test_raises", "test_signals"]))
    return f"{t}[ValueError, f(1)]", draw(st.sampled_from([f"{t}[ValueError]", f"{t}[ValueError, f(1), 'm', 2]", f"{t}[f(1)]", "test['m'][f(1)]", f"{t}[ValueError, 'm'][f(1)]"]))


@st.composite
def e_prefix_ops(draw):
    return "f(1)", draw(st.sampled_from(["q", "u", "kw", "kw(a=1)", "f(q)", "(u, 1)"]))


@st.composite
def e_wrongkind(draw):
    """block macros as expressions, and the other way around"""
    m = draw(st.sampled_from(["autocurry", "autoref", "multilambda", "namedlambda", "quicklambda", "envify", "lazify", "nb", "prefix", "autoreturn", "tco", "continuations", "expr", "block"]))
    return "f(1)", f"{m}[f(1)]"


EXPRS = [e_do_dup, e_do_misplaced, e_outside_do, e_local_form, e_delete_form, e_do_both, e_bindings, e_let_shape, e_where, e_letsyntax_dup, e_template_args, e_template_formals, e_it, e_cond,
         e_seq, e_lazyrec, e_the, e_testargs, e_prefix_ops, e_wrongkind]

EWRAP = ["r = {}", "def g():\n    return {}", "class C:\n    def m(self):\n        return [0, {}]", "r = (lambda: {})", "for _ in [1]:\n    r = f({})", "r = [{} for _ in range(2)]",
         "with autoreturn:\n    def g():\n        {}", "with namedlambda:\n    r = {}", "r = let[[zz, 1]][f(zz, {})]", "r = do[f(0), {}]", "if f:\n    pass\nelse:\n    r = {}",
         "@f\ndef g():\n    return {}", "with tco:\n    def g():\n        return {}", "def g(k=({})):\n    return k"]


# ---- malformed statements: (good, bad) lists of lines

@st.composite
def s_aspart(draw):
    m = draw(st.sampled_from(["autocurry", "multilambda", "namedlambda", "quicklambda", "envify", "lazify", "nb", "prefix", "autoreturn", "tco", "continuations", "dbg", "let_syntax", "abbrev", "test"]))
    return [f"with {m}:", "    r = (f, 1)"], [f"with {m} as {draw(name)}:", "    r = (f, 1)"]


@st.composite
def s_wrongkind(draw):
    m = draw(st.sampled_from(["let", "letrec", "do", "do0", "local", "delete", "forall", "aif", "cond", "lazy", "lazyrec", "call_cc", "the", "fn"]))
    bad = draw(st.sampled_from([[f"with {m}:", "    f(1)"], [f"@{m}", "def g():", "    pass"]]))
    return ["f(1)"], bad


@st.composite
def s_autoref(draw):
    return ["with autoref[f] as ff:", "    r = 1"], draw(st.sampled_from([["with autoref:", "    r = 1"], ["with autoref[f, f]:", "    r = 1"], ["with autoref[f] as (a, b):", "    r = 1"]]))


@st.composite
def s_deco(draw):
    m = draw(st.sampled_from(["dlet", "dletseq", "dletrec", "blet", "bletrec"]))
    return [f"@{m}[[a, 1]]", "def g():", "    return a"], [f"@{m}[[a, 1]]", "class G:", "    z = 1"]


@st.composite
def s_letsyntax(draw):
    m = draw(st.sampled_from(["let_syntax", "abbrev"]))
    n, k = draw(st.permutations(NAMES))[:2]
    good = [f"with {m}:", f"    with block as {n}:", "        f(1)", f"    with expr as {k}:", "        f(2)", f"    {n}", f"    r = {k}"]
    bads = [
        [f"with {m}:", "    with block:", "        f(1)", "    r = 1"],
        [f"with {m}:", f"    with block as {n}.x:", "        f(1)", "    r = 1"],
        [f"with {m}:", f"    with block as ({n}, {k}):", "        f(1)", "    r = 1"],
        [f"with {m}:", f"    with block as {n}:", "        f(1)", f"    with expr as {n}:", "        f(2)", "    r = 1"],
        [f"with {m}:", f"    with expr as {n}:", "        f(1)", "        f(2)", "    r = 1"],
        [f"with {m}:", f"    with expr as {n}:", "        zz = 1", "    r = 1"],
        [f"with {m}:", f"    with block as {n}:", "        f(1)"],
        [f"with {m}:", f"    with block as {n}:", "        f(1)", f"    r = f({n})"],
        [f"with {m}:", f"    with block[z] as {n}:", "        f(z)", f"    r = f({n}[2])"],
        [f"with {m}:", f"    with block[z] as {n}:", "        f(z)", f"    {n}[1, 2]"],
        [f"with {m}:", f"    with expr[z, w] as {n}:", "        f(z, w)", f"    r = {n}[1]"],
        [f"with block as {n}:", "    f(1)"],
        [f"with expr as {n}:", "    f(1)"],
    ]
    return good, draw(st.sampled_from(bads))


@st.composite
def s_callcc(draw):
    """the restrictions on call_cc"""
    a, b = draw(st.permutations(NAMES))[:2]
    call = draw(st.sampled_from(["g(1)", "g(1, 2)", "g()"]))
    pre = ["def g(*args, cc):", "    return args"]
    indef = draw(st.booleans())

    def place(lines, then=("f(1)",)):
        body = list(lines) + list(then)
        inner = ["def h(cc):"] + ["    " + x for x in body] + ["    return 1"] if indef else body
        return ["with continuations:"] + ["    " + x for x in pre + inner]
    good = place([draw(st.sampled_from([f"{a} = call_cc[{call}]", f"{a}, *{b} = call_cc[{call}]", f"call_cc[{call}]", f"{a} = call_cc[{call} if f else None]", f"*{a}, = call_cc[{call}]"]))])
    bads = [
        place([f"{a} = {b} = call_cc[{call}]"]),
        place([f"*{a}, {b} = call_cc[{call}]"]),
        place([f"f.{a} = call_cc[{call}]"]),
        place([f"{a}, f.{b} = call_cc[{call}]"]),
        place([f"f.{a}, {b} = call_cc[{call}]"]),
        place([f"{a}, *f.{b} = call_cc[{call}]"]),
        place([f"f[0] = call_cc[{call}]"]),
        place([f"{a} = call_cc[1]"]),
        place([f"{a} = call_cc[{b}]"]),
        place([f"{a} = call_cc[{call} + 1]"]),
        place([f"{a} = call_cc[{call} if f else 1]"]),
        place([f"{a} = call_cc[lambda: {call}]"]),
        place([f"{a} = call_cc[[{call}]]"]),
        place(["if f:", f"    {a} = call_cc[{call}]"]),
        place([f"for {b} in [1, 2]:", f"    {a} = call_cc[{call}]"]),
        place(["while f:", f"    call_cc[{call}]"]),
        place(["with f:", f"    {a} = call_cc[{call}]"]),
        place(["try:", f"    {a} = call_cc[{call}]", "finally:", "    pass"]),
        place([f"{a} = 1 + call_cc[{call}]"]),
        place([f"{a} = f(call_cc[{call}])"]),
        place([f"{a} = [call_cc[{call}]]"]),
        place([f"{a} += call_cc[{call}]"]),
        place([f"return call_cc[{call}]"]) if indef else place(["return 1"]),
        place([f"{a} = call_cc({call})"]),
        place([f"{a} = (lambda: call_cc[{call}])"]),
        place(["async def k():", "    pass"]),
        ["with continuations:"] + ["    " + x for x in pre + ["f(1)", f"{a} = call_cc[{call}]"]],
        ["with continuations:"] + ["    " + x for x in pre + [f"call_cc[{call}]"]],
        pre + [f"{a} = call_cc[{call}]", "f(1)"],
        ["with tco:"] + ["    " + x for x in pre + [f"{a} = call_cc[{call}]", "f(1)"]],
    ]
    return good, bads[draw(st.integers(0, len(bads) - 1))]


@st.composite
def s_prefix(draw):
    good = draw(st.sampled_from([["with prefix:", "    r = (f, 1, kw(a=2))"], ["with prefix:", "    r = (q, f, 1)"], ["with prefix:", "    r = (q, f, (u, f, 1))"]]))
    bads = [["with prefix:", "    r = (u, f, 1)"], ["with prefix:", "    r = (q, u, u, f, 1)"], ["with prefix:", "    r = (q,)"], ["with prefix:", "    r = (q, f, (u, u, f, 1))"],
            ["with prefix:", "    r = (f, kw(1))"], ["with prefix:", "    r = (f, kw(**f))"], ["with prefix:", "    r = (q, f, kw(a=2))"], ["with prefix:", "    r = (q, u)"]]
    return good, draw(st.sampled_from(bads))


@st.composite
def s_test(draw):
    t = draw(st.sampled_from(["test_raises", "test_signals"]))
    good = [f"with {t}[ValueError, 'm']:", "    f(1)"]
    bads = [[f"with {t}:", "    f(1)"], [f"with {t}[ValueError, 'm', 3]:", "    f(1)"], ["with test['m', 'n']:", "    f(1)"], [f"with {t}[ValueError] as a:", "    f(1)"]]
    return good, draw(st.sampled_from(bads))


@st.composite
def s_dbg(draw):
    return ["with dbg[f]:", "    r = 1"], draw(st.sampled_from([["with dbg[f.x]:", "    r = 1"], ["with dbg[f()]:", "    r = 1"], ["with dbg['f']:", "    r = 1"]]))


STMTS = [s_aspart, s_wrongkind, s_autoref, s_deco, s_letsyntax, s_callcc, s_callcc, s_callcc, s_prefix, s_test, s_dbg]

SWRAP = [("", 0), ("if f:\n", 1), ("def g0():\n", 1), ("for _ in [1]:\n", 1), ("class C:\n    def m(self):\n", 2), ("try:\n    f\nexcept E:\n", 1), ("with f:\n", 1),
         ("with namedlambda:\n", 1), ("with autoreturn:\n    def g0():\n", 2)]


@st.composite
def ecases(draw):
    i = draw(st.integers(0, len(EXPRS) - 1))
    good, bad = draw(EXPRS[i]())
    wrap = draw(st.integers(0, len(EWRAP) - 1))
    if EXPRS[i] is e_outside_do and "do[" in EWRAP[wrap]:
        wrap = 0
    return dict(what=EXPRS[i].__name__, good=good, bad=bad, wrap=wrap, around=draw(st.integers(0, 3)))


@st.composite
def scases(draw):
    i = draw(st.integers(0, len(STMTS) - 1))
    good, bad = draw(STMTS[i]())
    wrap = draw(st.integers(0, len(SWRAP) - 1))
    if wrap == 8 and "with continuations:" in good[0]:
        wrap = 4  # autoreturn puts a `return` at the end of the block, and that is not allowed there
    return dict(what=STMTS[i].__name__, good=good, bad=bad, wrap=wrap, around=draw(st.integers(0, 3)))


def try_expand(src):
    vp.macro._lookup_cache.clear()
    nm = f"vp_refused_{next(vp.macro._n)}"
    m = create_module(nm, filename=f"<{nm}>")
    import sys
    try:
        compile(expand(src, filename=m.__file__, self_module=nm), m.__file__, "exec")
    except Exception as e:
        seen = e
        while seen is not None:
            if isinstance(seen, SyntaxError):
                return "refused", e
            seen = seen.__cause__ or seen.__context__
        return "crashed", e
    finally:
        sys.modules.pop(nm, None)
    return "accepted", None


def surround(text, n):
    return PRE + ["", "x0 = 1\n", "def unrelated(p):\n    return p\n", "class U:\n    pass\n"][n] + text + "\nafter = 1\n"


def judge(c, good, bad):
    ast.parse(good)
    try:
        ast.parse(bad)
    except SyntaxError:
        return  # not a Python program in the first place
    r, e = try_expand(good)
    require(r == "accepted", "well-formed program not accepted:", r, repr(e), "\n" + good)
    r, e = try_expand(bad)
    require(r != "accepted", "malformed program", r, repr(e) if e else "", "\n" + bad)


def run_e(c):
    w = EWRAP[c["wrap"]]
    put = lambda t: surround(w.replace("{}", t), c["around"])
    judge(c, put(c["good"]), put(c["bad"]))


def run_s(c):
    head, ind = SWRAP[c["wrap"]]
    put = lambda lines: surround(head + "\n".join("    " * ind + x for x in lines), c["around"])
    judge(c, put(c["good"]), put(c["bad"]))


SUITES = [
    Suite("expressions", ecases(), run_e, quick=1200, shards=8, nontrivial=lambda c: c["wrap"] > 0, labels=lambda c: [c["what"]]),
    Suite("statements", scases(), run_s, quick=1000, shards=8, nontrivial=lambda c: c["wrap"] > 0, labels=lambda c: [c["what"]]),
]
