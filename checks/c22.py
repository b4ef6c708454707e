"""C22: nondeterministic evaluation."""
import hypothesis.strategies as st

from vp.core import Suite, require, eq
from vp.macro import run_macros
from unpythonic import forall, choice, insist, deny, nil
from unpythonic.amb import MonadicList, monadify

RULE = ("cases are generated programs of (dependent) choices, guards, plain lines and a final expression, with shadowing, side effects and failing expressions, run by the function and by the "
        "macro form; and generated monadic lists and functions for the laws. Non-trivial: at least two choices or a choice and a guard")
TECHNIQUE = "property-based testing of generated programs: differential against a reference evaluator written as nested loops; generated inputs for the monad laws"
ASSUMPTIONS = ["nil as the value of the last line is not used (it means no result)"]

NAMES = ["x", "y", "z", "e", "begin", "names", "bodys", "assign", "self", "_"]
names = st.sampled_from(NAMES[:3] * 3 + NAMES)
consts = st.sampled_from([0, 1, 2, 3])
arith = st.deferred(lambda: st.one_of(consts.map(lambda n: ("const", n)), names.map(lambda n: ("var", n)), names.map(lambda n: ("var", n)), st.tuples(st.sampled_from(["+", "*", "-", "//", "%"]), arith, arith)))
conds = st.one_of(st.tuples(st.sampled_from(["<", "==", "!=", ">"]), arith, arith), arith, st.tuples(st.just("logged"), arith))
iters = st.deferred(lambda: st.one_of(st.tuples(st.just("range"), st.integers(0, 3)), st.tuples(st.just("list"), st.lists(arith, max_size=3)), st.tuples(st.just("rangeto"), arith),
                                      st.tuples(st.just("tuple"), st.lists(arith, max_size=2)), st.sampled_from(["", "a", "bc"]).map(lambda t: ("str", t)), arith, st.tuples(st.just("gen"), st.integers(0, 3)),
                                      st.tuples(st.just("typeerror")), st.tuples(st.just("nillist")), st.tuples(st.just("logged"), iters), st.tuples(st.just("cond"), conds, iters, iters)))
line = st.one_of(st.tuples(st.just("choice"), names, iters), st.tuples(st.just("choice"), names, st.one_of(st.tuples(st.just("range"), st.integers(1, 3)), st.tuples(st.just("list"), st.lists(arith, min_size=1, max_size=3)))),
                 st.tuples(st.just("choice"), names, st.tuples(st.just("range"), st.integers(1, 3))),
                 st.tuples(st.sampled_from(["insist", "deny"]), conds), st.tuples(st.just("line"), iters), st.tuples(st.just("line"), st.tuples(st.just("logged"), arith)))
last = st.one_of(st.lists(st.one_of(arith, names.map(lambda n: ("var", n))), min_size=1, max_size=3).map(lambda t: ("tuple", t)), arith, st.tuples(st.just("closure"), names),
                 st.tuples(st.just("list"), st.lists(arith, max_size=3)), st.just(("str", "ab")), st.tuples(st.just("logged"), arith))
programs = st.tuples(st.lists(line, max_size=4), last, st.booleans())


class BadIter:
    def __iter__(self):
        yield 1
        raise TypeError("while iterating")


def text(x, var):
    """Expression as source text; var(name) gives the text of a variable."""
    k = x[0]
    if k == "const":
        return str(x[1])
    if k == "var":
        return var(x[1])
    if k in ("+", "*", "-", "//", "%", "<", "==", "!=", ">"):
        return f"({text(x[1], var)} {k} {text(x[2], var)})"
    if k == "range":
        return f"range({x[1]})"
    if k == "rangeto":
        return f"range({text(x[1], var)})"
    if k == "list":
        return "[" + ", ".join(text(i, var) for i in x[1]) + "]"
    if k == "tuple":
        return "(" + "".join(text(i, var) + ", " for i in x[1]) + ")"
    if k == "str":
        return repr(x[1])
    if k == "gen":
        return f"(i * 2 for i in range({x[1]}))"
    if k == "typeerror":
        return "BadIter()"
    if k == "nillist":
        return "[nil, 1, nil]"
    if k == "logged":
        return f"note({text(x[1], var)})"
    if k == "cond":
        return f"({text(x[2], var)} if {text(x[1], var)} else {text(x[3], var)})"
    if k == "closure":
        return f"(lambda: {var(x[1])})"
    raise ValueError(k)


def used(x):
    if isinstance(x, tuple) and x and x[0] in ("var", "closure"):
        return {x[1]}
    out = set()
    if isinstance(x, (tuple, list)):
        for y in x:
            out |= used(y) if isinstance(y, (tuple, list)) else set()
    return out


class Unbound(Exception):
    pass


ERRORS = (TypeError, ZeroDivisionError, AttributeError, NameError, Unbound, ValueError)


def show(x):
    return x() if callable(x) else x


def reference(prog, log):
    lines, final, _ = prog
    out = []

    def note(v):
        log.append(repr(v) if isinstance(v, (int, str, list, tuple)) else type(v).__name__)
        return v

    def expr(x, env):
        src = text(x, lambda n: f"V({n!r})")

        def V(n):
            if n not in env:
                raise Unbound(n)
            return env[n]
        return eval(src, {"V": V, "note": note, "BadIter": BadIter, "nil": nil})

    def loop(j, env):
        if j == len(lines):
            out.append(expr(final, env))
            return
        ln = lines[j]
        if ln[0] in ("insist", "deny"):
            if bool(expr(ln[1], env)) == (ln[0] == "insist"):
                loop(j + 1, env)
            return
        name, x = (ln[1], ln[2]) if ln[0] == "choice" else (None, ln[1])
        v = expr(x, env)
        try:
            it = iter(v)
        except TypeError:
            it = iter([v])
        for item in list(it):
            loop(j + 1, {**env, name: item} if name else env)
    loop(0, {})
    return tuple(out)


def outcome(f, log):
    try:
        r = "value", tuple(show(x) for x in f())
    except ERRORS as e:
        r = "raised", "unbound" if isinstance(e, (Unbound, AttributeError, NameError)) else type(e).__name__
    return r, log


def run_program(prog):
    lines, final, wrap = prog
    log = []
    want = outcome(lambda: reference(prog, log), log)
    # function form
    flog = []

    def note(v):
        flog.append(repr(v) if isinstance(v, (int, str, list, tuple)) else type(v).__name__)
        return v
    ns = {"note": note, "BadIter": BadIter, "insist": insist, "deny": deny, "nil": nil}

    def body(src, x, guard=False):
        if wrap and not guard and not used(x) and "note" not in src and "BadIter" not in src and "gen" not in repr(x):
            try:
                v = eval(src, ns)
                return v if not callable(v) else (lambda e: v)  # no environment needed
            except ERRORS:
                pass
        return eval("lambda e: " + src, ns)

    def parts():
        out = []
        for ln in lines:
            if ln[0] == "choice":
                out.append(choice(**{ln[1]: body(text(ln[2], lambda n: "e." + n), ln[2])}))
            elif ln[0] == "line":
                out.append(body(text(ln[1], lambda n: "e." + n), ln[1]))
            else:
                out.append(body(f"{ln[0]}({text(ln[1], lambda n: 'e.' + n)})", ln[1], True))
        out.append(body(text(final, lambda n: "e." + n), final))
        return out
    # (the closures in the results run when shown, with the environment of their own branch)
    got = outcome(lambda: forall(*parts()), flog)
    eq(got, want, "function form")
    # macro form
    if not lines and final[0] == "tuple":
        return
    mlog = []

    def mnote(v):
        mlog.append(repr(v) if isinstance(v, (int, str, list, tuple)) else type(v).__name__)
        return v
    src = []
    for ln in lines:
        if ln[0] == "choice":
            src.append(f"{ln[1]} << {text(ln[2], str)}" if not wrap else f"({ln[1]} := {text(ln[2], str)})")
        elif ln[0] == "line":
            src.append(text(ln[1], str))
        else:
            src.append(f"{ln[0]}({text(ln[1], str)})")
    src.append(text(final, str))
    whole = ("from unpythonic.syntax import macros, forall\nfrom unpythonic.syntax import insist, deny\ndef prog():\n    return forall[" + ",\n        ".join(src) + ",]\n")
    env = run_macros(whole, note=mnote, BadIter=BadIter, nil=nil)
    got = outcome(env["prog"], mlog)
    eq(got, want, "macro form")


def nontrivial(p):
    n = sum(ln[0] == "choice" for ln in p[0])
    return n >= 2 or n and any(ln[0] in ("insist", "deny") for ln in p[0])


# ---------------------------------------------------------------- the monad

elt = st.one_of(st.integers(-3, 3), st.sampled_from(["", "ab", None, (), (1, 2), [3]]), st.just("nil"))
lists = st.lists(elt, max_size=4)
fns = st.lists(lists, min_size=1, max_size=4)  # a function a -> [b], by position of a crude hash
monads = st.tuples(lists, fns, fns, lists, st.booleans())


def h(x):
    return len(repr(x)) + (x if isinstance(x, int) and not isinstance(x, bool) else 0)


def run_monad(case):
    xs, ft, gt, ys, b = case
    real = [nil if x == "nil" else x for x in xs]
    m = MonadicList.from_iterable(real)
    calls = []

    def fl(x):
        calls.append(x)
        return [nil if v == "nil" else v for v in ft[h(x) % len(ft)]]

    def gl(x):
        return [nil if v == "nil" else v for v in gt[h(x) % len(gt)]]

    def f(x):
        return MonadicList.from_iterable(fl(x))

    def g(x):
        return MonadicList.from_iterable(gl(x))

    def same(got, want, what):
        require(isinstance(got, MonadicList), what, "gave a", type(got))
        eq(list(got), list(want), what)
        require(got == MonadicList.from_iterable(want), what, "equality")
    same(m, real, "from_iterable")
    eq(len(m), len(real), "len")
    for i in range(len(real)):
        require(m[i] is real[i], "item", i)
    same(m.copy(), real, "copy")
    require(m.copy() is not m, "copy is the same object")
    same(m.fmap(len), [len(x) for x in real], "fmap") if all(hasattr(x, "__len__") for x in real) else None
    same(m.fmap(lambda x: (x,)), [(x,) for x in real], "fmap")
    del calls[:]
    same(m >> f, [y for x in real for y in fl_quiet(ft, x)], "bind")
    require(len(calls) == len(real) and all(a is b for a, b in zip(calls, real)), "bind calls the function once per item, in order")
    same(m.fmap(f).join(), [y for x in real for y in fl_quiet(ft, x)], "fmap and join")
    mine = MonadicList.from_iterable([nil if y == "nil" else y for y in ys])
    same(m.then(mine), list(mine) * len(real), "then")
    same(m + mine, real + list(mine), "concatenation")
    # the laws
    for x in real:
        if x is not nil:
            same(MonadicList(x) >> f, list(f(x)), "left identity")
            if fl_quiet(ft, x)[:1] != [nil]:
                same(MonadicList.lift(lambda v: (v, 1))(x), [(x, 1)], "lift")
    if not any(x is nil for x in real):
        same(m >> MonadicList, real, "right identity")
        same(MonadicList(*real), real, "unit of several")
    same((m >> f) >> g, list(m >> (lambda x: f(x) >> g)), "associativity")
    same(MonadicList.guard(b), [True] if b else [], "guard") if b else same(MonadicList.guard(b), [], "guard")
    same(m >> (lambda x: insist(x) .then(MonadicList.from_iterable([x]))), [x for x in real if x], "filter with insist")
    same(m >> (lambda x: deny(x).then(MonadicList.from_iterable([x]))), [x for x in real if not x], "filter with deny")
    for bad in (lambda: m.then([1]), lambda: m + [1], lambda: MonadicList(1).join()):
        try:
            bad()
        except TypeError:
            pass
        else:
            require(False, "accepted a wrong type")
    if real:
        try:
            m >> (lambda x: [x])
        except TypeError:
            pass
        else:
            require(False, "bind accepted a function that gives an ordinary list")
    same(monadify(real), real, "monadify")
    require(monadify(m) is m, "monadify of a monadic list")
    if real and real[0] is not nil:
        same(monadify(real, unpack=False), [real], "monadify without unpacking")
    eq(list(m), real, "the list afterwards")


def fl_quiet(ft, x):
    return [nil if v == "nil" else v for v in ft[h(x) % len(ft)]]


def run_badchoice(case):
    for bad in (lambda: choice(), lambda: choice(x=1, y=2), ):
        try:
            bad()
        except ValueError:
            pass
        else:
            require(False, "accepted a choice with other than one name")
    log = []
    try:
        forall(lambda e: log.append(1), lambda: 2)
    except TypeError:
        eq(log, [], "ran before the arity was checked")
    else:
        require(False, "accepted a line that does not take the environment")


SUITES = [
    Suite("programs", programs, run_program, quick=3000, shards=8, nontrivial=nontrivial),
    Suite("monadic list", monads, run_monad, quick=3000, shards=4, nontrivial=lambda c: len(c[0]) >= 2),
    Suite("bad choices", st.just(()), run_badchoice, quick=1, shards=1),
]
