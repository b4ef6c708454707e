"""C14: environments and let forms."""
import copy
import pickle

import hypothesis.strategies as st

from vp.core import Suite, require, eq, short
from unpythonic import let as plet, letrec as pletrec, dlet as pdlet, dletrec as pdletrec, blet as pblet, bletrec as pbletrec
from unpythonic import lispylet, do, do0, assign
from unpythonic.env import env
from unpythonic.assignonce import assignonce

RULE = ("cases are operation histories on environments and assign-once environments (finalized or not, legal and illegal operations, names that collide with the "
        "mapping API), let/letrec forms of every kind with generated bindings and bodies, and do sequences. Non-trivial: at least two bindings or operations")
TECHNIQUE = "model-based property-based testing: dict model of the environment; reference evaluator for the let forms"
ASSUMPTIONS = ["reserved names (set, clear, finalize, _env...) are refused with AttributeError",
               "the exception for a refused operation is AttributeError, ValueError, TypeError or KeyError as documented for the kind of misuse; the state must be unchanged"]

# ---------------------------------------------------------------- environments
NAMES = ["a", "b", "c", "items", "keys", "get", "update", "values", "pop", "_x", "é"]
BAD = ["set", "clear", "finalize", "not valid", "1x", ""]
nm = st.one_of(st.sampled_from(NAMES[:4]), st.sampled_from(NAMES[:4]), st.sampled_from(NAMES + BAD))
v = st.integers(0, 99)
env_ops = st.one_of(
    st.tuples(st.sampled_from(["setattr", "setitem", "set", "lshift", "setdefault"]), nm, v),
    st.tuples(st.sampled_from(["setattr", "setitem", "set", "lshift", "setdefault"]), nm, v),
    st.tuples(st.sampled_from(["delattr", "delitem", "pop", "popdef", "getbad"]), nm, v),
    st.tuples(st.sampled_from(["popitem", "clear", "finalize", "copy", "pickle"]), nm, v),
    st.tuples(st.sampled_from(["update_d", "update_p", "update_g", "update_kw", "update_env"]), st.lists(st.tuples(nm, v), max_size=3), v),
)


@st.composite
def env_cases(draw):
    init = draw(st.dictionaries(st.sampled_from(NAMES), v, max_size=3))
    if draw(st.integers(0, 5)) == 0:
        init["self"] = 1
        init["cls"] = 2
    return dict(once=draw(st.integers(0, 2)) == 0, init=list(init.items()), ops=draw(st.lists(env_ops, max_size=10)), cm=draw(st.integers(0, 4)) == 0)


API = ("items", "keys", "values", "get", "update", "pop", "popitem", "setdefault")


def run_env(c):
    once = c["once"]
    cls = assignonce if once else env
    model = dict(c["init"])
    fin = False
    e = cls(**model)

    def check():
        eq(list(e), list(model), "names, in order")
        eq([(k, e[k]) for k in e], list(model.items()), "items by subscript")
        for k, x in model.items():
            eq(getattr(e, k), x, f"attribute {k}")
        eq(len(e), len(model), "len")
        require(e == model and not (e != model), "equality with a dict")
        require(e == cls(**model), "equality of environments")
        for k in NAMES + BAD:
            eq(k in e, k in model, f"contains {k!r}")
            if k not in model:
                for f in (lambda: getattr(e, k), lambda: e[k]):
                    try:
                        got = f()
                    except (AttributeError, ValueError):
                        continue
                    require(k in API or k in BAD, "missing name", k, "reads as", short(got))
        if not any(k in model for k in API):
            eq(list(e.items()), list(model.items()), "items()")
            eq(list(e.keys()), list(model.keys()), "keys()")
            eq(list(e.values()), list(model.values()), "values()")
            eq([e.get(k) for k in NAMES[:3]], [model.get(k) for k in NAMES[:3]], "get")
            eq(e.get("a", 5), model.get("a", 5), "get")
            eq(dict(**e), model, "** unpacking")

    def new_ok(k):
        return k not in BAD and not (fin and k not in model)
    check()
    for what, k, x in c["ops"]:
        bad = (AttributeError, ValueError, TypeError, KeyError)
        if what in API and what in model or what.startswith("update") and "update" in model or what == "popdef" and "pop" in model:
            continue  # the method is shadowed by a binding of its name
        try:
            if what in ("setattr", "setitem"):
                legal = new_ok(k) and not (once and k in model)
                if what == "setattr":
                    setattr(e, k, x)
                else:
                    e[k] = x
                new = {**model, k: x}
            elif what in ("set", "lshift"):
                legal = k in model
                if what == "set":
                    require(e.set(k, x) == x, "set returns the value")
                else:
                    require((e << (k, x)) is e, "<< returns the environment")
                new = {**model, k: x}
            elif what == "setdefault":
                legal = k in model or new_ok(k)
                r = e.setdefault(k, x)
                new = dict(model)
                require(new.setdefault(k, x) == r, "setdefault")
            elif what in ("delattr", "delitem"):
                legal = not fin and k in model
                if what == "delattr":
                    delattr(e, k)
                else:
                    del e[k]
                new = {a: b for a, b in model.items() if a != k}
            elif what == "pop":
                legal = not fin and k in model
                r = e.pop(k)
                new = dict(model)
                eq(r, new.pop(k, None), "pop")
            elif what == "popdef":
                legal = not fin
                r = e.pop(k, x)
                new = dict(model)
                eq(r, new.pop(k, x), "pop with default")
            elif what == "popitem":
                legal = not fin and bool(model)
                r = e.popitem()
                new = dict(model)
                eq(r, new.popitem() if model else None, "popitem")
            elif what == "clear":
                legal = not fin
                e.clear()
                new = {}
            elif what == "finalize":
                e.finalize()
                fin, legal, new = True, True, model
            elif what == "getbad":
                legal, new = k in model, model
                e[k]
                if k in API:
                    legal = True
                elif k in ("set", "clear", "finalize"):
                    legal = True
            elif what == "copy":
                e2 = copy.copy(e)
                require(type(e2) is cls and e2 == model, "copy")
                legal, new = True, model
                if "a" in model:
                    e2.set("a", -1)
                elif not fin:
                    e2["a"] = -1
            elif what == "pickle":
                e2 = pickle.loads(pickle.dumps(e))
                require(type(e2) is cls and e2 == model, "pickle")
                legal, new = True, model
                if fin and "zz" not in model:
                    try:
                        e2.zz = 1
                    except AttributeError:
                        pass
                    else:
                        require(False, "a finalized environment is not finalized after unpickling")
            else:
                pairs = k
                legal = all(new_ok(n) and not (once and n in model) for n, _ in pairs)
                if what == "update_d":
                    e.update(dict(pairs))
                elif what == "update_p":
                    e.update(list(pairs))
                elif what == "update_g":
                    e.update(p for p in pairs)
                elif what == "update_kw":
                    e.update(**dict(pairs))
                else:
                    if any(n in BAD for n, _ in pairs) or any(n in API for n, _ in pairs):
                        continue
                    e.update(env(**dict(pairs)))
                new = dict(model)
                new.update(pairs)
        except bad as err:
            require(not legal, f"legal operation {what} {k!r} refused: {err!r}")
        else:
            require(legal, f"illegal operation {what} {k!r} accepted (finalized: {fin}, assign-once: {once}, names: {list(model)})")
            model = dict(new)
        check()
    if c["cm"]:
        with e as e2:
            require(e2 is e, "context manager")
            check()
        model = {}
        check()


# ---------------------------------------------------------------- let forms
LN = ["a", "b", "c", "d", "mode", "bindings", "env_", "_envname", "body", "self", "e", "items", "values", "f"]


@st.composite
def let_cases(draw):
    form = draw(st.sampled_from(["expr", "dlet", "blet"]))
    syntax = draw(st.sampled_from(["py", "lispy"]))
    rec = draw(st.booleans())
    names = draw(st.lists(st.sampled_from(LN if draw(st.booleans()) else LN[:4]), max_size=4, unique=True))
    if form == "expr" and syntax == "py":
        names = [n for n in names if n != "body"]
    bindings = []
    for i, n in enumerate(names):
        kinds = ["val", "val", "fun"]
        if rec:
            kinds += ["sum", "sum", "closure", "later", "setprev"]
        if i + 1 < len(names) and names[i + 1] in API:  # an unbound name of this kind reads as the mapping method
            kinds = [k for k in kinds if k != "later"]
        bindings.append((n, draw(st.sampled_from(kinds)), draw(st.integers(0, 20))))
    if names and syntax == "lispy" and draw(st.integers(0, 9)) == 0:
        bindings.append((names[0], "val", 7))
    body = draw(st.lists(st.sampled_from(["read", "set", "setattr", "new", "lshift", "callf"]), max_size=4))
    return dict(form=form, syntax=syntax, rec=rec, bindings=bindings, body=body, badbody=draw(st.sampled_from([None] * 8 + ["arity0", "arity2", "noncallable"])), ncalls=draw(st.integers(1, 3)))


class Dup(Exception):
    pass


def run_let(c):
    rec, names = c["rec"], [b[0] for b in c["bindings"]]
    log = []
    # the model
    menv = {}
    expect_exc = None
    mlog = []
    for i, (n, kind, x) in enumerate(c["bindings"]):
        if n in menv:
            expect_exc = AttributeError
            break
        if kind == "val":
            menv[n] = x
        elif kind == "fun":
            menv[n] = ("fun", x)
            if rec:
                mlog.append(n)
        elif kind == "sum":
            mlog.append(n)
            menv[n] = x + sum(y for y in menv.values() if isinstance(y, int))
        elif kind == "closure":
            mlog.append(n)
            menv[n] = ("closure", n)
        elif kind == "later":
            mlog.append(n)
            if i + 1 < len(names) and names[i + 1] not in names[:i + 1]:
                expect_exc = AttributeError
                break
            menv[n] = x
        elif kind == "setprev":
            mlog.append(n)
            if i and isinstance(menv[names[0]], int):
                menv[names[0]] = 1000 + x
            menv[n] = x
    if c["form"] == "expr" and c["syntax"] == "py" and "self" in ():
        pass

    def ints(e):
        return sum(y for y in (e[k] for k in e) if isinstance(y, int) and not isinstance(y, bool))

    def mk(i, n, kind, x):
        if kind == "val":
            return x
        if kind == "fun":
            f = lambda y=0: ("called", x)  # noqa: E731
            f.tag = x
            if not rec:
                return f
            return lambda e: (log.append(n), f)[1]
        if kind == "sum":
            return lambda e: (log.append(n), x + ints(e))[1]
        if kind == "closure":  # sees all bindings, also later ones and itself, when called
            return lambda e: (log.append(n), lambda: (e[n] is not None, sorted(k for k in e)))[1]
        if kind == "later":
            nxt = names[i + 1] if i + 1 < len(names) else None
            return lambda e: (log.append(n), getattr(e, nxt) if nxt is not None and nxt not in names[:i + 1] else None, x)[2]
        if kind == "setprev":
            return lambda e: (log.append(n), e.set(names[0], 1000 + x) if i and isinstance(e[names[0]], int) else None, x)[2]
    bs = [(n, mk(i, n, kind, x)) for i, (n, kind, x) in enumerate(c["bindings"])]
    state = dict(menv)
    envs = []

    def thebody(e):
        envs.append(e)
        for i, act in enumerate(c["body"]):
            eq(list(e), list(state), "names visible in the body")
            for k in names:
                got, want = getattr(e, k), state[k]
                if isinstance(want, tuple) and want[0] == "fun":
                    eq(got.tag, want[1], "callable value")
                elif isinstance(want, tuple):
                    eq(got(), (True, sorted(names)), "closure sees every binding")
                else:
                    eq(got, want, f"value of {k}")
            if act == "set" and names:
                eq(e.set(names[-1], 500 + i), 500 + i, "set")
                state[names[-1]] = 500 + i
            elif act == "setattr" and names:
                setattr(e, names[0], 600 + i)
                state[names[0]] = 600 + i
            elif act == "lshift" and names:
                e << (names[0], 700 + i)
                state[names[0]] = 700 + i
            elif act == "new":
                for f in (lambda: setattr(e, "brandnew", 1), lambda: e.set("brandnew", 1), lambda: e.__setitem__("brandnew", 1), lambda: delattr(e, names[0] if names else "zz"),
                          lambda: e.clear()):
                    try:
                        f()
                    except (AttributeError, TypeError):
                        pass
                    else:
                        require(False, "a finalized let environment was changed")
        return ("result", ints(e))

    mod = {"py": (plet, pletrec, pdlet, pdletrec, pblet, pbletrec), "lispy": (lispylet.let, lispylet.letrec, lispylet.dlet, lispylet.dletrec, lispylet.blet, lispylet.bletrec)}[c["syntax"]]
    f = mod[{"expr": 0, "dlet": 2, "blet": 4}[c["form"]] + int(rec)]

    def apply(body):
        if c["syntax"] == "py":
            kw = dict(bs)
            return f(body, **kw) if c["form"] == "expr" else f(**kw)(body)
        t = tuple(bs)
        return f(t, body) if c["form"] == "expr" else f(t)(body)
    want = lambda: ("result", sum(y for y in state.values() if isinstance(y, int)))  # noqa: E731
    try:
        if c["form"] == "expr":
            if c["badbody"] and not expect_exc:
                bad = {"arity0": lambda: 1, "arity2": lambda a, b: 1, "noncallable": 42}[c["badbody"]]
                try:
                    apply(bad)
                except TypeError:
                    return
                require(False, "bad body accepted")
            r = apply(thebody)
            require(expect_exc is None, "misuse accepted")
            eq(r, want(), "value of the let")
        elif c["form"] == "blet":
            r = apply(lambda *, env: thebody(env))
            require(expect_exc is None, "misuse accepted")
            eq(r, want(), "value of the block")
        else:
            def foo(x, *args, env, **kw):
                "doc"
                return (x, args, kw, thebody(env))
            g = apply(foo)
            require(expect_exc is None, "misuse accepted")
            eq((g.__name__, g.__doc__), ("foo", "doc"), "metadata")
            for k in range(c["ncalls"]):
                r = g(k, "p", q=k)
                eq(r, (k, ("p",), {"q": k}, want()), "call of the decorated function")
            require(all(e is envs[0] for e in envs), "the environment persists across calls")
    except AttributeError:
        if expect_exc is None:
            raise
        require(not envs, "the body must not run")
    eq(log, mlog, "bindings evaluated once, in order")
    for n in names:
        require(n not in globals() or n in ("e", "f", "v"), "leak")


# ---------------------------------------------------------------- do
@st.composite
def do_cases(draw):
    item = st.one_of(st.tuples(st.just("val"), st.integers(0, 9)), st.tuples(st.just("assign"), st.sampled_from("abc"), st.integers(0, 9)),
                     st.tuples(st.just("assignf"), st.sampled_from("abc"), st.integers(0, 9)), st.tuples(st.just("call"), st.integers(0, 9)),
                     st.tuples(st.just("setattr"), st.sampled_from("abc"), st.integers(0, 9)), st.tuples(st.just("boom"), st.integers(0, 1)),
                     st.tuples(st.just("arity0"), st.integers(0, 9)))
    return dict(items=draw(st.lists(item, min_size=1, max_size=6)), zero=draw(st.booleans()))


def run_do(c):
    log = []

    class Boom(Exception):
        pass

    def total(e):
        return sum(e[k] for k in e if k in "abc")
    items, model, results, exc = [], {}, [], None
    stopped = False
    for it in c["items"]:
        if it[0] == "val":
            items.append(it[1])
        elif it[0] == "assign":
            items.append(assign(**{it[1]: it[2]}))
        elif it[0] == "assignf":
            items.append(assign(**{it[1]: (lambda e, x=it[2]: (log.append(x), x + total(e))[1])}))
        elif it[0] == "call":
            items.append(lambda e, x=it[1]: (log.append(x), x + total(e))[1])
        elif it[0] == "setattr":
            items.append(lambda e, it=it: (setattr(e, it[1], it[2]), log.append(it[2]), -1)[2])
        elif it[0] == "arity0":
            items.append(lambda: 1 / 0)
        else:
            def boom(e):
                raise Boom()
            items.append(boom)
    mlog = []
    for it in c["items"]:
        if it[0] == "val":
            results.append(it[1])
        elif it[0] == "assign":
            model[it[1]] = it[2]
            results.append(it[2])
        elif it[0] in ("assignf", "call"):
            r = it[-1] + sum(model.values())
            mlog.append(it[-1])
            if it[0] == "assignf":
                model[it[1]] = r
            results.append(r)
        elif it[0] == "setattr":
            model[it[1]] = it[2]
            mlog.append(it[2])
            results.append(-1)
        else:
            exc = Boom if it[0] == "boom" else ValueError
            break
    try:
        r = (do0 if c["zero"] else do)(*items)
    except (Boom, ValueError) as e:
        require(exc is type(e), "exception", repr(e))
    else:
        require(exc is None, "exception lost")
        eq(r, results[0] if c["zero"] else results[-1], "value")
    eq(log, mlog, "evaluation order")


SUITES = [
    Suite("env", env_cases(), run_env, quick=4000, shards=3, nontrivial=lambda c: len(c["ops"]) >= 2),
    Suite("let", let_cases(), run_let, quick=4000, shards=2, nontrivial=lambda c: len(c["bindings"]) >= 2),
    Suite("do", do_cases(), run_do, quick=1000, nontrivial=lambda c: len(c["items"]) >= 2),
]
