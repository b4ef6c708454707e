"""C20: multiple dispatch."""
import inspect
import itertools
import typing

import hypothesis.strategies as st

from vp.core import Suite, require, eq
from vp.gen import signatures, paramlist, model_bind, run_source
from checks.c21 import match as match_spec
from unpythonic import generic, augment, typed, isgeneric, list_methods, format_methods

RULE = ("cases are histories of registrations (generated signatures with generated types) interleaved with calls and listings, and generated class hierarchies with instance, class "
        "and static multimethods, late registrations, and calls via instances, classes and super(). Non-trivial: at least two multimethods")
TECHNIQUE = "model-based property-based testing: generated registration histories and class hierarchies against a reference dispatcher"
ASSUMPTIONS = ["the name of a positional-only parameter is not used as a name in **kwargs (inspect.Signature.bind of Python 3.12 wrongly rejects that)",
               "defaults of parameters match their own annotations", "an empty *args or **kwargs matches no parametric collection type, as for any other value",
               "at the top level of a method call on an instance, each class of the MRO defines the method as generic or not at all"]

_n = itertools.count()


class A:
    pass


class B(A):
    pass


# name -> (source text, specification for the reference matcher)
TYPES = {"int": ("int", ("cls", "int")), "str": ("str", ("cls", "str")), "float": ("float", ("cls", "float")), "bool": ("bool", ("cls", "bool")), "any": ("typing.Any", ("any",)),
         "union": ("typing.Union[int, str]", ("union", [("cls", "int"), ("cls", "str")])), "opt": ("typing.Optional[int]", ("optional", ("cls", "int"))),
         "list": ("typing.List[int]", ("list", ("cls", "int"))), "liststr": ("typing.List[str]", ("list", ("cls", "str"))), "A": ("A", "A"), "B": ("B", "B"), "blist": ("list", ("cls", "list"))}
SIMPLE = ["int", "str", "float", "bool", "any", "union", "opt", "list", "liststr", "A", "B", "blist"]
VALUES = [1, True, "s", 2.5, None, [1], ["a"], [], "<A>", "<B>"]
types_ = st.sampled_from(SIMPLE)
values = st.integers(0, len(VALUES) - 1)
DEFAULTS = {"int": "7", "str": "'d'", "float": "0.5", "bool": "True", "any": "None", "union": "8", "opt": "None", "list": "[3]", "liststr": "['d']", "A": "A0", "B": "B0", "blist": "[]"}
A0, B0 = A(), B()


def value(i):
    v = VALUES[i]
    return A0 if v == "<A>" else B0 if v == "<B>" else v


def matches(v, t):
    spec = TYPES[t][1]
    if spec in ("A", "B"):
        return isinstance(v, A if spec == "A" else B)
    return match_spec(v, spec)


# A multimethod: (parameters, star type, kwargs type). Parameter: (name, kind, has default, type)
@st.composite
def multimethods(draw):
    npos = draw(st.integers(0, 3))
    posonly = draw(st.sampled_from([0, 0, 0, 1, 2]))
    ndef = draw(st.sampled_from([0, 0, 0, 1, 2]))
    names = draw(st.permutations("xyzw"))
    pos = [(names[i], "po" if i < posonly else "pk", i >= npos - ndef, draw(types_)) for i in range(npos)]
    ko = [(n, "ko", draw(st.booleans()), draw(types_)) for n in draw(st.sampled_from(["", "", "", "k", "kx" if "x" not in names[:npos] else "k"]))]
    star = draw(st.sampled_from([None, None, None, "int", "str", "any", "exact", "seq"]))
    kw = draw(st.sampled_from([None, None, None, "int", "str", "any"]))
    return (pos + ko, star, kw)


def source(m, name, body, first="", hide=None):
    params, star, kw = m
    parts = [first] if first else []
    po = [p for p in params if p[1] == "po"]

    def fmt(p):
        return p[0] + ("" if hide == p[0] else f": {TYPES[p[3]][0]}") + (f" = {DEFAULTS[p[3]]}" if p[2] else "")
    parts += [fmt(p) for p in po] + (["/"] if po else []) + [fmt(p) for p in params if p[1] == "pk"]
    ko = [p for p in params if p[1] == "ko"]
    if star:
        parts.append("*args: " + {"int": "typing.Tuple[int, ...]", "str": "typing.Tuple[str, ...]", "any": "typing.Any", "exact": "typing.Tuple[int, str]", "seq": "typing.Sequence[int]"}[star])
    elif ko:
        parts.append("*")
    parts += [fmt(p) for p in ko]
    if kw:
        parts.append("**kw: " + {"int": "typing.Dict[str, int]", "str": "typing.Dict[str, str]", "any": "typing.Any"}[kw])
    return f"def {name}({', '.join(parts)}):\n{body}"


def bind(m, args, kwargs, skip=0):
    """Reference: the bindings, or None if the signature does not bind or a type does not match."""
    params, star, kw = m
    args, kwargs = list(args), dict(kwargs)
    out = {}
    for name, kind, default, t in params:
        if kind != "ko" and args:
            if kind == "pk" and name in kwargs:
                return None
            out[name] = args.pop(0)
        elif kind != "po" and name in kwargs:
            out[name] = kwargs.pop(name)
        elif default:
            out[name] = "default"
            continue
        else:
            return None
        if not matches(out[name], t):
            return None
    if args and not star or kwargs and not kw:
        return None
    if star:
        out["args"] = tuple(args)
        ok = {"int": lambda: args and all(isinstance(a, int) for a in args), "str": lambda: args and all(isinstance(a, str) for a in args), "any": lambda: True,
              "exact": lambda: len(args) == 2 and isinstance(args[0], int) and isinstance(args[1], str), "seq": lambda: args and all(isinstance(a, int) for a in args)}[star]()
        if not ok:
            return None
    if kw:
        out["kw"] = kwargs
        if kw != "any" and not (kwargs and all(isinstance(x, int if kw == "int" else str) for x in kwargs.values())):
            return None
    return out


@st.composite
def calls(draw, ms):
    """Mostly a call that fits one of the multimethods."""
    if not ms or draw(st.integers(0, 5)) == 0:
        return (draw(st.lists(values, max_size=3)), draw(st.lists(st.tuples(st.sampled_from("xyzwkq"), values), max_size=2, unique_by=lambda t: t[0])))
    params, star, kw = draw(st.sampled_from(ms))
    args, kwargs = [], []
    named = False

    def pick(t):
        good = [i for i in range(len(VALUES)) if matches(value(i), t)]
        return draw(st.sampled_from(good)) if draw(st.integers(0, 9)) else draw(values)
    for name, kind, default, t in params:
        if default and draw(st.booleans()):
            named = True
            continue
        if kind == "ko" or kind == "pk" and (named or draw(st.integers(0, 3)) == 0):
            named = True
            kwargs.append((name, pick(t)))
        elif not named:
            args.append(pick(t))
    if star and not named:
        args += [pick({"exact": "union", "seq": "int"}.get(star, star)) for _ in range(draw(st.integers(0, 3)))]
    if kw:
        kwargs += [(n, pick(kw)) for n in draw(st.sampled_from(["", "q", "qr"]))]
    return (args, kwargs)


@st.composite
def histories(draw):
    ms = draw(st.lists(multimethods(), min_size=1, max_size=5))
    ops = []
    for i, m in enumerate(ms):
        ops.append(("reg", i, draw(st.sampled_from(["generic", "generic", "augment"]))))
        for _ in range(draw(st.integers(0, 3))):
            ops.append(("call", *draw(calls(ms[:i + 1]))))
        if draw(st.integers(0, 9)) == 0:
            ops.append(("bad", draw(st.integers(0, 5))))
        if draw(st.integers(0, 3)) == 0:
            ops.append(("list",))
        earlier = [o for o in ops if o[0] == "call"]
        if earlier and draw(st.booleans()):  # repeat a call after the next registration
            ops.append(draw(st.sampled_from(earlier)))
    for _ in range(draw(st.integers(0, 4))):
        ops.append(("call", *draw(calls(ms))))
    return (ms, ops, draw(st.integers(0, 4)) == 0)


BODY = "    return ({i}, {{k: v for k, v in locals().items()}})"


def run_history(case):
    ms, ops, istyped = case
    n = next(_n)
    name = f"g{n}"
    ns = {"typing": typing, "A": A, "B": B, "A0": A0, "B0": B0}
    reg = []  # (index, function), in order of registration
    disp = None
    for op in ops:
        if op[0] == "reg":
            i, how = op[1], op[2]
            run_source(source(ms[i], name, BODY.format(i=i)), ns)
            raw = ns[name]
            if istyped:
                if disp is None:
                    disp = typed(raw)
                    reg.append((i, raw))
                    eq(isgeneric(disp), "typed")
                    continue
                for attempt in (lambda: generic(raw), lambda: augment(disp)(raw)):
                    try:
                        attempt()
                    except TypeError:
                        pass
                    else:
                        require(False, "registered another multimethod on a @typed function")
                continue
            if how == "augment" and disp is not None:
                raw.__qualname__ = raw.__name__ = "other"
                got = augment(disp)(raw)
            else:
                got = generic(raw)
            require(disp is None or got is disp, "registration returns the dispatcher")
            disp = got
            reg.append((i, raw))
            eq(isgeneric(disp), "generic")
        elif op[0] == "bad":
            ps = [p for p in ms[op[1] % len(ms)][0]]
            if not ps or istyped or disp is None:
                continue
            run_source(source(ms[op[1] % len(ms)], name, BODY.format(i=99), hide=ps[op[1] % len(ps)][0]), ns)
            try:
                generic(ns[name])
            except TypeError:
                pass
            else:
                require(False, "accepted a multimethod with an unannotated parameter")
        elif op[0] == "list":
            got = list_methods(disp)
            require([c for c, _ in got] == [f for _, f in reversed(reg)], "list of multimethods", [c for c, _ in got])
            lines = format_methods(disp).split("\n")[1:]
            eq(len(lines), len(reg), "lines in the formatted list")
            for line, (_, f) in zip(lines, reversed(reg)):
                require(str(inspect.signature(f)) in line, "formatted list", line)
        else:
            args, kwargs = [value(i) for i in op[1]], {k: value(i) for k, i in op[2]}
            if any(p[1] == "po" and p[0] in kwargs for m in ms for p in m[0]):
                continue
            want = None
            for i, _ in reversed(reg):
                b = bind(ms[i], args, kwargs)
                if b is not None:
                    want = i, b
                    break
            try:
                got = disp(*args, **kwargs)
            except TypeError as e:
                got = None
            if want is None:
                require(got is None, "called", got, "though nothing matches")
                continue
            require(got is not None, "no match for", args, kwargs, "expected multimethod", want[0])
            eq(got[0], want[0], f"which multimethod was called with {args} {kwargs}")
            for k, v in want[1].items():
                if not (isinstance(v, str) and v == "default"):
                    require(got[1][k] is v if k not in ("args", "kw") else got[1][k] == v, "argument", k, "arrived as", got[1][k], "instead of", v)


# ---------------------------------------------------------------- classes

# per class: bases (indices), kinds of f, multimethod types in order of definition; what each does: "ret" or "super"
mdef = st.tuples(st.sampled_from(["int", "str", "float", "union", "any", "A", "B", "list"]), st.sampled_from(["ret", "ret", "super"]), st.booleans())
klass = st.tuples(st.lists(st.integers(0, 5), max_size=2), st.lists(mdef, max_size=3), st.sampled_from(["", "falsy", "len0"]), st.sampled_from(["generic", "generic", "generic", "typed"]))
cops = st.one_of(st.tuples(st.just("call"), st.integers(0, 5), values, st.sampled_from(["instance", "instance", "class", "super"])), st.tuples(st.just("augment"), st.integers(0, 5), mdef),
                 st.tuples(st.just("list"), st.integers(0, 5)))
# the same call before and after a registration on another class
again = st.tuples(st.tuples(st.just("call"), st.integers(0, 5), values, st.sampled_from(["instance", "instance", "class", "super"])), st.lists(st.tuples(st.just("augment"), st.integers(0, 5), mdef), min_size=1, max_size=2)) \
    .map(lambda t: [t[0], *t[1], t[0]])
oplists = st.lists(st.one_of(cops.map(lambda o: [o]), again), min_size=1, max_size=6).map(lambda ls: [o for l in ls for o in l])
hierarchies = st.tuples(st.sampled_from(["instance", "instance", "class", "static"]), st.lists(klass, min_size=1, max_size=5), oplists, st.sampled_from(["self", "this", "cls", "klass"]))


def run_classes(case):
    kind, ks, ops, selfname = case
    n = next(_n)
    if kind == "class" and selfname in ("self", "this"):
        selfname = "cls"
    ns = {"typing": typing, "A": A, "B": B, "generic": generic, "typed": typed, "classmethod": classmethod, "staticmethod": staticmethod}
    classes, owns = [], []  # owns[i]: list of (tag, type, action) in registration order
    for i, (bases, ms, falsy, deco) in enumerate(ks):
        bs = list(dict.fromkeys(b % i for b in bases)) if i else []
        if deco == "typed":
            ms = ms[:1]
        lines = [f"class K{n}_{i}({', '.join(f'K{n}_{b}' for b in bs)}):"]
        own = []
        first = "" if kind == "static" else selfname + ", "
        for j, (t, action, byname) in enumerate(ms):
            tag = f"{i}.{j}"
            own.append((tag, t, action))
            if kind != "instance":
                lines.append(f"    @{kind}method")
            lines.append(f"    @{deco}")
            lines.append(f"    def f({first}x: {TYPES[t][0]}):")
            if action == "super" and kind != "static":
                lines.append(f"        return ['{tag}', x, super().f(x)]")
            else:
                lines.append(f"        return ['{tag}', x]")
        if falsy == "falsy":
            lines.append("    def __bool__(self): return False")
        elif falsy == "len0":
            lines.append("    def __len__(self): return 0")
        lines.append("    pass")
        try:
            run_source("\n".join(lines), ns)
        except TypeError as e:
            if "MRO" in str(e) or "method resolution" in str(e):
                return
            raise
        classes.append(ns[f"K{n}_{i}"])
        owns.append(own)
    index = {c: i for i, c in enumerate(classes)}

    def order(cls, start=0):
        """Multimethods in the order tried, for a lookup beginning at position `start` of the MRO of `cls`."""
        mro = [index[c] for c in cls.__mro__ if c in index]
        if kind == "static":
            for i in mro[start:]:
                if owns[i]:
                    return [(i, m) for m in reversed(owns[i])]
            return []
        return [(i, m) for i in mro[start:] for m in reversed(owns[i])]

    class NoMatch(Exception):
        pass

    def model(cls, x, start=0):
        cand = order(cls, start)
        if not cand:
            raise AttributeError()
        for i, (tag, t, action) in cand:
            if matches(x, t):
                if action == "super" and kind != "static":
                    mro = [index[c] for c in cls.__mro__ if c in index]
                    return [tag, x, model(cls, x, mro.index(i) + 1)]
                return [tag, x]
        raise NoMatch()
    late = itertools.count()
    for op in ops:
        c = classes[op[1] % len(classes)]
        if not order(c):
            continue
        obj = c()
        if op[0] == "augment":
            t, _, _ = op[2]
            # register on the class that defines f
            owner = next(i for i in (index[k] for k in c.__mro__ if k in index) if owns[i])
            tag = f"late{next(late)}"
            first = "" if kind == "static" else selfname + ", "
            run_source(f"def f({first}x: {TYPES[t][0]}):\n    return ['{tag}', x]", ns)
            target = classes[owner].f
            try:
                augment(getattr(target, "__func__", target))(ns["f"])
            except TypeError:
                require(ks[owner][3] == "typed", "could not augment a generic method")
            else:
                require(ks[owner][3] != "typed", "augmented a @typed method")
                owns[owner].append((tag, t, "ret"))
        elif op[0] == "list":
            got = list_methods(obj.f)
            want = [m[0] for _, m in order(c)]
            tags = []
            for f, _ in got:
                tags.append(next(x for x in f.__code__.co_consts if isinstance(x, str) and ("." in x or x.startswith("late"))))
            eq(tags, want, "listed multimethods")
        else:
            x = value(op[2])
            how = op[3]
            start = 0
            if how == "instance" or kind == "instance" and how == "class":
                call = obj.f if how == "instance" else (lambda x: c.f(obj, x))
            elif how == "class":
                call = c.f
            else:
                start = 1
                if kind == "static" or not order(c, 1):
                    continue
                call = lambda x: super(c, obj if kind == "instance" else c).f(x)
            try:
                want = model(c, x, start)
            except NoMatch:
                want = "TypeError"
            except AttributeError:
                want = "AttributeError"
            try:
                got = call(x)
            except TypeError:
                got = "TypeError"
            except AttributeError:
                got = "AttributeError"
            eq(got, want, f"call with {x!r}")


# ---------------------------------------------------------------- not generic

def run_not_generic(case):
    n = next(_n)
    ns = {}
    run_source(f"def h{n}(x: int):\n    return x", ns)
    h = ns[f"h{n}"]
    eq(isgeneric(h), False)
    for f in (lambda: augment(h)(lambda x: x), lambda: list_methods(h), lambda: format_methods(h)):
        try:
            f()
        except TypeError:
            pass
        else:
            require(False, "accepted a function that is not generic")


SUITES = [
    Suite("registration histories", histories(), run_history, quick=6000, shards=8, nontrivial=lambda c: len(c[0]) >= 2),
    Suite("class hierarchies", hierarchies, run_classes, quick=6000, shards=6, nontrivial=lambda c: sum(len(k[1]) for k in c[1]) >= 2),
    Suite("not generic", st.just(()), run_not_generic, quick=1, shards=1),
]
