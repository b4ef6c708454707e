"""Generators shared by several checks."""
import linecache

from hypothesis import strategies as st

PO, PK, VA, KO, VK = "po", "pk", "va", "ko", "vk"

small = st.integers(-3, 9)


@st.composite
def signatures(draw, maxpos=4, maxko=3, names="abcdefgh", allow_va=True, allow_vk=True, annotate=False, minparams=0):
    """A parameter list as [(name, kind, default or None, annotation or None)]. Defaults are ints >= 100."""
    npo = draw(st.integers(0, 2)) if draw(st.booleans()) else 0
    npk = draw(st.integers(0, maxpos - npo))
    nko = draw(st.integers(0, maxko)) if draw(st.booleans()) else 0
    va = allow_va and draw(st.integers(0, 3)) == 0
    vk = allow_vk and draw(st.integers(0, 3)) == 0
    if npo + npk + nko < minparams:
        npk = minparams - npo - nko
    order = draw(st.permutations(list(names)))
    order = list(order)
    params = []
    ndef = draw(st.integers(0, npo + npk)) if draw(st.booleans()) else 0
    d = 100
    for i in range(npo + npk):
        default = None
        if i >= npo + npk - ndef:
            default = d
            d += 1
        params.append((order.pop(), PO if i < npo else PK, default))
    if va:
        params.append(("args", VA, None))
    for _ in range(nko):
        default = None
        if draw(st.booleans()):
            default = d
            d += 1
        params.append((order.pop(), KO, default))
    if vk:
        params.append(("kws", VK, None))
    return params


def paramlist(params, annotations=None):
    out = []
    star = False
    for i, (name, kind, default) in enumerate(params):
        if kind == KO and not star:
            out.append("*")
            star = True
        text = name
        if annotations and annotations.get(name):
            text += ": " + annotations[name]
        if kind == VA:
            text = "*" + text
            star = True
        elif kind == VK:
            text = "**" + text
        elif default is not None:
            text += f"={default!r}"
        out.append(text)
        if kind == PO and (i + 1 == len(params) or params[i + 1][1] != PO):
            out.append("/")
    return ", ".join(out)


def required(params):
    return [p for p in params if p[1] in (PO, PK, KO) and p[2] is None]


@st.composite
def calls(draw, params, extra_va=3):
    """A valid call of the signature: (args, kwargs)."""
    args, kwargs = [], {}
    pos = [p for p in params if p[1] in (PO, PK)]
    has_va = any(p[1] == VA for p in params)
    # how many parameters go by position
    lo = sum(1 for p in pos if p[1] == PO and p[2] is None)
    n = draw(st.integers(lo, len(pos)))
    args = [draw(small) for _ in range(n)]
    if n == len(pos) and has_va:
        args += draw(st.lists(small, max_size=extra_va))
    for p in pos[n:]:
        if p[1] == PK and (p[2] is None or draw(st.booleans())):
            kwargs[p[0]] = draw(small)
    for p in params:
        if p[1] == KO and (p[2] is None or draw(st.booleans())):
            kwargs[p[0]] = draw(small)
    if any(p[1] == VK for p in params):
        for name in draw(st.lists(st.sampled_from(["u", "v", "w"]), unique=True, max_size=2)):
            kwargs[name] = draw(small)
    keys = draw(st.permutations(list(kwargs)))
    return args, {k: kwargs[k] for k in keys}


def model_bind(params, args, kwargs):
    """Python's call rules, written out independently.
    -> (bindings, missing required names, extra positional, extra named, error or None)"""
    args = list(args)
    kwargs = dict(kwargs)
    b, missing, error = {}, [], None
    va = vk = None
    for name, kind, default in params:
        if kind in (PO, PK):
            if args:
                b[name] = args.pop(0)
                if kind == PK and name in kwargs:
                    error = error or f"multiple values for {name}"
                    kwargs.pop(name)
            elif kind == PK and name in kwargs:
                b[name] = kwargs.pop(name)
            elif default is not None:
                b[name] = default
            else:
                missing.append(name)
        elif kind == VA:
            b[name] = tuple(args)
            args = []
            va = name
        elif kind == KO:
            if name in kwargs:
                b[name] = kwargs.pop(name)
            elif default is not None:
                b[name] = default
            else:
                missing.append(name)
        elif kind == VK:
            vk = name
    if vk:
        b[vk] = kwargs
        kwargs = {}
    return b, missing, args, kwargs, error


_counter = [0]


def run_source(src, env):
    """exec, with the source available to `inspect` (unpythonic.dispatch reports source locations)."""
    _counter[0] += 1
    fname = f"<vp-generated-{_counter[0] % 200}>"
    linecache.cache[fname] = (len(src), None, src.splitlines(True), fname)
    env.setdefault("__name__", f"vp_generated_{_counter[0]}")  # @generic keys its registry by full name
    exec(compile(src, fname, "exec"), env)
    return env


def make_function(params, log=None, name="f", ret=None, annotations=None, ns=None):
    """Compile a function with this signature that records its bindings to `log` and returns them
    (or ret(bindings))."""
    names = [p[0] for p in params]
    src = f"def {name}({paramlist(params, annotations)}):\n    return _hook(dict({', '.join(f'{n}={n}' for n in names)}))\n"

    def hook(b):
        if log is not None:
            log.append(b)
        return b if ret is None else ret(b)
    env = dict(ns or {}, _hook=hook)
    return run_source(src, env)[name]


@st.composite
def splits(draw, args, kwargs, maxsteps=4):
    """Split a call into steps: [(args, kwargs), ...], positionals kept in order."""
    n = draw(st.integers(1, maxsteps))
    cuts = sorted(draw(st.lists(st.integers(0, len(args)), min_size=n - 1, max_size=n - 1)))
    bounds = [0] + cuts + [len(args)]
    steps = [[list(args[a:b]), {}] for a, b in zip(bounds, bounds[1:])]
    for k, v in kwargs.items():
        steps[draw(st.integers(0, n - 1))][1][k] = v
    return [tuple(s) for s in steps]
