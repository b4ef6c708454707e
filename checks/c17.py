"""C17: conditions and restarts."""
import sys
import threading
import warnings

import hypothesis.strategies as st

from vp.core import Suite, require, eq
from unpythonic.conditions import (signal, error, cerror, warn, handlers, restarts, with_restarts, invoke, invoker, find_restart, available_restarts,
                                   available_handlers, ControlError, proceed, muffle, use_value, resignal, resignal_in)
from unpythonic import unbox

RULE = ("cases are generated programs: nested handlers (several bindings, type tuples, with and without a condition parameter), restart blocks (with and decorator form), "
        "signals by every protocol from bodies, handlers and restart functions, invocations by name and by restart object (live and stale), resignaling, try/finally, "
        "ordinary exceptions and threads. Non-trivial: at least one signal with at least one handler and one restart block")
TECHNIQUE = "property-based testing of generated programs against a reference interpreter (independent model of the condition system)"
ASSUMPTIONS = ["while a handler runs, all handlers of the dynamic extent of the signal are in effect",
               "a resignaling mapping has at most one entry that matches",
               "context managers are left in the reverse order of being entered"]

sys.setrecursionlimit(8000)


class A(Exception):
    pass


class B(A):
    pass


class C(Exception):
    pass


class W(Warning):
    pass


class K(BaseException):
    pass


class Enough(BaseException):
    pass


TYPES = [A, B, C, W, K, ControlError, Exception, BaseException]
RN = ["use_value", "proceed", "muffle", "r1", "r2"]
PROTOCOLS = ["signal", "error", "cerror", "warn"]
sigt = st.sampled_from([0, 0, 1, 1, 2, 3, 4])


def progs(depth, inhandler=False):
    leaf = [st.tuples(st.just("log")), st.tuples(st.just("sig"), st.sampled_from(PROTOCOLS), sigt, st.sampled_from(["inst", "class", "cause", "causeclass"])),
            st.tuples(st.just("sig"), st.sampled_from(PROTOCOLS), sigt, st.sampled_from(["inst", "class"])),
            st.tuples(st.just("raise"), st.integers(0, 2)), st.tuples(st.just("return")), st.tuples(st.just("find"), st.sampled_from(RN)),
            st.tuples(st.just("invoke"), st.sampled_from(RN), st.sampled_from(["name", "name", "helper", "obj", "find"])), st.tuples(st.just("avail"))]
    if inhandler:
        leaf += [st.tuples(st.just("invoke"), st.sampled_from(RN), st.sampled_from(["name", "helper", "find"]))] * 3
    leaf = st.one_of(leaf)
    if depth == 0:
        return st.lists(leaf, max_size=2)
    sub = st.deferred(lambda: progs(depth - 1, inhandler))
    hsub = st.deferred(lambda: progs(min(depth - 1, 1), True))
    types = st.one_of(st.integers(0, 7), st.integers(0, 4), st.lists(st.integers(0, 7), max_size=2).map(tuple))
    handler = st.one_of(st.tuples(types, st.sampled_from([0, 1]), hsub), st.tuples(types, st.sampled_from([0, 1]), hsub), st.tuples(st.integers(0, 4), st.just("std"), st.sampled_from(["proceed", "muffle", "r1", "use_value"])))
    restart = st.tuples(st.sampled_from(RN), st.sampled_from(["id", "const", "prog"]), st.deferred(lambda: progs(min(depth - 1, 1))))
    node = st.one_of(st.tuples(st.just("handlers"), st.lists(handler, min_size=1, max_size=3), sub), st.tuples(st.just("handlers"), st.lists(handler, min_size=1, max_size=3), sub),
                     st.tuples(st.just("restarts"), st.lists(restart, min_size=1, max_size=2, unique_by=lambda t: t[0]), sub, st.booleans()),
                     st.tuples(st.just("restarts"), st.lists(restart, min_size=1, max_size=2, unique_by=lambda t: t[0]), sub, st.booleans()),
                     st.tuples(st.just("try"), st.sampled_from([0, 5, 6]), sub, sub), st.tuples(st.just("finally"), sub, sub),
                     st.tuples(st.just("resignal"), st.integers(0, 2), st.integers(0, 4), st.booleans(), sub), st.tuples(st.just("thread"), sub))
    return st.lists(st.one_of(leaf, node, node), max_size=4)


class MInvoke(BaseException):
    def __init__(self, target, name, args):
        self.target, self.name, self.a = target, name, args


class Model:
    """The reference implementation of the condition system."""
    def __init__(self):
        self.hs, self.rs = [], []
        self.warned = []

    def signal(self, c, cause=None, protocol="signal"):
        if isinstance(c, type):
            c = c()
        if isinstance(cause, type):
            cause = cause()
        c.m = (cause, protocol)
        for level in reversed(list(self.hs)):
            for types, f in level:
                if isinstance(c, types):
                    f(c)
        return c

    def error(self, c, cause=None, protocol="error"):
        c = self.signal(c, cause, protocol)
        e = ControlError("unhandled")
        e.m = (c, "raise")
        raise e

    def cerror(self, c, cause=None):
        self.with_restarts({"proceed": lambda: None}, lambda: self.error(c, cause, "cerror"))

    def warn(self, c, cause=None):
        if isinstance(c, type):
            c = c()

        def go():
            self.signal(c, cause, "warn")
            self.warned.append((type(c) if isinstance(c, Warning) else Warning, str(c)))
        self.with_restarts({"muffle": lambda: None}, go)

    def with_handlers(self, level, body):
        self.hs.append(level)
        try:
            return body()
        finally:
            self.hs.pop()

    def with_restarts(self, b, body):
        me = dict(b)
        self.rs.append(me)
        try:
            try:
                return body()
            finally:
                self.rs.pop()
        except MInvoke as e:
            if e.target is not me:
                raise
            return me[e.name](*e.a)

    def find(self, name):
        for r in reversed(self.rs):
            if name in r:
                return (r, name)

    def invoke(self, x, *args):
        if isinstance(x, str):
            x = self.find(x)
        if x is None or not any(r is x[0] for r in self.rs):
            self.error(ControlError("no such restart"))
        raise MInvoke(x[0], x[1], args)


class Runner:
    def __init__(self, real):
        self.real = real
        self.log = []
        self.n = 0
        self.ids = {}
        self.keep = []
        self.m = Model()
        self.found = []
        self.warned = []

    def ident(self, c):
        if c is None:
            return None
        if isinstance(c, ControlError):
            return "ControlError"
        if id(c) not in self.ids:
            self.keep.append(c)
            self.ids[id(c)] = len(self.ids)
        return (type(c).__name__, self.ids[id(c)])

    def describe(self, c):
        if self.real:
            cause, protocol = c.__cause__, c.__protocol__.__name__
            require(c.__traceback__ is not None, "a signaled condition has a traceback")
        else:
            cause, protocol = c.m
        return (self.ident(c), self.ident(cause), protocol)

    def seq(self, ops):
        for op in ops:
            self.n += 1
            if self.n > 60:
                raise Enough()
            r = self.op(op, self.n)
            if r is not None:
                return r

    def op(self, op, me):
        k = op[0]
        m = self.m
        if k == "log":
            self.log.append(me)
        elif k == "return":
            return ("ret", me)
        elif k == "raise":
            raise TYPES[op[1]](me)
        elif k == "sig":
            c = TYPES[op[2]]
            inst = c if op[3] == "class" else c(f"c{me}")
            if op[3] != "class":
                self.ident(inst)
            kw = {}
            if op[3] == "cause":
                kw["cause"] = C("cause")
                self.ident(kw["cause"])
            elif op[3] == "causeclass":
                kw["cause"] = C
            if self.real:
                r = {"signal": signal, "error": error, "cerror": cerror, "warn": warn}[op[1]](inst, **kw)
            else:
                r = getattr(m, op[1])(inst, **kw)
            if op[1] == "signal":
                require(isinstance(r, c) and (inst is c or r is inst), "signal returns the condition")
                self.log.append(("signal returned", me, self.describe(r)))
            else:
                require(r is None, "return value of", op[1])
                self.log.append(("returned", me, op[1]))
        elif k == "find":
            r = find_restart(op[1]) if self.real else m.find(op[1])
            self.log.append(("found", r is not None))
            if r is not None:
                self.found.append(r)
        elif k == "avail":
            if self.real:
                rs = [n for n, f in available_restarts() if not n.startswith("_") and callable(f)]
                hs = [t.__name__ for t, f in available_handlers()]
                for n in RN + ["nonesuch"]:
                    eq(find_restart(n) is not None, n in rs, "find_restart agrees with available_restarts")
            else:
                rs = sorted({n for r in m.rs for n in r})
                hs = sorted({t.__name__ for level in m.hs for ts, f in level for t in (ts if isinstance(ts, tuple) else (ts,))})
            self.log.append((rs, hs))
        elif k == "invoke":
            name, how = op[1], op[2]
            args = () if name in ("proceed", "muffle") else (("arg", me),)
            if how == "obj" and not self.found:
                how = "name"
            if how == "obj":
                x = self.found[me % len(self.found)]
                args = (("arg", me),) if (x.name if self.real else x[1]) not in ("proceed", "muffle") else ()
            elif how == "find":
                x = (find_restart(name) if self.real else m.find(name)) or name
            else:
                x = name
            if self.real:
                if how == "helper":
                    {"use_value": use_value, "proceed": lambda: proceed(None), "muffle": lambda: muffle(None)}.get(name, invoker(name, *args) if False else (lambda *a: invoker(name, *a)(None)))(*args)
                else:
                    invoke(x, *args)
            else:
                m.invoke(x, *args)
            self.log.append("not reached")
        elif k == "handlers":
            bs = [(tuple(TYPES[i] for i in t) if isinstance(t, tuple) else TYPES[t], self.handler(arity, prog, (me, i))) for i, (t, arity, prog) in enumerate(op[1])]
            if self.real:
                with handlers(*bs):
                    self.seq(op[2])
            else:
                m.with_handlers(bs, lambda: self.seq(op[2]))
        elif k == "restarts":
            bs = {name: self.restart(kind, prog, (me, name)) for name, kind, prog in op[1]}
            if self.real:
                if op[3]:
                    r = with_restarts(**bs)(lambda: ("normal", self.seq(op[2])))
                else:
                    with restarts(**bs) as b:
                        b << ("normal", self.seq(op[2]))
                    r = unbox(b)
            else:
                r = m.with_restarts(bs, lambda: ("normal", self.seq(op[2])))
            self.log.append(("block", me, r))
        elif k == "try":
            try:
                self.seq(op[2])
            except TYPES[op[1]] as e:
                info = None
                if isinstance(e, ControlError):
                    info = self.ident(e.__cause__ if self.real else getattr(e, "m", (None,))[0])
                self.log.append(("except", me, type(e).__name__, info))
                self.seq(op[3])
        elif k == "finally":
            try:
                self.seq(op[1])
            finally:
                self.log.append(("finally", me))
                self.seq(op[2])
        elif k == "resignal":
            src, dst = TYPES[op[1]], TYPES[op[2]]
            if issubclass(dst, src):
                dst = W  # a mapping into itself does not end
            if self.real:
                if op[3]:
                    with resignal({src: dst}):
                        self.seq(op[4])
                else:
                    r = resignal_in(lambda: (self.seq(op[4]), 5), {src: dst})
                    eq(r[1], 5, "value of resignal_in")
            else:
                def h(c):
                    if isinstance(c, src):
                        {"signal": m.signal, "error": m.error, "cerror": m.cerror, "warn": m.warn}[c.m[1]](dst, cause=c)
                m.with_handlers([(BaseException, h)], lambda: self.seq(op[4]))
        elif k == "thread":
            out = []
            saved = m.hs, m.rs

            def go():
                try:
                    self.seq(op[1])
                    out.append(("end",))
                except Enough as e:
                    out.append(e)
                except BaseException as e:
                    out.append((type(e).__name__.replace("MInvoke", "InvokeRestart"),))
            if self.real:
                t = threading.Thread(target=go)
                t.start()
                t.join()
            else:
                m.hs, m.rs = [], []
                go()
                m.hs, m.rs = saved
            if isinstance(out[0], Enough):
                raise out[0]
            self.log.append(("thread", out[0]))
        return None

    def handler(self, arity, prog, tag):
        if arity == "std":
            if self.real:
                return {"proceed": proceed, "muffle": muffle}.get(prog) or invoker(prog, "const", tag)

            def f(c):
                self.m.invoke(prog, *(() if prog in ("proceed", "muffle") else ("const", tag)))
            return f
        if arity == 0 and self.real:
            def f():
                self.log.append(("handler", tag))
                self.seq(prog)
        else:
            def f(c):
                self.log.append(("handler", tag) + ((self.describe(c),) if arity else ()))
                self.seq(prog)
        return f

    def restart(self, kind, prog, tag):
        if kind == "const":
            return lambda *a: ("const", tag)

        def f(*a):
            self.log.append(("restart", tag, a))
            if kind == "prog":
                return ("prog", a, self.seq(prog))
            return a
        return f


def outcome(prog, real):
    r = Runner(real)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            res = ("value", r.seq(prog))
        except Enough:
            res = ("enough",)
        except (Exception, K) as e:
            res = (type(e).__name__, r.ident(e.__cause__ if real else getattr(e, "m", (None,))[0]) if isinstance(e, ControlError) else None)
        if real:
            if not isinstance(res[0], Enough):
                eq([n for n, _ in available_restarts()], [], "restarts left in effect")
                eq(available_handlers(), [], "handlers left in effect")
            ws = [(x.category, str(x.message)) for x in w]
            for x in w:
                require(x.filename == __file__ or "conditions" in x.filename, "the warning points to", x.filename)
        else:
            ws = r.m.warned
            require(not r.m.hs and not r.m.rs, "model")
    return res, r.log, ws


def run_prog(prog):
    want = outcome(prog, False)
    got = outcome(prog, True)
    eq(got[1], want[1], "what ran")
    eq(got[0], want[0], "outcome")
    eq(got[2], want[2], "warnings")


def count(ops, kinds):
    n = 0
    if isinstance(ops, (list, tuple)):
        for o in ops:
            n += isinstance(o, tuple) and bool(o) and o[0] in kinds
            n += count(o, kinds)
    return n


SUITES = [
    Suite("programs", progs(4), run_prog, quick=8000, shards=8,
          nontrivial=lambda p: count(p, ("sig",)) >= 1 and count(p, ("handlers", "resignal")) >= 1 and count(p, ("restarts",)) >= 1),
]
