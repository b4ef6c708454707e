"""C16: escape continuations."""
import hypothesis.strategies as st

from vp.core import Suite, require, eq
from unpythonic import catch, throw, call_ec
from unpythonic.ec import Escape

RULE = ("cases are generated programs: trees of catch points (with all kinds of tags), call_ec, try/finally, try/except of ordinary exceptions, generators and calls, with "
        "throws (tagged or not, allowing catch-alls or not), invocations of live and dead escape continuations, ordinary raises and returns at the leaves. "
        "Non-trivial: at least two catch points or call_ec, and a throw")
TECHNIQUE = "property-based testing of generated control-flow programs against a reference interpreter (independent implementation of the documented catch table)"
ASSUMPTIONS = ["escapes are not intercepted by bare except clauses (documented caution)"]

TAGS = ["t1", "t2", "t3", 1, True, (), ("t1", "t2"), "", 0, False, [1], [1, "t1"], {"t1": 2}]
tag = st.one_of(st.none(), st.sampled_from(TAGS[:3]), st.sampled_from(TAGS))
catch_tags = st.one_of(st.none(), st.sampled_from([t for t in TAGS if not isinstance(t, tuple)]),
                       st.lists(st.sampled_from(TAGS), max_size=3).map(tuple))


def progs(depth):
    leaf = st.one_of(st.tuples(st.just("log")), st.tuples(st.just("throw"), tag, st.booleans()), st.tuples(st.just("throw"), tag, st.booleans()),
                     st.tuples(st.just("throwdef"), st.just(0)),
                     st.tuples(st.just("raise"), st.sampled_from(["A", "B"])), st.tuples(st.just("return")),
                     st.tuples(st.just("ec"), st.integers(0, 5)), st.tuples(st.just("ec"), st.integers(0, 5)), st.tuples(st.just("escall"), st.integers(0, 5)))
    if depth == 0:
        return st.lists(leaf, max_size=2)
    sub = st.deferred(lambda: progs(depth - 1))
    node = st.one_of(st.tuples(st.just("catch"), catch_tags, st.booleans(), sub), st.tuples(st.just("catch"), catch_tags, st.booleans(), sub),
                     st.tuples(st.just("call_ec"), sub), st.tuples(st.just("call_ec"), sub),
                     st.tuples(st.just("finally"), sub, sub), st.tuples(st.just("except"), sub, sub), st.tuples(st.just("exceptall"), sub, sub),
                     st.tuples(st.just("gen"), sub), st.tuples(st.just("recur"), st.integers(1, 3), sub), st.tuples(st.just("else"), sub, sub))
    return st.lists(st.one_of(leaf, node, node), max_size=3)


class A(Exception):
    pass


class B(A):
    pass


class MThrow(BaseException):
    """The model's escape."""
    def __init__(self, value, tag, allow, target=None):
        self.value, self.tag, self.allow, self.target = value, tag, allow, target


class Runner:
    """Runs a program with the real constructs or with the model's."""
    def __init__(self, real):
        self.real = real
        self.log = []
        self.ecs = []     # escape continuations, in order of creation
        self.n = 0
        self.steps = 0

    def seq(self, ops):
        """-> value if a `return` is met, else ("end", n)"""
        for op in ops:
            self.steps += 1
            if self.steps > 400:
                return "enough"
            self.n += 1
            me = self.n
            k = op[0]
            if k == "log":
                self.log.append(me)
            elif k == "return":
                return ("ret", me)
            elif k == "raise":
                raise (A if op[1] == "A" else B)(me)
            elif k == "throw":
                if self.real:
                    throw(("thrown", me), op[1], allow_catchall=op[2])
                raise MThrow(("thrown", me), op[1], op[2])
            elif k == "throwdef":
                if self.real:
                    throw(("thrown", me))
                raise MThrow(("thrown", me), None, True)
            elif k == "ec":
                if self.ecs:
                    ec = self.ecs[op[1] % len(self.ecs)]
                    ec(("ec", me))
                    self.log.append("not reached")
            elif k == "escall":
                if self.ecs:
                    ec = self.ecs[op[1] % len(self.ecs)]
                    self.log.append(sum(map(lambda x: ec(("ec", me)), [1, 2])))
            elif k == "catch":
                self.log.append(("catch", me, self.catch(op[1], op[2], lambda: self.seq(op[3]))))
            elif k == "call_ec":
                def f(ec):
                    self.ecs.append(ec)
                    return self.seq(op[1])
                self.log.append(("call_ec", me, call_ec(f) if self.real else self.call_ec(f)))
            elif k == "finally":
                try:
                    self.seq(op[1])
                finally:
                    self.log.append(("finally", me))
                    self.seq(op[2])
            elif k == "except":
                try:
                    self.seq(op[1])
                except B as e:
                    self.log.append(("except", me, e.args))
                    self.seq(op[2])
            elif k == "exceptall":
                try:
                    self.seq(op[1])
                except Exception as e:
                    self.log.append(("exceptall", me, type(e).__name__))
                    self.seq(op[2])
            elif k == "else":
                try:
                    self.seq(op[1])
                except A:
                    self.log.append(("except A", me))
                else:
                    self.log.append(("else", me))
                    self.seq(op[2])
            elif k == "gen":
                def g():
                    try:
                        yield 1
                        self.seq(op[1])
                        yield 2
                    finally:
                        self.log.append(("gen", me))
                self.log.append(list(g()))
            elif k == "recur":
                def r(n):
                    if n == 0:
                        return self.seq(op[2])
                    return ("rec", n, self.catch(("t1",), False, lambda: r(n - 1)))
                self.log.append(r(op[1]))
        return ("end", self.n)

    def catch(self, tags, untagged, body):
        if self.real:
            @catch(tags, catch_untagged=untagged)
            def f(x, *, y):
                "doc"
                require((x, y) == (1, 2), "arguments")
                return body()
            eq((f.__name__, f.__doc__), ("f", "doc"), "metadata of a catch point")
            return f(1, y=2)
        try:
            return body()
        except MThrow as e:
            if e.target is not None:
                raise
            if tags is None:                      # a, b
                ok = e.allow or (e.tag is None and untagged)
            elif e.tag is None:                   # c, d with 0, 1
                ok = untagged
            else:
                ok = any(e.tag == t for t in (tags if isinstance(tags, tuple) else (tags,)))
            if ok:
                return e.value
            raise

    def call_ec(self, f):
        state = {"valid": True}

        def ec(value):
            if not state["valid"]:
                raise RuntimeError("dead")
            raise MThrow(value, None, False, target=state)
        try:
            return f(ec)
        except MThrow as e:
            if e.target is state:
                return e.value
            raise
        finally:
            state["valid"] = False


def outcome(prog, real):
    r = Runner(real)
    try:
        res = ("value", r.seq(prog))
    except (A, RuntimeError) as e:
        res = (type(e).__name__, None if isinstance(e, RuntimeError) else e.args)
    except Escape:
        res = ("uncaught",)
        require(real, "")
    except MThrow:
        res = ("uncaught",)
    # an escape continuation is dead after its extent
    if real:
        for ec in r.ecs:
            try:
                ec(1)
            except RuntimeError:
                pass
            else:
                require(False, "a dead escape continuation worked")
    return res, r.log


def run_prog(prog):
    want = outcome(prog, False)
    got = outcome(prog, True)
    eq(got[0], want[0], "outcome")
    eq(got[1], want[1], "what ran")


def count(ops, kinds):
    n = 0
    for o in ops:
        n += o[0] in kinds
        for x in o[1:]:
            if isinstance(x, list) and all(isinstance(y, tuple) for y in x):
                n += count(x, kinds)
    return n


SUITES = [
    Suite("programs", progs(4), run_prog, quick=6000, shards=6,
          nontrivial=lambda p: count(p, ("catch", "call_ec", "recur")) >= 2 and count(p, ("throw", "throwdef", "ec", "escall")) >= 1),
]
