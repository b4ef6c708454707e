"""C36: the test framework counts every outcome once, reports it, and goes on."""
import ast
import re
import warnings

from hypothesis import strategies as st

from vp.core import Suite, eq
from vp.macro import run_module

RULE = ("cases are programs of sessions and nested test sets (with and without postprocessors), test, test_raises, test_signals (expressions and blocks, nested), fail, error, warn, signals and exceptions inside and outside tests, signal barriers, termination; "
        "the oracle interprets the program over an explicit stack of test sets and tests; compared are the evaluations in order, each report with its data (kind, origin, message, mode, result, captured values with their source, line), each printed summary, the four totals and how the program ends; "
        "non-trivial: the program reports something and contains nested test sets or tests")
ASSUMPTIONS = ["one thread; test sets are not inside tests; the postprocessors are recorders, or, for the whole session, terminate",
               "an uncaught error or cerror outside a test counts as what it is: a signal (reported by the nearest test set), and, if nothing handles it, the exception it then raises"]
HEAD = ("from unpythonic.syntax import macros, test, test_raises, test_signals, fail, error, warn, the\n"
        "from unpythonic.test.fixtures import session, testset, catch_signals, terminate, returns_normally\n")
EXCS = ["A", "B", "C"]
PARENT = {"A": ["A"], "B": ["A", "B"], "C": ["C"], "ControlError": ["ControlError"], "Z": ["Z"]}
CONSTS = ["1", "[0]", "'x'", "0", "None", "[]", "''"]
PROTOS = ["signal", "cerror", "error", "warn"]
ANSI = re.compile(r"\x01|\x02|\x1b\[[0-9;]*m")


# ------------------------------------------------------------------ programs
class Gen:
    def __init__(self, draw):
        self.draw = draw
        self.k = 0
        self.budget = draw(st.integers(8, 40))
        self.gterm = False

    def n(self, k):
        return self.draw(st.integers(0, k - 1))

    def pick(self, xs):
        return xs[self.n(len(xs))]

    def new(self):
        self.k += 1
        return self.k

    def value(self):
        k = self.n(10)
        a, b = self.n(4), self.n(4)
        if k < 2:
            return ("const", self.pick(CONSTS))
        if k < 4:
            return ("cmp", self.new(), a, self.pick(["<", "==", "in", ">"]), b)
        if k == 4:
            return ("chain", self.new(), a, self.new(), b)
        if k == 5:
            return ("the", self.new(), a, self.new(), b)
        if k == 6:
            return ("the2", self.new(), a, self.new(), b)
        if k == 7:
            return ("nestthe", self.new(), a, self.new(), b)
        if k == 8:
            return ("all", self.new(), a, b)
        return (self.pick(["badbool", "badrepr", "thebadrepr", "returns"]), self.new(), self.n(2))

    def actions(self, d, block):
        out = []
        for _ in range(self.n(3)):
            self.budget -= 1
            k = self.n(9)
            if k < 2:
                out.append(("log", self.new()))
            elif k == 2:
                out.append(("raise", self.pick(EXCS)))
            elif k in (3, 4):
                out.append(("sig", self.pick(PROTOS), self.pick(EXCS)))
            elif k == 5:
                out.append(("handled", self.pick(["cerror", "warn"]), self.pick(EXCS)))
            elif k == 6:
                out.append((self.pick(["fail", "error", "warn"]), self.new()))
            elif d > 0 and self.budget > 0:
                out.append(self.atest(d - 1, block))
        return tuple(out)

    def atest(self, d, block=True):
        """(kind, id, block form?, message?, expected, actions, value or None)"""
        kind = self.pick(["test", "test", "test_raises", "test_signals"])
        block = bool(block and self.n(2))
        acts = self.actions(d, block)
        v = self.value() if not block or (kind == "test" and self.n(3)) else None
        exp = None if kind == "test" else self.pick(EXCS + ["AC"])
        if block and v is None and not acts:
            acts = (("log", self.new()),)
        return (kind, self.new(), block, self.n(3) == 0, exp, acts, v)

    def stmts(self, d, count, insess, depth=1):
        """depth: number of enclosing test sets"""
        out = []
        for _ in range(count):
            self.budget -= 1
            k = self.n(16) if self.budget > 0 else self.n(5)
            if k < 5:
                out.append(self.atest(2))
            elif k in (5, 6, 14) and d > 0 and not self.gterm:
                out.append(("set", self.new(), self.pick([None, None, None, "post"]), self.stmts(d - 1, self.n(4), insess, depth + 1)))
            elif k == 7:
                out.append((self.pick(["fail", "error", "warn"]), self.new()))
            elif k == 8:
                # known finding: in nested test sets, a signal that nothing stops is reported by each of them
                out.append(("sig", self.pick(PROTOS if depth == 1 else ["cerror", "warn"]), self.pick(EXCS)))
            elif k == 9:
                out.append(("raise", self.pick(EXCS)))
            elif k == 10 and d > 0:
                out.append(("catch", bool(self.n(2)), self.stmts(d - 1, 1 + self.n(2), insess, depth)))
            elif k == 11 and d > 0:
                out.append(("try", self.pick(EXCS), self.stmts(d - 1, 1 + self.n(2), insess, depth)))
            elif k == 12 and insess and depth == 1 and self.n(3) == 0:  # known finding: within a nested test set, it ends only that
                out.append(("terminate",))
            elif k == 13 and d > 0:
                out.append(("def", self.new(), self.stmts(d - 1, 1 + self.n(2), insess, depth), 1 + self.n(2)))
            else:
                out.append(("log", self.new()))
        return tuple(out)


@st.composite
def cases(draw):
    g = Gen(draw)
    top = g.pick(["session", "session", "set", "terminating session"])
    g.gterm = top == "terminating session"
    return (top, g.new(), g.stmts(3, 2 + g.n(5), top != "set"))


# ------------------------------------------------------------------ text
def vtext(v):
    k = v[0]
    if k == "const":
        return v[1]
    if k == "cmp":
        b = f"[{v[4]}]" if v[3] == "in" else v[4]
        return f"L({v[1]}, {v[2]}) {v[3]} {b}"
    if k == "chain":
        return f"L({v[1]}, {v[2]}) < L({v[3]}, {v[4]}) < 3"
    if k == "the":
        return f"L({v[1]}, {v[2]}) == the[L({v[3]}, {v[4]})]"
    if k == "the2":
        return f"the[L({v[1]}, {v[2]})] < the[L({v[3]}, {v[4]})]"
    if k == "nestthe":
        return f"the[L({v[1]}, {v[2]}) + the[L({v[3]}, {v[4]})]] < 3"
    if k == "all":
        return f"all(the[L({v[1]}, x)] < 2 for x in [{v[2]}, {v[3]}])"
    if k == "badbool":
        return f"BB({v[1]})"
    if k == "badrepr":
        return f"BR({v[1]}, {v[2]})"
    if k == "thebadrepr":
        return f"the[BR({v[1]}, {v[2]})] and 0"
    if k == "returns":
        return f"returns_normally(L({v[1]}, {v[2]}))"
    raise ValueError(k)


def exprtext(t):
    """Text of the expression of a test in expression form"""
    if t[5]:
        return "(" + "".join(atext(a) + ", " for a in t[5]) + vtext(t[6]) + ")[-1]"
    return vtext(t[6])


def atext(a):
    """An action as an expression"""
    k = a[0]
    if k == "log":
        return f"L({a[1]}, 0)"
    if k == "raise":
        return f"R({a[1]})"
    if k == "sig":
        return f"conditions.{a[1]}({a[2]}())"
    if k == "handled":
        return f"handled(conditions.{a[1]}, {a[2]})"
    if k in ("fail", "error", "warn"):
        return f"{k}['m{a[1]}']"
    return testtext(a)


def testtext(t):
    kind, i, _, msg, exp, _, _ = t
    parts = ([exp] if exp else []) + [exprtext(t)] + ([f"'m{i}'"] if msg else [])
    return f"{kind}[{', '.join(parts)}]"


class Text:
    def __init__(self):
        self.lines = HEAD.splitlines()
        self.where = {}  # id -> line
        self.src = {}    # id -> source of the body

    def emit(self, ind, s):
        self.lines.append("    " * ind + s)

    def note(self, a):
        """Record the line of the tests in an expression on the next line."""
        if a[0] in ("fail", "error", "warn"):
            self.where[a[1]] = len(self.lines) + 1
        elif a[0] in ("test", "test_raises", "test_signals"):
            self.where[a[1]] = len(self.lines) + 1
            self.src[a[1]] = exprtext(a)
            for b in a[5]:
                self.note(b)

    def action(self, ind, a):
        if a[0] in ("test", "test_raises", "test_signals") and a[2]:
            self.block(ind, a)
        else:
            self.note(a)
            self.emit(ind, atext(a))

    def block(self, ind, t):
        kind, i, _, msg, exp, acts, v = t
        args = ([exp] if exp else []) + ([f"'m{i}'"] if msg else [])
        self.emit(ind, f"with {kind}{'[' + ', '.join(args) + ']' if args else ''}:")
        start = len(self.lines)
        self.where[i] = start + 1
        for a in acts:
            self.action(ind + 1, a)
        if v is not None:
            self.emit(ind + 1, f"return {vtext(v)}")
        self.src[i] = "\n".join(x[4 * (ind + 1):] for x in self.lines[start:])

    def stmts(self, ind, stmts):
        for s in stmts:
            k = s[0]
            if k == "set":
                self.emit(ind, f"with testset('s{s[1]}'" + {None: "", "post": f", postproc=post({s[1]})"}[s[2]] + "):")
                self.stmts(ind + 1, s[3])
                if not s[3]:
                    self.emit(ind + 1, "pass")
            elif k == "catch":
                self.emit(ind, f"with catch_signals({s[1]}):")
                self.stmts(ind + 1, s[2])
            elif k == "try":
                self.emit(ind, "try:")
                self.stmts(ind + 1, s[2])
                self.emit(ind, f"except {s[1]}:")
                self.emit(ind + 1, "L(0, 0)")
            elif k == "terminate":
                self.emit(ind, "terminate()")
            elif k == "def":
                self.emit(ind, f"def f{s[1]}():")
                self.stmts(ind + 1, s[2])
                self.emit(ind, "; ".join([f"f{s[1]}()"] * s[3]))
            else:
                self.action(ind, s)


def render(case):
    t = Text()
    if case[0] != "set":
        t.emit(0, f"with session('s{case[1]}'):")
    else:
        t.emit(0, f"with testset('s{case[1]}'):")
    t.stmts(1, case[2])
    return t


# ------------------------------------------------------------------ model
class MExc(Exception):
    pass


class MTerm(Exception):
    pass


class MSignaled(Exception):
    pass


def norm(src):
    src = ANSI.sub("", src)
    return ast.unparse(ast.parse(src))


def percentage(r, f, e):
    """The printed percentage is rounded down; known finding: for some counts it is one too small"""
    exact = 100 * (r - f - e) // r if r else 100
    known = int(100 * (1 - f / r - e / r)) if r else 100
    return exact if known == exact else Either(exact, known)


class Either:
    def __init__(self, *xs):
        self.xs = xs

    def __eq__(self, x):
        return x in self.xs

    def __repr__(self):
        return " or ".join(map(repr, self.xs))


class Model:
    def __init__(self, text):
        self.text = text
        self.log = []
        self.run = self.failed = self.errored = self.warned = 0
        self.frames = []   # ("test", token) or ("set", postproc)
        self.catch = [True]
        self.gterm = False  # the global postprocessor terminates the session

    def L(self, k, v):
        self.log.append((k, v))
        return v

    # -- reporting
    def report(self, kind, data):
        self.log.append(("print", kind))
        posts = [p for k, p in self.frames if k == "set" and p is not None]
        p = posts[-1] if posts else ("global",)
        if self.gterm:
            self.log.append(("print", "TERMINATING"))
            raise MTerm
        self.log.append(("post", p) + data)

    def signal(self, proto, exc):
        if self.catch[-1]:
            kind, token = self.frames[-1]
            if kind == "test":
                raise MSignaled(token, exc)
            self.run += 1
            self.errored += 1
            self.report("SIGNAL", ("signal", exc))
            if proto in ("cerror", "warn"):
                return
        if proto in ("cerror", "error"):
            raise MExc("ControlError")

    # -- values: returns (description, truth); may raise
    def value(self, v, caps, top):
        def cap(src, x):
            caps.append((norm(src), repr(x)))
            return x
        k = v[0]
        if k == "const":
            x = ast.literal_eval(v[1])
            return repr(x), bool(x)
        if k == "cmp":
            a = self.L(v[1], v[2])
            if top:
                cap(f"L({v[1]}, {v[2]})", a)
            x = {"<": a < v[4], "==": a == v[4], ">": a > v[4], "in": a in [v[4]]}[v[3]]
        elif k == "chain":
            a = self.L(v[1], v[2])
            if top:
                cap(f"L({v[1]}, {v[2]})", a)
            b = self.L(v[3], v[4])
            x = a < b < 3
        elif k == "the":
            a = self.L(v[1], v[2])
            x = a == cap(f"L({v[3]}, {v[4]})", self.L(v[3], v[4]))
        elif k == "the2":
            a = cap(f"L({v[1]}, {v[2]})", self.L(v[1], v[2]))
            x = a < cap(f"L({v[3]}, {v[4]})", self.L(v[3], v[4]))
        elif k == "nestthe":
            a = self.L(v[1], v[2])
            b = cap(f"L({v[3]}, {v[4]})", self.L(v[3], v[4]))
            x = cap(f"L({v[1]}, {v[2]}) + the[L({v[3]}, {v[4]})]", a + b) < 3
        elif k == "all":
            x = all(cap(f"L({v[1]}, x)", self.L(v[1], y)) < 2 for y in v[2:4])
        elif k == "badbool":
            self.L(v[1], 0)
            raise MExc("Z")
        elif k == "badrepr":
            self.L(v[1], v[2])
            return f"BR{v[1]}", bool(v[2])
        elif k == "thebadrepr":
            self.L(v[1], v[2])
            caps.append((norm(f"BR({v[1]}, {v[2]})"), f"BR{v[1]}"))
            return (f"BR{v[1]}", False) if not v[2] else ("0", False)
        elif k == "returns":
            self.L(v[1], v[2])
            x = True
        return repr(x), bool(x)

    def action(self, a):
        k = a[0]
        if k == "log":
            self.L(a[1], 0)
        elif k == "raise":
            raise MExc(a[1])
        elif k == "sig":
            self.signal(a[1], a[2])
        elif k == "handled":
            self.log.append(("handled", a[2]))
        elif k in ("fail", "error", "warn"):
            self.unconditional(k, a[1])
        else:
            self.test(a)

    def unconditional(self, k, i):
        ln = self.text.where[i]
        if k == "warn":
            self.warned += 1
        else:
            self.run += 1
            if k == "fail":
                self.failed += 1
            else:
                self.errored += 1
        kind = {"fail": "FAIL", "error": "ERROR", "warn": "WARNING"}[k]
        self.report(kind, (kind, k, f"m{i}", "completed", None, (), ln, None))

    def test(self, t):
        kind, i, block, msg, exp, acts, v = t
        token = object()
        self.frames.append(("test", token))
        caps = []
        try:
            try:
                for a in acts:
                    self.action(a)
                if v is None:
                    mode, res, truth = "completed", "True" if kind == "test" else "None", True
                else:
                    # expression form with actions: the value is not the whole expression
                    desc, truth = self.value(v, caps, kind == "test" and (block or not acts)) if kind == "test" else self.plain(v)
                    mode, res = "completed", desc
            except MSignaled as s:
                if s.args[0] is not token:
                    raise
                mode, res = "signaled", s.args[1]
            except MExc as e:
                mode, res = "raised", e.args[0]
        finally:
            self.frames.pop()
        self.run += 1
        if kind == "test":
            if mode == "completed" and truth:
                return
            bad = "FAIL" if mode == "completed" else "ERROR"
        else:
            expected = {"AC": ["A", "C"]}.get(exp, [exp])
            if mode == ("raised" if kind == "test_raises" else "signaled") and set(PARENT[res]) & set(expected):
                return
            bad = "FAIL" if mode == "completed" else "ERROR"
            caps = []
        if bad == "FAIL":
            self.failed += 1
        else:
            self.errored += 1
        self.report(bad, (bad, kind, f"m{i}" if msg else None, mode, res, tuple(caps), self.text.where[i], norm(self.text.src[i]) if "return" not in self.text.src[i] else None))

    def plain(self, v):
        """The value of an expression in test_raises or test_signals, where nothing is captured (see `strip`)"""
        if v[0] == "badbool":  # its truth does not matter
            self.L(v[1], 0)
            return f"BB{v[1]}", True
        return self.value(v, [], False)

    def stmts(self, stmts):
        for s in stmts:
            k = s[0]
            if k == "set":
                self.set(f"s{s[1]}", {None: None, "post": ("local", s[1])}[s[2]], s[3])
            elif k == "catch":
                self.catch.append(s[1])
                try:
                    self.stmts(s[2])
                finally:
                    self.catch.pop()
            elif k == "try":
                try:
                    self.stmts(s[2])
                except MExc as e:
                    if s[1] not in PARENT[e.args[0]]:
                        raise
                    self.L(0, 0)
            elif k == "terminate":
                self.log.append(("print", "TERMINATING"))
                raise MTerm
            elif k == "def":
                for _ in range(s[3]):
                    self.stmts(s[2])
            else:
                self.action(s)

    def set(self, name, post, stmts):
        before = self.run, self.failed, self.errored, self.warned
        self.log.append(("begin", name))
        self.frames.append(("set", post))
        try:
            self.stmts(stmts)
        except MExc:
            self.run += 1
            self.errored += 1
            self.log.append(("print", "EXCEPTION"))
        finally:
            self.frames.pop()
            r, f, e, w = (a - b for a, b in zip((self.run, self.failed, self.errored, self.warned), before))
            self.log.append(("end", name, r - f - e, f, e, r, percentage(r, f, e), w))

    def program(self, case):
        """-> whether it ends by TestSessionExit"""
        try:
            if case[0] != "set":
                self.gterm = case[0] != "session"
                self.log.append(("print", "SESSION"))
                try:
                    self.set("top level", None, case[2])
                except MTerm:
                    pass
                self.log.append(("print", "SESSION"))
            else:
                self.set(f"s{case[1]}", None, case[2])
        except MTerm:
            return True
        return False


def strip(case):
    """test_raises and test_signals do not support `the`"""
    def t(x):
        if isinstance(x, tuple) and x and x[0] in ("test_raises", "test_signals") and len(x) == 7:
            v = x[6]
            if v is not None and v[0] in ("the", "the2", "nestthe", "all", "thebadrepr"):
                x = x[:6] + (("cmp", v[1], 1, "<", 2),)
        if isinstance(x, tuple):
            return tuple(t(y) for y in x)
        return x
    return t(case)


# ------------------------------------------------------------------ the real thing
def run_case(case):
    from unpythonic import conditions
    from unpythonic.collections import unbox
    from unpythonic.test import fixtures
    case = strip(case)
    text = render(case)
    model = Model(text)
    wend = model.program(case)
    src = "\n".join(text.lines) + "\n"
    log = []

    class A(Exception):
        pass

    class B(A):
        pass

    class C(Exception):
        pass

    class Z(Exception):
        pass

    def L(k, v):
        log.append((k, v))
        return v

    def R(e):
        raise e

    class BB:
        def __init__(self, k):
            self.k = L(k, 0) or k

        def __bool__(self):
            raise Z

    class BR:
        def __init__(self, k, truth):
            self.k, self.truth = k, L(k, truth)

        def __bool__(self):
            return bool(self.truth)

        def __repr__(self):
            raise Z

    def handled(proto, exc):
        def handler(c):
            log.append(("handled", type(c).__name__))
            conditions.invoke("proceed" if proto is conditions.cerror else "muffle")
        with conditions.handlers((exc, handler)):
            proto(exc())

    def D(v):
        if isinstance(v, (BB, BR)):
            return f"{type(v).__name__}{v.k}"
        if isinstance(v, BaseException):
            return type(v).__name__
        return repr(v)

    def recorder(who):
        def post(c):
            if isinstance(c, fixtures.TestingException):
                kind = {fixtures.TestFailure: "FAIL", fixtures.TestError: "ERROR", fixtures.TestWarning: "WARNING"}[type(c)]
                mode = {fixtures.completed: "completed", fixtures.signaled: "signaled", fixtures.raised: "raised"}[c.mode]
                uncond = c.origin in ("fail", "error", "warn")
                src = norm(c.sourcecode) if not uncond and "return" not in c.sourcecode else None
                log.append(("post", who, kind, c.origin, c.custom_message, mode, None if uncond else D(c.result),
                            tuple((norm(s), D(v)) for s, v in c.captured_values), c.lineno, src))
            else:
                log.append(("post", who, "signal", type(c).__name__))
        return post

    def printer(s):
        s = ANSI.sub("", s)
        s = s.lstrip("* ")
        if m := re.fullmatch(r"Testset '([\w ]+)' BEGIN", s):
            log.append(("begin", m.group(1)))
        elif m := re.fullmatch(r"Testset '([\w ]+)' END: Pass (\d+), Fail (\d+), Error (\d+), Total (\d+) \((\d+)% pass\)(?: \+ (\d+) Warn)?", s):
            log.append(("end", m.group(1)) + tuple(int(x or 0) for x in m.groups()[1:]))
        elif s.startswith("TERMINATING SESSION"):
            log.append(("print", "TERMINATING"))
        elif s.startswith("SESSION"):
            log.append(("print", "SESSION"))
        elif s.startswith("Testset received signal outside test"):
            log.append(("print", "SIGNAL"))
        elif s.startswith("Testset terminated by exception outside test"):
            log.append(("print", "EXCEPTION"))
        else:
            log.append(("print", s.split(":")[0]))

    cfg = fixtures.TestConfig
    keep = cfg.printer, cfg.postproc
    counters = fixtures.tests_run, fixtures.tests_failed, fixtures.tests_errored, fixtures.tests_warned
    before = [unbox(c) for c in counters]
    cfg.printer, cfg.postproc = printer, fixtures.terminate if case[0] == "terminating session" else recorder(("global",))
    exc = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ns, exc = run_module(src, dict(A=A, B=B, C=C, AC=(A, C), L=L, R=R, BB=BB, BR=BR, handled=handled, conditions=conditions, post=lambda k: recorder(("local", k))))
    finally:
        cfg.printer, cfg.postproc = keep
        fixtures._threadlocals.nesting_level = 0
        fixtures._threadlocals.postproc_stack.clear()
        while len(fixtures._threadlocals.catch_uncaught_signals) > 1:
            fixtures._threadlocals.catch_uncaught_signals.popleft()
    totals = [unbox(c) - b for c, b in zip(counters, before)]
    what = f"of\n{src}"
    eq(log, model.log, f"history {what}")
    eq(totals, [model.run, model.failed, model.errored, model.warned], f"totals (run, failed, errored, warned) {what}")
    eq(type(exc).__name__, "TestSessionExit" if wend else "NoneType", f"end ({exc!r}) {what}")


def walk(x, out):
    if isinstance(x, tuple):
        if x and isinstance(x[0], str):
            out.append(x[0])
        for y in x:
            walk(y, out)
    return out


def nontrivial(case):
    case = strip(case)
    m = Model(render(case))
    m.program(case)
    return any(x[0] == "print" and x[1] not in ("SESSION", "TERMINATING") for x in m.log) and "set" in walk(case[2], [])


def labels(case):
    kinds = set(walk(case[2], []))
    return sorted(kinds & {"test", "test_raises", "test_signals", "fail", "error", "warn", "sig", "raise", "catch", "try", "terminate", "def", "set", "badbool", "badrepr", "nestthe"})


# ------------------------------------------------------------------ known findings
def printed(body):
    from unpythonic.test import fixtures
    out = []
    keep = fixtures.TestConfig.printer
    fixtures.TestConfig.printer = lambda s: out.append(ANSI.sub("", s))
    try:
        run_module(HEAD + "from unpythonic.conditions import signal\n" + body, {})
    finally:
        fixtures.TestConfig.printer = keep
    return "\n".join(out)


KNOWN = {
    "terminate-nested": lambda: "Total 1" in printed("with session('s'):\n    with testset('a'):\n        terminate()\n    test[True]\n"),
    "signal-nested": lambda: "Error 2" in printed("with testset('a'):\n    with testset('b'):\n        signal(ValueError())\n"),
    "percentage": lambda: "(19% pass)" in printed("with testset('a'):\n    for k in range(5):\n        test[k < 1]\n"),
}


SUITES = [
    Suite("programs", cases(), run_case, quick=1600, shards=4, nontrivial=nontrivial, labels=labels),
]
