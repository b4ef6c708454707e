"""C27: REPL server sessions are isolated, faithful and cleaned up."""
import contextlib
import gc
import io
import os
import re
import rlcompleter
import socket
import struct
import sys
import threading
import time

from hypothesis import strategies as st

from unpythonic.net import server
from unpythonic.net.client import ControlClient
from unpythonic.net.msg import MessageDecoder, encodemsg
from unpythonic.net.util import socketsource
from vp.core import Suite, Violation, eq, require

RULE = ("cases are histories of one REPL server over loopback sockets: up to three sessions opened and closed in any order, inputs sent in any fragmentation, one at a time or pipelined in several sessions at once "
        "(assignments and reads in the shared namespace, prints, errors, multi-line blocks, input(), large outputs, background jobs), control channels (pairing, completion, remote Ctrl+C, malformed requests), "
        "host output in between, and sessions ended by quit, half-close, close or reset at a prompt, within a line, within a block, in input() and while running; the oracle is the text a Python console gives for each input, in order, "
        "a model of the shared namespace, and the host's streams, prompts, threads and descriptors before and after; non-trivial: at least two sessions, or a session ended other than by quit at the prompt")
TECHNIQUE = "model-based (stateful) property-based testing with injected disconnects, over real sockets and PTYs"
ASSUMPTIONS = ["all clients have left when the server is stopped", "the code of a session comes to an end after its client has left (a thread cannot be killed)",
               "inputs of different sessions that run at the same time touch different variables", "an input that is not terminated by a newline is not evaluated when the client disconnects"]

PS1, PS2, IN = ">>>> ", ".... ", "IN?> "
WAIT = 30


# ---------------------------------------------------------------- inputs
#
# A step: (lines, [(regex of the output after this line, prompt that follows)], effect on the model)

def tb(last):
    return r"Traceback \(most recent call last\):\n(?:  .*\n)*" + last


def step(s, ns, i):
    """-> list of (line, regex, prompt); updates ns"""
    k, a, b = s
    v = f"g{a % 2}" if k in ("set", "get", "inc") else f"s{i}"
    if k == "set":
        ns[v] = b
        return [(f"{v} = {b}", "", PS1)]
    if k == "inc":
        if v not in ns:
            return [(f"{v} += 1", tb(rf"NameError: name '{v}' is not defined.*\n"), PS1)]
        ns[v] += 1
        return [(f"{v} += 1", "", PS1)]
    if k == "get":
        if v not in ns:
            return [(v, tb(rf"NameError: name '{v}' is not defined.*\n"), PS1)]
        return [(v, f"{ns[v]}\n", PS1)]
    if k == "print":
        w = ["é", "x y", "'", "日本", "", "#"][a % 6]
        return [(f"print({w!r}, {b}, {i})", re.escape(f"{w} {b} {i}\n"), PS1)]
    if k == "noeol":
        return [(f"print('n{b}', end='')", f"n{b}", PS1)]
    if k == "stderr":
        return [(f"_ = __import__('sys').stderr.write('e{b}-{i}\\n')", f"e{b}-{i}\n", PS1)]
    if k == "own":
        return [(f"{v} = {b}", "", PS1), (f"({v}, {v})", re.escape(f"({b}, {b})\n"), PS1)]
    if k == "error":
        return [[("1 // 0", tb("ZeroDivisionError: .*\n"), PS1)], [(f"raise ValueError('v{b}')", tb(f"ValueError: v{b}\n"), PS1)], [("1 +", "(?:  .*\n)*SyntaxError: .*\n", PS1)],
                [("raise KeyboardInterrupt", "(?:(?!>>>> ).*\n)*KeyboardInterrupt\n", PS1)], [("class _E(BaseException): pass", "", PS2), ("", "", PS1), ("raise _E", tb("(?:.*[.])?_E\n"), PS1)]][a % 5]
    if k == "def":
        return [(f"def f{i}(x):", "", PS2), (f"    return x + {b}", "", PS2), ("", "", PS1), (f"f{i}(1)", f"{b + 1}\n", PS1)]
    if k == "for":
        n = a % 4
        return [(f"for k{i} in range({n}):", "", PS2), (f"    print(k{i}, {b})", "", PS2), ("", "".join(f"{j} {b}\n" for j in range(n)), PS1)]
    if k == "string":
        return [(f"{v} = '''a{b}", "", PS2), ("é'''", "", PS1), (v, re.escape(repr(f"a{b}\né") + "\n"), PS1)]
    if k == "input":
        return [(f"{v} = input({IN!r})", "", IN), (f"q {b}", "", PS1), (v, re.escape(repr(f"q {b}") + "\n"), PS1)]
    if k == "big":
        n = 100 + 997 * (a % 40)
        return [(f"print('{b % 10}' * {n})", f"{b % 10}{{{n}}}\n", PS1)]
    if k == "bg":
        if a % 3 == 0:
            return [(f"t{i} = bg(lambda: {b} // 0)", "", PS1), (f"t{i}.join(); fg(t{i})", tb("ZeroDivisionError: .*\n"), PS1)]
        if a % 3 == 1:
            return [(f"t{i} = bg(lambda: {b} * 2); u{i} = bg(lambda: {b} * 3); t{i}.join(); u{i}.join(); [fg(t{i}), fg(u{i})]", re.escape(f"[{2 * b}, {3 * b}]\n"), PS1)]
        return [(f"import threading; ev{i} = threading.Event(); t{i} = bg(lambda: ev{i}.wait() and {b})", "", PS1), (f"fg(t{i}) is t{i}", "True\n", PS1),
                (f"ev{i}.set(); t{i}.join(); fg(t{i})", f"{b}\n", PS1), (f"fg(t{i})", tb("ValueError: .*\n"), PS1)]
    if k == "doc":
        return [(f"doc(lambda: 0)", "(?:.*:[0-9]+\n)?<no docstring>\n", PS1)]
    if k == "tty":
        return [("import os, sys; os.isatty(sys.stdin.fileno())", "True\n", PS1)]
    if k == "host":
        return [(f"server_print('HOST-s{b}')", "", PS1)]
    raise AssertionError(s)


KINDS = ["set", "set", "inc", "get", "get", "print", "print", "noeol", "stderr", "own", "error", "error", "def", "for", "string", "input", "big", "bg", "doc", "tty", "host"]
steps_ = st.tuples(st.sampled_from(KINDS), st.integers(0, 39), st.integers(0, 99))
PRIVATE = [k for k in KINDS if k not in ("set", "inc", "get", "host")]
private = st.tuples(st.sampled_from(PRIVATE), st.integers(0, 39), st.integers(0, 99))
ENDS = ["quit", "exit", "sysexit", "last", "half", "close", "reset", "midline", "midchar", "block", "string", "input", "running", "running-reset", "flood"]
BAD = [{}, {"command": "Nope"}, {"command": "TabComplete"}, {"command": "TabComplete", "text": 5, "state": 0}, {"command": "TabComplete", "text": "g", "state": "0"}, [], 5, "command", None.__class__.__name__,
       {"command": "PairWithSession"}, {"command": "PairWithSession", "id": 10 ** 6}, {"command": "PairWithSession", "id": [1]}, {"command": "PairWithSession", "id": {"a": 1}}, {"command": ["x"]}, {"command": None}]
TEXTS = ["g", "pri", "g0.re", "g0.", "no_such_name.", "ser", "fg", "zz", "1 +", "import o", ""]


@st.composite
def histories(draw):
    ops = []
    alive = set()
    for _ in range(draw(st.integers(2, 9))):
        i = draw(st.integers(0, 2))
        if i not in alive:
            ops.append(("open", i))
            alive.add(i)
            continue
        k = draw(st.integers(0, 13))
        if k <= 4:
            ops.append(("run", i, draw(steps_), draw(st.lists(st.integers(1, 9), max_size=4))))
        elif k == 5:
            ops.append(("pipe", i, draw(st.lists(steps_.filter(lambda s: s[0] != "big"), min_size=1, max_size=4)), draw(st.lists(st.integers(1, 40), max_size=4))))
        elif k in (6, 7):
            js = sorted(draw(st.sets(st.sampled_from(sorted(alive)), min_size=1)))
            ops.append(("all", [(j, draw(st.lists(private, min_size=1, max_size=3))) for j in js]))
        elif k == 8:
            ops.append(("host", draw(st.integers(0, 99))))
        elif k == 9:
            ops.append(("complete", i, draw(st.sampled_from(TEXTS))))
        elif k == 10:
            ops.append(("bad", i, draw(st.integers(0, len(BAD) - 1))))
        elif k == 11:
            ops.append(("interrupt", i))
        else:
            ops.append(("end", i, draw(st.sampled_from(ENDS))))
            alive.discard(i)
    for i in sorted(alive):
        ops.append(("end", i, draw(st.sampled_from(ENDS))))
    return (draw(st.sampled_from([None, "", "Welcome."])), draw(st.sampled_from([None, "in: "])), draw(st.integers(0, 5)) == 0, ops)


# ---------------------------------------------------------------- clients

class Client:
    def __init__(self, port, what):
        self.what = what
        self.sock = socket.create_connection(("127.0.0.1", port), timeout=WAIT)
        self.sock.settimeout(WAIT)
        self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf = b""
        self.ctl = None

    def recv(self, expected):
        try:
            return self.sock.recv(65536)
        except TimeoutError:
            raise Violation(f"{self.what}: no answer in {WAIT} s; received {self.buf[-300:]!r}, expected {expected}") from None
        except ConnectionError:
            return b""

    def text(self):
        return self.buf.decode("utf-8", "replace")

    def expect(self, n, pattern, prompts=(PS1, PS2, IN)):
        """Read until the n-th prompt, compare with the pattern."""
        def done():
            t = self.text()
            return sum(t.count(p) for p in prompts) >= n and t.endswith(tuple(prompts))
        while not done():
            b = self.recv(pattern)
            if not b:
                raise Violation(f"{self.what}: the connection was closed; received {self.buf[-300:]!r}, expected {pattern[:400]!r}")
            self.buf += b
        t = self.text()
        self.buf = b""
        require(re.fullmatch(pattern, t), f"{self.what}: received {t[:600]!r}, expected a match of {pattern[:600]!r}")
        return t

    def to_eof(self, pattern):
        while True:
            b = self.recv(pattern)
            if not b:
                break
            self.buf += b
        t = self.text()
        require(re.fullmatch(pattern, t), f"{self.what}, until the end of the session: received {t[:600]!r}, expected a match of {pattern[:600]!r}")

    def send(self, data, sizes=()):
        if isinstance(data, str):
            data = data.encode("utf-8")
        try:
            for n in sizes:
                if data:
                    self.sock.sendall(data[:n])
                    data = data[n:]
            self.sock.sendall(data)
        except ConnectionError:
            raise Violation(f"{self.what}: the connection was closed") from None

    def close(self, reset=False):
        if self.ctl is not None:
            self.ctl.close()
        if reset:
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.sock.close()


class Control:
    """A control channel; requests are whole values, so that malformed ones can be sent."""
    def __init__(self, port, what):
        import json
        self.json = json
        self.what = what
        self.sock = socket.create_connection(("127.0.0.1", port), timeout=WAIT)
        self.sock.settimeout(WAIT)
        self.decoder = MessageDecoder(socketsource(self.sock))
        self.client = ControlClient(self.sock)

    def request(self, r):
        try:
            self.sock.sendall(encodemsg(self.json.dumps(r).encode("utf-8")))
            got = self.decoder.decode()
        except (TimeoutError, ConnectionError) as err:
            raise Violation(f"{self.what}: request {r!r}: {err!r}") from None
        require(got, f"{self.what}: the control channel was closed upon the request", r)
        return self.json.loads(got.decode("utf-8"))

    def close(self):
        self.sock.close()


def ports():
    ss = [socket.socket() for _ in range(2)]
    for s in ss:
        s.bind(("127.0.0.1", 0))
    out = [s.getsockname()[1] for s in ss]
    for s in ss:
        s.close()
    return out


def wait_for(cond):
    t = time.monotonic()
    while not cond():
        if time.monotonic() - t > WAIT:
            return False
        time.sleep(0.002)
    return True


def fds():
    gc.collect()
    return len(os.listdir("/proc/self/fd"))


# ---------------------------------------------------------------- running

@contextlib.contextmanager
def replaced(ps):
    old = sys.stdin, sys.stdout, sys.stderr
    had = {p: getattr(sys, p) for p in ("ps1", "ps2") if hasattr(sys, p)}
    sys.stdin, sys.stdout, sys.stderr = io.StringIO("host input\n"), io.StringIO(), io.StringIO()
    for p in ("ps1", "ps2"):
        if ps is not None:
            setattr(sys, p, ps + p)
        elif hasattr(sys, p):
            delattr(sys, p)
    try:
        yield sys.stdin, sys.stdout, sys.stderr
    finally:
        sys.stdin, sys.stdout, sys.stderr = old
        for p in ("ps1", "ps2"):
            if hasattr(sys, p):
                delattr(sys, p)
            if p in had:
                setattr(sys, p, had[p])


class Run:
    def __init__(self, banner, ps, streams):
        self.banner, self.ps, self.streams = banner, ps, streams
        self.ns, self.locals = {}, {}
        self.clients = {}
        self.ids = set()
        self.host = []

    def state(self):
        return (sys.stdin is self.streams[0], sys.stdout is self.streams[1], sys.stderr is self.streams[2], getattr(sys, "ps1", None), getattr(sys, "ps2", None))

    def start(self, fail):
        before = self.state()
        if fail:
            with socket.socket() as s:
                s.bind(("127.0.0.1", 0))
                s.listen()
                busy, (free, _) = s.getsockname()[1], ports()
                for a, b in ((busy, free), (free, busy)):
                    try:
                        server.start(self.locals, repl_port=a, control_port=b, banner=self.banner)
                    except OSError:
                        pass
                    else:
                        raise Violation("started on a port that is in use")
                    eq(self.state(), before, "host streams and prompts after a failed start")
        for tries in range(20):
            self.port, self.cport = ports()
            try:
                server.start(self.locals, repl_port=self.port, control_port=self.cport, banner=self.banner)
                break
            except OSError:  # another process took the port in between
                if tries == 19:
                    raise
        try:
            server.start({}, repl_port=self.cport, control_port=self.port)
        except RuntimeError:
            pass
        else:
            raise Violation("started twice")

    def open(self, i):
        c = Client(self.port, f"session {i}")
        self.clients[i] = c
        t = c.expect(1, r"REPL session \d+ connected\.\n(?s:.*)" + PS1)
        sid = int(re.match(r"REPL session (\d+)", t).group(1))
        require(sid not in self.ids, "session id used twice:", sid)
        self.ids.add(sid)
        c.sid = sid
        if self.banner:
            require(self.banner in t, "banner missing in", t)
        if self.banner is None:
            require(f":{self.port}" in t and "quit()" in t, "default banner missing in", t)

    def control(self, i):
        c = self.clients[i]
        if c.ctl is None:
            c.ctl = Control(self.cport, f"control channel of session {i}")
            eq(c.ctl.request({"command": "KeyboardInterrupt"}).get("status"), "failed", "status of Ctrl+C in an unpaired channel")
            r = c.ctl.client.describe_server()
            require(r is not None, "no description from the server")
            eq(r["prompts"], {"ps1": PS1, "ps2": PS2}, "prompts")
            require(c.ctl.client.pair_with_session(c.sid), f"pairing with session {c.sid} failed")
        return c.ctl

    def end(self, i, how):
        c = self.clients.pop(i)
        other = "(?s:.*)"
        if how in ("quit", "exit", "sysexit", "last"):
            c.send({"quit": "quit()\n", "exit": "exit()\n", "sysexit": "raise SystemExit\n", "last": "print('x' * 3000); print('last', end=''); quit()\n"}[how])
            c.to_eof(("x{3000}\nlast" if how == "last" else "") + r"(?:\n?Bye\.\n)?")
        elif how == "half":
            c.send(f"print('one', {i})\nprint('y' * 5000)\nprint('two')\n")
            c.sock.shutdown(socket.SHUT_WR)
            c.to_eof(f"one {i}\n{PS1}y{{5000}}\n{PS1}two\n{PS1}{other}".replace(".", "[.]").replace("(?s:[.]*)", other))
        elif how == "midline":
            c.send("print('never'")
        elif how == "midchar":
            c.send("x = '日".encode("utf-8")[:-1])
        elif how in ("block", "string"):
            c.send("def f():\n    pass\n" if how == "block" else "x = '''abc\nquit()\n")
            c.expect(2, re.escape(PS2 + PS2))
        elif how == "input":
            c.send(f"input({IN!r})\n")
            c.expect(1, re.escape(IN))
        elif how in ("running", "running-reset"):
            c.send("import time; print('started'); time.sleep(0.02); print('x' * 20000); time.sleep(0.02); print('x' * 20000)\n")
            while b"started" not in c.buf:
                b = c.recv("started")
                require(b, "connection closed")
                c.buf += b
        elif how == "flood":
            # a client that sends a lot at once, and leaves without reading the answers
            c.send("print('x' * 100)\n" * 600)
        c.close(reset="reset" in how)

    def op(self, o):
        k = o[0]
        if k == "open":
            self.open(o[1])
        elif k == "run":
            c = self.clients[o[1]]
            for line, out, prompt in self.steps(o[2], o[1]):
                c.send(line + "\n", o[3])
                c.expect(1, out + re.escape(prompt))
        elif k == "pipe":
            self.pipe([(o[1], o[2])], o[3])
        elif k == "all":
            self.pipe(o[1], ())
        elif k == "host":
            print(f"HOST-{o[1]}")
            t = threading.Thread(target=lambda: print(f"HOST-t{o[1]}"))
            t.start()
            t.join()
            self.host += [f"HOST-{o[1]}", f"HOST-t{o[1]}"]
        elif k == "complete":
            ctl = self.control(o[1])
            ref = rlcompleter.Completer(self.locals)
            for n in range(50):
                want = ref.complete(o[2], n)
                eq(ctl.client.complete(o[2], n), want, f"completion {n} of {o[2]!r}")
                if want is None or not o[2].strip():
                    break
        elif k == "bad":
            ctl = self.control(o[1])
            r = ctl.request(BAD[o[2]])
            require(isinstance(r, dict) and r.get("status") == "failed", f"answer to the request {BAD[o[2]]!r}:", r)
            eq(ctl.request({"command": "DescribeServer"}).get("status"), "ok", "status of the next request")
        elif k == "interrupt":
            c = self.clients[o[1]]
            ctl = self.control(o[1])
            c.send("import time; exec('print(\"RUN\")\\nwhile True: time.sleep(0.002)')\n")
            while not c.buf.endswith(b"RUN\n"):
                b = c.recv("RUN")
                require(b, "connection closed")
                c.buf += b
            c.buf = b""
            require(ctl.client.send_kbinterrupt(), "remote Ctrl+C failed")
            c.expect(1, r"(?:(?!>>>> ).*\n)*KeyboardInterrupt\n" + PS1)
        elif k == "end":
            self.end(o[1], o[2])

    def steps(self, s, i):
        if s[0] == "host":
            self.host.append(f"HOST-s{s[2]}")
        return step(s, self.ns, i)

    def pipe(self, work, sizes):
        todo = []
        for i, ss in work:
            ls = [x for s in ss for x in self.steps(s, i)]
            todo.append((self.clients[i], len(ls), "".join(out + re.escape(p) for _, out, p in ls), "".join(x + "\n" for x, _, _ in ls)))
        for c, _, _, text in todo:
            c.send(text, sizes)
        for c, n, pattern, _ in todo:
            c.expect(n, pattern)


def run(case):
    banner, ps, fail, ops = case
    with replaced(ps) as streams:
        r = Run(banner, ps, streams)
        before, nfds, nthreads = r.state(), fds(), threading.active_count()
        try:
            r.start(fail)
            running = threading.active_count()
            for o in ops:
                r.op(o)
            require(wait_for(lambda: threading.active_count() <= running), f"after all clients have left, sessions are still running in {[t.name for t in threading.enumerate()]}")
        finally:
            for c in r.clients.values():
                c.close()
            server.stop()
        eq(r.state(), before, "host streams and prompts after stopping the server")
        require(wait_for(lambda: fds() <= nfds), f"{fds()} open descriptors, {nfds} before")
        require(threading.active_count() <= nthreads, f"threads left: {[t.name for t in threading.enumerate()]}")
        got = [x for x in streams[1].getvalue().split("\n") if x.startswith("HOST-")]
        eq(got, r.host, "output of the host")
        eq({k: v for k, v in r.locals.items() if k in ("g0", "g1")}, {k: v for k, v in r.ns.items() if k in ("g0", "g1")}, "shared namespace")
        try:
            socket.create_connection(("127.0.0.1", r.port), timeout=5).close()
        except ConnectionError:
            pass
        else:
            raise Violation("the stopped server accepts connections")


def nontrivial(case):
    ops = case[3]
    return len({o[1] for o in ops if o[0] == "open"}) > 1 or any(o[0] == "end" and o[2] not in ("quit", "exit") for o in ops)


def labels(case):
    return [o[0] for o in case[3] if o[0] != "end"] + [f"end {o[2]}" for o in case[3] if o[0] == "end"] + [f"input {o[2][0]}" for o in case[3] if o[0] == "run"]


SUITES = [
    Suite("histories", histories(), run, quick=320, shards=8, nontrivial=nontrivial, labels=labels),
]
