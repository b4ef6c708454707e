"""C40: the REPL client shows exactly what the server sends, and sends exactly what the user enters."""
import io
import json
import re
import readline
import socket
import sys
import threading
import time

from hypothesis import strategies as st

from unpythonic.net import client
from unpythonic.net.msg import MessageDecoder, encodemsg
from unpythonic.net.util import socketsource
from vp.core import Suite, Violation, eq, require
from checks import c27

RULE = ("cases are sessions of the interactive client: prompts, a first line with a session id, for each turn the text the server sends before its prompt (any characters, up to 12000), split into fragments at any byte, "
        "the line the user enters (or Ctrl+C, or Ctrl+D), completions requested meanwhile, and the end (Ctrl+D, or the server closing after some last text); the server is a scripted one, or the real one. "
        "Non-trivial: some text is split within a multi-byte character or within a prompt, or there is a Ctrl+C or completion, or the server closes")
TECHNIQUE = "property-based testing with a scripted peer: the transcript on standard output must be the text sent, in order; the lines received must be those entered; control requests must be those due, in order"
ASSUMPTIONS = ["the server's text is valid UTF-8 and contains no prompt other than at its end (documented: then it could be taken for a prompt)",
               "messages of the client itself, after the session has ended, are free"]
WAIT = 20

PROMPTS = [(">>>> ", ".... "), ("In [1]: ", "   ...: "), ("» ", "… "), ("日本>", "日本:"), (">", "|")]
TEXTS = ["", "a", ">", ">>", ">>>", ">>>>", ".", "...", " ", "\n", "\n", "é", "日", "日本", "𝄞", "In", "   ", "   ..", "»", "…", "\t", "1\n", "Traceback:\n  x\n", "\r\n"]


@st.composite
def text(draw, prompts, big):
    t = "".join(draw(st.lists(st.sampled_from(TEXTS), max_size=8)))
    if big:
        n = draw(st.integers(4080, 4100))
        c = draw(st.sampled_from("xé日.>"))
        t = t + c * n
    for p in prompts:
        while p in t:
            t = t.replace(p, "")
    return t


def splits(n):
    return st.lists(st.integers(1, max(1, n)), max_size=5)


@st.composite
def sessions(draw):
    ps = draw(st.sampled_from(PROMPTS))
    turns = []
    nturns = draw(st.integers(1, 4))
    for i in range(nturns):
        p = ps[0] if i == 0 else draw(st.sampled_from(ps))
        t = draw(text(ps, draw(st.integers(0, 7)) == 0))
        if i == 0:
            t = draw(st.sampled_from(["REPL session {} connected.\n", "session {} connected\n", "REPL session {} connected.\n\n"])).replace("{}", str(draw(st.integers(0, 10 ** 6)))) + t
        # the prompt must appear at the end only
        while min((t + p).find(x) for x in ps if x in t + p) != len(t):
            t = t[:-1]
        b = len((t + p).encode("utf-8"))
        # where to cut: anywhere, and often within the prompt
        cuts = draw(st.lists(st.one_of(st.integers(1, b), st.integers(max(1, b - len(p.encode())), b), st.integers(1, b)), max_size=4))
        entered = draw(st.sampled_from(["", "x = 1", "print('é')", "日本", "  y", "quit", None, None]) if i else st.sampled_from(["", "x = 1", "é", "1 + 1"]))
        asks = draw(st.lists(st.tuples(st.sampled_from(["", "pri", "é", "a.b"]), st.integers(0, 3), st.sampled_from(["print(", None, "é", "failed", ""])), max_size=2))
        turns.append((t, p, sorted(set(cuts)), entered, asks))
    last = draw(st.one_of(st.none(), text(ps, False)))
    return dict(ps=ps, turns=turns, last=last, cut=draw(st.lists(st.integers(1, 12), max_size=2)))


class Hang(Exception):
    pass


class Server(threading.Thread):
    def __init__(self, case):
        super().__init__(daemon=True)
        self.case = case
        self.lines, self.requests = [], []
        self.problem = None
        self.socks = []
        self.listeners = []
        for _ in range(2):
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            s.listen()
            s.settimeout(WAIT)
            self.listeners.append(s)
        self.ports = [s.getsockname()[1] for s in self.listeners]
        self.control = threading.Thread(target=self.serve_control, daemon=True)

    def accept(self, j):
        s, _ = self.listeners[j].accept()
        s.settimeout(WAIT)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.socks.append(s)
        return s

    def serve_control(self):
        try:
            s = self.accept(1)
            dec = MessageDecoder(socketsource(s))
            asks = [a for t in self.case["turns"] for a in t[4]]
            while True:
                m = dec.decode()
                if not m:
                    return
                r = json.loads(m.decode("utf-8"))
                self.requests.append(r)
                if r["command"] == "DescribeServer":
                    out = {"status": "ok", "prompts": dict(zip(("ps1", "ps2"), self.case["ps"]))}
                elif r["command"] == "TabComplete":
                    want = asks.pop(0)[2]
                    out = {"status": "failed", "reason": "x"} if want == "failed" else {"status": "ok", "result": want}
                else:
                    out = {"status": "ok"}
                data = encodemsg(json.dumps(out).encode("utf-8"))
                k = len(data) // 2
                s.sendall(data[:k])
                s.sendall(data[k:])
        except (OSError, ValueError, IndexError):
            pass

    def fragments(self, s, data, cuts):
        at = 0
        for c in [*cuts, len(data)]:
            if at < c <= len(data):
                s.sendall(data[at:c])
                at = c
                time.sleep(0.002)

    def run(self):
        self.control.start()
        s = None
        try:
            s = self.accept(0)
            buf = b""
            for t, p, cuts, entered, _ in self.case["turns"]:
                self.fragments(s, (t + p).encode("utf-8"), cuts)
                while b"\n" not in buf:
                    data = s.recv(4096)
                    if not data:
                        return
                    buf += data
                line, buf = buf.split(b"\n", 1)
                self.lines.append(line.decode("utf-8"))
            if self.case["last"] is not None:
                self.fragments(s, self.case["last"].encode("utf-8"), self.case["cut"])
            else:
                self.fragments(s, self.case["ps"][0].encode("utf-8"), [])
                while True:  # Ctrl+D follows
                    data = s.recv(4096)
                    if not data:
                        break
                    buf += data
                self.lines += [x.decode("utf-8") for x in buf.split(b"\n")[:-1]]
        except TimeoutError:
            self.problem = f"the client did nothing for {WAIT} s after it was sent {self.case['turns'][len(self.lines)][:3] if len(self.lines) < len(self.case['turns']) else 'the last prompt'!r}"
        except OSError as e:
            self.problem = repr(e)
        finally:
            for x in self.socks:
                x.close()


class Stdin(io.StringIO):
    """The user."""
    def __init__(self, case, out):
        super().__init__()
        self.todo = [(e, asks) for _, _, _, e, asks in case["turns"]]
        self.problems = out

    def readline(self, *args):
        if not self.todo:
            return ""  # Ctrl+D
        e, asks = self.todo.pop(0)
        for t, n, want in asks:
            got = readline.get_completer()(t, n)
            if got != (None if want == "failed" else want):
                self.problems.append(f"completion {n} of {t!r}: got {got!r}, the server's answer was {want!r}")
        if e is None:
            raise KeyboardInterrupt
        return e + "\n"


def run(case):
    problems = []
    srv = Server(case)
    srv.start()
    old = sys.stdin, sys.stdout, readline.get_completer()
    out = io.StringIO()
    sys.stdin, sys.stdout = Stdin(case, problems), out
    try:
        client.connect("127.0.0.1", *srv.ports)
        error = None
    except (KeyboardInterrupt, Exception) as e:
        error = e
    finally:
        sys.stdin, sys.stdout = old[:2]
        readline.set_completer(old[2])
    srv.join(2 * WAIT)
    for s in srv.listeners:
        s.close()
    srv.control.join(WAIT)
    require(error is None, f"the client ended with {error!r}")
    require(srv.problem is None, srv.problem or "")
    require(not problems, problems)
    turns = case["turns"]
    eq(srv.lines, [e or "" for _, _, _, e, _ in turns] + (["quit()"] if case["last"] is None else []), "lines sent by the client")
    asks = lambda t: [{"command": "TabComplete", "text": a, "state": n} for a, n, _ in t[4]]
    sid = int(re.search(r"session (\d+)", turns[0][0]).group(1))
    want = [{"command": "DescribeServer"}, {"command": "PairWithSession", "id": sid}]
    for t in turns:
        want += asks(t) + ([{"command": "KeyboardInterrupt"}] if t[3] is None else [])
    eq(srv.requests, want, "control requests")
    transcript = "".join(t + p for t, p, _, _, _ in turns) + (case["ps"][0] if case["last"] is None else case["last"])
    # what the completer prints of a failed request goes to standard output, too
    got = out.getvalue()
    for t in turns:
        for a in t[4]:
            if a[2] == "failed":
                got = got.replace("Server command failed, reason: x\n", "", 1)
    if not got.startswith(transcript):
        k = next((i for i, (x, y) in enumerate(zip(got, transcript)) if x != y), min(len(got), len(transcript)))
        raise Violation(f"the output differs from the text sent at character {k}: ...{got[max(0, k - 20):k + 60]!r}, sent ...{transcript[max(0, k - 20):k + 60]!r}")


def nontrivial(case):
    if case["last"] is not None:
        return True
    for t, p, cuts, e, asks in case["turns"]:
        b, n = (t + p).encode("utf-8"), len(t.encode("utf-8"))
        if e is None or asks or any(n < c < len(b) or (c < len(b) and b[c] & 0xC0 == 0x80) for c in cuts):
            return True
    return False


# ---------------------------------------------------------------- the real server

@st.composite
def real(draw):
    kinds = [k for k in c27.KINDS if k not in ("host", "stderr", "input")]
    return draw(st.lists(st.tuples(st.sampled_from(kinds), st.integers(0, 39), st.integers(0, 99)), min_size=1, max_size=6))


class Typed(io.StringIO):
    def __init__(self):
        super().__init__()
        self.todo = []

    def readline(self, *args):
        return self.todo.pop(0) + "\n" if self.todo else ""


def run_real(steps):
    with c27.replaced(None):
        sys.stdin = stdin = Typed()
        out = sys.stdout
        r = c27.Run("hello", None, (sys.stdin, sys.stdout, sys.stderr))
        lines = [x for s in steps for x in r.steps(s, 0)]
        stdin.todo = [x for x, _, _ in lines]
        r.start(False)
        try:
            client.connect("127.0.0.1", r.port, r.cport)
        finally:
            c27.server.stop()
        pattern = r"(?s:.*?)REPL session \d+ connected\.\n(?s:.*?)" + "".join(re.escape(p) + o for p, o in zip([c27.PS1] + [p for _, _, p in lines], [o for _, o, _ in lines])) + re.escape(c27.PS1) + "(?s:.*)"
        require(re.fullmatch(pattern, out.getvalue()), f"the client showed {out.getvalue()!r}, expected a match of {pattern!r}")


SUITES = [
    Suite("scripted", sessions(), run, quick=560, shards=8, nontrivial=nontrivial, labels=lambda c: ["server closes" if c["last"] is not None else "Ctrl+D"] + ["Ctrl+C" for t in c["turns"] if t[3] is None][:1]),
    Suite("real server", real(), run_real, quick=80, shards=8, nontrivial=lambda s: len(s) > 1, labels=lambda s: [k for k, _, _ in s]),
]
