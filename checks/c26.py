"""C26: message framing over byte streams."""
import io
import re
import socket
import threading

import hypothesis.strategies as st

from vp.core import Suite, require, eq
from unpythonic.net.common import ApplevelProtocolMixin
from unpythonic.net.msg import encodemsg, decodemsg, MessageDecoder
from unpythonic.net.util import ReceiveBuffer, bytessource, streamsource, socketsource, recvall, netstringify

RULE = ("cases are sequences of payloads (empty, binary, containing sync bytes and whole or partial headers, sizes around the internal limits), garbage between them that is not itself a valid "
        "header, an optional truncated tail, and a fragmentation of the resulting byte stream into arbitrary (also empty) chunks; decoded from an in-memory source that checks how far the "
        "decoder reads, from streams with short reads, and over real sockets with a concurrent sender. Non-trivial: at least two messages or garbage, and at least two chunks")
TECHNIQUE = "property-based testing: round trip through generated fragmentations with an exact account of every byte read"
ASSUMPTIONS = ["garbage does not contain a complete valid header (then the stream is ambiguous by design)"]

HEADER = re.compile(rb"\xffv01l[0-9]+;")
pieces = st.sampled_from([b"\xff", b"v01", b"l", b";", b"3", b"12", b"\xffv01l", b"\xffv01l5", b"\xffv01l;", b"\xffv02l3;abc", b"hello", b"\x00", b"\xff\xff", b"l4;", b"-1;", b" 1;", b"\xffv01l-3;", b"\xffv01l 3;",
                          b"\xffv01l+2;", b"\xffv01l1_0;", "\u0663;".encode(), "\xffv01l\u0663;".encode("utf-8"), b"\xffv01l\xd9\xa3;", b"\xffv01lx;", b"\xffv01l0x3;", b"\xffv01l1.5;", b"\xffv01l1e2;", b"\xffv01"])
blob = st.lists(st.one_of(pieces, st.binary(max_size=4)), max_size=5).map(b"".join)
sizes = st.sampled_from([4085, 4088, 4089, 4090, 4091, 4095, 4096, 4097, 5000, 8190, 8192])
big = st.builds(lambda n, b: (b * (n // len(b) + 1))[:n], sizes, st.sampled_from([b"x", b"\xff", b";", b"\xffv01l5;", b"abcdefg;"]))
payload = st.one_of(blob, blob, blob, blob, st.just(b""), big)
junk = st.one_of(st.just(b""), st.just(b""), blob, st.builds(lambda n: b"x" * n, st.sampled_from([4095, 4096, 5000])), st.builds(lambda n: b"\xffv01l" + b"1" * n, st.sampled_from([1, 4090, 4091, 4092, 4500])),
                 st.builds(lambda n: b"\xffv01l" + b"z" * n, st.sampled_from([1, 4085, 4092, 4500])))
messages = st.lists(st.tuples(junk, payload), max_size=5)


@st.composite
def streams(draw):
    msgs = draw(messages)
    msgs = [(b"" if HEADER.search(g) else g, p) for g, p in msgs]
    tail = draw(junk)
    tail = b"" if HEADER.search(tail) else tail
    if draw(st.integers(0, 3)) == 0:      # a truncated message at the end
        t = encodemsg(draw(blob) + b"!")
        tail += t[:draw(st.integers(1, len(t) - 1))]
    total = sum(len(g) + len(encodemsg(p)) for g, p in msgs) + len(tail)
    how = draw(st.sampled_from(["cuts", "cuts", "cuts", "bytes", "fixed", "whole", "seams"]))
    cuts = set()
    if how == "cuts":
        cuts = set(draw(st.lists(st.integers(0, max(total, 1)), max_size=8)))
    elif how == "bytes":
        cuts = set(range(min(total, 120)))
    elif how == "fixed":
        n = draw(st.sampled_from([2, 3, 5, 7, 64, 4096, 4095]))
        cuts = set(range(0, total, max(n, total // 100 + 1)))
    elif how == "seams":
        at = 0
        for g, p in msgs:
            at += len(g) + len(encodemsg(p))
            cuts.add(at + draw(st.integers(-6, 7)))
    return msgs, tail, sorted(c for c in cuts if 0 < c < total), draw(st.lists(st.integers(0, 8), max_size=2))


def split(case):
    msgs, tail, cuts, empties = case
    data = b""
    ends = []
    for g, p in msgs:
        data += g + encodemsg(p)
        ends.append(len(data))
    data += tail
    chunks = [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]
    for e in empties:
        chunks.insert(e, b"")
    return data, ends, chunks


class Source:
    """A message source that counts the chunks taken."""
    def __init__(self, chunks):
        self.chunks = list(chunks)
        self.taken = 0
        self.bytes = 0
        self.ended = False

    def __iter__(self):
        return self

    def __next__(self):
        if self.taken == len(self.chunks):
            self.ended = True
            raise StopIteration
        c = self.chunks[self.taken]
        self.taken += 1
        self.bytes += len(c)
        return c


def run_decode(case):
    data, ends, chunks = split(case)
    payloads = [p for g, p in case[0]]
    # what an encoded message is
    for p in payloads:
        eq(encodemsg(p), b"\xffv01l" + str(len(p)).encode() + b";" + p, "encoding")
    src = Source(chunks)
    dec = MessageDecoder(src)
    for p, end in zip(payloads, ends):
        got = dec.decode()
        require(got is not None, "a message was not delivered", p[:30])
        require(type(got) is bytes and got == p, "another payload than the one sent", (got[:40], p[:40], len(got), len(p)))
        require(not src.ended, "end of stream reached before the message was delivered")
        # nothing is read beyond the chunk in which the message ends (it could block)
        have = 0
        needed = 0
        while have < end:
            have += len(chunks[needed])
            needed += 1
        eq(src.taken, needed, "the decoder read more or less of the stream than the message needs")
        eq(dec.get_buffered_data() + data[src.bytes:], data[end:], "bytes beyond the message were lost or repeated")
    for _ in range(2):
        require(dec.decode() is None, "a message out of nothing")
        require(src.ended, "end of stream reported before the end")
    # the procedural interface, with a part of the stream already in the buffer
    n = case[3][0] if case[3] else 0
    first = chunks[:n]
    buf = ReceiveBuffer(b"".join(first))
    it = Source(chunks[n:])
    for p in payloads:
        got = decodemsg(buf, it)
        require(got == p, "decodemsg", (got, p[:40]))
    require(decodemsg(buf, it) is None, "decodemsg: a message out of nothing")


def run_two(case):
    """Decoders do not disturb each other; a new decoder on the same source continues where the buffer says."""
    a, b, order = case
    ds = []
    for c in (a, b):
        data, ends, chunks = split(c)
        ds.append([MessageDecoder(Source(chunks)), [p for g, p in c[0]] + [None]])
    for k in order:
        d, want = ds[k]
        got = d.decode()
        eq(got, want[0], "payload")
        if want[0] is not None:
            want.pop(0)


class ShortReads(io.RawIOBase):
    """A stream that gives the chunks as they come."""
    def __init__(self, chunks):
        self.chunks = [c for c in chunks if c]
        self.asked = []

    def readable(self):
        return True

    def read(self, n=-1):
        self.asked.append(n)
        if not self.chunks:
            return b""
        c = self.chunks.pop(0)
        if n >= 0 and len(c) > n:
            self.chunks.insert(0, c[n:])
            c = c[:n]
        return c


def run_sources(case):
    c, size, kind = case
    data, ends, chunks = split(c)
    payloads = [p for g, p in c[0]]
    if size is None:
        make = {"bytes": lambda: bytessource(data), "bytesio": lambda: streamsource(io.BytesIO(data)), "short": lambda: streamsource(ShortReads(chunks))}[kind]
        size = 4096
    else:
        if len(data) // size > 400:
            size = len(data) // 400 + 1
        make = {"bytes": lambda: bytessource(data, size), "bytesio": lambda: streamsource(io.BytesIO(data), chunksize=size), "short": lambda: streamsource(ShortReads(chunks), size)}[kind]
    got = list(make())
    eq(b"".join(got), data, "the source lost or repeated data")
    require(all(type(x) is bytes and 0 < len(x) <= size for x in got), "a chunk is empty or larger than the chunk size", [len(x) for x in got])
    if kind == "bytes":
        require(all(len(x) == size for x in got[:-1]), "a chunk of a bytes object is too small", [len(x) for x in got])
    d = MessageDecoder(make())
    for p in payloads:
        require(d.decode() == p, "payload", p[:40])
    require(d.decode() is None, "end of stream")


def run_socket(case):
    c, size, what = case
    if what == "open":     # no truncated message before the late one
        c = (c[0], b"", [x for x in c[2] if x < sum(len(g) + len(encodemsg(p)) for g, p in c[0])], c[3])
    data, ends, chunks = split(c)
    payloads = [p for g, p in c[0]]
    a, b = socket.socketpair()
    try:
        def send():
            for x in chunks:
                if x:
                    a.sendall(x)
            if what != "open":
                a.shutdown(socket.SHUT_WR)
        t = threading.Thread(target=send, daemon=True)
        b.settimeout(20)
        t.start()
        if what == "recvall":
            at = 0
            for x in chunks:
                got = recvall(len(x), b)
                eq(got, data[at:at + len(x)], "recvall")
                at += len(x)
            require(recvall(3, b) is None, "recvall on a closed socket")
        else:
            d = MessageDecoder(socketsource(b, size))
            for p in payloads:
                got = d.decode()
                require(got == p, "payload over a socket", (got, p[:40]))
            if what == "open":
                # nothing is reported while the sender is there: an idle decoder must still be waiting
                t.join(20)
                extra = encodemsg(b"late")
                done = []
                r = threading.Thread(target=lambda: done.append(d.decode()), daemon=True)
                r.start()
                a.sendall(extra)
                r.join(20)
                eq(done, [b"late"], "a message sent later")
                a.shutdown(socket.SHUT_WR)
            require(d.decode() is None, "end of stream over a socket")
        t.join(20)
    finally:
        a.close()
        b.close()


bufops = st.lists(st.tuples(st.sampled_from(["append", "append", "set", "get", "bad", "badset"]), st.binary(max_size=5)), max_size=8)


def run_buffer(case):
    init, ops = case
    b = ReceiveBuffer(init) if init else ReceiveBuffer()
    model = init
    for k, x in ops:
        if k == "append":
            require(b.append(x) is b, "append returns the buffer")
            model += x
        elif k == "set":
            require(b.set(x) is b, "set returns the buffer")
            model = x
        elif k == "get":
            require(b.getvalue() == b.getvalue(), "getvalue changes the contents")
        else:
            try:
                (b.append if k == "bad" else b.set)(x.hex())
            except TypeError:
                pass
            else:
                raise AssertionError("text accepted")
        eq(b.getvalue(), model, "contents")
    n = len(init)
    eq(netstringify(init), str(n).encode() + b":" + init + b",", "netstring")
    for f in (encodemsg, netstringify, bytessource):
        try:
            f("text")
        except TypeError:
            pass
        else:
            raise AssertionError(f"{f.__name__} accepts text")


class Peer(ApplevelProtocolMixin):
    def __init__(self, sock):
        self.sock = sock
        self.decoder = MessageDecoder(socketsource(sock))


json_values = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-10**20, 10**20), st.text(max_size=6), st.floats(allow_nan=False, allow_infinity=False)),
                           lambda s: st.one_of(st.lists(s, max_size=3), st.dictionaries(st.text(max_size=4), s, max_size=3)), max_leaves=6)
dicts = st.lists(st.tuples(st.booleans(), st.one_of(st.dictionaries(st.text(max_size=5), json_values, max_size=3), st.just({"x": "é\u2028\U0001f600" * 800}))), min_size=1, max_size=5)


def run_applevel(case):
    a, b = socket.socketpair()
    try:
        p, q = Peer(a), Peer(b)
        for forward, d in case:
            s, r = (p, q) if forward else (q, p)
            t = threading.Thread(target=lambda: s._send(d), daemon=True)
            t.start()
            got = r._recv()
            t.join(20)
            eq(got, d, "dictionary")
        a.close()
        require(q._recv() is None, "end of stream")
    finally:
        a.close()
        b.close()


def nontrivial(case):
    return (len(case[0]) >= 2 or any(g for g, p in case[0])) and len(case[2]) >= 1


SUITES = [Suite("decode", streams(), run_decode, quick=9000, nontrivial=nontrivial, labels=lambda c: [len(c[0]), "garbage" if any(g for g, p in c[0]) else "", "big" if any(len(p) > 4000 for g, p in c[0]) else ""]),
          Suite("two", st.tuples(streams(), streams(), st.lists(st.integers(0, 1), min_size=2, max_size=12)), run_two, quick=1500, nontrivial=lambda c: nontrivial(c[0]), labels=lambda c: [len(c[2])]),
          Suite("sources", st.tuples(streams(), st.one_of(st.none(), st.integers(1, 9), st.sampled_from([4095, 4096, 4097, 10000])), st.sampled_from(["bytes", "bytesio", "short"])), run_sources, quick=3000,
                nontrivial=lambda c: nontrivial(c[0]), labels=lambda c: [c[2]]),
          Suite("socket", st.tuples(streams(), st.sampled_from([1, 5, 4096, 4096, 100, 8192]), st.sampled_from(["decode", "decode", "recvall", "open"])), run_socket, quick=1500, nontrivial=lambda c: nontrivial(c[0]), labels=lambda c: [c[2]]),
          Suite("buffer", st.tuples(st.binary(max_size=5), bufops), run_buffer, quick=1500, nontrivial=lambda c: len(c[1]) >= 2, labels=lambda c: [k for k, x in c[1]]),
          Suite("applevel", dicts, run_applevel, quick=500, nontrivial=lambda c: len(c) >= 2, labels=lambda c: [len(c)])]
