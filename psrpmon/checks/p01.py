"""P01: every queued message becomes exactly one event, whatever the chunking."""

import uuid

from ..mon import need
from ..session import World, run_history
from ..tape import Tape

import psrpcore

PROP = "P01"
LEVEL = "exploration"
RULE = ("distinct histories (operations with arguments) whose messages were tracked from the call to the event through "
        "random send limits, cuts and polls")
ASSUMPTIONS = ["the transport delivers the bytes of each direction in order"]
CASES = {"quick": 3500, "thorough": 150000}
TIME = {"quick": 60, "thorough": 800}
REQUIRE = ["events", "polls", "values", "swept_limits", "swept_cuts", "long_history", "tiny_fragments", "huge_messages"]

MIX = [("q_write", 16), ("q_value", 4), ("p_value", 3), ("p_send", 8), ("p_eof", 2), ("q_call", 3), ("s_call", 2),
       ("c_respond", 3), ("s_event", 2), ("c_set_max", 1), ("c_get_avail", 1), ("s_answer", 2)]
LIFE = [("p_new", 2), ("p_start", 3), ("q_start", 3), ("q_complete", 1), ("q_stop", 1)]


def ready(t, m, pipes, **kw):
    w = World(t, m, max_pipes=pipes, **kw)
    w.open(t)
    for i in range(pipes):
        w.do("p_new", uuid.UUID(int=(i + 1) << t.pick([0, 60, 100])), "ps", "s%d" % i, True)
        w.do("p_start", w.known[-1])
        w.do("q_start", w.known[-1])
    return w


def case(t, m):
    w = ready(t, m, t.int(1, 4))
    run_history(w, t, MIX + (LIFE if t.bool(1, 3) else []), t.pick([20, 60, 200]), settle_every=t.pick([15, 60, 200]))
    m.case(tuple((a, b if "value" not in a else None) for a, b in w.history))
    m.seen("payloads and pieces", (w.c2s.payloads, w.c2s.pieces, w.s2c.payloads, w.s2c.pieces))


def limits(part, parts):
    """Every send limit around the sizes of a queue of messages for two pipelines."""
    def run(m):
        w = ready(Tape(data=[]), m, 2)
        w.settle()
        a, b = w.known
        for limit in range(22, 1300):
            if limit % parts != part:
                continue
            for pid, kind in ((a, "output"), (a, "verbose"), (b, "output"), (a, "output"), (a, "output")):
                w.do("q_write", pid, kind, "text " + "x" * (limit % 7))
            w.do("p_send", a, "in")
            w.do("p_send", a, "in")
            for ln in w.links():
                while ln.send(limit):
                    pass
            w.settle()
            m.count("swept_limits")
    return run


def cuts(part, parts):
    """Every position at which the bytes of a few messages can be cut, with a poll in between."""
    def run(m):
        w = ready(Tape(data=[]), m, 2)
        w.settle()
        a, b = w.known
        total = None
        i = 0
        while total is None or i <= total:
            if i % parts == part:
                w.do("q_write", a, "output", "one")
                w.do("q_write", b, "output", None)
                w.do("q_write", b, "verbose", "three")
                ln = w.s2c
                while ln.send(150):
                    pass
                data = b"".join(x[0] for x in ln.wire)
                p = ln.wire[0][1]
                ln.wire.clear()
                total = len(data)
                k = min(i, total)
                for piece in (data[:k], data[k:]):
                    ln.wire.append((piece, p))
                for _ in range(2):
                    w.do_deliver(1, 1)
                    while w.do_poll(1) != "idle":
                        pass
                m.count("swept_cuts")
                w.settle()
            i += 1
    return run


def _long(n):
    def run(m):
        """A session with more messages than fit small counters."""
        w = ready(Tape(data=[]), m, 1)
        w.settle()
        pid = w.known[0]
        cp, sp = w.c.real, w.s.real
        pipe = w.c.pipes[pid].real
        out = w.s.pipes[pid].real
        done = 0
        while done < n:
            k = 64
            for i in range(k):
                pipe.send_eof() if i % 3 else pipe.send("n%d" % (done + i))
                out.write_output(None)
            for src, dst, name in ((cp, sp, "EndOfPipelineInputEvent"), (sp, cp, "PipelineOutputEvent")):
                while True:
                    p = src.data_to_send(2000)
                    if p is None:
                        break
                    dst.receive_data(p)
                for i in range(k):
                    ev = dst.next_event()
                    need(ev is not None, "message %d of the session never arrives", done + i)
                    want = name if dst is cp or i % 3 else "PipelineInputEvent"
                    need(type(ev).__name__ == want and ev.pipeline_id == pid, "message %d arrived as %s", done + i, ev)
                    if want == "PipelineInputEvent":
                        need(ev.data == "n%d" % (done + i), "message %d arrived as %r", done + i, ev.data)
                need(dst.next_event() is None, "an extra event after message %d", done + k)
            done += k
        m.count("long_history", done)
    return run


def _tiny(size, every=97):
    def run(m):
        """One message in very many fragments."""
        w = ready(Tape(data=[]), m, 1)
        w.settle()
        pid = w.known[0]
        text = "".join(chr(97 + i % 26) for i in range(size))
        for side, other, call, pipes in ((w.c.real, w.s.real, "send", w.c.pipes),
                                         (w.s.real, w.c.real, "write_output", w.s.pipes)):
            getattr(pipes[pid].real, call)(text)
            getattr(pipes[pid].real, call)("next")
            n = 0
            while True:
                p = side.data_to_send(22)
                if p is None:
                    break
                need(len(p.data) <= 22, "payload of %d bytes", len(p.data))
                other.receive_data(p)
                n += 1
                if n % every == 0 and n < size:
                    need(other.next_event() is None, "event after %d of the fragments", n)
            a, b = other.next_event(), other.next_event()
            need(a is not None and a.data == text, "a message of %d fragments arrives as %r", n, a and a.data[:50])
            need(b is not None and b.data == "next" and other.next_event() is None, "the next message is %r", b)
            m.count("tiny_fragments", n)
    return run


def _heap(n):
    def run(m):
        """Very many messages that arrive together."""
        w = ready(Tape(data=[]), m, 1)
        w.settle()
        pid = w.known[0]
        for side, other, call, pipes in ((w.c.real, w.s.real, "send", w.c.pipes),
                                         (w.s.real, w.c.real, "write_output", w.s.pipes)):
            for i in range(n):
                getattr(pipes[pid].real, call)("n%d" % i)
            for limit in (None, 100):
                p = side.data_to_send(limit)
                while p is not None:
                    other.receive_data(p)
                    p = side.data_to_send(limit)
                    if limit is None:
                        break
                if p is not None:
                    other.receive_data(p)
            for i in range(n):
                ev = other.next_event()
                need(ev is not None and ev.data == "n%d" % i, "message %d of %d that arrived together is %r", i, n, ev)
            need(other.next_event() is None, "more than was sent arrives")
            m.count("heaps")
    return run


def _huge(size):
    def run(m):
        """A message of more bytes than three bytes can count, whole and in parts."""
        w = ready(Tape(data=[]), m, 1)
        w.settle()
        pid = w.known[0]
        text = "0123456789abcdef" * (size // 16)
        for src, dst, call in ((w.c.real, w.s.real, w.c.pipes[pid].real.send),
                               (w.s.real, w.c.real, w.s.pipes[pid].real.write_output)):
            for limit, cut in ((None, None), (None, size - 5), (size - 100, None)):
                call(text)
                call("next")
                while True:
                    p = src.data_to_send(limit)
                    if p is None:
                        break
                    for piece in (p.data[:cut], p.data[cut:]) if cut else (p.data,):
                        dst.receive_data(psrpcore.PSRPPayload(piece, p.stream_type, p.pipeline_id))
                        if cut and piece is not p.data and len(piece) == cut:
                            need(dst.next_event() is None, "an event before its last byte")
                a, b = dst.next_event(), dst.next_event()
                need(a is not None and a.data == text, "a message of %d bytes arrives as %r", size, a and a.data[:50])
                need(b is not None and b.data == "next" and dst.next_event() is None, "the next message is %r", b)
                m.count("huge_messages")
    return run


def units(tier):
    out = [("huge", _huge(17 << 20))]
    for p in range(8):
        out.append(("limits %d" % p, limits(p, 8)))
    for p in range(8):
        out.append(("cuts %d" % p, cuts(p, 8)))
    out.append(("long", _long(70000 if tier == "quick" else 300000)))
    for n in (200, 300, 5000) + ((70000,) if tier == "quick" else (140000,)):
        out.append(("tiny %d" % n, _tiny(n)))
    out += [("together %d" % n, _tiny(n, 10**9)) for n in (200, 5000)] + [("heap %d" % n, _heap(n)) for n in (300, 2000)]
    return out



