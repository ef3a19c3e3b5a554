"""P02: the format, size and targeting of everything that is handed out for sending."""

import uuid

from ..mon import need
from ..session import World, run_history
from ..tape import Tape
from ..wire import EMPTY

import psrpcore

PROP = "P02"
LEVEL = "exploration"
RULE = ("distinct histories whose payloads were all decoded by the independent implementation and compared with the "
        "limit, the label and the queued messages")
ASSUMPTIONS = ["the server's very first message carries the empty pool id because it does not know the id yet"]
CASES = {"quick": 2500, "thorough": 150000}
TIME = {"quick": 60, "thorough": 800}
REQUIRE = ["events", "payloads", "swept_limits", "refused_limits", "many_fragments", "long_ids",
           "huge_fragments"]

MIX = [("q_write", 12), ("q_value", 4), ("p_value", 3), ("p_send", 6), ("p_eof", 2), ("q_call", 5), ("s_call", 5),
       ("c_respond", 6), ("s_event", 2), ("c_set_max", 1), ("c_get_avail", 1), ("c_reset", 1), ("s_answer", 2),
       ("p_new", 2), ("p_start", 3), ("q_start", 3), ("q_complete", 1), ("q_stop", 1), ("c_key", 1), ("s_key", 1),
       ("s_disconnect", 1), ("s_reconnect", 2), ("c_connect", 1), ("s_connect", 2), ("c_disconnect", 1)]


def fresh(t, m, pipes):
    w = World(t, m, max_pipes=pipes + 2)
    for ln in w.links():
        ln.strict = True
    w.open(t)
    for i in range(pipes):
        w.do("p_new", uuid.UUID(int=(i + 1) << t.pick([0, 60, 100])), "ps", "s%d" % i, True)
        w.do("p_start", w.known[-1])
        w.do("q_start", w.known[-1])
    return w


def case(t, m):
    w = fresh(t, m, t.int(1, 4))
    run_history(w, t, MIX, t.pick([20, 60, 200]), settle_every=t.pick([15, 60, 200]))
    m.count("payloads", w.c2s.payloads + w.s2c.payloads)
    m.count("fragments", w.c2s.frags + w.s2c.frags)
    m.case(tuple((a, b if "value" not in a else None) for a, b in w.history))
    for side in (w.c.real, w.s.real):
        bad = t.pick([21, 20, 1, 0, -1, -22, t.int(-100, 21)])
        try:
            got = side.data_to_send(bad)
        except ValueError:
            m.count("refused_limits")
        else:
            need(False, "a limit of %d was accepted: %r", bad, got)


def limits(part, parts):
    def run(m):
        w = fresh(Tape(data=[]), m, 2)
        w.settle()
        a, b = w.known
        for limit in range(22, 1500):
            if limit % parts != part:
                continue
            for pid, kind in ((a, "output"), (a, "output"), (b, "output"), (a, "verbose")):
                w.do("q_write", pid, kind, "text " + "x" * (limit % 5))
            w.do("q_call", a, "WriteLine2", "y")
            w.do("q_write", a, "output", None)
            w.do("s_event", 1, "src", "data")
            w.do("s_call", None, "WriteLine2", "z")
            w.do("s_call", None, "WriteLine2", "z")
            ln = w.s2c
            while ln.send(limit):
                pass
            need(not ln.expect, "%d messages are never handed out with the limit %d", len(ln.expect), limit)
            w.settle()
            m.count("swept_limits")
    return run


def _header(d):
    """Object id, fragment id, flags and length of the only fragment of a payload."""
    need(len(d) >= 21 and len(d) == 21 + int.from_bytes(d[17:21], "big"), "a payload of %d bytes has length %r", len(d),
         d[17:21])
    return int.from_bytes(d[:8], "big"), int.from_bytes(d[8:16], "big"), d[16]


def _many(size):
    """A message in very many fragments: every fragment id and mark."""
    def run(m):
        w = fresh(Tape(data=[]), m, 1)
        w.settle()
        pid = w.known[0]
        for side, call, pipes in ((w.c.real, "send", w.c.pipes), (w.s.real, "write_output", w.s.pipes)):
            getattr(pipes[pid].real, call)("b" * size)
            getattr(pipes[pid].real, call)("next")
            first = None
            n = 0
            msg = bytearray()
            while True:
                p = side.data_to_send(22)
                need(p is not None, "the message stops after %d fragments", n)
                oid, fid, flags = _header(p.data)
                need(p.pipeline_id == pid and fid == n and oid == (oid if first is None else first),
                     "fragment %d of object %r has the ids %d %d and is labelled %s", n, first, oid, fid, p.pipeline_id)
                need((flags & 1) == (n == 0) and flags & ~3 == 0, "fragment %d has the flags %d", n, flags)
                first = oid
                msg += p.data[21:]
                n += 1
                if flags & 2:
                    break
            need(msg.endswith(b"</S>") and len(msg) == size + 47, "the message has %d bytes", len(msg))
            p = side.data_to_send()
            need(p is not None and _header(p.data) == (first + 1, 0, 3), "the next message is %r", p and p.data[:21])
            need(side.data_to_send() is None, "something is left")
            m.count("fragments", n)
            m.count("many_fragments", n)
    return run


def _ids(n):
    """Object ids over a long session."""
    def run(m):
        w = fresh(Tape(data=[]), m, 1)
        w.settle()
        pid = w.known[0]
        for side, call in ((w.c.real, w.c.pipes[pid].real.send_eof), (w.s.real, lambda: w.s.pipes[pid].real.write_output(None))):
            last = None
            for i in range(n):
                call()
                d = side.data_to_send().data
                oid, fid, flags = _header(d)
                need(last is None or oid == last + 1, "object id %d follows %r", oid, last)
                need(fid == 0 and flags == 3 and len(d) == 61, "message %d of the session is sent as %r", i, d)
                last = oid
            m.count("long_ids", n)
    return run


def _huge(size):
    """A fragment whose length needs all four bytes."""
    def run(m):
        w = fresh(Tape(data=[]), m, 1)
        w.settle()
        pid = w.known[0]
        for limit in (None, size // 2):
            w.s.pipes[pid].real.write_output("c" * size)
            total, n = 0, 0
            while True:
                p = w.s.real.data_to_send(limit)
                if p is None:
                    break
                need(limit is None or len(p.data) <= limit, "payload of %d bytes with the limit %r", len(p.data), limit)
                _oid, fid, flags = _header(p.data)
                need(fid == n and (flags & 1) == (n == 0), "fragment %d has the id %d and the flags %d", n, fid, flags)
                total += len(p.data) - 21
                n += 1
            need(flags & 2 and total == size + 47, "the message has %d bytes", total)
            m.count("huge_fragments", n)
    return run


def units(tier):
    out = [("ids", _ids(70000 if tier == "quick" else 300000)), ("huge", _huge(17 << 20))]
    out += [("many %d" % n, _many(n)) for n in (300, 70000 if tier == "quick" else 140000)]
    return out + [("limits %d" % p, limits(p, 16)) for p in range(16)]


del EMPTY, psrpcore
