"""P11: a refused operation has no effect."""

from ..mon import need
from ..session import World
from ..tape import Tape
from ..wire import parse_fragments
from ..world import cut, fp, fp_event, gen_limit, gen_uuid

PROP = "P11"
LEVEL = "exploration"
RULE = ("distinct histories that were executed twice, with and without their refused calls, with every payload, event "
        "and all public state of both executions compared")
ASSUMPTIONS = ["the key material itself is random and not compared"]
CASES = {"quick": 3600, "thorough": 150000}
TIME = {"quick": 60, "thorough": 800}
REQUIRE = ["compared steps", "left out", "payloads compared", "events compared"]

MIX = [("bad", 22), ("c_open", 1), ("c_connect", 2), ("c_close", 3), ("c_disconnect", 1), ("c_reconnect", 3),
       ("s_close", 2), ("s_disconnect", 1), ("s_reconnect", 3), ("s_connect", 1), ("s_broken", 1), ("s_event", 3),
       ("c_get_avail", 4), ("c_reset", 3), ("c_set_max", 5), ("c_set_min", 4), ("s_answer", 12), ("s_call", 6),
       ("c_respond", 10), ("p_new", 4), ("p_start", 6), ("p_send", 8), ("p_eof", 3), ("p_stop", 2), ("p_close", 3),
       ("q_new", 1), ("q_start", 6), ("q_begin_stop", 1), ("q_stop", 2), ("q_complete", 2), ("q_close", 2),
       ("q_write", 14), ("q_call", 6), ("p_value", 2), ("q_value", 2), ("q_report", 2)]
TRANSPORT = [("send", 20), ("deliver", 14), ("poll", 18)]


def public(w):
    out = []
    for x in (w.c, w.s):
        r = x.real
        out.append((r.state, r.min_runspaces, r.max_runspaces, r.runspace_pool_id, fp(r.their_capability),
                    fp(r.our_capability), fp(r.application_private_data), fp(r.application_arguments), fp(r.host),
                    r.apartment_state, r.thread_options,
                    [(k, p.state, fp(p.metadata)) for k, p in r.pipeline_table.items()]))
    return out


SECRET = ("PublicKey", "EncryptedSessionKey")


def same_wires(a, b, m, keys):
    for x, y in zip(a.links(), b.links()):
        need(len(x.wire) == len(y.wire), "%s: %d pieces instead of %d are on the wire", x.name, len(x.wire),
             len(y.wire))
        if x.wire:
            (d1, p1), (d2, p2) = x.wire[-1], y.wire[-1]
            need(p1.stream_type == p2.stream_type and p1.pipeline_id == p2.pipeline_id,
                 "%s: after refused calls the payload is labelled differently", x.name)
            f1, f2 = ([(f.oid, f.fid, f.start, f.end, len(f.data)) for f in parse_fragments(d)] for d in (d1, d2))
            need(f1 == f2, "%s: after refused calls the fragments %s are sent instead of %s", x.name, f1, f2)
            need(d1 == d2 or keys, "%s: after refused calls %a is sent instead of %a", x.name, d1[:300], d2[:300])
            need(len(x.sent) == len(y.sent), "%s: %d messages instead of %d are complete", x.name, len(x.sent),
                 len(y.sent))
            for p, q in zip(x.sent, y.sent):
                need((p.type, p.pid, p.rpid) == (q.type, q.pid, q.rpid) and (p.data == q.data or p.type in SECRET),
                     "%s: after refused calls %s %a is sent instead of %s %a", x.name, p.type, p.data[:300], q.type,
                     q.data[:300])
            m.count("payloads compared")


def case(t, m):
    ids = gen_uuid(t)
    lim = (t.int(1, 3), t.int(3, 6))
    ver = (t.pick([(2, 3), (2, 3), (2, 2)]), t.pick([(2, 3), (2, 3), (2, 2)]))
    a, b = (World(Tape(data=[]), m, name=n, ids=ids, limits=lim, versions=ver) for n in ("", "twin "))
    keys = t.bool(1, 6)

    def both(op, *args):
        out = a.do(op, *args)
        m.count("compared steps")
        if out == "refused":
            m.count("left out")
            m.seen("left out", (op, args[0] if op == "bad" else None))
            left.append(op)
        else:
            res = b.do(op, *args)
            need(res == out, "%s%s: %s, but %s when the refused calls are left out", op, args, out, res)
            if op == "poll" and not (a.last_event is not None and a.last_event.message_type.name in SECRET):
                need(fp_event(a.last_event) == fp_event(b.last_event), "event %s instead of %s",
                     fp_event(a.last_event), fp_event(b.last_event))
                m.count("events compared")
        return out

    def transport(settle):
        """The same transport step in both worlds."""
        k = t.weighted([(w, op) for op, w in TRANSPORT])
        i = t.draw(2)
        if k == "send":
            limit = gen_limit(t, [60, 200, 450])
            both("send", i, limit)
            same_wires(a, b, m, keys)
        elif k == "deliver":
            both("deliver", i, t.pick([1, 1, 2, 30]))
        else:
            both("poll", i)

    def settle():
        for _ in range(200):
            busy = False
            for i in (0, 1):
                while both("send", i, None) is None:
                    same_wires(a, b, m, keys)
                    busy = True
                while both("deliver", i, 1) is None:
                    busy = True
                while both("poll", i) != "idle":
                    busy = True
            if not busy:
                return

    left = []
    for _ in range(t.draw(3)):
        both("bad", *a.gen_bad(t))
    if keys and t.bool(1, 3):
        both(t.pick(["c_key", "s_key"]))
    if t.bool(9, 10):
        both("c_open")
        settle()
    pairs = [(w, op) for op, w in MIX + ([("c_key", 3), ("s_key", 2)] if keys else [])]
    for _ in range(t.pick([15, 40, 90])):
        if t.bool(1, 3):
            transport(False)
        else:
            op = t.weighted(pairs)
            both(op, *getattr(a, "gen_" + op)(t))
        if t.bool(1, 6):
            need(public(a) == public(b), "public state differs after refused calls: %s / %s", public(a), public(b))
        if t.bool(1, 12):
            settle()
    settle()
    need(public(a) == public(b), "public state differs after refused calls: %s / %s", public(a), public(b))
    if left:
        m.case(tuple(a.history))
