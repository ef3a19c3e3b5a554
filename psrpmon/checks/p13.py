"""P13: host calls and their answers."""

import uuid

from ..session import World, aged_units, run_history, sequences
from ..tape import Tape

PROP = "P13"
LEVEL = "exploration"
RULE = ("distinct histories in which every host call, answer and the set of open calls was compared with the reference "
        "model after each step")
ASSUMPTIONS = []
CASES = {"quick": 3500, "thorough": 200000}
TIME = {"quick": 60, "thorough": 800}
REQUIRE = ["events", "refusals", "audits", "host_calls", "host_responses", "enumerated_sequences"]

MIX = [("s_call", 8), ("q_call", 10), ("c_respond", 20), ("p_new", 1), ("p_start", 1), ("q_start", 1), ("q_write", 1)]
MORE = [("c_get_avail", 2), ("c_set_max", 2), ("s_answer", 4), ("p_stop", 1), ("q_stop", 1), ("q_complete", 1),
        ("s_disconnect", 1), ("s_reconnect", 3), ("c_disconnect", 1), ("c_reconnect", 3), ("p_close", 2),
        ("q_close", 1), ("q_report", 2)]


def case(t, m):
    w = World(t, m, max_pipes=t.pick([1, 2, 5]))
    if t.bool(14, 15):
        w.open(t)
    for _ in range(t.draw(4)):
        w.step(t, "p_new")
        pid = w.known[-1]
        if t.bool(4, 5):
            w.do("p_start", pid)
            if pid in w.s.pipes:
                w.do("q_start", pid)
    run_history(w, t, MIX + (MORE if t.bool(1, 3) else []), t.pick([20, 60, 200]),
                settle_every=t.pick([8, 25, 100]))
    m.seen("open calls", (len(w.c.calls), len(w.s.calls)))
    m.case(tuple(w.history))
    if not m.samples:
        m.samples.append([str(x) for x in w.history[:12]])


def nth(x, k):
    """The id of the k-th call of this sequence (or one that was not made)."""
    w, base, _pid = x
    mine = [ci for ci in sorted(w.s.calls) if ci > base]
    return mine[k] if len(mine) > k else base + 50 + k


OPS = [lambda x: ("s_call", None, "ReadLine", None), lambda x: ("s_call", x[2], "GetName", None),
       lambda x: ("s_call", x[2], "WriteLine2", "x"), lambda x: ("c_respond", nth(x, 0), None, "value", "a", False),
       lambda x: ("c_respond", nth(x, 0), x[2], "error", "b", False),
       lambda x: ("c_respond", nth(x, 1), None, "nothing", "c", False),
       lambda x: ("c_respond", nth(x, 1), x[2], "bad", "d", False),
       lambda x: ("c_respond", nth(x, 1), x[2], "value", "d", False),
       lambda x: ("c_respond", -100, None, "value", "e", True), lambda x: ("c_get_avail",),
       lambda x: ("q_stop", x[2]), lambda x: ("p_close", x[2])]


def units(tier):
    depth = 4 if tier == "quick" else 5
    parts = 16 if tier == "quick" else 64
    out = []
    for part in range(parts):
        def run(m, part=part):
            def make():
                w = World(Tape(data=[]), m, max_pipes=10**6)
                w.open()
                return w

            def begin(w):
                pid = uuid.UUID(int=1000 + len(w.known))
                w.do("p_new", pid, "ps", "script", True)
                w.do("p_start", pid)
                w.do("q_start", pid)
                return w, w.s.last_ci, pid

            sequences(make, OPS, depth - 1, part, parts, m, False, begin, 30)
            sequences(make, OPS, depth, part, parts, m, True, begin, 30)
        out.append(("sequences %d" % part, run))
    return aged_units(["calls", "open calls", "pipelines"], (40, 300) if tier == "quick" else (17, 33, 65, 130, 260, 520, 1100),
                      lambda w, t: run_history(w, t, MIX + MORE, 60)) + out
