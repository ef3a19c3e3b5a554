"""P10: the lifecycle of pipelines on both sides."""

import uuid

from ..session import World, aged_units, run_history, sequences
from ..tape import Tape

PROP = "P10"
LEVEL = "exploration"
RULE = ("distinct histories (operation sequences with arguments) in which every step was compared with the reference "
        "model of both sides' pipelines")
ASSUMPTIONS = ["pipeline ids are unique in a session"]
CASES = {"quick": 4000, "thorough": 150000}
TIME = {"quick": 60, "thorough": 800}
REQUIRE = ["events", "refusals", "audits", "host_calls", "host_responses", "rejected", "enumerated_sequences"]

MIX = [("p_new", 4), ("p_start", 5), ("p_send", 4), ("p_eof", 2), ("p_stop", 2), ("p_close", 2), ("q_new", 1),
       ("q_start", 6), ("q_write", 8), ("q_call", 3), ("q_begin_stop", 2), ("q_stop", 2), ("q_complete", 2),
       ("q_close", 2), ("c_respond", 2), ("q_report", 2)]
POOL = [("c_close", 1), ("s_close", 1), ("s_broken", 1), ("c_disconnect", 1), ("s_disconnect", 1), ("c_reconnect", 2),
        ("s_reconnect", 2), ("s_call", 1)]


def case(t, m):
    w = World(t, m, max_pipes=t.pick([1, 3, 8]))
    if t.bool(9, 10):
        w.open(t)
    run_history(w, t, MIX + (POOL if t.bool(1, 4) else []), t.pick([30, 80, 200]), settle_every=t.pick([8, 25, 100]))
    m.case(tuple(w.history))
    if not m.samples:
        m.samples.append([str(x) for x in w.history[:12]])


OTHER = uuid.UUID(int=1 << 120)
OPS = [lambda p: ("p_start", p), lambda p: ("p_send", p, "in"), lambda p: ("p_eof", p), lambda p: ("p_stop", p),
       lambda p: ("p_close", p), lambda p: ("q_start", p), lambda p: ("q_write", p, "output", "out"),
       lambda p: ("q_begin_stop", p), lambda p: ("q_stop", p), lambda p: ("q_complete", p), lambda p: ("q_close", p),
       lambda p: ("q_write", p, "verbose", "text"), lambda p: ("q_call", p, "ReadLine", None)]


def units(tier):
    """All short sequences of the operations of one pipeline, next to another that keeps running."""
    depth = 4 if tier == "quick" else 5
    parts = 16 if tier == "quick" else 64
    out = []
    for settle in (False, True):
        for part in range(parts):
            def run(m, settle=settle, part=part):
                def make():
                    w = World(Tape(data=[]), m, max_pipes=10**6)
                    w.open()
                    w.do("p_new", OTHER, "ps", "other", True)
                    w.do("p_start", OTHER)
                    w.do("q_start", OTHER)
                    w.settle()
                    return w

                def begin(w):
                    pid = uuid.UUID(int=1000 + len(w.known))
                    w.do("p_new", pid, "ps", "script", True)
                    return pid

                sequences(make, OPS, depth - settle, part, parts, m, settle, begin, 30)
            out.append(("sequences %s %d" % (settle, part), run))
    return aged_units(["restarts", "open pipelines", "pipelines"], (40, 300) if tier == "quick" else (17, 33, 65, 130, 260, 520, 1100),
                      lambda w, t: run_history(w, t, MIX + POOL, 60)) + out
