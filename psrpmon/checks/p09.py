"""P09: the runspace pool's lifecycle on both sides."""

from ..session import World, aged_units, run_history, sequences
from ..tape import Tape

PROP = "P09"
LEVEL = "exploration"
RULE = ("distinct histories (operation sequences with their outcomes) in which every step was compared with the "
        "reference model of both pools")
ASSUMPTIONS = ["a server accepts a new connection only when the previous one is quiet"]
CASES = {"quick": 4000, "thorough": 150000}
TIME = {"quick": 60, "thorough": 800}
REQUIRE = ["enumerated_sequences", "events", "refusals", "audits", "requests", "rejected"]

POOL = [("c_open", 6), ("c_connect", 4), ("c_close", 4), ("c_disconnect", 4), ("c_reconnect", 5), ("c_begin_close", 1),
        ("c_begin_disconnect", 2), ("s_close", 3), ("s_disconnect", 5), ("s_reconnect", 5), ("s_begin_close", 1),
        ("s_begin_disconnect", 2), ("s_connect", 6), ("s_broken", 2), ("c_key", 1), ("s_key", 1),
        ("c_get_avail", 2), ("c_reset", 2), ("c_set_max", 2), ("c_set_min", 2), ("s_answer", 4), ("s_event", 2),
        ("s_call", 2), ("c_respond", 2), ("p_new", 3), ("p_start", 1), ("p_close", 6), ("q_start", 1), ("q_complete", 1),
        ("q_close", 6), ("q_new", 1), ("p_stop", 1),
        ("q_report", 1), ("s_report", 2)]


def case(t, m):
    w = World(t, m, max_pipes=2)
    if t.bool(2, 3):
        w.open(t)
    run_history(w, t, POOL, t.pick([20, 60, 120]), settle_every=t.pick([8, 25, 60]))
    m.case(tuple((a, b) for a, b in w.history))
    if not m.samples:
        m.samples.append([str(x) for x in w.history[:12]])


OPS = ["c_open", "c_connect", "c_close", "c_begin_close", "c_disconnect", "c_begin_disconnect", "c_reconnect",
       "s_connect", "s_close", "s_begin_close", "s_disconnect", "s_begin_disconnect", "s_reconnect",
       ("s_broken", "why"), "c_key", "s_key", "c_get_avail", "c_reset", ("c_set_max", 3)]


def units(tier):
    """All short sequences of the pool operations, from a fresh and from an opened session."""
    depth = 3 if tier == "quick" else 4
    out = []
    for opened in (False, True):
        for settle in (False, True):
            for part in range(8):
                def run(m, opened=opened, settle=settle, part=part):
                    def make():
                        w = World(Tape(data=[]), m)
                        if opened:
                            w.open()
                        return w
                    sequences(make, OPS, depth if opened and settle else depth - 1, part, 8, m, settle)
                out.append(("sequences %s %s %d" % (opened, settle, part), run))
    return aged_units(["reconnects", "refusals", "requests"], (40, 300) if tier == "quick" else (17, 33, 65, 130, 260, 520, 1100),
                      lambda w, t: run_history(w, t, POOL, 60)) + out
