"""P12: requests about runspaces and their answers."""

from ..session import World, aged_units, run_history, sequences
from ..tape import Tape

PROP = "P12"
LEVEL = "exploration"
RULE = ("distinct histories in which every request, answer and limit of both sides was compared with the reference "
        "model after each step")
ASSUMPTIONS = []
CASES = {"quick": 5000, "thorough": 200000}
TIME = {"quick": 60, "thorough": 800}
REQUIRE = ["events", "refusals", "audits", "requests", "answers", "enumerated_sequences"]

MIX = [("c_get_avail", 4), ("c_reset", 3), ("c_set_max", 8), ("c_set_min", 8), ("s_answer", 20), ("s_forged", 2)]
HOST = [("s_call", 4), ("c_respond", 4)]
POOL = [("c_disconnect", 1), ("s_disconnect", 1), ("c_reconnect", 2), ("s_reconnect", 2), ("s_event", 1),
        ("p_new", 1), ("p_start", 1), ("q_start", 1), ("q_call", 1)]


def case(t, m):
    w = World(t, m)
    for _ in range(t.draw(4)):
        w.step(t, t.pick(["c_set_max", "c_set_min", "c_get_avail", "c_reset", "s_answer"]))
    if t.bool(14, 15):
        w.open(t)
    run_history(w, t, MIX + (HOST if t.bool(1, 3) else []) + (POOL if t.bool(1, 3) else []), t.pick([20, 60, 200]),
                settle_every=t.pick([8, 25, 100]))
    m.seen("outstanding at once", (len(w.c.reqs), len(w.s.reqs)))
    for ci in sorted(w.s.reqs):
        w.do("s_answer", ci, 7 if w.s.reqs[ci][0] == "get" else t.bool())
    w.settle(t)
    m.case(tuple(w.history))
    if not m.samples:
        m.samples.append([str(x) for x in w.history[:12]])


def other(w, kind):
    """A value that is not the current one."""
    return getattr(w.c, kind) % 9 + 1


def nth(w, base, k):
    """The id of the k-th request of this sequence (or one that was not made)."""
    mine = [ci for ci in sorted(set(w.c.reqs) | set(w.s.reqs) | set(w.done_reqs)) if ci > base]
    return mine[k] if len(mine) > k else base + 50 + k


OPS = [lambda x: ("c_set_max", other(x[0], "max")), lambda x: ("c_set_max", other(x[0], "max") + 1),
       lambda x: ("c_set_min", other(x[0], "min")), lambda x: ("c_set_min", x[0].c.min), lambda x: ("c_get_avail",),
       lambda x: ("c_reset",), lambda x: ("s_answer", nth(*x, 0), True), lambda x: ("s_answer", nth(*x, 1), True),
       lambda x: ("s_answer", nth(*x, 0), False), lambda x: ("s_answer", nth(*x, 1), 4),
       lambda x: ("s_answer", nth(*x, 2), True), lambda x: ("s_call", None, "ReadLine", None)]


def units(tier):
    depth = 4 if tier == "quick" else 5
    parts = 16 if tier == "quick" else 64
    out = []
    for part in range(parts):
        def run(m, part=part):
            def make():
                w = World(Tape(data=[]), m)
                w.open()
                return w

            def begin(w):
                return w, w.c.last_ci

            sequences(make, OPS, depth, part, parts, m, True, begin, 40)
            sequences(make, OPS, depth - 1, part, parts, m, False, begin, 40)
        out.append(("sequences %d" % part, run))
    return aged_units(["requests", "open requests", "calls"], (40, 300) if tier == "quick" else (17, 33, 65, 130, 260, 520, 1100),
                      lambda w, t: run_history(w, t, MIX + HOST + POOL, 60)) + out
