"""P18: concurrent pipelines and sessions are isolated from each other."""

import sys
import threading
import uuid

from .. import keys
from ..mon import Monitor, Violation, need
from ..session import World, aged_units
from ..tape import Tape
from ..world import Pair, fp, fp_event, gen_limit, gen_uuid
from .p07 import mutate
from .p11 import MIX, SECRET, public

import psrpcore
from psrpcore import types as T

PROP = "P18"
LEVEL = "exploration"
RULE = ("distinct interleaved histories of several sessions (or pipelines, or sessions in threads) each of which was "
        "executed again alone, with every result, payload, event and state of the two executions compared")
ASSUMPTIONS = ["one session is used by one thread at a time", "the key material itself is random and not compared",
               "call ids are numbered per pool, so they are compared per session and not per pipeline"]
CASES = {"quick": 2400, "thorough": 100000}
TIME = {"quick": 60, "thorough": 800}
REQUIRE = ["interleaved sessions", "interleaved pipelines", "threaded sessions", "steps compared", "events compared",
           "payloads compared", "others unchanged", "same pool id", "shared objects", "keys", "fresh", "things spoiled"]

POOL_MIX = [(w if op != "bad" else 6, op) for op, w in MIX] + [(2, "c_key"), (1, "s_key"), (25, "send"),
                                                              (18, "deliver"), (24, "poll")]
PIPE_MIX = [(4, "p_start"), (8, "p_send"), (3, "p_eof"), (2, "p_stop"), (2, "p_close"), (6, "q_start"),
            (12, "q_write"), (5, "q_call"), (1, "q_begin_stop"), (2, "q_stop"), (2, "q_complete"), (2, "q_close"),
            (14, "c_respond"), (2, "p_value"), (2, "q_value"), (2, "s_call"), (2, "c_get_avail"), (3, "s_answer"),
            (2, "s_event"), (2, "q_report")]


def setup():
    keys.stock(16)


class Config:
    """How one session is made; the same again makes its solo execution."""

    def __init__(self, t, rpid, app, private):
        self.ids, self.app, self.private = rpid, app, private
        self.limits = (t.int(1, 3), t.int(3, 6))
        self.versions = (t.pick([(2, 3), (2, 3), (2, 2)]), t.pick([(2, 3), (2, 3), (2, 2)]))

    def make(self, m, name):
        return World(Tape(data=[]), m, name=name, ids=self.ids, app=self.app, private=self.private,
                     limits=self.limits, versions=self.versions)


def pick_op(w, t):
    op = t.weighted(POOL_MIX)
    if op == "send":
        return op, (t.draw(2), gen_limit(t, [60, 200, 450]))
    if op == "deliver":
        return op, (t.draw(2), t.pick([1, 1, 2, 30]))
    if op == "poll":
        return op, (t.draw(2),)
    return op, getattr(w, "gen_" + op)(t)


def perform(w, op, args):
    """Do it and describe everything that can be seen of it."""
    out = w.do(op, *args)
    seen = None
    if op == "poll":
        ev = w.last_event
        if ev is not None and ev.message_type.name in SECRET:
            seen = ev.message_type.name
        else:
            seen = fp_event(ev)
    elif op == "send" and out is None:
        ln = w.links()[args[0]]
        data, p = ln.wire[-1]
        kinds = {d.type for d in ln.sent} | {getattr(e, "type", None) for e in list(ln.expect)[:1]}
        data = len(data) if kinds & set(SECRET) else data
        seen = (data, p.stream_type, p.pipeline_id, [(d.type, d.pid, d.oid) for d in ln.sent])
    return out, seen


def alone(cfg, log, end, m, what):
    """The same operations in a session of its own."""
    w = cfg.make(m, "alone ")
    for i, (op, args, out, seen) in enumerate(log):
        if op == "deliver*":
            while w.do("deliver", args[0], 1) is None:
                pass
            continue
        o, s = perform(w, op, args)
        need(o == out, "%s: step %d %s%s ended with %s, alone with %s", what, i, op, args, out, o)
        need(s == seen, "%s: step %d %s%s showed %s, alone %s", what, i, op, args, short(seen), short(s))
        m.count("steps compared")
        if op == "poll" and seen:
            m.count("events compared")
        if op == "send" and seen:
            m.count("payloads compared")
    need(public(w) == end, "%s: ends as %s, alone as %s", what, end, public(w))


def short(x):
    return ascii(x)[:600]


def sessions(t, m):
    n = t.pick([2, 2, 3, 4])
    rpid = gen_uuid(t)
    app = {"a": 1, "b": ["x", {"c": "d"}]} if t.bool() else None
    private = {"p": "q", "list": [1, 2]} if t.bool() else None
    if app or private:
        m.count("shared objects")
    cfgs = []
    for i in range(n):
        same = t.bool()
        if same:
            m.count("same pool id")
        cfgs.append(Config(t, rpid if same else gen_uuid(t), app, private))
    ws = [c.make(m, "session %d " % i) for i, c in enumerate(cfgs)]
    logs = [[] for _ in ws]
    for i, w in enumerate(ws):
        if t.bool(9, 10):
            logs[i].append(("c_open", ()) + perform(w, "c_open", ()))
    if t.bool(2, 3):
        for i, w in enumerate(ws):
            drain(w, logs[i])
    cur = 0
    for _ in range(t.pick([20, 60, 140])):
        if t.bool(2, 3):
            cur = t.draw(n)
        w = ws[cur]
        op, args = pick_op(w, t)
        if op == "p_new" and n > 1 and t.bool(1, 3):  # the pipeline id of another session
            other = ws[(cur + 1) % n]
            if other.known and other.known[-1] not in w.known:
                args = (other.known[-1],) + args[1:]
        watch = t.bool(1, 5)
        before = [public(x) for x in ws if x is not w] if watch else None
        out, seen = perform(w, op, args)
        logs[cur].append((op, args, out, seen))
        if watch:
            after = [public(x) for x in ws if x is not w]
            need(before == after, "%s%s changed another session: %s / %s", op, args, before, after)
            for x in ws:
                x.audit()
            m.count("others unchanged")
        if t.bool(1, 10):
            drain(w, logs[cur])
    for i, w in enumerate(ws):
        drain(w, logs[i])
        w.audit()
        if w.c.key:
            m.count("keys")
    for i, w in enumerate(ws):
        alone(cfgs[i], logs[i], public(w), m, "session %d of %d" % (i, n))
    m.count("interleaved sessions", n)
    m.case(tuple(tuple((op, ascii(args), out) for op, args, out, _s in lg) for lg in logs))


def drain(w, log):
    for _ in range(300):
        busy = False
        for i in (0, 1):
            while True:
                out, seen = perform(w, "send", (i, None))
                log.append(("send", (i, None), out, seen))
                if out is not None:
                    break
                busy = True
            while w.do("deliver", i, 1) is None:
                busy = True
            log.append(("deliver*", (i,), None, None))
            while True:
                out, seen = perform(w, "poll", (i,))
                log.append(("poll", (i,), out, seen))
                if out == "idle":
                    break
                busy = True
        if not busy:
            return


# ---- pipelines of one pool -------------------------------------------------------------------------------------------


class Flow:
    """A pool in which everything is moved after every operation, with what each pipeline saw."""

    def __init__(self, cfg, m, name):
        self.w = cfg.make(m, name)
        self.w.max_pipes = 99
        self.seen = {}
        self.calls = {}  # ci -> (pipeline, its number among the pipeline's calls)
        self.order = {}
        self.w.do("c_open")
        self.move()

    def do(self, op, *args):
        before = set(self.w.s.calls)
        out = self.w.do(op, *args)
        for ci in sorted(set(self.w.s.calls) - before):
            pid = self.w.s.calls[ci][1]
            lst = self.order.setdefault(pid, [])
            self.calls[ci] = (pid, len(lst))
            lst.append(ci)
        self.move()
        return out

    def move(self):
        w = self.w
        for _ in range(200):
            busy = False
            for i in (0, 1):
                while w.do("send", i, None) is None:
                    busy = True
                while w.do("deliver", i, 1) is None:
                    busy = True
                while True:
                    ln = w.links()[i]
                    d = ln.due()
                    out = w.do("poll", i)
                    if out == "idle":
                        break
                    busy = True
                    ev = fp_event(w.last_event)
                    if ev is not None:
                        ev = tuple(x for x in ev if not (isinstance(x, tuple) and x[0] == "ci"))
                    self.seen.setdefault(d.pid, []).append((i, out, d.type, ev))
            if not busy:
                return

    def state(self, pid):
        out = []
        for x in (self.w.c.real, self.w.s.real):
            p = x.pipeline_table.get(pid)
            out.append(p and p.state)
        return out


def pipelines(t, m):
    cfg = Config(t, gen_uuid(t), None, None)
    f = Flow(cfg, m, "pool ")
    n = t.int(2, 5)
    logs = {}
    for _ in range(t.pick([20, 50])):
        w = f.w
        if len(logs) < n and t.bool(1, 4) or not logs:
            args = w.gen_p_new(t)
            logs[args[0]] = [("p_new", args, f.do("p_new", *args))]
            continue
        op = t.weighted(PIPE_MIX)
        args = getattr(w, "gen_" + op)(t)
        pid = args[0] if op[:2] in ("p_", "q_") else None
        if op == "c_respond":
            ci, via = args[:2]
            pid, num = f.calls.get(ci, (None, None))
            if pid is None or (via is not None and via != pid):
                continue
            out = f.do(op, *args)
            logs[pid].append((op, (num,) + args[1:], out))
            continue
        out = f.do(op, *args)
        if pid is not None:
            logs[pid].append((op, args, out))
    for pid, lg in logs.items():
        g = Flow(cfg, m, "alone ")
        for op, args, out in lg:
            if op == "c_respond":
                args = (g.order[pid][args[0]],) + args[1:]
            o = g.do(op, *args)
            need(o == out, "pipeline %s: %s%s ended with %s, alone with %s", pid, op, args, out, o)
            m.count("steps compared")
        a, b = f.seen.get(pid, []), g.seen.get(pid, [])
        need(a == b, "pipeline %s: next to others %s, alone %s", pid, short(a), short(b))
        m.count("events compared", len(a))
        need(f.state(pid) == g.state(pid), "pipeline %s ends in %s, alone in %s", pid, f.state(pid), g.state(pid))
    m.count("interleaved pipelines", len(logs))
    m.case(ascii(logs))


def case(t, m):
    if t.bool(1, 3):
        pipelines(t, m)
    else:
        sessions(t, m)


# ---- sessions in threads ---------------------------------------------------------------------------------------------


def one_history(cfg, seed, steps):
    """A whole session driven by its own tape: what it showed."""
    t = Tape(seed=seed)
    m = Monitor()
    w = cfg.make(m, "")
    log = []
    log.append(("c_open", ()) + perform(w, "c_open", ()))
    drain(w, log)
    for _ in range(steps):
        op, args = pick_op(w, t)
        out, seen = perform(w, op, args)
        log.append((op, args, out, seen))
        if t.bool(1, 12):
            drain(w, log)
    drain(w, log)
    return log, public(w)


def threads(first, rounds, steps):
    def run(m):
        old = sys.getswitchinterval()
        for r in range(first, first + rounds):
            t = Tape(seed=r * 7919 + 13)
            cfgs = [Config(t, gen_uuid(t), None, None) for _ in range(5)]
            seeds = [r * 101 + i for i in range(5)]
            want = [one_history(c, s, steps) for c, s in zip(cfgs, seeds)]
            got = [None] * 5
            gate = threading.Barrier(5)

            def body(i):
                try:
                    gate.wait(60)
                    got[i] = one_history(cfgs[i], seeds[i], steps)
                except BaseException as e:  # noqa: B036
                    got[i] = e

            sys.setswitchinterval(5e-6)
            try:
                ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(5)]
                for th in ths:
                    th.start()
                for th in ths:
                    th.join(120)
            finally:
                sys.setswitchinterval(old)
            for i in range(5):
                if isinstance(got[i], BaseException):
                    raise Violation("session %d in a thread next to others failed (%s: %s), alone it works" % (
                        i, type(got[i]).__name__, got[i]))
                need(got[i] is not None, "session %d in a thread never ended", i)
                for a, b in zip(want[i][0], got[i][0]):
                    a, b = (a[0], ascii(a[1])) + a[2:], (b[0], ascii(b[1])) + b[2:]
                    need(a == b, "session %d in a thread next to others: %s, alone %s", i, short(b), short(a))
                need(want[i][1] == got[i][1], "session %d in a thread ends differently", i)
                m.count("threaded sessions")
                m.count("steps compared", len(want[i][0]))
                m.case(("threads", r, i))
    return run


# ---- what new sessions and pipelines start with -----------------------------------------------------------------------


def kinds():
    """name -> make one with default (or equal) arguments."""
    def pool():
        return psrpcore.ClientRunspacePool(runspace_pool_id=RP)

    def server():
        return psrpcore.ServerRunspacePool()

    pid = uuid.UUID(int=9)
    out = {"client": pool, "server": server,
           "client pipeline": lambda: psrpcore.ClientPowerShell(pool(), pipeline_id=pid),
           "client command": lambda: psrpcore.ClientPowerShell(pool(), pipeline_id=pid).add_script("x").add_argument(1),
           "metadata pipeline": lambda: psrpcore.ClientGetCommandMetadata(pool(), "n", pipeline_id=pid),
           "metadata pipeline of names": lambda: psrpcore.ClientGetCommandMetadata(
               pool(), ["a", "b"], namespace=["c"], arguments=["d"], pipeline_id=pid),
           "server pipeline": lambda: psrpcore.ServerPipeline(server(), pid),
           "command": lambda: psrpcore.Command("x"), "powershell": lambda: psrpcore.PowerShell(),
           "crypto": lambda: psrpcore.PSRemotingCrypto()}
    return {k: v for k, v in out.items() if hasattr(psrpcore, "PowerShell") or k != "powershell"}


RP = uuid.UUID(int=7)


def described(o, depth=0, path=(), seen=None):
    """Everything public that hangs on a session object, as plain data."""
    seen = seen if seen is not None else {}
    out = []
    for k in sorted(set(dir(o))):
        if k.startswith("_") or (isinstance(o, T.PSObject) and k in ("PSBase", "PSAdapted", "PSExtended", "PSObject")):
            continue
        try:
            v = getattr(o, k)
        except Exception:
            continue
        if callable(v) and not isinstance(v, T.PSObject):
            continue
        if isinstance(v, BASES) and not isinstance(v, T.PSObject) or type(v).__name__ == "PowerShell":
            if depth < 2:
                out.append((k, described(v, depth + 1)))
        elif k == "pipeline_table":
            out.append((k, sorted(map(str, v))))
        else:
            out.append((k, fp(v)))
    return out


def spoil(t, o, m, depth=0, seen=None):
    """Change everything changeable that hangs on it, in place."""
    seen = seen if seen is not None else {}
    if id(o) in seen or depth > 6:
        return
    seen[id(o)] = o
    if isinstance(o, (T.PSEnumBase, T.PSFlagBase)):
        return
    if isinstance(o, BASES):
        for k in dir(o):
            if k.startswith("_") or k in ("PSBase", "PSAdapted", "PSExtended", "PSObject"):
                continue
            try:
                v = getattr(o, k)
            except Exception:
                continue
            if not callable(v) or isinstance(v, T.PSObject):
                spoil(t, v, m, depth + 1, seen)
    if isinstance(o, T.PSObject):
        mutate(t, o, m)
    elif isinstance(o, dict):
        for v in list(o.values()):
            spoil(t, v, m, depth + 1, seen)
        o["spoiled"] = 1
        m.count("things spoiled")
    elif isinstance(o, list):
        for v in list(o):
            spoil(t, v, m, depth + 1, seen)
        o.append("spoiled")
        m.count("things spoiled")
    elif isinstance(o, set):
        o.add("spoiled")


BASES = (psrpcore.ClientRunspacePool, psrpcore.ServerRunspacePool, psrpcore.ClientPowerShell,
         psrpcore.ClientGetCommandMetadata, psrpcore.ServerPipeline, psrpcore.Command)
BASES += tuple(getattr(psrpcore, n) for n in ("PowerShell", "GetMetadata") if hasattr(psrpcore, n))


def said(c=None, s=None):
    """What a session of new (or the given) pools says while it opens and runs one pipeline."""
    p = Pair(c or psrpcore.ClientRunspacePool(runspace_pool_id=RP), s or psrpcore.ServerRunspacePool())
    p.client.open()
    evs = p.pump()
    pid = uuid.UUID(int=11)
    ps = psrpcore.ClientPowerShell(p.client, pipeline_id=pid)
    ps.add_script("x")
    sp = psrpcore.ServerPipeline(p.server, pid)
    ps.start()
    evs += p.pump()
    sp.start()
    sp.write_output([1])
    sp.complete()
    evs += p.pump()
    return [(d.type, d.data, fp_event(ev)) for _l, d, ev in evs], p, ps, sp


def _fresh(m):
    """Nothing that hangs on a new session, pipeline or command is shared with another one."""
    base = said()[0]
    for name, make in kinds().items():
        start = described(make())
        for seed in range(30):
            t = Tape(seed=seed * 17 + len(name))
            a, b = make(), make()
            need(described(a) == start, "a new %s starts as %s and not %s", name, short(described(a)), short(start))
            before = described(b)
            spoil(t, a, m)
            need(described(b) == before, "changing what hangs on one %s changed another: %s -> %s", name,
                 short(before), short(described(b)))
            now = described(make())
            need(now == start, "changing what hangs on one %s changed what new ones start with: %s -> %s", name,
                 short(start), short(now))
            m.count("fresh")
            m.case(("fresh", name, seed))
        now = said()[0]
        need(now == base, "after changing what hangs on a %s new sessions say something else: %s", name,
             short([(x, y) for x, y in zip(base, now) if x != y][:1]))
    # what hangs on sessions that were used
    for seed in range(20):
        t = Tape(seed=seed)
        _trace, p, ps, sp = said()
        _trace, p2, ps2, sp2 = said()
        mine, theirs = (p.client, p.server, ps, sp), (p2.client, p2.server, ps2, sp2)
        before = [described(x) for x in theirs]
        for x in t.shuffle(list(mine)):
            spoil(t, x, m)
        now = [described(x) for x in theirs]
        need(before == now, "changing what hangs on one session changed another: %s",
             [(short(x), short(y)) for x, y in zip(before, now) if x != y][:1])
        now = said()[0]
        need(now == base, "after changing what hangs on a session new sessions say something else: %s",
             short([(x, y) for x, y in zip(base, now) if x != y][:1]))
        m.count("fresh")


def units(tier):
    n, rounds, steps = (16, 2, 50) if tier == "quick" else (256, 4, 90)
    sizes = (40, 300) if tier == "quick" else (17, 33, 65, 130, 260, 520, 1100)
    return aged_units(["open pipelines", "messages"], sizes) + [("fresh", _fresh)] + [("threads %d" % i, threads(i * rounds, rounds, steps)) for i in range(n)]
