"""P22: disconnecting and reconnecting preserves the session."""

from types import SimpleNamespace as NS

from .. import keys, values as V
from ..mon import need
from ..session import PS, RS, World, aged_units, run_history, sequences, val
from ..tape import Tape
from ..values import N
from ..world import Link, cut, gen_uuid
from .p08 import gen_map, with_table
from .p11 import public

import psrpcore
from psrpcore import types as T

PROP = "P22"
LEVEL = "exploration"
RULE = ("distinct histories with disconnect, reconnect and connect steps in which every message, event and all public "
        "state of both sides were compared with the reference session")
ASSUMPTIONS = ["a client connects when no message of the previous connection is under way",
               "requests of the previous client were answered before another client takes over",
               "a client that takes over does not learn the server's capability (known finding)"]
CASES = {"quick": 3000, "thorough": 150000}
TIME = {"quick": 60, "thorough": 800}
REQUIRE = ["events", "audits", "refusals", "reconnected", "connected again", "taken over", "strangers", "attached",
           "running kept", "keys after connection", "secure values", "private data", "limits asked", "requests",
           "answers", "host_calls", "host_responses", "enumerated_sequences", "arrived in part",
           "private data changed", "written while away"]

WORK = [("c_get_avail", 2), ("c_set_max", 4), ("c_set_min", 4), ("s_answer", 8), ("s_call", 4), ("c_respond", 6),
        ("s_event", 2), ("p_new", 4), ("p_start", 5), ("p_send", 6), ("p_eof", 2), ("p_stop", 1), ("p_close", 2),
        ("q_start", 5), ("q_stop", 1), ("q_complete", 2), ("q_close", 2), ("q_write", 8), ("q_call", 4),
        ("p_value", 1), ("q_value", 1), ("c_key", 1), ("s_key", 1), ("p_secure", 2), ("q_secure", 2)]
MOVES = [("c_disconnect", 2), ("s_disconnect", 2), ("c_reconnect", 4), ("s_reconnect", 4)]
ODD = [("c_open", 1), ("c_connect", 1), ("s_connect", 1), ("c_close", 1), ("s_close", 1), ("c_begin_disconnect", 1),
       ("s_begin_disconnect", 1)]


def setup():
    keys.stock(24)


class Recon(World):
    """A session whose client may be replaced."""

    handing = False  # another client is going to connect

    def __init__(self, t, m, node=None, **kw):
        self.node = with_table(node or N("map", "dict", []))
        super().__init__(t, m, private=V.build(node) if node is not None else None, **kw)

    def private_data(self):
        super().private_data()
        node = self.node = N("map", self.node.cls, list(self.node.v))

        def recv(ev):
            V.same(node, ev.data)
            V.same(node, self.c.real.application_private_data)
            if self.c.state == RS.Connecting:
                self.c.state = RS.Opened
            self.m.count("private data")

        self.s2c.expect[-1].recv = recv

    # -- secure values, once both sides have the key

    def gen_p_secure(self, t):
        return (self.pick_pipe(t, self.c), N("sec", v=V.gen_text(t)))

    def gen_q_secure(self, t):
        return (self.pick_pipe(t, self.s), N("sec", v=V.gen_text(t)))

    def do_p_secure(self, pid, node):
        if pid is None or not self.c.key:
            return "skipped"
        out = self._value(self.c, pid, node, "send", "PipelineInput")
        self.m.count("secure values", 0 if out else 1)
        return out

    def do_q_secure(self, pid, node):
        if pid is None or not self.c.key:
            return "skipped"
        out = self._value(self.s, pid, node, "write_output", "PipelineOutput")
        self.m.count("secure values", 0 if out else 1)
        return out

    # -- connections

    def away(self, t):
        """The server waits for a connection, nothing is under way. False: that cannot be had from here."""
        self.settle(t)
        for ci in sorted(self.s.reqs):
            self.do("s_answer", ci, 3 if self.s.reqs[ci][0] == "get" else t.bool())
        self.settle(t)
        if self.s.state == RS.Opened:
            self.do("s_disconnect")
        if self.s.state != RS.Disconnected:
            return False
        self.settle(t)
        if t.bool(1, 3) and any(p.state == PS.Running for p in self.s.pipes.values()):
            return self.connect_late(t)
        return self.do("s_connect") is None

    def connect_late(self, t):
        """What the pipelines write while nobody is connected is there for the client that connects."""
        for _ in range(t.int(1, 6)):
            self.step(t, "q_write" if self.handing else t.weighted([(8, "q_write"), (1, "q_complete"), (1, "q_stop"),
                                                                    (1, "q_value"), (1, "q_start")]))
        self.backlog = True
        out = self.do("s_connect")
        self.backlog = False
        if out is None:
            self.m.count("written while away", len(self.s2c.expect))
        return out is None

    def stranger(self, t):
        """A client of another pool tries to connect."""
        other = gen_uuid(t)
        if other == self.s.rpid or other.int == 0 or self.s2c.expect:
            return
        x = psrpcore.ClientRunspacePool(runspace_pool_id=other, min_runspaces=t.int(1, 9), max_runspaces=t.int(1, 9))
        x.our_capability = T.SessionCapability(PSVersion=T.PSVersion("2.0"), protocolversion=T.PSVersion(
            t.pick(["2.0", "2.2", "2.3", "9.9"])), SerializationVersion=T.PSVersion("1.1.0.1"))
        k = t.draw(4)
        if k == 0:
            x.prepare_message(T.ConnectRunspacePool(MinRunspaces=t.int(1, 9), MaxRunspaces=t.int(1, 9)))
            count = 1
        elif k == 1:
            x.prepare_message(x.our_capability)
            count = 1
        else:
            x.connect()
            count = 2
        before = public(self)
        self.m.log("a client of pool %s tries to connect (%d messages)", other, count)
        late = t.bool()
        while True:
            p = x.data_to_send(t.pick([60, 200, 32768]))
            if p is None:
                break
            for piece in cut(t, p.data):
                self.s.real.receive_data(psrpcore.PSRPPayload(piece, p.stream_type, p.pipeline_id))
            if not late:
                count -= self.refused_polls()
        count -= self.refused_polls()
        need(count == 0, "%d messages of a client of another pool were not refused", count)
        need(self.s.real.data_to_send() is None, "the server answers a client of another pool")
        need(public(self) == before, "a refused connection changed the pool: %s / %s", public(self), before)
        self.m.count("strangers")

    def refused_polls(self):
        n = 0
        while True:
            try:
                ev = self.s.real.next_event()
            except psrpcore.PSRPCoreError:
                n += 1
                continue
            need(ev is None, "the server accepted %s of a client of another pool", type(ev).__name__)
            return n

    def replace(self, t):
        """Another client takes over."""
        mn, mx = t.int(1, 9), t.int(1, 9)
        ver = t.pick([self.ver[0], (2, 3), (2, 2), (2, 0)])
        real = psrpcore.ClientRunspacePool(runspace_pool_id=self.s.rpid, min_runspaces=mn, max_runspaces=mx)
        if ver != (2, 3):
            real.our_capability = T.SessionCapability(
                PSVersion=T.PSVersion("2.0"), protocolversion=T.PSVersion("%d.%d" % ver),
                SerializationVersion=T.PSVersion("1.1.0.1"))
        self.ver = (ver, self.ver[1])
        self.c = NS(real=real, state=RS.BeforeOpen, their=None, min=mn, max=mx, reqs={}, calls={}, key_requested=False,
                    pipes={}, rpid=self.s.rpid, last_ci=0, key=False, events=0)
        self.c2s = Link(real, self.s.real, self.name + "client->server", True)
        old = self.s2c
        self.s2c = Link(self.s.real, real, self.name + "server->client", False)
        self.s2c.expect, self.s2c.defrag = old.expect, old.defrag
        self.done_reqs, self.done_calls = [], []
        self.m.log("another client takes over, version %s, limits %s, %s", ver, mn, mx)
        self.history.append(("replace", (ver, mn, mx)))

    def attach(self, t, pid):
        """The new client's object for a pipeline that is there already."""
        text = "attached %d" % len(self.history)
        real = psrpcore.ClientPowerShell(self.c.real, pipeline_id=pid)
        real.add_script(text)
        self.c.pipes[pid] = NS(real=real, pid=pid, state=PS.NotStarted, kind="ps", text=text)
        self.m.count("attached")
        self.m.log("attached %s", pid)

    def opened(self, how):
        need(self.c.real.state == RS.Opened and self.s.real.state == RS.Opened, "%s: the pools end in %s / %s", how,
             self.c.real.state, self.s.real.state)
        need((self.c.real.min_runspaces, self.c.real.max_runspaces) == (
            self.s.real.min_runspaces, self.s.real.max_runspaces), "%s: the limits are %s / %s", how,
            (self.c.real.min_runspaces, self.c.real.max_runspaces),
            (self.s.real.min_runspaces, self.s.real.max_runspaces))

    def change_private(self, t):
        """The server's private data is not the same any more when a client connects."""
        real, nodes = self.s.real.application_private_data, self.node.v
        if real is None or len(real) != len(nodes) or not (self.idle(self.s2c) and self.idle(self.c2s)):
            return
        for _ in range(t.int(1, 3)):
            g = V.Gen(t, 4)
            k, v = N("str", "str", "new%d" % t.draw(5)), g.value(1)
            have = [i for i, (a, _) in enumerate(nodes) if a.kind == "str" and a.v == k.v]
            if nodes and t.bool():
                i = t.draw(len(nodes))
                key = list(real)[i]
                if t.bool():
                    del real[key]
                    nodes.pop(i)
                else:
                    dict.__setitem__(real, key, V.build(v))
                    nodes[i] = (nodes[i][0], v)
            elif not have:
                dict.__setitem__(real, k.v, V.build(v))
                nodes.append((k, v))
        self.m.count("private data changed")

    def kept(self):
        if any(p.state == PS.Running for p in self.s.pipes.values()):
            self.m.count("running kept")


def exchange(w, t):
    """A key exchange, and secure values both ways."""
    first = not w.c.key_requested
    w.do(t.pick(["c_key", "s_key"]))
    if t.bool(1, 4):
        w.do(t.pick(["c_key", "s_key"]))
    w.settle(t)
    need(w.c.key, "the key exchange did not end")
    if first:
        w.m.count("keys after connection")
    pid = gen_uuid(t)
    if w.do("p_new", pid, "ps", "secure", True) is None:
        w.do("p_start", pid)
        w.settle(t)
        w.do("q_start", pid)
        w.settle(t)
        for _ in range(t.int(1, 3)):
            w.do(*t.pick([("p_secure",), ("q_secure",)]), pid, N("sec", v=V.gen_text(t)))
        w.settle(t)


def reconnect(w, t):
    """Both sides of the same session, in any order, with messages under way."""
    if w.c.state != RS.Opened or w.s.state != RS.Opened:
        return False
    half(w, t)
    ops = t.shuffle(["c_disconnect", "s_disconnect"])
    back = t.shuffle(["c_reconnect", "s_reconnect"])
    if t.bool(1, 3):
        ops[0], back[0] = ops[0], ops[0].replace("disconnect", "reconnect")
        ops, back = ops[:1], back[:1]
    for op in ops:
        w.do(op)
        between(w, t)
        half(w, t)
    w.kept()
    for op in back:
        w.do(op)
        between(w, t)
        half(w, t)
    w.settle(t)
    w.opened("reconnection")
    w.m.count("reconnected")
    return True


def half(w, t):
    """Messages of which a part has arrived, and was polled for, when the next step is taken."""
    for i, ops in ((0, ["p_send", "c_set_max", "c_get_avail"]), (1, ["q_write", "s_event", "s_call"])):
        if not t.bool(1, 3):
            continue
        ln = w.links()[i]
        if not ln.expect and not ln.defrag.open:
            w.step(t, t.pick(ops))
        if not ln.expect and not ln.defrag.open:
            continue
        for _ in range(t.int(1, 3)):
            w.do("send", i, t.pick([22, 30, 60, 90]))
        while ln.wire:
            w.do("deliver", i, 1)
            if t.bool():
                w.do("poll", i)
        while ln.due():
            w.do("poll", i)
        w.do("poll", i)
        w.m.count("arrived in part", 1 if ln.defrag.open else 0)


def between(w, t):
    for _ in range(t.draw(4)):
        w.step(t, t.weighted([(5, "send"), (4, "deliver"), (5, "poll"), (1, "c_set_max"), (1, "q_write"),
                              (1, "s_event"), (1, "s_call"), (1, "c_respond"), (1, "s_answer"), (1, "p_send")]))


def connect_again(w, t):
    """The same client connects to the pool it was disconnected from."""
    if w.c.state not in (RS.Opened, RS.Disconnected):
        return False
    if w.c.state == RS.Opened:
        w.do("c_disconnect")
    if not w.away(t):
        return False
    w.kept()
    for _ in range(t.draw(3)):
        w.stranger(t)
    if w.c.state == RS.Opened:
        w.do("c_disconnect")
    if t.bool(1, 3):
        w.change_private(t)
    w.do("c_connect")
    w.settle(t)
    w.opened("connection")
    w.m.count("connected again")
    return True


def take_over(w, t):
    w.handing = True
    there = w.away(t)
    w.handing = False
    if not there:
        return False
    w.kept()
    for _ in range(t.draw(3)):
        w.stranger(t)
    w.replace(t)
    if t.bool(1, 3):
        w.change_private(t)
    pids = [p for p in w.s.pipes if t.bool(3, 4)]
    early = [p for p in pids if t.bool()]
    for pid in early:
        w.attach(t, pid)
    w.do("c_connect")
    w.settle(t)
    w.opened("taking over")
    for pid in pids:
        if pid not in early:
            w.attach(t, pid)
    w.m.count("taken over")
    return True


def case(t, m):
    node = gen_map(t, t.pick([0, 5, 15])) if t.bool(3, 4) else None
    w = Recon(t, m, node)
    w.open(t)
    mix = WORK + (MOVES if t.bool(1, 3) else []) + (ODD if t.bool(1, 8) else [])
    made = []
    for _ in range(t.int(1, 4)):
        if t.bool(3, 4):
            run_history(w, t, mix, t.pick([4, 12, 30]), settle_every=t.pick([6, 30]))
        k = t.pick(["reconnect", "reconnect", "again", "over", "over"])
        ok = {"reconnect": reconnect, "again": connect_again, "over": take_over}[k](w, t)
        made.append((k, ok, w.c.state.name, w.s.state.name))
        if ok and t.bool(1, 4):
            exchange(w, t)
        if not ok and w.s.state in (RS.Closed, RS.Broken):
            break
    run_history(w, t, mix, t.pick([10, 30]), settle_every=12)
    m.case((tuple(made), tuple(x[0] for x in w.history)))
    if not m.samples:
        m.samples.append([str(x)[:120] for x in w.history[:12]])


# ---- enumerated -----------------------------------------------------------------------------------------------------

OPS = ["c_disconnect", "s_disconnect", "c_reconnect", "s_reconnect", "c_connect", "s_connect",
       ("c_get_avail",), ("s_call", None, "ReadLine", None), "c_close", "s_close"]


def _finding(m):
    """The recorded finding: whoever takes over a pool does not learn what the server can do."""
    t = Tape(data=[])
    w = Recon(t, m, None, versions=((2, 3), (2, 3)))
    w.open()
    need(take_over(w, t), "the pool could not be taken over")
    if w.c.real.their_capability is None:
        try:
            w.c.real.reset_runspace_state()
        except psrpcore.InvalidProtocolVersion:
            m.known["connect-no-capability"] = (
                "a new client that connects to an existing pool never learns the server's capability, so that "
                "reset_runspace_state is refused")


def _limits(m):
    """A connection that asks for limits: the pool has them afterwards, on both sides."""
    for mn in (1, 2, 7):
        for mx in (1, 5, 2**31 - 1):
            for seed in range(3):
                t = Tape(seed="limits %d %d %d" % (mn, mx, seed))
                w = Recon(t, m)
                w.open(t)
                need(w.away(t), "the server does not wait for a connection")
                c, s = w.c, w.s
                c.real.disconnect()
                c.state = RS.Disconnected
                w.send_caps()
                c.real.prepare_message(c.real.our_capability)
                c.real.prepare_message(T.ConnectRunspacePool(MinRunspaces=mn, MaxRunspaces=mx))

                def check(doc):
                    need((val(doc, "MinRunspaces"), val(doc, "MaxRunspaces")) == (mn, mx), "limits %s, %s sent as %s,"
                         " %s", mn, mx, val(doc, "MinRunspaces"), val(doc, "MaxRunspaces"))

                def recv(ev):
                    need((ev.min_runspaces, ev.max_runspaces) == (mn, mx), "limits %s, %s reported as %s, %s", mn, mx,
                         ev.min_runspaces, ev.max_runspaces)
                    s.min, s.max = mn, mx

                    def irecv(ev2):
                        need((ev2.min_runspaces, ev2.max_runspaces) == (mn, mx), "limits %s, %s reported as %s, %s",
                             mn, mx, ev2.min_runspaces, ev2.max_runspaces)
                        c.min, c.max = mn, mx

                    w.q(s, "RunspacePoolInitData", None, check, irecv)
                    w.private_data()
                    w.s_state(RS.Opened)

                w.q(c, "ConnectRunspacePool", None, check, recv)
                w.settle(t)
                w.opened("connection with limits")
                m.count("limits asked")


def _then(w, t):
    """One connection after the other."""
    for _ in range(t.pick([6, 20])):
        if not t.pick([reconnect, connect_again, take_over])(w, t):
            break
        w.m.count("one after the other")
        run_history(w, t, WORK, t.pick([4, 12]), settle_every=12)


def units(tier):
    depth = 4 if tier == "quick" else 5
    parts = 16 if tier == "quick" else 64
    out = [("finding", _finding), ("limits", _limits)]
    out += aged_units(["reconnects", "open calls", "open pipelines"], (40, 300) if tier == "quick" else (17, 33, 65, 130, 260, 520, 1100), _then, Recon)
    for part in range(parts):
        def run(m, part=part):
            def make():
                w = Recon(Tape(data=[]), m)
                w.open()
                return w

            sequences(make, OPS, depth, part, parts, m, True)
            sequences(make, OPS, depth - 1, part, parts, m, False)
        out.append(("sequences %d" % part, run))
    return out
