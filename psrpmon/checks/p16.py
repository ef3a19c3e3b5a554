"""P16: every stream record arrives unchanged and in order."""

from collections import deque

from .. import records as R
from .. import values as V
from ..mon import need
from ..tape import Tape
from ..world import Pair, cut, gen_limit, gen_uuid

import psrpcore
from psrpcore import types as T

PROP = "P16"
LEVEL = "exploration"
RULE = ("distinct record kinds with the combination of fields that were filled (error, message, progress, information, "
        "event, value), in sequences over up to three pipelines, compared on the wire and in the event")
ASSUMPTIONS = ["an error record has an exception, an empty stack trace counts as none, and iteration info is only "
               "carried together with invocation info",
               "invocation info names its command origin; PositionMessage, PSCommandPath and PSScriptRoot are sent "
               "but rebuilt by the reader",
               "type names are plain identifiers"]
CASES = {"quick": 4500, "thorough": 300000}
TIME = {"quick": 60, "thorough": 800}
REQUIRE = ["error", "debug", "verbose", "warning", "progress", "information", "event", "output", "input", "nothing",
           "error as value", "invocation info", "broken reason", "defaults"]


def key(spec):
    """Which parts of a record were used."""
    out = [spec.kind]
    for a in ("details", "stack", "fqid", "iters", "tags", "args"):
        if hasattr(spec, a):
            out.append((a, getattr(spec, a) is None))
    inv = getattr(spec, "inv", None)
    if inv:
        out.append(tuple(getattr(inv, a) is None for a in ("bound", "unbound", "cmd", "extent", "line", "script")))
    for a in ("node", "target", "data", "sender"):
        if hasattr(spec, a):
            n = getattr(spec, a)
            out.append((a, n.kind, n.cls, len(n.v) if n.kind in ("seq", "map") else 0))
    if hasattr(spec, "given"):
        out.append(tuple(sorted(spec.given)))
    return tuple(out)


def new_pipe(t, pair):
    c = psrpcore.ClientPowerShell(pair.client, no_input=False)
    c.add_script("x")
    c.start()
    s = psrpcore.ServerPipeline(pair.server, c.pipeline_id)
    pair.pump()
    s.start()
    pair.pump()
    return c, s


class Flow:
    """Sends with cut pieces and checks each arrival against the queue of what was written."""

    def __init__(self, t, m, pair):
        self.t, self.m, self.pair = t, m, pair
        self.want = {pair.c2s: deque(), pair.s2c: deque()}

    def push(self, link, spec, pid):
        self.want[link].append((spec, pid))

    def move(self):
        """Send some or everything in one direction and poll what arrived."""
        t = self.t
        for ln in (self.pair.c2s, self.pair.s2c):
            n = t.int(1, 4)
            for _ in range(n):
                if not ln.send(gen_limit(t), lambda d: cut(t, d)):
                    break
            for _ in range(t.int(0, 12)):
                if not ln.deliver():
                    break
            self.poll(ln)

    def poll(self, ln):
        while True:
            d, ev = ln.poll()
            if ev is None:
                return
            need(self.want[ln], "%s arrived although nothing was written", d.type)
            spec, pid = self.want[ln].popleft()
            need(d.type == spec.msg, "expected %s next, %s arrived", spec.msg, d.type)
            need(d.pid == pid, "%s for pipeline %s was sent for %s", spec.msg, pid, d.pid)
            self.m.count("fields", spec.check_wire(d.doc))
            self.m.count("compared", spec.got(ev))
            self.m.count(spec.kind)
            self.m.case(key(spec))
            self.m.seen("record shapes", key(spec))

    def settle(self):
        for ln in (self.pair.c2s, self.pair.s2c):
            while True:
                busy = ln.send()
                while ln.deliver():
                    pass
                self.poll(ln)
                if not busy:
                    break
            need(not self.want[ln], "%d written records never arrived", len(self.want[ln]))


def gen_spec(t, m, rpid):
    k = t.draw(16)
    if k < 4:
        return R.ErrorSpec(t)
    if k < 7:
        return R.MessageSpec(t, t.pick(["debug", "verbose", "warning"]))
    if k < 9:
        return R.ProgressSpec(t)
    if k < 11:
        return R.InfoSpec(t)
    if k < 12:
        return R.EventSpec(t, rpid)
    if k == 12:
        m.count("error as value")
        return R.ErrorValueSpec(t, t.pick(["output", "input"]))
    return R.ValueSpec(t, t.pick(["output", "output", "input"]))


def case(t, m, steps=None):
    rpid = gen_uuid(t)
    client = psrpcore.ClientRunspacePool(runspace_pool_id=rpid)
    pair = Pair(client, psrpcore.ServerRunspacePool())
    client.open()
    pair.pump()
    pipes = [new_pipe(t, pair) for _ in range(t.int(1, 3))]
    flow = Flow(t, m, pair)
    for _ in range(steps or t.int(1, 10)):
        spec = gen_spec(t, m, rpid)
        i = t.draw(len(pipes))
        c, s = pipes[i]
        pid = c.pipeline_id
        m.log("write %s on pipeline %d", spec.kind, i)
        if spec.kind == "event":
            spec.send(pair.server)
            pid = None
        else:
            spec.write(c if spec.kind == "input" else s)
        if getattr(spec, "node", None) is not None and spec.node.kind == "nil":
            m.count("nothing")
        if getattr(spec, "inv", None):
            m.count("invocation info")
        flow.push(pair.c2s if spec.kind == "input" else pair.s2c, spec, pid)
        if t.bool(1, 3):
            flow.move()
    flow.settle()
    if t.bool(1, 8):
        err = R.ErrorSpec(t)
        m.log("broken")
        pair.server.set_broken(err.build())
        got = pair.pump()
        need(len(got) == 1 and got[0][2].state == T.RunspacePoolState.Broken, "breaking the pool announced %s", got)
        doc = got[0][1].doc
        exc = R.field(doc, "ExceptionAsErrorRecord")
        need(exc is not None, "the reason was not sent")
        m.count("fields", err.check_wire(exc))
        m.count("compared", err.same(got[0][2].reason))
        m.count("broken reason")


# ---- defaults ---------------------------------------------------------------------------------------------------------


def defaults(m):
    """The fields that are filled in for the writer: present and plausible, and nothing else changed."""
    import datetime
    import os
    import threading

    pair = Pair(psrpcore.ClientRunspacePool(), psrpcore.ServerRunspacePool())
    pair.client.open()
    pair.pump()
    c = psrpcore.ClientPowerShell(pair.client)
    c.add_script("x")
    c.start()
    s = psrpcore.ServerPipeline(pair.server, c.pipeline_id)
    pair.pump()
    s.start()
    pair.pump()
    before = datetime.datetime.now()
    s.write_information("data", "source")
    pair.server.send_event(1, "src")
    after = datetime.datetime.now()
    (_a, _b, e1), (_c, _d, e2) = pair.pump()
    r = e1.record
    need(r.MessageData == "data" and r.Source == "source" and list(r.Tags) == [], "information defaults: %r", r)
    when = datetime.datetime(*r.TimeGenerated.timetuple()[:6])
    need(before.replace(microsecond=0) <= when <= after, "information time %s", when)
    need(r.ProcessId == os.getpid() and r.NativeThreadId == threading.get_native_id() and r.ManagedThreadId == 0,
         "information ids: %r", r)
    ev = e2.event
    when = datetime.datetime(*ev.TimeGenerated.timetuple()[:6])
    need(before.replace(microsecond=0) <= when <= after, "event time %s", when)
    need(ev.EventIdentifier == 1 and ev.SourceIdentifier == "src" and ev.Sender is None and
         list(ev.SourceArgs) == [] and ev.MessageData is None and ev.RunspaceId == pair.client.runspace_pool_id,
         "event defaults: %r", ev)
    # everything left out
    s.write_error(T.NETException(Message="m"))
    s.write_debug("d")
    s.write_progress("a", 1, "b")
    evs = [e for _x, _y, e in pair.pump()]
    need([type(e).__name__ for e in evs] == ["ErrorRecordEvent", "DebugRecordEvent", "ProgressRecordEvent"], "%s", evs)
    e = evs[0].record
    need(str(e) == "m" and e.CategoryInfo.Category == T.ErrorCategory.NotSpecified and e.TargetObject is None,
         "error defaults: %r", e)
    m.count("defaults")


def _long(steps):
    def run(m):
        """Very many records."""
        m.start_trace()
        case(Tape(seed=steps), m, steps)
        m.count("long sequences")
    return run


def units(tier):
    sizes = (150, 600) if tier == "quick" else (150, 600, 1100, 3000)
    return [("defaults", defaults)] + [("long %d" % n, _long(n)) for n in sizes]
