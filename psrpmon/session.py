"""A session under a reference model.

World runs one client pool and one server pool of the library and, next to each of them, a model that follows the
protocol's rules: it decides for every call whether it is accepted, which messages it has to queue, and for every
arriving message what it changes.  After each step all public state of both pools is compared with the models, every
message on the wire is compared with the one the model queued, and every event with the message it stands for.

Operations are split in two: gen_<op> draws plain arguments, do_<op> executes them, so a history is a list of
(op, args) and can be executed again in another world.
"""

import uuid
from types import SimpleNamespace as NS

from . import env, values as V  # noqa: F401
from .mon import Violation, need
from .wire import EMPTY, decode_doc, u16
from .world import Link, check_event, cut, field, fp, gen_limit, gen_uuid, has_field

import psrpcore
from psrpcore import types as T

RS = T.RunspacePoolState
PS = T.PSInvocationState
HM = T.HostMethodIdentifier

# What the protocol says (MS-PSRP), independent of the library's own tables.
RS_CODE = {"BeforeOpen": 0, "Opening": 1, "Opened": 2, "Closed": 3, "Closing": 4, "Broken": 5, "NegotiationSent": 6,
           "NegotiationSucceeded": 7, "Connecting": 8, "Disconnected": 9}
PS_CODE = {"NotStarted": 0, "Running": 1, "Stopping": 2, "Stopped": 3, "Completed": 4, "Failed": 5, "Disconnected": 6}

ASK = [("ReadLine", 11), ("GetName", 1), ("GetWindowTitle", 41), ("GetCursorSize", 35), ("GetKeyAvailable", 45),
       ("GetIsRunspacePushed", 54), ("GetVersion", 2)]
TELL = [("WriteLine2", 16), ("SetWindowTitle", 42), ("WriteErrorLine", 18), ("WriteDebugLine", 19), ("Write1", 13),
        ("SetShouldExit", 6), ("EnterNestedPrompt", 7), ("ExitNestedPrompt", 8), ("NotifyBeginApplication", 9),
        ("FlushInputBuffer", 47), ("PopRunspace", 53)]
METHOD_CODE = dict(ASK + TELL)
ASK_NAMES = {n for n, _ in ASK}


class Unserializable:
    """Cannot be written: its attribute raises."""

    @property
    def boom(self):
        raise ArithmeticError("cannot be serialized")


def text16(s):
    return u16(s)


def val(doc, name):
    """The plain value of a property of a message object."""
    v = field(doc, name)
    need(v is not None, "the message has no %s", name)
    if v[0] == "Enum":
        return v[2][1]
    return v[1]


def sval(doc, name):
    b = val(doc, name)
    return None if b is None else b.decode("utf-16-be", "surrogatepass")


class Exp:
    """One message the model has queued."""

    __slots__ = ("type", "pid", "rpid", "check", "recv", "fails", "tag", "prompt")

    def __init__(self, type_, rpid, pid=None, check=None, recv=None, fails=None, tag=None):
        self.type, self.rpid, self.pid, self.check, self.recv, self.fails, self.tag = \
            type_, rpid, pid, check, recv, fails, tag

    def on_wire(self, link, msg):
        need(msg.name == self.type, "%s: a %s message was sent where a %s is due", link.name, msg.name, self.type)
        need(msg.pid == self.pid, "%s: %s was sent for pipeline %s instead of %s", link.name, msg.name, msg.pid,
             self.pid)
        need(msg.rpid == self.rpid, "%s: %s was sent for pool %s instead of %s", link.name, msg.name, msg.rpid,
             self.rpid)
        if self.check:
            self.check(decode_doc(msg.data) if msg.data else None)


def err_record(text):
    return T.ErrorRecord(Exception=T.NETException(Message=text), CategoryInfo=T.ErrorCategoryInfo(),
                         FullyQualifiedErrorId="id" + text)


def err_text(doc):
    """Message text of an error record on the wire."""
    ex = field(doc, "Exception")
    need(ex is not None, "error record without its exception")
    return sval(ex, "Message")


_SCRATCH = __import__("uuid").UUID(int=0xFFFF << 100)
PIPE_OK_START = {PS.NotStarted, PS.Stopped, PS.Completed}
PIPE_OK_CLOSE = {PS.NotStarted, PS.Stopped, PS.Stopping, PS.Completed, PS.Failed}
RUNNING = {PS.Running}
OPENED = {RS.Opened}


def version(v):
    return (v.major, v.minor)


class World:
    def __init__(self, t, m, name="", ids=None, app=None, limits=None, versions=None, private=None, max_pipes=4,
                 texts=True, secure=False):
        self.m, self.name = m, name
        self.n = 0
        self.texts = texts
        self.max_pipes = max_pipes
        rpid = ids or gen_uuid(t)
        lo = t.int(1, 4)
        mn, mx = limits or (lo, lo + t.draw(4))
        vs = [(5, (2, 3)), (1, (2, 0)), (1, (2, 1)), (2, (2, 2)), (1, (3, 0)), (1, (2, 10)), (1, (10, 0))]
        self.ver = versions or (t.weighted(vs), t.weighted(vs))
        c = psrpcore.ClientRunspacePool(runspace_pool_id=rpid, min_runspaces=mn, max_runspaces=mx,
                                        application_arguments=app)
        s = psrpcore.ServerRunspacePool(private) if private is not None else psrpcore.ServerRunspacePool()
        for pool, ver in ((c, self.ver[0]), (s, self.ver[1])):
            if ver != (2, 3) or t.bool(1, 4):
                pool.our_capability = T.SessionCapability(
                    PSVersion=T.PSVersion("2.0"), protocolversion=T.PSVersion("%d.%d" % ver),
                    SerializationVersion=T.PSVersion("1.1.0.1"))
        self.c = NS(real=c, state=RS.BeforeOpen, their=None, min=mn, max=mx, reqs={}, calls={}, key_requested=False,
                    pipes={}, rpid=rpid, last_ci=0, key=False, events=0)
        self.s = NS(real=s, state=RS.BeforeOpen, their=None, min=0, max=0, reqs={}, calls={}, key_requested=False,
                    pipes={}, rpid=EMPTY, last_ci=0, key=False, events=0)
        self.private = s.application_private_data
        self.c2s = Link(c, s, name + "client->server", True)
        self.s2c = Link(s, c, name + "server->client", False)
        self.known = []  # pids in order of creation
        self.history = []
        self.refusals = 0
        self.accepted = 0
        self.done_calls = []  # ids of host calls that were already answered
        self.done_reqs = []
        self.refused_now = False

    # -- plumbing

    def links(self):
        return (self.c2s, self.s2c)

    def q(self, side, type_, pid=None, check=None, recv=None, fails=None, tag=None):
        """The model queues a message."""
        ln = self.c2s if side is self.c else self.s2c
        ln.expect.append(Exp(type_, side.rpid, pid, check, recv, fails, tag))
        self.m.seen("message types", type_)

    def accept(self, what, fn):
        self.accepted += 1
        self.refused_now = False
        return fn()

    def refuse(self, what, fn, exc, cur=None, valid=()):
        """The call has to be refused with the error; the audit that follows sees that nothing changed."""
        self.refusals += 1
        self.refused_now = True
        try:
            fn()
        except exc as e:
            if cur is not None and isinstance(e, (psrpcore.InvalidRunspacePoolState, psrpcore.InvalidPipelineState)):
                need(e.current_state == cur, "%s refused in state %s but the error says %s", what, cur,
                     e.current_state)
                es = list(e.expected_states)
                need(es and set(es) <= set(valid) and cur not in es,
                     "%s refused in state %s: the error says it needs one of %s", what, cur, es)
                need(bool(e.action), "%s: the error does not name the action", what)
            if isinstance(e, psrpcore.InvalidProtocolVersion):
                need(bool(e.action) and e.required_version is not None and e.current_version is not None,
                     "%s: incomplete version error", what)
            self.m.count("refusals")
            self.m.seen("refusals", (what, str(cur), type(e).__name__))
            return "refused"
        except Exception as e:
            raise Violation("%s in state %s raised %s (%s) instead of %s" % (
                what, cur, type(e).__name__, e, getattr(exc, "__name__", exc)))
        raise Violation("%s%s was accepted in state %s" % (self.name, what, cur))

    def ci_new(self, side, ci, what):
        need(type(ci) is int or isinstance(ci, int), "%s returned %r instead of a call id", what, ci)
        need(ci > side.last_ci, "%s: call id %s was handed out after %s", what, ci, side.last_ci)
        side.last_ci = int(ci)
        return int(ci)

    # -- state changes that are announced

    def s_state(self, st, reason=None):
        self.s.state = st
        if st in (RS.Disconnected, RS.Disconnecting, RS.Connecting):
            return

        def check(doc):
            got = val(doc, "RunspaceState")
            need(got == RS_CODE[st.name], "state %s was announced as %s", st.name, got)
            e = field(doc, "ExceptionAsErrorRecord")
            if reason is None:
                need(e is None or e[0] == "Nil", "an error was announced with the state %s", st.name)
            else:
                need(e is not None, "the reason of the state was not sent")
                need(err_text(e) == reason, "the reason of the state was sent as %a", err_text(e))

        def recv(ev):
            need(ev.state == st, "announced state %s was reported as %s", st, ev.state)
            if reason is None:
                need(ev.reason is None, "state %s reported with the reason %r", st, ev.reason)
            else:
                need(ev.reason is not None and u16(ev.reason.Exception.Message) == u16(reason),
                     "the reason of the broken pool was reported as %r", ev.reason)
                need(u16(ev.reason.FullyQualifiedErrorId) == u16("id" + reason), "error id of the reason differs")
            self.c.state = st

        self.q(self.s, "RunspacePoolState", None, check, recv, tag=st.name)

    def p_state(self, p, st, stopped=False):
        p.state = st

        def check(doc):
            got = val(doc, "PipelineState")
            need(got == PS_CODE[st.name], "pipeline state %s was announced as %s", st.name, got)
            e = field(doc, "ExceptionAsErrorRecord")
            need((e is not None and e[0] != "Nil") == stopped, "pipeline state %s announced with error %s", st.name, e)
            if stopped:
                names = field(e, "Exception")[2]
                need("System.Management.Automation.PipelineStoppedException" in (names or ()),
                     "the stop reason is of type %s", names)

        def recv(ev):
            need(ev.state == st, "announced pipeline state %s was reported as %s", st, ev.state)
            if stopped:
                r = ev.reason
                need(r is not None, "a stopped pipeline is reported without its reason")
                need(r.FullyQualifiedErrorId == "PipelineStopped", "stop reason %s", r.FullyQualifiedErrorId)
                need(r.CategoryInfo.Category == T.ErrorCategory.OperationStopped, "stop category %s",
                     r.CategoryInfo.Category)
            else:
                need(ev.reason is None, "pipeline state %s reported with a reason", st)
            self.c.pipes[p.pid].state = st

        def fails():
            return None if p.pid in self.c.pipes else Exception

        self.q(self.s, "PipelineState", p.pid, check, recv, fails, tag=st.name)

    # -- transport

    def gen_send(self, t):
        ln = t.draw(2)
        return (ln, gen_limit(t, [60, 200, 450]))

    def do_send(self, i, limit):
        ln = self.links()[i]
        if not ln.send(limit):
            need(not ln.expect, "%s: nothing is handed out for sending although %s is queued", ln.name,
                 ln.expect[0].type if ln.expect else "")
            need(not ln.defrag.open, "%s: the rest of a message is never handed out", ln.name)
            return "idle"

    def gen_deliver(self, t):
        return (t.draw(2), t.pick([1, 1, 2, 4, 30]))

    def do_deliver(self, i, count):
        ln = self.links()[i]
        if not ln.wire:
            return "idle"
        for _ in range(count):
            if not ln.deliver():
                break
            if ln is self.c2s and self.s.state == RS.BeforeOpen:
                self.s.state = RS.Opening

    def gen_poll(self, t):
        return (t.draw(2),)

    def do_poll(self, i):
        ln = self.links()[i]
        d = ln.due()
        bad = d.exp.fails() if d is not None and d.exp.fails else None
        maybe = bad == "maybe"  # an error or an event, but no change
        if maybe:
            bad = None
        self.m.count("polls")
        self.last_event = None
        try:
            self.last_event = ev = ln.dst.next_event()
        except Exception as e:
            if maybe:
                ln.sent.popleft()
                self.m.count("rejected")
                return "rejected"
            need(bad is not None, "%s: the poll that processes %s raised %s: %s", ln.name, d and d.type,
                 type(e).__name__, e)
            need(isinstance(e, bad), "%s: %s raised %s: %s", ln.name, d.type, type(e).__name__, e)
            ln.sent.popleft()
            self.m.count("rejected")
            return "rejected"
        if d is None:
            need(ev is None, "%s: event %s although no complete message had arrived", ln.name, type(ev).__name__)
            return "idle"
        need(bad is None, "%s: %s was accepted", ln.name, d.type)
        need(ev is not None, "%s: %s has arrived but the poll reports nothing", ln.name, d.type)
        ln.sent.popleft()
        check_event(d, ev, ln.name)
        self.m.count("events")
        self.m.seen("event types", type(ev).__name__)
        if d.exp.recv:
            d.exp.recv(ev)

    def pieces(self, t):
        return lambda data: cut(t, data)

    # -- the client's pool

    def gen_none(self, t):
        return ()

    def caps(self, side):
        ver = self.ver[0] if side is self.c else self.ver[1]

        def check(doc):
            need(val(doc, "protocolversion") == ver, "protocol version sent as %s", val(doc, "protocolversion"))

        return ver, check

    def send_caps(self):
        """The client's SessionCapability and what it does to the server."""
        ver, check = self.caps(self.c)
        rpid = self.c.rpid
        s = self.s

        def fails():
            if s.state == RS.Connecting and s.rpid != rpid:
                return psrpcore.PSRPCoreError

        def recv(ev):
            need(version(ev.protocol_version) == ver, "protocol version reported as %s", ev.protocol_version)
            s.their = ver
            if s.state != RS.Connecting:
                sver, scheck = self.caps(s)

                def srecv(ev2):
                    need(version(ev2.protocol_version) == sver, "protocol version reported as %s",
                         ev2.protocol_version)
                    self.c.their = sver

                self.q(s, "SessionCapability", None, scheck, srecv)
                s.rpid = rpid

        self.q(self.c, "SessionCapability", None, check, recv, fails)

    def private_data(self):
        want = self.private

        def recv(ev):
            need(ev.data is self.c.real.application_private_data, "the private data of the event is not the pool's")
            for k in want:
                need(k in ev.data, "private data %r did not arrive", k)
            need(len(ev.data) == len(want), "private data arrived as %r", ev.data)
            if self.c.state == RS.Connecting:
                self.c.state = RS.Opened

        self.q(self.s, "ApplicationPrivateData", None, None, recv)

    gen_c_open = gen_none

    def do_c_open(self):
        c, s = self.c, self.s
        if c.state == RS.Opened:
            return self.accept("open", c.real.open)
        if c.state != RS.BeforeOpen:
            return self.refuse("open", c.real.open, psrpcore.InvalidRunspacePoolState, c.state, {RS.BeforeOpen})
        self.accept("open", c.real.open)
        mn, mx = c.min, c.max
        self.send_caps()

        def check(doc):
            need((val(doc, "MinRunspaces"), val(doc, "MaxRunspaces")) == (mn, mx), "limits %s, %s sent as %s, %s", mn,
                 mx, val(doc, "MinRunspaces"), val(doc, "MaxRunspaces"))

        def recv(ev):
            need((ev.min_runspaces, ev.max_runspaces) == (mn, mx), "limits reported as %s, %s", ev.min_runspaces,
                 ev.max_runspaces)
            s.min, s.max = mn, mx
            self.private_data()
            self.s_state(RS.Opened)

        self.q(c, "InitRunspacePool", None, check, recv)
        c.state = RS.Opening

    gen_c_connect = gen_none

    def do_c_connect(self):
        c, s = self.c, self.s
        if c.state == RS.Opened:
            return self.accept("connect", c.real.connect)
        if c.state not in (RS.BeforeOpen, RS.Disconnected):
            return self.refuse("connect", c.real.connect, psrpcore.InvalidRunspacePoolState, c.state,
                               {RS.BeforeOpen, RS.Disconnected})
        self.accept("connect", c.real.connect)
        c.state = RS.Connecting
        self.send_caps()
        rpid = c.rpid

        def fails():
            return psrpcore.PSRPCoreError if s.rpid != rpid else None

        def recv(ev):
            mn, mx = s.min, s.max

            def icheck(doc):
                need((val(doc, "MinRunspaces"), val(doc, "MaxRunspaces")) == (mn, mx), "limits sent as %s, %s",
                     val(doc, "MinRunspaces"), val(doc, "MaxRunspaces"))

            def irecv(ev2):
                need((ev2.min_runspaces, ev2.max_runspaces) == (mn, mx), "limits reported as %s, %s",
                     ev2.min_runspaces, ev2.max_runspaces)
                self.c.min, self.c.max = mn, mx

            self.q(s, "RunspacePoolInitData", None, icheck, irecv)
            self.private_data()
            self.s_state(RS.Opened)

        self.q(c, "ConnectRunspacePool", None, None, recv, fails)

    def _close(self, side, who):
        r = side.real
        if side.pipes:
            return self.refuse(who + " close with pipelines", r.close, psrpcore.PSRPCoreError)
        valid = {RS.Closed, RS.Closing, RS.Opened}
        if side.state not in valid:
            return self.refuse(who + " close", r.close, psrpcore.InvalidRunspacePoolState, side.state, valid)
        self.accept("close", r.close)
        self.set_state(side, RS.Closed)

    def set_state(self, side, st):
        if side is self.s:
            self.s_state(st)
        else:
            side.state = st

    def _disconnect(self, side, who):
        valid = {RS.Opened, RS.Disconnecting, RS.Disconnected}
        if side.state not in valid:
            return self.refuse(who + " disconnect", side.real.disconnect, psrpcore.InvalidRunspacePoolState,
                               side.state, valid)
        self.accept("disconnect", side.real.disconnect)
        self.set_state(side, RS.Disconnected)

    def _reconnect(self, side, who):
        valid = {RS.Disconnected, RS.Opened}
        if side.state not in valid:
            return self.refuse(who + " reconnect", side.real.reconnect, psrpcore.InvalidRunspacePoolState, side.state,
                               valid)
        self.accept("reconnect", side.real.reconnect)
        self.set_state(side, RS.Opened)

    def _begin_close(self, side, who):
        self.accept("begin_close", side.real.begin_close)
        self.set_state(side, RS.Closing)

    def _begin_disconnect(self, side, who):
        self.accept("begin_disconnect", side.real.begin_disconnect)
        self.set_state(side, RS.Disconnecting)

    gen_c_close = gen_c_disconnect = gen_c_reconnect = gen_c_begin_close = gen_c_begin_disconnect = gen_none
    gen_s_close = gen_s_disconnect = gen_s_reconnect = gen_s_begin_close = gen_s_begin_disconnect = gen_none

    def do_c_close(self):
        return self._close(self.c, "client")

    def do_s_close(self):
        return self._close(self.s, "server")

    def do_c_disconnect(self):
        return self._disconnect(self.c, "client")

    def do_s_disconnect(self):
        return self._disconnect(self.s, "server")

    def do_c_reconnect(self):
        return self._reconnect(self.c, "client")

    def do_s_reconnect(self):
        return self._reconnect(self.s, "server")

    def do_c_begin_close(self):
        return self._begin_close(self.c, "client")

    def do_s_begin_close(self):
        return self._begin_close(self.s, "server")

    def do_c_begin_disconnect(self):
        return self._begin_disconnect(self.c, "client")

    def do_s_begin_disconnect(self):
        return self._begin_disconnect(self.s, "server")

    # -- requests about runspaces

    gen_c_get_avail = gen_c_reset = gen_none

    def _avail_reply(self, ci, kind, value, response):
        """The server's answer, on its way to the client."""
        c = self.c

        def check(doc):
            need(val(doc, "ci") == ci, "the answer to request %d was sent with id %s", ci, val(doc, "ci"))
            v = field(doc, "SetMinMaxRunspacesResponse")
            need(v[1] == response and (v[0] == "B") == isinstance(response, bool), "answer %r was sent as %s",
                 response, v)

        def fails():
            return None if ci in c.reqs else Exception

        def recv(ev):
            need(ev.ci == ci, "the answer to request %d was reported with id %s", ci, ev.ci)
            if isinstance(response, bool):
                need(ev.success is response, "answer %r reported as %r", response, ev.success)
            else:
                need(ev.count == response, "answer %r reported as %r", response, ev.count)
            k, v = c.reqs.pop(ci)
            if response is True and k == "max":
                c.max = v
            elif response is True and k == "min":
                c.min = v

        self.q(self.s, "RunspaceAvailability", None, check, recv, fails)

    def _request(self, ci, kind, value):
        """A request of the client is on its way."""
        c, s = self.c, self.s
        ci = self.ci_new(c, ci, kind)
        c.reqs[ci] = (kind, value)
        name = {"max": "SetMaxRunspaces", "min": "SetMinRunspaces", "get": "GetAvailableRunspaces",
                "reset": "ResetRunspaceState"}[kind]

        def check(doc):
            need(val(doc, "ci") == ci, "request %d was sent with id %s", ci, val(doc, "ci"))
            if kind in ("max", "min"):
                f = "MaxRunspaces" if kind == "max" else "MinRunspaces"
                need(val(doc, f) == value, "%s = %s was sent as %s", f, value, val(doc, f))

        def recv(ev):
            need(ev.ci == ci, "request %d was reported with id %s", ci, ev.ci)
            if kind in ("max", "min"):
                need(ev.count == value, "requested %s was reported as %s", value, ev.count)
            s.reqs[ci] = (kind, value)

        self.q(c, name, None, check, recv)
        self.m.count("requests")

    def do_c_get_avail(self):
        c = self.c
        if c.state != RS.Opened:
            return self.refuse("get available runspaces", c.real.get_available_runspaces,
                               psrpcore.InvalidRunspacePoolState, c.state, OPENED)
        self._request(self.accept("get", c.real.get_available_runspaces), "get", None)

    def do_c_reset(self):
        c = self.c
        old = (c.their or (2, 0)) < (2, 3)
        if old or c.state != RS.Opened:
            exc = tuple(e for e, y in ((psrpcore.InvalidProtocolVersion, old),
                                       (psrpcore.InvalidRunspacePoolState, c.state != RS.Opened)) if y)
            return self.refuse("reset runspace state", c.real.reset_runspace_state, exc, c.state, OPENED)
        self._request(self.accept("reset", c.real.reset_runspace_state), "reset", None)

    def gen_c_set_max(self, t):
        return (t.pick([self.c.max, self.c.max + 1, t.int(1, 12), t.int(-5, 5), 2**31 - 1]),)

    def gen_c_set_min(self, t):
        return (t.pick([self.c.min, self.c.min + 1, t.int(1, 12), t.int(-5, 5), 2**31 - 1]),)

    def _set(self, kind, value):
        c = self.c
        fn = c.real.set_max_runspaces if kind == "max" else c.real.set_min_runspaces
        value = int(str(value))  # equal, not the same object
        have = getattr(c, kind)
        if not -(2**31) <= value < 2**31:
            if c.state == RS.BeforeOpen:
                return "skipped"
            return self.refuse("set a limit beyond the range", lambda: fn(value), ValueError)
        ci = self.accept("set_" + kind, lambda: fn(value))
        if c.state == RS.BeforeOpen or have == value:
            need(ci is None, "set_%s_runspaces(%s) made the request %s although none is needed", kind, value, ci)
            setattr(c, kind, value)
            return
        need(ci is not None, "set_%s_runspaces(%s) made no request (current value %s)", kind, value, have)
        self._request(ci, kind, value)

    def do_c_set_max(self, value):
        return self._set("max", value)

    def do_c_set_min(self, value):
        return self._set("min", value)

    def gen_s_answer(self, t):
        s = self.s
        k = t.draw(10)
        if k < 7 and s.reqs:
            ci = t.pick(sorted(s.reqs))
        elif k == 7 and self.done_reqs:
            ci = t.pick(self.done_reqs)
        elif k == 8 and self.c.reqs:
            ci = t.pick(sorted(self.c.reqs))  # perhaps not there yet
        else:
            ci = t.pick([0, -1, 1, 2, s.last_ci + 1, self.c.last_ci + 1, 10**6, -100])
        right = t.weighted([(5, True), (2, False), (1, "s"), (2, 3), (1, 0), (1, None), (1, 2.5), (1, 2**40)])
        kind = s.reqs.get(ci, ("?",))[0]
        if t.bool(3, 4):
            if kind == "get":
                right = t.pick([0, 1, 3, 2**31 - 1, 2**31, 2**62, -1])
            elif kind != "?":
                right = t.bool(2, 3)
        return (ci, right)

    def do_s_answer(self, ci, response):
        s = self.s
        fn = lambda: s.real.runspace_availability_response(ci, response)  # noqa: E731
        if ci not in s.reqs:
            return self.refuse("answer an unknown request", fn, psrpcore.PSRPCoreError)
        kind, value = s.reqs[ci]
        fits = isinstance(response, bool) if kind != "get" else (
            isinstance(response, int) and not isinstance(response, bool))
        if not fits:
            return self.refuse("answer a %s request with %s" % (kind, type(response).__name__), fn,
                               psrpcore.PSRPCoreError)
        self.accept("answer", fn)
        del s.reqs[ci]
        self.done_reqs.append(ci)
        if response is True and kind in ("max", "min"):
            setattr(s, kind, value)
        self._avail_reply(ci, kind, value, response)
        self.m.count("answers")

    def gen_s_forged(self, t):
        """An answer nobody waits for (a repeated one, or for a request that was never made)."""
        ci = t.pick(self.done_reqs) if self.done_reqs and t.bool(2, 3) else 10**6 + t.draw(3)
        return (ci, t.bool(3, 4) if t.bool(3, 4) else t.draw(9))

    def do_s_forged(self, ci, response):
        if self.s.state != RS.Opened or ci in self.c.reqs:
            return "skipped"
        msg = T.RunspaceAvailability(SetMinMaxRunspacesResponse=response, ci=ci)
        self.accept("forged answer", lambda: self.s.real.prepare_message(msg))

        def fails():
            need(ci not in self.c.reqs, "the harness mixed up a forged answer")
            return "maybe"

        self.q(self.s, "RunspaceAvailability", None, None, None, fails)
        self.m.count("forged answers")

    # -- key exchange

    gen_c_key = gen_s_key = gen_none

    def _send_public_key(self):
        c, s = self.c, self.s
        c.key_requested = True

        def recv(ev):
            s.key_requested = True

            def krecv(ev2):
                c.key = True

            self.q(s, "EncryptedSessionKey", None, None, krecv)

        self.q(c, "PublicKey", None, None, recv)

    def do_c_key(self):
        c = self.c
        if c.key_requested:
            return self.accept("exchange key again", c.real.exchange_key)
        if c.state != RS.Opened:
            return self.refuse("exchange key", c.real.exchange_key, psrpcore.InvalidRunspacePoolState, c.state, OPENED)
        self.accept("exchange key", c.real.exchange_key)
        self._send_public_key()

    def do_s_key(self):
        s, c = self.s, self.c
        if s.key_requested:
            return self.accept("request key again", s.real.request_key)
        if s.state != RS.Opened:
            return self.refuse("request key", s.real.request_key, psrpcore.InvalidRunspacePoolState, s.state, OPENED)
        self.accept("request key", s.real.request_key)
        s.key_requested = True

        def fails():
            if not c.key_requested and c.state not in (RS.Opened, RS.Disconnecting, RS.Disconnected):
                return psrpcore.InvalidRunspacePoolState

        def recv(ev):
            if not c.key_requested:
                self._send_public_key()

        self.q(s, "PublicKeyRequest", None, None, recv, fails)

    # -- the server's pool

    gen_s_connect = gen_none

    backlog = False  # the server may connect while it has whole messages to send

    def idle(self, ln):
        return not (ln.expect or ln.wire or ln.sent or ln.defrag.open)

    def do_s_connect(self):
        s = self.s
        if s.state == RS.Opened:
            return self.accept("server connect", s.real.connect)
        if s.state != RS.Disconnected:
            return self.refuse("server connect", s.real.connect, psrpcore.InvalidRunspacePoolState, s.state,
                               {RS.Disconnected})
        ln = self.s2c
        left = self.backlog and ln.defrag.before is None and not (ln.wire or ln.sent or ln.defrag.open)
        if not ((self.idle(ln) or left) and self.idle(self.c2s)):
            return "skipped"  # a connection takes over a quiet session
        self.accept("server connect", s.real.connect)
        s.state = RS.Connecting
        s.last_ci = 0
        s.calls = {}
        s.key_requested = False
        ln.defrag.before = len(ln.expect)

    def text(self, t):
        self.n += 1
        more = V.gen_text(t) if self.texts and t.bool(1, 5) else ""
        return ("v%d %s" % (self.n, more)).encode("utf-16-be", "surrogatepass").decode("utf-16-be", "surrogatepass")

    def gen_s_broken(self, t):
        return (self.text(t),)

    def do_s_broken(self, text):
        s = self.s
        fn = lambda: s.real.set_broken(err_record(text))  # noqa: E731
        valid = {RS.Broken, RS.Opened}
        if s.state not in valid:
            return self.refuse("set broken", fn, psrpcore.InvalidRunspacePoolState, s.state, valid)
        self.accept("set broken", fn)
        self.s_state(RS.Broken, text)

    def gen_s_event(self, t):
        return (t.int(0, 9), self.text(t), self.text(t))

    def do_s_event(self, ident, source, data):
        s = self.s
        fn = lambda: s.real.send_event(  # noqa: E731
            ident, source, message_data=data, time_generated=T.PSDateTime(2021, 2, 3, 4, 5, 6), computer="box")
        if s.state != RS.Opened:
            return self.refuse("send event", fn, psrpcore.InvalidRunspacePoolState, s.state, OPENED)
        self.accept("send event", fn)

        def check(doc):
            need(sval(doc, "PSEventArgs.SourceIdentifier") == source, "event source sent as %a",
                 sval(doc, "PSEventArgs.SourceIdentifier"))

        def recv(ev):
            e = ev.event
            need((e.EventIdentifier, u16(e.SourceIdentifier), u16(e.MessageData)) == (ident, u16(source), u16(data)),
                 "event %s reported as %r", (ident, source, data), e)

        self.q(s, "UserEvent", None, check, recv)

    # -- host calls

    def gen_s_call(self, t):
        return self._gen_call(t, None)

    def _gen_call(self, t, pid):
        if t.bool(3, 5):
            return (pid, t.pick(sorted(ASK_NAMES)), None)
        n, _ = t.pick(TELL)
        if n == "SetShouldExit":
            return (pid, n, t.int(-5, 255))
        return (pid, n, self.text(t) if n in ("WriteLine2", "SetWindowTitle", "WriteErrorLine", "WriteDebugLine",
                                              "Write1") else None)

    def do_s_call(self, pid, method, param):
        s, c = self.s, self.c
        mi = HM[method]
        params = [] if param is None else [param]
        if pid is None:
            fn = lambda: s.real.host_call(mi, params)  # noqa: E731
        else:
            p = s.pipes[pid]
            fn = lambda: p.real.host_call(mi, params)  # noqa: E731
            if p.state != PS.Running:
                exc = psrpcore.InvalidPipelineState if s.state == RS.Opened else (
                    psrpcore.InvalidPipelineState, psrpcore.InvalidRunspacePoolState)
                return self.refuse("pipeline host call", fn, exc, p.state if s.state == RS.Opened else None, RUNNING)
        if s.state != RS.Opened:
            return self.refuse("host call", fn, psrpcore.InvalidRunspacePoolState, s.state, OPENED)
        ci = self.accept("host call", fn)
        void = method not in ASK_NAMES
        if void:
            need(ci == -100, "a call of the void method %s has the id %s", method, ci)
        else:
            ci = self.ci_new(s, ci, "host call")
            s.calls[ci] = (method, pid)

        def check(doc):
            need(val(doc, "ci") == ci, "host call %d was sent with id %s", ci, val(doc, "ci"))
            need(val(doc, "mi") == METHOD_CODE[method], "host call %s was sent as method %s", method, val(doc, "mi"))
            ps = field(doc, "mp")
            if ps[0] == "Ref":
                return
            got = [x[1].decode("utf-16-be", "surrogatepass") if x[0] == "S" else x[1] for x in ps[5][1]]
            need(got == params, "parameters %a were sent as %a", params, got)

        def recv(ev):
            need(ev.ci == ci, "host call %d was reported with id %s", ci, ev.ci)
            need(ev.method_identifier == mi, "host call %s was reported as %s", method, ev.method_identifier)
            got = list(ev.method_parameters)
            need(len(got) == len(params) and all(
                u16(a) == u16(b) if isinstance(b, str) else a == b for a, b in zip(got, params)),
                "parameters %a were reported as %a", params, got)
            if not void:
                c.calls[ci] = (method, pid)

        self.q(s, "RunspacePoolHostCall" if pid is None else "PipelineHostCall", pid, check, recv)
        self.m.count("host_calls")

    def gen_c_respond(self, t):
        c = self.c
        k = t.draw(10)
        if k < 7 and c.calls:
            ci = t.pick(sorted(c.calls))
        elif k == 7 and self.done_calls:
            ci = t.pick(self.done_calls)
        else:
            ci = t.pick([0, -100, -1, 1, 2, self.s.last_ci, self.s.last_ci + 1, 10**6])
        via = None
        if t.bool() and c.pipes:
            via = c.calls.get(ci, (None, None))[1]
            if via not in c.pipes or t.bool(1, 8):
                via = t.pick(list(c.pipes))
        kind = t.weighted([(5, "value"), (2, "error"), (2, "nothing"), (1, "both"), (1, "bad")])
        return (ci, via, kind, self.text(t), t.bool(1, 3))

    def do_c_respond(self, ci, via, kind, text, number):
        c, s = self.c, self.s
        value = error = None
        if kind in ("value", "both"):
            value = len(text) if number else text
        if kind in ("error", "both"):
            error = err_record(text)
        if kind == "bad":
            value = Unserializable()
        real = c.real if via is None else c.pipes[via].real
        fn = lambda: real.host_response(ci, value, error)  # noqa: E731
        reasons, cur, valid = [], None, ()
        if via is not None and c.pipes[via].state != PS.Running:
            reasons.append(psrpcore.InvalidPipelineState)
            cur, valid = c.pipes[via].state, RUNNING
        if c.state != RS.Opened:
            reasons.append(psrpcore.InvalidRunspacePoolState)
            cur, valid = (c.state, OPENED) if cur is None else (None, ())
        if ci not in c.calls:
            reasons.append(KeyError)
        elif kind == "bad":
            reasons.append(ArithmeticError)
        if reasons:
            return self.refuse("answer a host call", fn, tuple(reasons), cur, valid)
        self.accept("host response", fn)
        method, pid = c.calls.pop(ci)
        self.done_calls.append(ci)

        def check(doc):
            need(val(doc, "ci") == ci, "the answer to call %d was sent with id %s", ci, val(doc, "ci"))
            need(val(doc, "mi") == METHOD_CODE[method], "the answer for %s was sent as for method %s", method,
                 val(doc, "mi"))
            if value is None:
                need(not has_field(doc, "mr") or field(doc, "mr")[0] == "Nil", "an answer without a value was sent "
                     "with %s", field(doc, "mr"))
            else:
                got = val(doc, "mr")
                need(got == (u16(value) if isinstance(value, str) else value), "the answer %a was sent as %a", value,
                     got)
            if error is None:
                need(not has_field(doc, "me") or field(doc, "me")[0] == "Nil", "an answer without an error was sent "
                     "with one")
            else:
                need(err_text(field(doc, "me")) == text, "the error was sent as %a", field(doc, "me"))

        def recv(ev):
            need(ev.ci == ci, "the answer to call %d was reported with id %s", ci, ev.ci)
            need(ev.method_identifier == HM[method], "the answer for %s was reported for %s", method,
                 ev.method_identifier)
            need((ev.result is None) == (value is None), "the answer %a was reported as %a", value, ev.result)
            if value is not None:
                need(u16(ev.result) == u16(value) if isinstance(value, str) else ev.result == value,
                     "the answer %a was reported as %a", value, ev.result)
            need((ev.error is None) == (error is None), "the error of the answer was reported as %r", ev.error)
            if error is not None:
                need(u16(ev.error.Exception.Message) == u16(text), "the error %a was reported as %a", text,
                     ev.error.Exception.Message)

        self.q(c, "RunspacePoolHostResponse" if pid is None else "PipelineHostResponse", pid, check, recv)
        self.m.count("host_responses")

    # -- pipelines: the client's side

    def gen_p_new(self, t):
        pid = gen_uuid(t)
        while pid in self.known:
            pid = gen_uuid(t)
        return (pid, t.weighted([(4, "ps"), (1, "meta")]), self.text(t), t.bool(9, 10))

    def do_p_new(self, pid, kind, text, both):
        """A pipeline on the client, and usually the server's counterpart (which the transport would ask for)."""
        c = self.c
        if len(c.pipes) >= self.max_pipes or pid in self.known:
            return "skipped"
        self.known.append(pid)
        if kind == "ps":
            real = psrpcore.ClientPowerShell(c.real, pipeline_id=pid)
            real.add_script(text)
        else:
            real = psrpcore.ClientGetCommandMetadata(c.real, text, pipeline_id=pid)
        c.pipes[pid] = NS(real=real, pid=pid, state=PS.NotStarted, kind=kind, text=text)
        if both:
            self.do_q_new(pid)

    def pick_pipe(self, t, side):
        pids = [p for p in self.known if p in side.pipes]
        return t.pick(pids) if pids else None

    def gen_p(self, t):
        return (self.pick_pipe(t, self.c),)

    gen_p_start = gen_p_eof = gen_p_stop = gen_p_close = gen_p

    def do_p_start(self, pid):
        if pid is None:
            return "skipped"
        c, s, p = self.c, self.s, self.c.pipes[pid]
        if p.state not in PIPE_OK_START:
            return self.refuse("start a client pipeline", p.real.start, psrpcore.InvalidPipelineState, p.state,
                               PIPE_OK_START)
        self.accept("start", p.real.start)
        p.state = PS.Running

        def fails():
            return None if pid in s.pipes else psrpcore.PSRPCoreError

        def recv(ev):
            need(fp(s.pipes[pid].real.metadata) == fp(ev.pipeline),
                 "the server pipeline's definition is not the one of the event")
            d = ev.pipeline
            if p.kind == "ps":
                need([u16(x.command_text) for x in d.commands] == [u16(p.text)], "command %a arrived as %a", p.text,
                     [x.command_text for x in d.commands])
            else:
                need([u16(x) for x in d.name] == [u16(p.text)], "name %a arrived as %a", p.text, d.name)

        self.q(c, "CreatePipeline" if p.kind == "ps" else "GetCommandMetadata", pid, None, recv, fails)

    def gen_p_send(self, t):
        return (self.pick_pipe(t, self.c), self._gen_data(t))

    def _gen_data(self, t):
        k = t.draw(12)
        if k < 7:
            return self.text(t)
        if k == 7:
            return None
        if k == 8:
            return self.n
        if k == 9:
            return [self.text(t), self.n]
        if k == 10:
            return self.text(t) * t.pick([10, 100, 1000])
        return ("bad",)

    def _data(self, type_, side, pid, data):
        def check(doc):
            if data is None:
                need(doc is None or doc[0] == "Nil", "nothing was sent as %s", doc)
            elif isinstance(data, str):
                need(doc == ("S", u16(data)), "%a was sent as %a", data[:60], doc)

        def recv(ev):
            got = ev.data
            if isinstance(data, list):
                need(isinstance(got, list) and len(got) == 2 and u16(got[0]) == u16(data[0]) and got[1] == data[1],
                     "%a arrived as %a", data, got)
            elif isinstance(data, str):
                need(isinstance(got, str) and u16(got) == u16(data), "%a arrived as %a", data[:60], got)
            else:
                need(got == data and type(got) is not str, "%a arrived as %a", data, got)

        self.q(side, type_, pid, check, recv)

    def do_p_send(self, pid, data):
        if pid is None:
            return "skipped"
        p = self.c.pipes[pid]
        bad = data == ("bad",)
        fn = lambda: p.real.send(Unserializable() if bad else data)  # noqa: E731
        if p.state != PS.Running:
            return self.refuse("send input", fn, psrpcore.InvalidPipelineState, p.state, RUNNING)
        if bad:
            return self.refuse("send input that cannot be serialized", fn, ArithmeticError)
        self.accept("send", fn)
        self._data("PipelineInput", self.c, pid, data)

    def do_p_eof(self, pid):
        if pid is None:
            return "skipped"
        p = self.c.pipes[pid]
        if p.state != PS.Running:
            return self.refuse("send eof", p.real.send_eof, psrpcore.InvalidPipelineState, p.state, RUNNING)
        self.accept("eof", p.real.send_eof)
        self.q(self.c, "EndOfPipelineInput", pid)

    def do_p_stop(self, pid):
        if pid is None:
            return "skipped"
        p = self.c.pipes[pid]
        valid = {PS.Running, PS.Stopping}
        if p.state not in valid:
            return self.refuse("client begin_stop", p.real.begin_stop, psrpcore.InvalidPipelineState, p.state, valid)
        self.accept("begin_stop", p.real.begin_stop)
        p.state = PS.Stopping

    def _pclose(self, side, pid, who):
        if pid is None:
            return "skipped"
        p = side.pipes[pid]
        if p.state not in PIPE_OK_CLOSE:
            return self.refuse(who + " close", p.real.close, psrpcore.InvalidPipelineState, p.state, PIPE_OK_CLOSE)
        self.accept(who + " close", p.real.close)
        del side.pipes[pid]

    def do_p_close(self, pid):
        return self._pclose(self.c, pid, "client pipeline")

    # -- pipelines: the server's side

    def gen_q_new(self, t):
        miss = [p for p in self.known if p not in self.s.pipes]
        return (t.pick(miss) if miss and t.bool(1, 3) else None,)

    def do_q_new(self, pid):
        s = self.s
        if pid is None or pid in s.pipes:
            return "skipped"
        s.pipes[pid] = NS(real=psrpcore.ServerPipeline(s.real, pid), pid=pid, state=PS.NotStarted)

    def gen_q(self, t):
        return (self.pick_pipe(t, self.s),)

    gen_q_start = gen_q_begin_stop = gen_q_stop = gen_q_complete = gen_q_close = gen_q

    def do_q_start(self, pid):
        if pid is None:
            return "skipped"
        p = self.s.pipes[pid]
        if p.state not in PIPE_OK_START:
            return self.refuse("start a server pipeline", p.real.start, psrpcore.InvalidPipelineState, p.state,
                               PIPE_OK_START)
        self.accept("start", p.real.start)
        self.p_state(p, PS.Running)

    def do_q_begin_stop(self, pid):
        if pid is None:
            return "skipped"
        p = self.s.pipes[pid]
        valid = {PS.Running, PS.Stopping}
        if p.state not in valid:
            return self.refuse("server begin_stop", p.real.begin_stop, psrpcore.InvalidPipelineState, p.state, valid)
        self.accept("begin_stop", p.real.begin_stop)
        self.p_state(p, PS.Stopping)

    def do_q_stop(self, pid):
        if pid is None:
            return "skipped"
        p = self.s.pipes[pid]
        if p.state == PS.Stopped:
            return self.accept("stop again", p.real.stop)
        valid = {PS.Running, PS.Stopping}
        if p.state not in valid:
            return self.refuse("stop", p.real.stop, psrpcore.InvalidPipelineState, p.state, valid)
        self.accept("stop", p.real.stop)
        self.p_state(p, PS.Stopped, stopped=True)

    def do_q_complete(self, pid):
        if pid is None:
            return "skipped"
        p = self.s.pipes[pid]
        self.accept("complete", p.real.complete)
        self.p_state(p, PS.Completed)

    def do_q_close(self, pid):
        return self._pclose(self.s, pid, "server pipeline")

    def gen_q_report(self, t):
        st = t.weighted([(6, "Failed"), (2, "Disconnected"), (1, "NotStarted"), (1, "Running"), (1, "Stopping"),
                         (1, "Stopped"), (1, "Completed")])
        return (self.pick_pipe(t, self.s), st, self.text(t) if t.bool(2, 3) else None)

    def do_q_report(self, pid, name, text):
        """Another server says what became of its pipeline (this library's own server never says that one failed)."""
        if pid is None:
            return "skipped"
        s, c, st = self.s, self.c, PS[name]
        if s.state != RS.Opened:
            return "skipped"
        msg = T.PipelineState(PipelineState=PS_CODE[name])
        if text is not None:
            msg.ExceptionAsErrorRecord = err_record(text)
        self.accept("report", lambda: s.real.prepare_message(msg, pipeline_id=pid))

        def recv(ev):
            need(ev.state == st, "announced pipeline state %s was reported as %s", st, ev.state)
            if text is None:
                need(ev.reason is None, "pipeline state %s reported with the reason %r", st, ev.reason)
            else:
                need(ev.reason is not None and u16(ev.reason.Exception.Message) == u16(text) and
                     u16(ev.reason.FullyQualifiedErrorId) == u16("id" + text),
                     "the reason of the failed pipeline was reported as %r", ev.reason)
            c.pipes[pid].state = st

        def fails():
            return None if pid in c.pipes else Exception

        self.q(s, "PipelineState", pid, None, recv, fails, tag=name)
        self.m.count("reports")

    def gen_s_report(self, t):
        return (t.pick(["Opened", "Opened", "Closed", "Broken", "Closing", "Opening"]),
                self.text(t) if t.bool() else None)

    def do_s_report(self, name, text):
        """Another server says what became of its pool."""
        s, c, st = self.s, self.c, RS[name]
        if s.state != RS.Opened:
            return "skipped"
        msg = T.RunspacePoolStateMsg(RunspaceState=RS_CODE[name])
        if text is not None:
            msg.ExceptionAsErrorRecord = err_record(text)
        self.accept("report", lambda: s.real.prepare_message(msg))

        def recv(ev):
            need(ev.state == st, "announced state %s was reported as %s", st, ev.state)
            need((ev.reason is None) == (text is None), "state %s reported with the reason %r", st, ev.reason)
            if text is not None:
                need(u16(ev.reason.Exception.Message) == u16(text), "the reason of the pool's state was reported as %r",
                     ev.reason)
            c.state = st

        self.q(s, "RunspacePoolState", None, None, recv, tag=name)
        self.m.count("reports")

    def gen_q_write(self, t):
        return (self.pick_pipe(t, self.s), t.pick(["output", "output", "output", "error", "debug", "verbose",
                                                   "warning", "progress", "information"]), self._gen_data(t))

    def do_q_write(self, pid, kind, data):
        if pid is None:
            return "skipped"
        s, p = self.s, self.s.pipes[pid]
        r = p.real
        bad = data == ("bad",)
        text = data if isinstance(data, str) else "text %r" % (data,)
        obj = Unserializable() if bad else data
        if kind == "output":
            fn = lambda: r.write_output(obj)  # noqa: E731
        elif kind == "error":
            fn = lambda: r.write_error(T.NETException(Message=text), target_object=obj)  # noqa: E731
        elif kind == "progress":
            bad = False
            fn = lambda: r.write_progress(text, 3, "status")  # noqa: E731
        elif kind == "information":
            fn = lambda: r.write_information(obj, "src", time_generated=T.PSDateTime(2020, 1, 1), user="u",  # noqa
                                             computer="c", process_id=1, native_thread_id=2, managed_thread_id=3)
        else:
            bad = False
            fn = lambda: getattr(r, "write_" + kind)(text)  # noqa: E731
        old = kind == "information" and (s.their or (2, 0)) < (2, 3)
        if old or p.state != PS.Running:
            exc = tuple(e for e, y in ((psrpcore.InvalidProtocolVersion, old),
                                       (psrpcore.InvalidPipelineState, p.state != PS.Running)) if y)
            return self.refuse("write " + kind, fn, exc, p.state, RUNNING)
        if bad:
            return self.refuse("write %s that cannot be serialized" % kind, fn, ArithmeticError)
        self.accept("write " + kind, fn)
        if kind == "output":
            return self._data("PipelineOutput", s, pid, data)

        def check(doc):
            if kind == "error":
                need(err_text(doc) == text, "error %a was sent as %a", text, err_text(doc))
            elif kind == "progress":
                need(sval(doc, "Activity") == text, "activity sent as %a", sval(doc, "Activity"))
            elif kind == "information":
                if isinstance(data, str):
                    need(sval(doc, "MessageData") == data, "information sent as %a", field(doc, "MessageData"))
            else:
                need(sval(doc, "InformationalRecord_Message") == text, "%s message sent as %a", kind,
                     sval(doc, "InformationalRecord_Message"))

        def recv(ev):
            rec = ev.record
            if kind == "error":
                got = rec.Exception.Message
            elif kind == "progress":
                got = rec.Activity
            elif kind == "information":
                if not isinstance(data, str):
                    return
                need(u16(rec.MessageData) == u16(data), "information %a reported as %a", data, rec.MessageData)
                return
            else:
                got = rec.Message
            need(u16(got) == u16(text), "%s record %a reported as %a", kind, text[:60], got)

        self.q(s, {"error": "ErrorRecord", "debug": "DebugRecord", "verbose": "VerboseRecord",
                   "warning": "WarningRecord", "progress": "ProgressRecord",
                   "information": "InformationRecord"}[kind], pid, check, recv)

    def gen_q_value(self, t):
        return (self.pick_pipe(t, self.s), V.gen_value(t, t.pick([3, 10, 30])))

    def gen_p_value(self, t):
        return (self.pick_pipe(t, self.c), V.gen_value(t, t.pick([3, 10, 30])))

    def _value(self, side, pid, node, call, type_):
        p = side.pipes[pid]
        fn = lambda: getattr(p.real, call)(V.build(node))  # noqa: E731
        if p.state != PS.Running:
            return self.refuse(call, fn, psrpcore.InvalidPipelineState, p.state, RUNNING)
        self.accept(call, fn)

        def check(doc):
            if doc is None:
                need(node.kind == "nil", "%s was sent as nothing", V.show(node))
                return
            bad = V.diff(V.canon(node), doc)
            need(bad is None, "sent value differs: %s", bad)

        def recv(ev):
            V.same(node, ev.data)
            self.m.count("values")

        self.q(side, type_, pid, check, recv)

    def do_q_value(self, pid, node):
        if pid is None:
            return "skipped"
        return self._value(self.s, pid, node, "write_output", "PipelineOutput")

    def do_p_value(self, pid, node):
        if pid is None:
            return "skipped"
        return self._value(self.c, pid, node, "send", "PipelineInput")

    def gen_q_call(self, t):
        return self._gen_call(t, self.pick_pipe(t, self.s))

    def do_q_call(self, pid, method, param):
        if pid is None:
            return "skipped"
        return self.do_s_call(pid, method, param)

    # -- calls that are refused whatever the state

    BAD = ["output", "error", "information", "event", "call", "pcall", "broken", "input", "secure", "limit", "limit2",
           "answer", "answer2", "respond", "max", "min", "empty", "param", "scope", "redirect", "raw", "pipe_input"]

    def gen_bad(self, t):
        return (t.pick(self.BAD), self.pick_pipe(t, self.s), self.pick_pipe(t, self.c), t.draw(4))

    def do_bad(self, kind, spid, cpid, deep):
        """A call with an argument that cannot be accepted (and perhaps in a state in which it is refused anyway)."""
        c, s = self.c, self.s
        obj = Unserializable()
        if deep:
            shared = T.PSCustomObject(a=1)
            obj = [shared, {"k": [shared, "text" * 10, [obj] if deep > 1 else obj]}, shared]
        q = s.pipes[spid].real if spid in s.pipes else None
        p = c.pipes[cpid].real if cpid in c.pipes else None
        if kind in ("output", "error", "information", "pcall") and q is None or (
                kind in ("input", "secure", "pipe_input", "raw") and p is None):
            return "skipped"
        fn = {
            "output": lambda: q.write_output(obj),
            "error": lambda: q.write_error(T.NETException(Message="m"), target_object=obj),
            "information": lambda: q.write_information(obj, "src"),
            "event": lambda: s.real.send_event(1, "src", sender=obj),
            "call": lambda: s.real.host_call(HM.ReadLine if deep % 2 else HM.WriteLine2, [obj]),
            "pcall": lambda: q.host_call(HM.ReadLine if deep % 2 else HM.WriteLine2, [obj]),
            "broken": lambda: s.real.set_broken(T.ErrorRecord(
                Exception=T.NETException(Message="m"), CategoryInfo=T.ErrorCategoryInfo(), TargetObject=obj)),
            "input": lambda: p.send(obj),
            "secure": lambda: p.send([T.PSCustomObject(a=1), T.PSSecureString("secret")]),
            "limit": lambda: c.real.data_to_send(21 - 7 * deep),
            "limit2": lambda: s.real.data_to_send(21 - 7 * deep),
            "answer": lambda: s.real.runspace_availability_response(-5 - deep, True),
            "answer2": lambda: s.real.runspace_availability_response(min(s.reqs, default=10**9), "yes"),
            "respond": lambda: c.real.host_response(min(c.calls, default=10**9), obj),
            "max": lambda: c.real.set_max_runspaces((1 << 31) + deep),
            "min": lambda: c.real.set_min_runspaces(-(1 << 31) - 1 - deep),
            "raw": lambda: p.prepare_message(obj),
            "pipe_input": lambda: c.real.prepare_message(T.PSCustomObject(a=deep)),
        }.get(kind)
        if kind == "secure" and (c.key or c.key_requested):
            return "skipped"
        if kind in ("max", "min") and c.state == RS.BeforeOpen:
            return "skipped"
        if kind in ("empty", "param", "scope", "redirect"):
            # on a pipeline of its own that leaves the pool again
            x = psrpcore.ClientPowerShell(c.real, pipeline_id=_SCRATCH)
            if kind != "empty" and kind != "param":
                x.add_command("cmd")
            before = fp(x.metadata)
            fn = {"empty": x.start, "param": lambda: x.add_parameter("a", 1),
                  "scope": lambda: x.add_command(psrpcore.Command("x"), use_local_scope=True),
                  "redirect": lambda: x.metadata.commands[0].redirect_all(T.PipelineResultTypes.Warning)}[kind]
            out = self.refuse("bad " + kind, fn, (ValueError, TypeError))
            need(fp(x.metadata) == before, "the refused call changed the pipeline: %s", fp(x.metadata))
            need(x.state == PS.NotStarted, "the refused call changed the state to %s", x.state)
            x.close()
            return out
        return self.refuse("bad " + kind, fn, Exception)

    # -- comparing

    def audit(self):
        for who, x in (("client", self.c), ("server", self.s)):
            r = x.real
            need(r.state == x.state, "%s%s pool is in state %s instead of %s", self.name, who, r.state, x.state)
            need((r.min_runspaces, r.max_runspaces) == (x.min, x.max), "%s%s limits are %s, %s instead of %s, %s",
                 self.name, who, r.min_runspaces, r.max_runspaces, x.min, x.max)
            need(r.runspace_pool_id == x.rpid, "%s pool id is %s", who, r.runspace_pool_id)
            need(list(r.pipeline_table) == list(x.pipes) or set(r.pipeline_table) == set(x.pipes),
                 "%s%s pipelines are %s instead of %s", self.name, who, sorted(map(str, r.pipeline_table)),
                 sorted(map(str, x.pipes)))
            their = None if r.their_capability is None else version(r.their_capability.protocolversion)
            need(their == x.their, "%s knows the peer's version as %s instead of %s", who, their, x.their)
            for pid, p in x.pipes.items():
                q = r.pipeline_table[pid]
                need(q is p.real, "%s pipeline %s is another object", who, pid)
                need(q.state == p.state, "%s%s pipeline %s is in state %s instead of %s", self.name, who, pid,
                     q.state, p.state)
                need(q.pipeline_id == pid and q.runspace_pool is r, "%s pipeline %s changed its identity", who, pid)
        self.m.count("audits")

    def observe(self):
        c, s = self.c, self.s
        self.m.seen("pool state pairs", (c.state.name, s.state.name))
        for pid in self.known:
            a, b = c.pipes.get(pid), s.pipes.get(pid)
            self.m.seen("pipeline state pairs", (a and a.state.name, b and b.state.name))

    def gone(self, op, args):
        """Operations of a pipeline that is closed on that side are left out."""
        if op[:2] in ("p_", "q_") and op not in ("p_new", "q_new"):
            side = self.c if op[0] == "p" else self.s
            return args[0] is not None and args[0] not in side.pipes
        if op == "c_respond":
            return args[1] is not None and args[1] not in self.c.pipes
        return op == "s_call" and args[0] is not None and args[0] not in self.s.pipes

    def do(self, op, *args):
        if self.gone(op, args):
            return "skipped"
        self.m.log("%s%s%s", self.name, op, args)
        self.history.append((op, args))
        self.refused_now = False
        out = getattr(self, "do_" + op)(*args)
        if out in (None, "refused", "rejected"):
            self.audit()
            self.observe()
        return out

    def step(self, t, op):
        if op == "send":
            i, limit = self.gen_send(t)
            ln = self.links()[i]
            if ln.expect or ln.defrag.open:
                self.m.log("%ssend %d limit %s", self.name, i, limit)
            if not ln.send(limit, self.pieces(t)):
                need(not ln.expect, "%s: nothing is handed out for sending although %s is queued", ln.name,
                     ln.expect[0].type if ln.expect else "")
                need(not ln.defrag.open, "%s: the rest of a message is never handed out", ln.name)
            return None
        return self.do(op, *getattr(self, "gen_" + op)(t))

    def settle(self, t=None, limit=4000):
        """Move everything until both sides are quiet."""
        for _ in range(limit):
            busy = False
            for i, ln in enumerate(self.links()):
                while ln.send(gen_limit(t, [60, 200, 450]) if t is not None and t.bool(1, 3) else None,
                              self.pieces(t) if t is not None and t.bool(1, 3) else None):
                    busy = True
                while self.do_deliver(i, 1) is None:
                    busy = True
                while True:
                    got = self.do_poll(i)
                    if got == "idle":
                        break
                    busy = True
                    self.audit()
            if not busy:
                break
        else:
            raise Violation("the session never becomes quiet")
        for ln in self.links():
            need(not ln.expect, "%s: %s was queued but is never sent", ln.name, [e.type for e in ln.expect])
            need(not ln.defrag.open and not ln.sent, "%s: messages were sent but never arrive", ln.name)
        self.audit()
        self.observe()

    def open(self, t=None):
        self.do("c_open")
        self.settle(t)
        need(self.c.real.state == RS.Opened and self.s.real.state == RS.Opened, "opening ends in %s / %s",
             self.c.real.state, self.s.real.state)


TRANSPORT = [("send", 10), ("deliver", 8), ("poll", 10)]


def run_history(w, t, mix, steps, settle_every=25):
    """Random operations with the given weights, transport in between, everything settled now and then."""
    pairs = [(wt, op) for op, wt in TRANSPORT + mix]
    for i in range(steps):
        w.step(t, t.weighted(pairs))
        if t.bool(1, settle_every):
            w.settle(t)
    w.settle(t)


def sequences(make, ops, depth, part, parts, m, settle, begin=None, reuse=1):
    """Every sequence of the operations of that length (this part of them).

    Each runs in a fresh world, or, when it concerns things of its own only, in one used for several sequences before:
    begin(world) then makes the things and an operation is a function of them.
    """
    import itertools

    n = 0
    w = None
    for i, seq in enumerate(itertools.product(ops, repeat=depth)):
        if i % parts != part:
            continue
        if w is None or n % reuse == 0:
            w = make()
            m.start_trace()
        mark = len(m.trace())
        ctx = begin(w) if begin else None
        for op in seq:
            if callable(op):
                op = op(ctx)
            w.do(*op) if isinstance(op, tuple) else w.do(op)
            if settle:
                w.settle()
        w.settle()
        del m.trace()[mark:]
        n += 1
    m.count("enumerated_sequences", n)


# ---- sessions with a long past ---------------------------------------------------------------------------------------

AGES = ["calls", "open calls", "requests", "open requests", "pipelines", "open pipelines", "messages", "restarts",
        "reconnects", "refusals"]
SPANS = [10, 17, 33, 40, 65, 70, 130, 260, 300]


def age(w, t, kind=None, n=None):
    """Much of the same in an open session, so that whatever counts or keeps something has gone beyond its small range.

    "open" means that all of it is outstanding at the same time.
    """
    kind = kind or t.pick(AGES)
    n = n or t.pick(SPANS)
    w.m.count("aged")
    w.m.seen("ages", (kind, n))
    if w.c.state != RS.Opened or w.s.state != RS.Opened:
        return
    if not w.s.pipes or kind in ("messages", "calls", "open calls"):
        pid = _fresh_pipe(w, True)
    if kind == "calls":
        for i in range(n):
            where = pid if t.bool() else None
            w.do("s_call", where, "ReadLine", None)
            ci = w.s.last_ci
            w.settle()
            w.do("c_respond", ci, where if t.bool() else None, t.pick(["value", "value", "error", "nothing"]),
                 "t%d" % i, False)
            w.settle()
    elif kind == "open calls":
        made = []
        for _ in range(n):
            where = pid if t.bool() else None
            w.do("s_call", where, t.pick(["ReadLine", "GetName"]), None)
            made.append((w.s.last_ci, where))
        w.settle()
        for ci, where in order(t, made):
            w.do("c_respond", ci, where if t.bool() else None, "value", "t%d" % ci, t.bool(1, 4))
        w.settle()
    elif kind == "requests":
        for i in range(n):
            op = t.pick(["c_set_max", "c_set_max", "c_set_min", "c_get_avail", "c_reset"])
            args = ()
            if op.startswith("c_set"):
                have = w.c.max if op == "c_set_max" else w.c.min
                args = (t.pick([have, have + 1, 200 + t.draw(400), 10**6 + i]),)
            known = set(w.c.reqs)
            w.do(op, *args)
            new = set(w.c.reqs) - known
            w.settle()
            for ci in new:
                w.do("s_answer", ci, 300 + i if w.s.reqs[ci][0] == "get" else t.bool(3, 4))
                w.settle()
                if args and t.bool():
                    w.do(op, *args)
                    for again in set(w.c.reqs) - known:
                        w.settle()
                        w.do("s_answer", again, True)
                        w.settle()
    elif kind == "open requests":
        first = set(w.c.reqs)
        for i in range(n):
            op = t.pick(["c_set_max", "c_set_min", "c_get_avail", "c_reset"])
            w.do(op, *((1000 + i,) if op.startswith("c_set") else ()))
        w.settle()
        for ci in order(t, sorted(set(w.c.reqs) - first)):
            w.do("s_answer", ci, 300 + ci if w.s.reqs[ci][0] == "get" else t.bool(3, 4))
        w.settle()
    elif kind == "pipelines":
        for i in range(n):
            pid = _fresh_pipe(w, True)
            w.do("q_write", pid, "output", "t%d" % i)
            w.do(t.pick(["q_complete", "q_stop"]), pid)
            w.settle()
            w.do("p_close", pid)
            w.do("q_close", pid)
    elif kind == "open pipelines":
        made = [_fresh_pipe(w, False) for _ in range(n)]
        w.settle()
        for pid in order(t, made):
            w.do("q_start", pid)
            w.do("q_write", pid, "output", str(pid))
            w.do("p_send", pid, str(pid))
        w.settle()
        for pid in order(t, made):
            w.do(t.pick(["q_complete", "q_stop"]), pid)
        w.settle()
        for pid in order(t, made)[t.draw(3):]:
            w.do("p_close", pid)
            w.do("q_close", pid)
    elif kind == "messages":
        every = t.pick([1, 7, n])
        for i in range(n):
            w.do("q_write", pid, t.pick(["output", "output", "verbose", "error", "progress"]), "t%d" % i)
            w.do("p_send", pid, "u%d" % i)
            if i % every == 0:
                w.settle()
        w.settle()
    elif kind == "restarts":
        pid = _fresh_pipe(w, True)
        for i in range(n):
            w.do("q_write", pid, "output", "t%d" % i)
            w.do(t.pick(["q_complete", "q_stop"]), pid)
            w.settle()
            w.do("p_start", pid)
            w.settle()
            w.do("q_start", pid)
            w.settle()
    elif kind == "reconnects":
        for i in range(n):
            w.do("c_disconnect")
            w.do("s_disconnect")
            w.do("s_reconnect")
            w.do("c_reconnect")
            w.settle()
    elif kind == "refusals":
        for i in range(n):
            w.do("c_respond", 10**6 + i, None, "value", "x", False)
            w.do("s_answer", 10**6 + i, True)
            w.do("p_send", sorted(w.c.pipes)[0] if w.c.pipes else None, ("bad",))
        w.settle()


def order(t, items):
    items = list(items)
    return t.pick([lambda: items, lambda: items[::-1], lambda: t.shuffle(items)])()


def _fresh_pipe(w, start):
    """A pipeline that was started on the client and has its counterpart on the server (which has started it too)."""
    most, w.max_pipes = w.max_pipes, 10**6
    pid = uuid.UUID(int=(1 << 100) + len(w.known))
    w.do("p_new", pid, "ps", "script %d" % len(w.known), True)
    w.do("p_start", pid)
    w.max_pipes = most
    if start:
        w.settle()
        w.do("q_start", pid)
        w.settle()
    return pid


def aged_units(kinds, sizes, then=None, make=None):
    """One unit for each kind of past and each length of it; what follows is the property's own history."""
    from .tape import Tape

    def unit(kind, n):
        n = min(n, 520) if kind == "open pipelines" else n

        def run(m):
            for seed in range(2 if n < 200 else 1):
                t = Tape(seed=seed * 31 + n)
                w = (make or World)(t, m, max_pipes=10**6, versions=((2, 3), (2, 3)))
                w.open()
                age(w, t, kind, n)
                if then:
                    then(w, t)
                w.settle(t)
                m.case((kind, n, seed))
        return run

    return [("aged %s %d" % (k, n), unit(k, n)) for k in kinds for n in sizes]
