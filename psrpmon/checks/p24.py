"""P24: a session keeps nothing of what is over.

One round of traffic is drawn: pipelines that are created, fed, answered and closed, requests and host calls with their
answers, records, events, key exchange, refused calls, messages that are rejected, disconnections.  At the end of a
round nothing is open: everything queued was delivered and polled, every request and call was answered, every pipeline
was closed on both sides.  The round is executed again and again on the same session, each time with other texts, type
names, property names, ids and values.  After every round the objects that can be reached from the two pools, and from
the globals of the library, are counted; and the objects that were handed to or received from the library and dropped
by the user have to be gone.
"""

import gc
import sys
import types as pytypes
import uuid
import weakref
from .. import env, keys
from ..mon import need
from ..wire import MSG, pack_fragment, pack_message
from ..world import Pair, gen_limit, gen_uuid

import psrpcore
from psrpcore import types as T

PROP = "P24"
LEVEL = "exploration"
RULE = ("distinct rounds of traffic that were repeated on one session with the objects reachable from both pools and "
        "from the library's globals counted after each, and every dropped object watched by a weak reference")
ASSUMPTIONS = ["a round is closed: all messages delivered and polled, requests and host calls answered, its pipelines "
               "closed on both sides (one pipeline may stay open, its metadata and state are not over)",
               "objects of a fixed number (and up to 4 KB) may be kept: only growth with the number of rounds counts",
               "the peers' clocks, the interpreter's own caches and the standard library's caches are not counted"]
CASES = {"quick": 700, "thorough": 40000}
TIME = {"quick": 60, "thorough": 800}
REQUIRE = ["rounds", "measurements", "dropped objects", "pipelines", "host calls", "requests", "records", "rejected",
           "refused", "reconnects", "connects", "keys", "sessions gone", "user types",
           "streamed"]

HM = T.HostMethodIdentifier
ROUNDS = 11
FIRST = 3  # the first rounds may fill caches of a fixed size
OBJECTS = 6
BYTES = 4096
HIGH = 1 << 40  # object ids of the messages the peer has no part in


def setup():
    keys.stock(16)
    gc.collect()
    gc.freeze()


# ---- measuring ------------------------------------------------------------------------------------------------------

STOP = (type, pytypes.ModuleType, pytypes.FunctionType, pytypes.BuiltinFunctionType, pytypes.CodeType,
        pytypes.FrameType, pytypes.MethodDescriptorType, pytypes.WrapperDescriptorType, pytypes.GetSetDescriptorType)


def reach(*roots):
    """(number, bytes) of what is reachable from pools, without the code."""
    seen = {}
    todo = list(roots)
    size = 0
    while todo:
        o = todo.pop()
        if id(o) in seen or isinstance(o, STOP):
            continue
        seen[id(o)] = o
        size += sys.getsizeof(o)
        todo.extend(gc.get_referents(o))
    return len(seen), size


def library():
    """(number, bytes) of what is reachable from the modules and classes of the library."""
    seen = {}
    todo = [vars(m) for n, m in list(sys.modules.items()) if n.split(".")[0] == "psrpcore" and m is not None]
    size = 0
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        if isinstance(o, pytypes.ModuleType):
            continue
        if isinstance(o, type):
            if (getattr(o, "__module__", "") or "").split(".")[0] != "psrpcore":
                continue
        elif isinstance(o, pytypes.FunctionType):
            if (o.__module__ or "").split(".")[0] != "psrpcore":
                continue
            seen[id(o)] = o
            todo.extend(x for x in (o.__defaults__, o.__kwdefaults__, o.__closure__, o.__dict__) if x)
            continue
        elif isinstance(o, (pytypes.CodeType, pytypes.FrameType, pytypes.BuiltinFunctionType)):
            continue
        elif type(o).__module__ in ("logging", "typing", "re", "cryptography", "enum", "abc", "_abc") or \
                type(o).__name__ in ("_abc_data", "Pattern", "Logger"):
            continue
        seen[id(o)] = o
        size += sys.getsizeof(o)
        todo.extend(gc.get_referents(o))
    return len(seen), size


class Watch:
    """Objects that nobody but the library could still hold."""

    def __init__(self):
        self.refs = []

    def add(self, o, what):
        try:
            self.refs.append((weakref.ref(o), what))
        except TypeError:
            pass
        return o


# ---- one round ------------------------------------------------------------------------------------------------------


class Custom:
    """A type of the user's own."""

    def __init__(self, i):
        self.number = i
        self.text = "custom %d" % i


class Round:
    def __init__(self, pair, i, m, w, limit, piece):
        self.pair, self.i, self.m, self.w, self.limit, self.piece = pair, i, m, w, limit, piece
        self.c, self.s = pair.client, pair.server
        self.n = 0
        self.started = []
        self.inbox = []

    def text(self):
        self.n += 1
        return "round %d text %d" % (self.i, self.n)

    def value(self, kind):
        i, t = self.i, self.text()
        if kind == 0:
            return T.PSString(t)
        if kind == 1:
            o = T.PSCustomObject(**{"a": t, "p%d_%d" % (i, self.n): i})
        elif kind == 2:
            o = T.PSList([t, i, T.PSCustomObject(x=t)])
        elif kind == 3:
            o = T.PSDict({t: i, "k": [t]})
        elif kind == 4:
            o = T.PSCustomObject(PSTypeName="Type.R%d.N%d" % (i, self.n), v=t)
        elif kind == 5:
            o = Custom(i)
        elif kind == 6:
            o = T.PSString(t)
            o.PSObject.extended_properties.append(T.PSNoteProperty("note%d" % i, T.PSInt(70000 + i)))
        elif kind == 7:
            o = T.PSCustomObject(a=t, me=None)
            o.me = o
        elif kind == 8:
            o = T.PSGuid(int=i * 1000 + self.n)
        elif kind == 9:
            o = T.PSCustomObject()
            o.PSObject.type_names = ["Made.Up.R%d" % i, "System.Object"]
            T.add_note_property(o, "n%d" % i, t)
        elif kind == 10:
            o = T.PSStack([t, t])
        else:
            cls = T.PSType(type_names=["User.T%d" % i], adapted_properties=[T.PSNoteProperty("x")])(
                type("User%d_%d" % (i, self.n), (T.PSObject,), {}))
            o = cls(x=t)
            self.m.count("user types")
        return self.w.add(o, "a value of kind %d" % kind)

    # -- transport

    def move(self):
        """Deliver and poll everything."""
        for _ in range(5000):
            busy = False
            for ln in self.pair.links():
                while ln.send(self.limit, self.cut):
                    busy = True
                while ln.deliver():
                    busy = True
                while True:
                    d, ev = ln.poll()
                    if ev is None:
                        break
                    busy = True
                    self.w.add(ev, type(ev).__name__)
                    self.on(ln is self.pair.c2s, ev)
                    d = ev = None
            if not busy:
                return
        need(False, "the two sides never become quiet")

    def cut(self, data):
        k = self.piece
        return [data] if k is None else [data[j : j + k] for j in range(0, len(data), k)]

    def on(self, at_server, ev):
        name = type(ev).__name__
        if name in ("CreatePipelineEvent", "GetCommandMetadataEvent"):
            pass
        if at_server and hasattr(type(ev), "ci") and name.startswith(("Set", "Get", "Reset")):
            self.m.count("requests")
            ok = self.answers.pop(0)
            if name == "GetAvailableRunspacesEvent":
                ok = self.i + 300
            self.s.runspace_availability_response(ev.ci, ok)
        elif not at_server and name.endswith("HostCallEvent") and ev.ci != -100:
            self.m.count("host calls")
            how = self.replies.pop(0)
            who = self.c
            if ev.pipeline_id and how & 4:
                who = self.c.pipeline_table[ev.pipeline_id]
            if how & 3 == 0:
                who.host_response(ev.ci, return_value=self.value(how >> 3))
            elif how & 3 == 1:
                who.host_response(ev.ci, error_record=self.error())
            elif how & 3 == 2:
                who.host_response(ev.ci)
            else:
                try:  # refused first, answered then
                    who.host_response(ev.ci, return_value=Bad())
                except ArithmeticError:
                    self.m.count("refused")
                who.host_response(ev.ci, return_value=self.text())

    answers = ()
    replies = ()
    kept = None

    def error(self):
        return self.w.add(T.ErrorRecord(Exception=T.NETException(Message=self.text()),
                                        CategoryInfo=T.ErrorCategoryInfo(Reason=self.text()),
                                        TargetObject=self.value(1)), "an error record")

    # -- the parts of a round

    def act_pipe(self, meta, script, inputs, eof, outs, calls, end, early, move):
        c, s = self.c, self.s
        self.m.count("pipelines")
        pid = uuid.UUID(int=(self.i << 32) + self.n + 1)
        if meta:
            p = psrpcore.ClientGetCommandMetadata(c, self.text(), pipeline_id=pid) if meta == 1 else \
                psrpcore.ClientGetCommandMetadata(c, self.text(), command_type=T.CommandTypes.Cmdlet,
                                                  arguments=[self.text()], pipeline_id=pid)
        else:
            p = psrpcore.ClientPowerShell(c, pipeline_id=pid)
            for k in script:
                if k == 0:
                    p.add_script(self.text())
                elif k == 1:
                    p.add_command(self.text()).add_argument(self.value(1)).add_parameter(self.text(), self.value(3))
                else:
                    p.add_statement().add_command(self.text())
            if not script:
                p.add_script("x")
        self.w.add(p, "a client pipeline")
        if end == "never":
            p.close()
            return
        q = self.w.add(psrpcore.ServerPipeline(s, pid), "a server pipeline")
        p.start()
        if move:
            self.move()
        for k in inputs:
            p.send(self.value(k))
        if eof:
            p.send_eof()
        self.move()
        q.start()
        self.write(q, outs)
        self.call(q, calls)
        if end == "complete":
            q.complete()
        elif end == "stop":
            p.begin_stop()
            q.begin_stop()
            q.stop()
        else:
            q.stop()
        if early:
            q.close()
        self.move()
        if not early:
            q.close()
        p.close()

    def write(self, q, outs):
        for k in outs:
            self.m.count("records")
            if k < 12:
                q.write_output(self.value(k))
            elif k == 12:
                q.write_error(T.NETException(Message=self.text()), target_object=self.value(1))
            elif k == 13:
                q.write_debug(self.text())
            elif k == 14:
                q.write_verbose(self.text())
            elif k == 15:
                q.write_warning(self.text())
            elif k == 16:
                q.write_progress(self.text(), self.i, self.text(), percent_complete=5)
            elif k == 17:
                q.write_information(self.value(1), self.text(), tags=[self.text()])
            elif k == 18:
                q.host_call(HM.WriteLine2, [self.text()])
            else:
                try:
                    q.write_output(Bad())
                except ArithmeticError:
                    self.m.count("refused")

    def call(self, q, calls):
        self.replies = list(calls)
        for k, how in enumerate(calls):
            q.host_call(HM.ReadLine if how % 2 else HM.GetName, [])
        self.move()

    def act_stream(self, inputs, outs, calls, again):
        """What goes through a pipeline that stays open."""
        p, q = self.kept
        for k in inputs:
            p.send(self.value(k))
        self.move()
        self.write(q, outs)
        self.call(q, calls)
        if again:
            q.complete()
            self.move()
            p.start()
            self.move()
            q.start()
            self.move()
        self.m.count("streamed", len(inputs) + len(outs))

    def act_request(self, what, ok):
        c = self.c
        self.answers = [ok] * 3
        if what == 0:
            c.get_available_runspaces()
        elif what == 1:
            c.set_max_runspaces(1000 + self.i)
        elif what == 2:
            c.set_min_runspaces(2000 + self.i)
        elif what == 3:
            c.reset_runspace_state()
        else:
            c.set_max_runspaces(5000 + self.i)
            c.set_min_runspaces(6000 + self.i)
        self.move()

    def act_call(self, hows, void):
        self.replies = list(hows)
        for how in hows:
            self.s.host_call(HM.ReadLine, [self.value(how >> 3)])
        if void:
            self.s.host_call(HM.WriteLine2, [self.text()])
        self.move()

    def act_event(self, kind):
        self.s.send_event(self.i, self.text(), sender=self.value(kind), source_args=[self.value(1)],
                          message_data=self.value(3))
        self.move()

    def act_key(self, from_client, secrets):
        (self.c.exchange_key if from_client else self.s.request_key)()
        self.move()
        for k in secrets:
            self.m.count("keys")
            self.s.send_event(1, "s", message_data=T.PSSecureString(self.text()))
        self.move()

    def act_refused(self, k):
        c, s = self.c, self.s
        calls = [
            lambda: c.data_to_send(21), lambda: s.runspace_availability_response(10**7 + self.i, True),
            lambda: c.host_response(10**7 + self.i, 1), lambda: s.connect() or s.connect(), lambda: c.open(),
            lambda: s.send_event(1, "x", sender=Bad()), lambda: s.host_call(HM.ReadLine, [Bad()]),
            lambda: c.set_max_runspaces((1 << 31) + self.i), lambda: c.set_min_runspaces(-(1 << 40) - self.i),
            lambda: c.prepare_message(T.PSCustomObject(x=self.text())),
            lambda: s.set_broken(T.ErrorRecord(Exception=Bad(), CategoryInfo=T.ErrorCategoryInfo())),
            lambda: self.bad_start(), lambda: T.serialize_clixml(Bad(), None),
            lambda: T.deserialize_clixml("<Objs><I32>%sx</I32></Objs>" % self.i, None),
            lambda: T.deserialize_clixml("<Objs><Ref RefId='%d' /></Objs>" % self.i, None),
        ]
        try:
            calls[k % len(calls)]()
        except Exception:
            self.m.count("refused")

    def bad_start(self):
        p = self.w.add(psrpcore.ClientPowerShell(self.c, pipeline_id=uuid.UUID(int=(self.i << 32) + 77)), "a pipeline")
        try:
            p.add_script("x").add_argument(Bad())
            p.start()
        finally:
            p.close()

    def act_reject(self, k, to_server):
        """A message that cannot be processed."""
        dst = self.s if to_server else self.c
        rpid = self.c.runspace_pool_id
        pid = uuid.UUID(int=(self.i << 32) + 99)
        types = ["PipelineInput", "CreatePipeline", "SetMaxRunspaces", "SessionCapability", "PublicKey"] if to_server \
            else ["PipelineOutput", "PipelineState", "RunspaceAvailability", "RunspacePoolHostCall", "UserEvent"]
        type_ = MSG[types[k % 5]]
        oid = HIGH + self.i
        body = ("<Obj RefId='0'><MS><I32 N='ci'>%d</I32><S N='x'>%s" % (self.i, self.text())).encode()
        good = pack_message(2 if to_server else 1, type_, rpid, pid, b"<S>" + self.text().encode() + b"</S>")
        n = k // 5 % 7
        if n == 0:  # not well formed
            data = pack_fragment(oid, 0, pack_message(2 if to_server else 1, type_, rpid, pid, body), True, True)
        elif n == 1:  # not a known message type
            data = pack_fragment(oid, 0, pack_message(1, 0x00090001, rpid, pid, body), True, True)
        elif n == 2:  # too short for a message
            data = pack_fragment(oid, 0, good[: 3 + k % 30], True, True)
        elif n == 3:  # the first fragment is missing
            data = pack_fragment(oid, 1, good, False, True)
        elif n == 4:  # in several fragments
            bad = pack_message(1, 0x00090001, rpid, pid, body)
            data = pack_fragment(oid, 0, bad[:20], True, False) + pack_fragment(oid, 1, bad[20:50], False, False) + \
                pack_fragment(oid, 2, bad[50:], False, True)
        elif n == 5:  # content of another kind
            data = pack_fragment(oid, 0, pack_message(2 if to_server else 1, MSG["CreatePipeline" if to_server
                                                      else "PipelineState"], rpid, pid, b"<S>x</S>"), True, True)
        else:  # not UTF-8
            data = pack_fragment(oid, 0, pack_message(2 if to_server else 1, type_, rpid, pid, b"\xff\xfe<S>"), True,
                                 True)
        dst.receive_data(psrpcore.PSRPPayload(data, psrpcore.StreamType.default, None))
        for _ in range(3):
            try:
                if dst.next_event() is None:
                    break
                self.m.count("odd but accepted")
            except Exception:
                self.m.count("rejected")
        self.move()

    def act_recon(self, begin):
        self.m.count("reconnects")
        c, s = self.c, self.s
        if begin:
            c.begin_disconnect()
            s.begin_disconnect()
        c.disconnect()
        s.disconnect()
        c.reconnect()
        s.reconnect()
        self.move()

    def act_connect(self):
        self.m.count("connects")
        c, s = self.c, self.s
        c.disconnect()
        s.disconnect()
        s.connect()
        self.pair.s2c.defrag.last_oid = 0
        c.connect()
        self.move()
        need(c.state == s.state == T.RunspacePoolState.Opened, "connecting again ended in %s / %s", c.state, s.state)


class Bad:
    """Cannot be written: its attribute raises."""

    @property
    def boom(self):
        raise ArithmeticError("cannot be serialized")


def draw_act(t):
    k = t.draw(20)
    if t.bool(1, 8):
        return ("stream", [t.draw(12) for _ in range(t.draw(4))], [t.draw(20) for _ in range(t.draw(5))],
                [t.draw(96) for _ in range(t.draw(2))], t.bool(1, 4))
    if k < 8:
        n = t.pick([0, 1, 3])
        return ("pipe", t.pick([0, 0, 0, 0, 1, 2]), [t.draw(3) for _ in range(t.draw(3))],
                [t.draw(12) for _ in range(n)], t.bool(), [t.draw(20) for _ in range(t.pick([0, 1, 2, 6]))],
                [t.draw(96) for _ in range(t.pick([0, 0, 1, 2]))], t.pick(["complete", "complete", "fail", "stop",
                                                                          "never"]), t.bool(), t.bool())
    if k < 10:
        return ("request", t.draw(5), t.bool())
    if k < 12:
        return ("call", [t.draw(96) for _ in range(t.int(0, 3))], t.bool())
    if k == 12:
        return ("event", t.draw(12))
    if k == 13:
        return ("key", t.bool(), [0] * t.draw(3))
    if k < 16:
        return ("refused", t.draw(15))
    if k < 18:
        return ("reject", t.draw(70), t.bool())
    if k == 18:
        return ("recon", t.bool())
    return ("connect",)


def run(m, acts, limit, piece, rounds=ROUNDS, app=None, ids=None):
    w = Watch()
    c = psrpcore.ClientRunspacePool(runspace_pool_id=ids or uuid.uuid4(), application_arguments=app,
                                    min_runspaces=1, max_runspaces=3)
    pair = Pair(c, psrpcore.ServerRunspacePool())
    ends = Watch()
    ends.add(c, "the client pool")
    ends.add(pair.server, "the server pool")
    c.open()
    pair.pump()
    c.exchange_key()
    pair.pump()
    base = kept = None
    if any(a[0] == "stream" for a in acts):
        kept = (psrpcore.ClientPowerShell(c), None)
        kept[0].add_script("x")
        kept = (kept[0], psrpcore.ServerPipeline(pair.server, kept[0].pipeline_id))
        ends.add(kept[0], "a client pipeline")
        ends.add(kept[1], "a server pipeline")
        kept[0].start()
        pair.pump()
        kept[1].start()
        pair.pump()
    del c
    for i in range(rounds):
        r = Round(pair, i, m, w, limit, piece)
        r.kept = kept
        for act in acts:
            getattr(r, "act_" + act[0])(*act[1:])
        r.move()
        m.count("rounds")
        del r
        for ln in pair.links():
            need(not (ln.sent or ln.wire or ln.defrag.open), "a round is not closed")
        if i == FIRST:
            gc.collect()
            base = [reach(pair.client), reach(pair.server), library()]
            m.count("measurements")
    gc.collect()
    end = [reach(pair.client), reach(pair.server), library()]
    m.count("measurements")
    done = rounds - 1 - FIRST
    for what, a, b in zip(("the client pool", "the server pool", "the library itself"), base, end):
        need(b[0] - a[0] <= OBJECTS, "%d closed rounds left %d more objects reachable from %s", done, b[0] - a[0], what)
        need(b[1] - a[1] <= BYTES, "%d closed rounds left %d more bytes reachable from %s", done, b[1] - a[1], what)
    left = [what for ref, what in w.refs if ref() is not None]
    # (what a pool legitimately keeps is of a fixed number: the last data it received)
    need(len(left) <= 3, "%d objects that are over are still alive after %d closed rounds: %s", len(left), rounds,
         sorted(set(left)))
    m.count("dropped objects", len(w.refs))
    del pair, ln, a, b, kept
    gc.collect()
    left = [what for ref, what in ends.refs if ref() is not None]
    need(not left, "nobody uses the session any more but %s is still alive", left)
    m.count("sessions gone")


def case(t, m):
    acts = [draw_act(t) for _ in range(t.pick([1, 2, 4, 8]))]
    limit = gen_limit(t, [60, 200, 450])
    piece = t.pick([None, None, None, 7, 100])
    app = {"a": 1} if t.bool(1, 4) else None
    if limit is not None and limit < 60 and len(acts) > 4:
        limit = 500
    m.log("round %s limit %s pieces %s", acts, limit, piece)
    run(m, acts, limit, piece, app=app, ids=gen_uuid(t))
    m.case((repr(acts), limit, piece))


def units(tier):
    out = []

    def add(name, acts, limit=None, piece=None, rounds=ROUNDS):
        out.append((name, lambda m: run(m, acts, limit, piece, rounds)))

    ends = ["complete", "fail", "stop", "never"]
    for end in ends:
        for early in (False, True):
            add("pipeline %s %s" % (end, early),
                [("pipe", 0, [0, 1, 2], list(range(12)), True, list(range(20)), list(range(16)), end, early, True)])
    for meta in (1, 2):
        add("metadata %d" % meta, [("pipe", meta, [], [], False, [1], [], "complete", False, True)])
    for k in range(5):
        for ok in (True, False):
            add("request %d %s" % (k, ok), [("request", k, ok)])
    add("calls", [("call", list(range(0, 96, 3)), True)])
    for k in range(12):
        add("value %d" % k, [("event", k), ("pipe", 0, [1], [k], True, [k], [k << 3], "complete", False, True)])
    for again in (False, True):
        add("stream %s" % again, [("stream", list(range(12)), list(range(20)), list(range(0, 96, 5)), again)])
    for k in range(15):
        add("refused %d" % k, [("refused", k)])
    for k in range(35):
        for to_server in (True, False):
            add("rejected %d %s" % (k, to_server), [("reject", k, to_server)])
    for lim in (22, 100, 600):
        for piece in (None, 1, 30):
            add("limit %d pieces %s" % (lim, piece),
                [("pipe", 0, [0], [1], True, [1, 12], [0], "complete", False, True), ("reject", 20, True)], lim, piece)
    add("connect", [("connect",), ("request", 4, True), ("call", [0, 1], True)])
    add("reconnect", [("recon", True), ("recon", False)])
    add("keys", [("key", True, [0]), ("connect",), ("key", False, [0, 0])])
    for n in (40, 200) if tier == "thorough" else (40,):
        add("%d rounds" % n, [("pipe", 0, [1], [3], True, [1, 4, 9, 11], [0], "complete", False, True),
                              ("request", 4, True), ("reject", 5, False), ("reject", 20, True), ("refused", 11)],
            rounds=n)
    return out
