"""A client and a server of the library, connected by a monitored transport.

Link carries the bytes of one direction.  It decodes everything with the independent wire implementation, so it knows
which messages were queued in which order, which of them have completely arrived, and which event the next poll owes.
"""

import re
import uuid
from collections import deque

from . import env, lits  # noqa: F401
from .mon import Violation, need
from .wire import EMPTY, Defrag, decode_doc, parse_fragments, u16

import psrpcore
from psrpcore import types as T

EVENT = {n: n + "Event" for n in (
    "SessionCapability InitRunspacePool PublicKey EncryptedSessionKey PublicKeyRequest ConnectRunspacePool "
    "RunspacePoolInitData ResetRunspaceState SetMaxRunspaces SetMinRunspaces CreatePipeline RunspacePoolState "
    "GetAvailableRunspaces ApplicationPrivateData GetCommandMetadata RunspacePoolHostCall RunspacePoolHostResponse "
    "PipelineInput EndOfPipelineInput PipelineOutput ErrorRecord PipelineState DebugRecord VerboseRecord WarningRecord "
    "ProgressRecord InformationRecord PipelineHostCall PipelineHostResponse UserEvent").split()}
PROMPT = {"RunspacePoolHostCall", "RunspacePoolHostResponse", "PipelineHostCall", "PipelineHostResponse"}


def event_name(msg, data):
    """The event class that stands for a message."""
    if msg != "RunspaceAvailability":
        return EVENT[msg]
    doc = decode_doc(data)
    v = field(doc, "SetMinMaxRunspacesResponse")
    return "SetRunspaceAvailabilityEvent" if v[0] == "B" else "GetRunspaceAvailabilityEvent"


def field(doc, name, default=None):
    """A property of a decoded message object (names are case insensitive for PowerShell)."""
    for k, v in doc[4] + doc[3]:
        if k.decode("utf-16-be", "surrogatepass").lower() == name.lower():
            return v
    return default


def has_field(doc, name):
    return field(doc, name, 0) != 0


def gen_limit(t, sizes=()):
    """A send limit: none, the smallest, around the sizes at hand, or anything."""
    k = t.draw(10)
    if k < 2:
        return None
    if k == 2:
        return 22 + t.draw(4)
    if k == 3:
        return t.int(22, 70)
    if k == 4 and sizes:
        return max(22, t.pick(sizes) + t.int(-23, 45))
    if k == 5 and sizes:
        return max(22, sum(sizes[: t.int(1, len(sizes))]) + 21 * t.int(0, len(sizes)) + t.int(-3, 3))
    if k == 6:
        return t.pick([32768, 65536, 500, 4096, 1 << 31])
    if k == 7 and lits.NEAR:
        return min(1 << 31, max(22, abs(t.pick(lits.NEAR))))
    return t.int(22, 2000)


def cut(t, data, how=None):
    """Cut bytes into pieces."""
    how = t.draw(6) if how is None else how
    n = len(data)
    if how <= 1 or n < 2:
        return [data]
    if how == 2 and n <= 3000:
        return [data[i : i + 1] for i in range(n)]
    points = set()
    if how == 3:  # around the header boundaries
        pos = 0
        for f in parse_fragments(data):
            for d in (0, 1, 8, 16, 17, 20, 21, 22):
                if t.bool(1, 3):
                    points.add(pos + d)
            pos += 21 + len(f.data)
    else:
        for _ in range(t.int(1, 12)):
            points.add(t.draw(n))
    pts = sorted(p for p in points if 0 < p < n)
    out = [data[a:b] for a, b in zip([0] + pts, pts + [n])]
    if t.bool(1, 4):
        out.insert(t.draw(len(out) + 1), b"")
    return out


class Sent:
    __slots__ = ("type", "pid", "rpid", "data", "end", "exp", "oid", "_doc")

    def __init__(self, m, end, exp):
        self.type, self.pid, self.rpid, self.data, self.oid, self.end, self.exp = \
            m.name, m.pid, m.rpid, m.data, m.oid, end, exp
        self._doc = 0

    @property
    def doc(self):
        if self._doc == 0:
            self._doc = decode_doc(self.data) if self.data else None
        return self._doc


class Link:
    """One direction of a session."""

    def __init__(self, src, dst, name, to_server):
        self.src, self.dst, self.name, self.to_server = src, dst, name, to_server
        self.defrag = Defrag()
        self.expect = deque()  # specified messages that are queued and not yet sent completely (when a model is used)
        self.wire = deque()  # pieces in flight: (bytes, payload)
        self.sent = deque()  # messages completely sent, not yet polled
        self.sent_bytes = 0
        self.got_bytes = 0
        self.payloads = 0
        self.pieces = 0
        self.events = 0
        self.frags = 0
        self.labels = {}
        self.strict = False

    def check_payload(self, p, limit):
        """Decode one payload: the messages it completes, with their end offset in the stream of this direction.

        When strict, the rules of the wire format property are decided as well.
        """
        strict = self.strict
        need(type(p) is psrpcore.PSRPPayload, "data_to_send returned %s", type(p).__name__)
        if strict:
            need(type(p.data) is bytes and len(p.data) > 0, "empty payload handed out")
            need(limit is None or len(p.data) <= limit, "payload of %d bytes exceeds the limit %s", len(p.data), limit)
        ends = {}
        frags = parse_fragments(p.data)
        for f in frags:
            self.sent_bytes += 21 + len(f.data)
            self.frags += 1
            self.labels.setdefault(f.oid, []).append((p.stream_type, p.pipeline_id))
            if f.end:
                ends[f.oid] = self.sent_bytes
        out = []
        for m in self.defrag.feed(p.data):
            labels = self.labels.pop(m.oid)
            if strict:
                if m.data:
                    decode_doc(m.data)
                else:
                    need(m.name in ("EndOfPipelineInput", "PipelineInput", "PipelineOutput"), "%s without content",
                         m.name)
                need(m.dest == (2 if self.to_server else 1), "%s: message %s has destination %d", self.name, m.name,
                     m.dest)
                st = psrpcore.StreamType.prompt_response if m.name in PROMPT else psrpcore.StreamType.default
                for stream, pid in labels:
                    need(m.pid == pid, "%s for pipeline %s in a payload labelled %s", m.name, m.pid, pid)
                    need(stream == st, "%s in a payload of stream %s", m.name, stream)
            out.append((m, ends[m.oid]))
        return out

    def send(self, limit=None, pieces=None):
        """Take one payload from the sender. False: there was nothing."""
        p = self.src.data_to_send() if limit is None else self.src.data_to_send(limit)
        if p is None:
            return False
        self.payloads += 1
        for m, end in self.check_payload(p, limit):
            exp = None
            if self.expect is not None:
                need(self.expect, "%s: message %s was sent but nothing asked for it", self.name, m.name)
                exp = self.expect.popleft()
                exp.on_wire(self, m)
            self.sent.append(Sent(m, end, exp))
        for piece in (pieces(p.data) if pieces else [p.data]):
            self.wire.append((piece, p))
        return True

    def deliver(self):
        """Hand one piece to the receiver. False: nothing in flight."""
        if not self.wire:
            return False
        piece, p = self.wire.popleft()
        self.got_bytes += len(piece)
        self.pieces += 1
        self.dst.receive_data(psrpcore.PSRPPayload(piece, p.stream_type, p.pipeline_id))
        return True

    def due(self):
        """The message the next poll has to report, if any."""
        if self.sent and self.sent[0].end <= self.got_bytes:
            return self.sent[0]
        return None

    def poll(self):
        """Poll once. (message, event): event and message are both None or both set."""
        d = self.due()
        ev = self.dst.next_event()
        if d is None:
            need(ev is None, "%s: event %r although no complete message had arrived", self.name, ev)
            return None, None
        need(ev is not None, "%s: %s has arrived but the poll reports nothing", self.name, d.type)
        self.sent.popleft()
        self.events += 1
        check_event(d, ev, self.name)
        return d, ev


def check_event(d, ev, name):
    want = event_name(d.type, d.data)
    need(type(ev).__name__ == want, "%s: %s was reported as %s", name, d.type, type(ev).__name__)
    need(ev.message_type.name == d.type, "%s: %s reported with message type %s", name, d.type, ev.message_type)
    need(ev.runspace_pool_id == d.rpid, "%s: %s for pool %s reported for %s", name, d.type, d.rpid,
         ev.runspace_pool_id)
    need(ev.pipeline_id == d.pid, "%s: %s for pipeline %s reported for %s", name, d.type, d.pid, ev.pipeline_id)


class Pair:
    """A client and a server pool and the two links between them (no model of the content)."""

    def __init__(self, client, server):
        self.client, self.server = client, server
        self.c2s = Link(client, server, "client->server", True)
        self.s2c = Link(server, client, "server->client", False)
        self.c2s.expect = self.s2c.expect = None

    def links(self):
        return (self.c2s, self.s2c)

    def pump(self, on=None, limit=10000):
        """Move everything that is queued until both sides are quiet; on(link, message, event) sees each event."""
        out = []
        for _ in range(limit):
            busy = False
            for ln in self.links():
                while ln.send():
                    busy = True
                while ln.deliver():
                    busy = True
                while True:
                    d, ev = ln.poll()
                    if ev is None:
                        break
                    busy = True
                    out.append((ln, d, ev))
                    if on:
                        on(ln, d, ev)
            if not busy:
                return out
        raise Violation("the two sides never become quiet")


def open_pair(client=None, server=None):
    c = client or psrpcore.ClientRunspacePool()
    s = server or psrpcore.ServerRunspacePool()
    p = Pair(c, s)
    c.open()
    p.pump()
    need(c.state == T.RunspacePoolState.Opened and s.state == T.RunspacePoolState.Opened,
         "opening ended in %s / %s", c.state, s.state)
    return p


def gen_uuid(t):
    k = t.draw(4)
    if k == 0:
        return uuid.UUID(int=1 + t.draw(255))
    if k == 1:
        return uuid.UUID(int=(1 + t.draw(255)) << (8 * t.draw(16)))
    return uuid.UUID(int=1 + t.draw((1 << 128) - 1))


# ---- fingerprints of library values ---------------------------------------------------------------------------------


_ADDRESS = re.compile(" at 0x[0-9a-f]+")


def fp(v, memo=None, depth=0):
    """A printable, comparable description of a value that came out of the library (public view only)."""
    memo = memo if memo is not None else {}
    if v is None or isinstance(v, bool):
        return v
    if id(v) in memo:
        return ("again", memo[id(v)][0])
    import datetime
    import decimal
    import enum
    import queue

    ps = isinstance(v, T.PSObject)
    name = type(v).__name__
    if isinstance(v, enum.Enum):
        return (name, v.name, v.value if not isinstance(v.value, T.PSObject) else repr(v.value))
    heavy = ps or isinstance(v, (list, dict, queue.Queue))
    if heavy:
        memo[id(v)] = (len(memo), v)
    if isinstance(v, str):
        base = u16(v)
    elif isinstance(v, int):
        base = int(v)
    elif isinstance(v, float):
        base = float.hex(float(v))
    elif isinstance(v, decimal.Decimal):
        base = tuple(v.as_tuple())
    elif isinstance(v, (bytes, bytearray)):
        base = bytes(v)
    elif isinstance(v, datetime.datetime):
        base = (v.isoformat(), getattr(v, "nanosecond", None))
    elif isinstance(v, datetime.timedelta):
        base = (v.days, v.seconds, v.microseconds, getattr(v, "nanoseconds", None))
    elif isinstance(v, uuid.UUID):
        base = str(v)
    elif isinstance(v, T.PSVersion):
        base = (v.major, v.minor, v.build, v.revision)
    elif isinstance(v, dict):
        base = tuple((fp(a, memo), fp(b, memo)) for a, b in dict.items(v))
    elif isinstance(v, queue.Queue):
        base = tuple(fp(a, memo) for a in v.queue)
    elif isinstance(v, (list, tuple)):
        base = tuple(fp(a, memo) for a in v)
    elif ps:
        base = ()
    elif hasattr(v, "__dict__"):
        if id(v) in memo:
            return ("again", memo[id(v)][0])
        memo[id(v)] = (len(memo), v)
        base = tuple((k, fp(x, memo)) for k, x in sorted(vars(v).items()) if not k.startswith("_"))
    else:
        base = repr(v)
    if not ps:
        return (name, base)
    o = v.PSObject
    out = [name, base]
    if not (isinstance(v, (str, int, float, bytes, datetime.datetime, datetime.timedelta, uuid.UUID, T.PSVersion,
                           decimal.Decimal)) and not o.extended_properties):
        out.append(tuple(o.type_names))
        # (the text of a queue or plain object is Python's default one, with its address)
        try:
            text = o.to_string
        except RecursionError:  # the Python text of a list that contains itself through an object
            text = "(recursive)"
        out.append(None if text is None else u16(_ADDRESS.sub(" at X", text)))
    for which in ("adapted_properties", "extended_properties"):
        ps_ = getattr(o, which)
        if ps_:
            out.append((which, tuple((u16(p.name), _fp_prop(p, v, memo)) for p in ps_)))
    return tuple(out)


def _fp_prop(p, v, memo):
    if isinstance(p, T.PSNoteProperty):
        return fp(p.get_value(v), memo)
    try:
        got = p.get_value(v)
    except Exception as e:  # a computed property whose inputs were changed
        return ("raises", type(e).__name__)
    return fp(got, memo)


_EVENT_ATTRS = ("data", "max_runspaces", "min_runspaces", "pipeline", "record", "key", "ci", "ps_thread_options",
                "apartment_state", "host_info", "application_arguments", "method_identifier", "method_parameters",
                "result", "error", "state", "reason", "success", "count", "ps_version", "protocol_version",
                "serialization_version", "event")


def fp_event(ev):
    """What an event says to its receiver."""
    if ev is None:
        return None
    out = [type(ev).__name__, ev.message_type.name, str(ev.runspace_pool_id), str(ev.pipeline_id)]
    for a in _EVENT_ATTRS:
        if hasattr(type(ev), a):
            out.append((a, fp(getattr(ev, a))))
    return tuple(out)
