"""P03: damaged and unexpected messages never harm their neighbours; interleaved fragments are kept apart."""

import re
import uuid
from collections import deque
from xml.etree import ElementTree

from .. import values as V
from ..mon import need
from ..session import World
from ..wire import MSG, Defrag, pack_fragment, pack_message
from ..world import check_event, cut, fp
from .p07 import same_classes, snapshot

import psrpcore
from psrpcore import types as T

PROP = "P03"
LEVEL = "exploration"
RULE = ("distinct arrival histories (order of the fragments of valid messages and faults, with the faults' kinds) in "
        "which every poll was compared with what had arrived")
ASSUMPTIONS = ["object ids of messages in one direction are distinct",
               "a fragment's length field is correct (otherwise the stream itself cannot be followed)"]
CASES = {"quick": 5000, "thorough": 200000}
TIME = {"quick": 60, "thorough": 800}
REQUIRE = ["events", "faults", "errors", "interleaved", "polls", "audits", "odd events", "class_snapshots"]

MIX = [("q_write", 16), ("q_value", 4), ("p_value", 3), ("p_send", 10), ("p_eof", 3), ("q_call", 3), ("s_call", 3),
       ("s_event", 3), ("c_set_max", 2), ("c_get_avail", 2), ("s_answer", 3), ("c_respond", 3)]

NEEDS_PIPE = ("CreatePipeline", "GetCommandMetadata", "PipelineInput", "PipelineOutput", "ErrorRecord",
              "PipelineState", "DebugRecord", "VerboseRecord", "WarningRecord", "ProgressRecord", "InformationRecord",
              "PipelineHostCall", "PipelineHostResponse")
TO_SERVER = ["SessionCapability", "InitRunspacePool", "PublicKey", "ConnectRunspacePool", "ResetRunspaceState",
             "SetMaxRunspaces", "SetMinRunspaces", "CreatePipeline", "GetAvailableRunspaces", "GetCommandMetadata",
             "RunspacePoolHostResponse", "PipelineInput", "PipelineHostResponse"]
TO_CLIENT = ["SessionCapability", "EncryptedSessionKey", "PublicKeyRequest", "RunspacePoolInitData",
             "RunspaceAvailability", "RunspacePoolState", "UserEvent", "ApplicationPrivateData",
             "RunspacePoolHostCall", "PipelineOutput", "ErrorRecord", "PipelineState", "DebugRecord", "VerboseRecord",
             "WarningRecord", "ProgressRecord", "InformationRecord", "PipelineHostCall"]
BROKEN = [b"<Obj", b"<", b"<Obj RefId=\"0\"><MS></Obj>", b"\xff\xfe\xfa", b"<Foo/>", b"<I32>abc</I32>", b"text",
          b"<Ref RefId=\"9\"/>", b"<Obj RefId=\"0\"><MS><I32 N=\"a\">x</I32></MS></Obj>",
          b"<Obj RefId=\"0\"><MS><Ref N=\"a\" RefId=\"77\"/></MS></Obj>", b"<G>nope</G>", b"<B>perhaps</B>x",
          b"<Obj RefId=\"0\"><TNRef RefId=\"5\"/></Obj>", b"<Obj RefId=\"0\"><LST><Bar/></LST></Obj>", b"\x00",
          b"<S>a</S><S>b</S>", b"<Obj RefId=\"0\"><DCT><En><S N=\"Key\">a</S></En></DCT></Obj>"]
# well-formed CLIXML that lacks what the message needs (the receiver has to use it, so it cannot go unnoticed)
LACKING_SERVER = {
    "SessionCapability": ["", '<Version N="protocolversion">2.3</Version>',
                          '<Version N="protocolversion">2.3</Version><Version N="PSVersion">2.0</Version>'],
    "PublicKey": ["", '<S N="PublicKey"></S>', '<S N="PublicKey">AAAA</S>', '<S N="PublicKey">!!</S>'],
    "ResetRunspaceState": [""],
    "SetMaxRunspaces": ['<I32 N="MaxRunspaces">77</I32>'],
    "SetMinRunspaces": ['<I32 N="MinRunspaces">77</I32>'],
    "GetAvailableRunspaces": [""],
    "InitRunspacePool": ["", '<I32 N="MinRunspaces">77</I32>',
                         '<I32 N="MinRunspaces">77</I32><I32 N="MaxRunspaces">78</I32>',
                         '<Obj N="ApartmentState" RefId="1"><TN RefId="0"><T>System.Threading.ApartmentState</T>'
                         '<T>System.Enum</T></TN><ToString>STA</ToString><I32>0</I32></Obj>'
                         '<I32 N="MinRunspaces">77</I32>'],
}
LACKING_CLIENT = {
    "SessionCapability": ["", '<Version N="protocolversion">2.3</Version>'],
    "EncryptedSessionKey": ["", '<S N="EncryptedSessionKey">AAAA</S>'],
    "RunspacePoolInitData": ["", '<I32 N="MinRunspaces">77</I32>', '<I32 N="MaxRunspaces">77</I32>'],
    "RunspaceAvailability": ['<I64 N="ci">99999</I64><B N="SetMinMaxRunspacesResponse">true</B>',
                             '<I64 N="ci">-3</I64><I64 N="SetMinMaxRunspacesResponse">4</I64>'],
    "RunspacePoolState": ["", '<I32 N="RunspaceState">99</I32>', '<I32 N="RunspaceState">-1</I32>',
                          '<S N="RunspaceState">x</S>'],
    "ApplicationPrivateData": [""],
    "RunspacePoolHostCall": [""],
    "PipelineHostCall": [""],
    "PipelineState": ["", '<I32 N="PipelineState">99</I32>'],
}

CLASSES = snapshot()


class Dir:
    """One direction with a hostile network in front of the receiver."""

    def __init__(self, w, i):
        self.w, self.i, self.ln = w, i, w.links()[i]
        self.hold = []  # (message, expectation) taken from the sender, not yet on the network
        self.queue = deque()  # valid messages on the network in the order they complete: (end, message, exp)
        self.faults = []  # offsets at which the faults are complete
        self.oids = set()
        self.freed = []  # object ids of rejected messages, which are over
        self.freeing = []
        self.maybe = {}  # messages of odd content by their unique pipeline id: (end, type)
        self.odd = 0  # how many of them were reported as events
        self.pos = self.ln.got_bytes
        self.errors = 0
        self.open = {}

    def collect(self):
        ln = self.ln
        while True:
            p = ln.src.data_to_send()
            if p is None:
                break
            for m, _end in ln.check_payload(p, None):
                need(ln.expect, "%s: %s was sent but nothing asked for it", ln.name, m.name)
                exp = ln.expect.popleft()
                exp.on_wire(ln, m)
                self.hold.append((m, exp))

    def oid(self, t):
        if self.freed and t.bool(1, 4):
            return self.freed.pop()
        while True:
            k = t.draw(4)
            o = (max(self.oids, default=0) + 1 if k < 2 else t.draw(1 << 63) if k == 2 else
                 max(1, max(self.oids, default=1) - t.draw(5)))
            if o not in self.oids and o < (1 << 64):
                self.oids.add(o)
                return o

    def split(self, t, raw):
        """The data of the fragments of one message."""
        k = t.draw(4)
        if k == 0:
            return [raw]
        points = sorted({t.draw(len(raw) + 1) for _ in range(t.int(1, 3 if k < 3 else 12))} | (
            {t.pick([1, 4, 8, 24, 39, 40, 41])} if t.bool(1, 3) else set()))
        points = [p for p in points if 0 < p <= len(raw)]
        out = [raw[a:b] for a, b in zip([0] + points, points + [len(raw)])]
        if t.bool(1, 6):
            out.insert(t.draw(len(out)), b"")
        return out

    def fault(self, t, live):
        """Bytes of one fault as (kind, fragments). live: partially sent valid messages {oid: next fragment id}."""
        w = self.w
        server = self.i == 0
        dest = 2 if server else 1
        rpid = w.c.rpid
        kind = t.pick(["sequence", "sequence", "repeat", "skip", "type", "short", "broken", "broken", "lacking",
                       "pipeline", "mutant", "mutant"])
        if kind in ("repeat", "skip") and live:
            oid = t.pick(sorted(live))
            nxt = live[oid]
            fid = nxt + t.int(1, 3) if kind == "skip" else t.draw(nxt) if nxt else 1
            return kind, [pack_fragment(oid, fid, b"zz" * t.draw(5), fid == 0, t.bool())]
        if kind in ("sequence", "repeat", "skip"):
            fid = t.pick([1, 2, 7, 255, 256, 65536, (1 << 64) - 1])
            return "sequence", [pack_fragment(self.oid(t), fid, b"x" * t.draw(60), False, t.bool())]
        pid = None
        if kind == "mutant":
            name = t.pick(["PipelineInput"] if server else ["PipelineOutput", "ErrorRecord", "DebugRecord", "UserEvent",
                                                            "ProgressRecord", "InformationRecord"])
            data = mangle(t, t.pick(w.donors))
            pid = uuid.UUID(int=(1 << 127) + (self.i << 100) + len(self.maybe))
            self.maybe[pid] = [None, name]
            raw = pack_message(dest, MSG[name], rpid, pid, data)
            kind = (kind, pid)
        elif kind == "type":
            code = t.pick([0, 1, 0x00010001, 0x00010003, 0x00021001, 0x00041001, 0x0004100F, 0xFFFFFFFF, 0x41012])
            raw = pack_message(dest, code, rpid, t.pick([None] + w.known), b"<S>a</S>")
        elif kind == "short":
            whole = pack_message(dest, MSG["PipelineOutput"], rpid, w.known[0], b"")
            raw = whole[: t.pick([0, 1, 3, 4, 7, 8, 23, 24, 39, t.draw(40)])]
        else:
            name = t.pick(TO_SERVER if server else TO_CLIENT)
            data = t.pick(BROKEN)
            if kind == "broken" and t.bool(1, 5) and name not in ("PipelineInput", "PipelineOutput"):
                data = b""
            if kind == "lacking":
                table = LACKING_SERVER if server else LACKING_CLIENT
                name = t.pick(sorted(table))
                data = ("<Obj RefId=\"0\"><MS>%s</MS></Obj>" % t.pick(table[name])).encode()
            if name in NEEDS_PIPE:
                pid = t.pick(w.known)
            if kind == "pipeline":
                pid = uuid.UUID(int=t.int(5, 99) << 90)
                if server:
                    name = t.pick(["CreatePipeline", "GetCommandMetadata"])
                    data = w.captured[name]
                else:
                    name = "PipelineState"
                    data = b'<Obj RefId="0"><MS><I32 N="PipelineState">%d</I32></MS></Obj>' % t.pick([1, 2, 4, 5])
            raw = pack_message(dest, MSG[name], rpid, pid, data)
        oid = self.oid(t)
        self.freeing.append(oid)
        parts = self.split(t, raw) if raw else [raw]
        return kind, [pack_fragment(oid, i, d, i == 0, i == len(parts) - 1) for i, d in enumerate(parts)]

    def release(self, t, m):
        """Put the held messages on the network: interleaved, refragmented, with faults in between."""
        tracks = []
        for msg, exp in self.hold:
            data = msg.data
            if data and t.bool(1, 8):
                data = b"\xef\xbb\xbf" + data  # other implementations write a byte order mark
            raw = pack_message(msg.dest, msg.type, msg.rpid, msg.pid, data)
            oid = self.oid(t)
            parts = self.split(t, raw)
            tracks.append([oid, 0, parts, (msg, exp)])
        self.hold = []
        live = {}
        stream = bytearray()
        shape = []
        width = t.pick([1, 2, 3, 100])
        pending = []  # faults whose fragments are still coming
        n_faults = t.weighted([(2, 0), (3, 1), (2, 3), (1, 8)])
        while tracks or n_faults or pending:
            k = t.draw(4)
            if k == 0 and n_faults and not (not tracks and pending):
                n_faults -= 1
                kind, frs = self.fault(t, live)
                pending.append([kind, frs])
                continue
            if pending and (k == 1 or not tracks):
                f = pending[t.draw(len(pending))]
                if f[0] in ("repeat", "skip"):
                    f = [x for x in pending if x[0] in ("repeat", "skip")][0]
                stream += f[1].pop(0)
                if not f[1]:
                    pending.remove(f)
                    if f[0][0] == "mutant":
                        self.maybe[f[0][1]][0] = self.pos + len(stream)
                        f[0] = "mutant"
                    else:
                        self.faults.append(self.pos + len(stream))
                    m.count("faults")
                    m.seen("fault kinds", f[0])
                    shape.append(f[0])
                continue
            # a repeated or skipped fragment id is chosen against the present state: send it right away
            now = [f for f in pending if f[0] in ("repeat", "skip")]
            if now:
                f = now[0]
                pending.remove(f)
                stream += f[1].pop(0)
                self.faults.append(self.pos + len(stream))
                m.count("faults")
                m.seen("fault kinds", f[0])
                shape.append(f[0])
                continue
            if not tracks:
                if n_faults:
                    kind, frs = self.fault(t, live)
                    n_faults -= 1
                    pending.append([kind, frs])
                continue
            x = tracks[t.draw(min(width, len(tracks)))]
            oid, fid, parts, what = x
            last = fid == len(parts) - 1
            stream += pack_fragment(oid, fid, parts[fid], fid == 0, last)
            x[1] += 1
            if len(live) > (oid in live):
                m.count("interleaved")
            if last:
                tracks.remove(x)
                live.pop(oid, None)
                self.queue.append((self.pos + len(stream), what[0], what[1]))
                shape.append(what[0].name)
            else:
                live[oid] = fid + 1
        if stream:
            self.pos += len(stream)
            for piece in cut(t, bytes(stream)):
                self.ln.wire.append((piece, psrpcore.PSRPPayload(b"", psrpcore.StreamType.default, None)))
        return shape

    def arrived(self):
        """How many damaged messages have arrived (and of the odd ones those that gave no event)."""
        got = self.ln.got_bytes
        return sum(1 for f in self.faults if f <= got) + sum(
            1 for end, _name in self.maybe.values() if end is not None and end <= got)

    def poll(self, m):
        """One poll, compared with what has arrived. False: it reported nothing."""
        ln = self.ln
        before = public(ln.dst)
        try:
            ev = ln.dst.next_event()
        except Exception as e:
            self.errors += 1
            arrived = self.arrived()
            need(self.errors <= arrived, "%s: error number %d but only %d damaged messages have arrived: %s: %s",
                 ln.name, self.errors, arrived, type(e).__name__, e)
            m.count("errors")
            m.seen("errors", (type(e).__name__, self.i))
            need(public(ln.dst) == before, "%s: an error (%s) changed the pool: %s -> %s", ln.name, e, before,
                 public(ln.dst))
            self.w.audit()
            return True
        due = self.queue[0] if self.queue and self.queue[0][0] <= ln.got_bytes else None
        if ev is None:
            need(due is None, "%s: %s has arrived but the poll reports nothing", ln.name, due and due[1].name)
            arrived = self.arrived()
            need(self.errors == arrived, "%s: %d damaged messages arrived but %d errors were reported", ln.name,
                 arrived, self.errors)
            return False
        if ev.pipeline_id in self.maybe:  # an event of odd content, which changes nothing
            end, name = self.maybe.pop(ev.pipeline_id)
            need(end is not None and end <= ln.got_bytes and ev.message_type.name == name,
                 "%s: event %r for a %s that has not arrived", ln.name, type(ev).__name__, name)
            need(public(ln.dst) == before, "%s: a %s for an unknown pipeline changed the pool: %s -> %s", ln.name, name,
                 before, public(ln.dst))
            self.maybe[("over", len(self.maybe), self.odd)] = [1 << 60, name]
            self.odd += 1
            m.count("odd events")
            self.w.audit()
            return True
        need(due is not None, "%s: event %r for something that has not arrived", ln.name, type(ev).__name__)
        _end, msg, exp = self.queue.popleft()
        d = Sentlike(msg)
        check_event(d, ev, ln.name)
        if exp.recv:
            exp.recv(ev)
        m.count("events")
        self.w.audit()
        return True


PIECES = [b"<", b">", b"&", b"&#0;", b"&#x1F600;", b"<Nil/>", b"</Obj>", b"<Obj RefId='0'>", b"<Ref RefId='0'/>",
          b"<TNRef RefId='0'/>", b"<S>", b"</S>", b"<LST>", b"<DCT><En>", b"<I32>9</I32>", b"<I64>1e5</I64>",
          b"<DT>2021-02-30T00:00:00Z</DT>", b"<TS>P9999999999D</TS>", b"<D>1E+99999</D>", b"<G>0</G>", b"<BA>=</BA>",
          b"<C>99999</C>", b"<Version>1.x</Version>", b"<SS>AAAA</SS>", b"<URI>x</URI>", b"<XD>&lt;</XD>", b"<By>999</By>",
          b"<ToString>x</ToString>", b"<MS>", b"</MS>", b"<Props>", b" N=\"a\"", b" RefId=\"1\"", b" RefId=\"x\"",
          b" N=\"_x\"", b"_xD83D_", b"_x005F_", b"\x00", b"\xff", b"\xc3\x28", b"<PR>", b"<![CDATA[x]]>", b"<!-- -->",
          b"<?xml version='1.0'?>", b"<?xml version='1.0' encoding='utf-16'?>", b"<!DOCTYPE a [<!ENTITY b 'c'>]>",
          b"<SBK>x</SBK>", b"<B>perhaps</B>", b"<Sg>x</Sg>", b"<QUE>", b"<STK>", b"<IE>",
          b"<T>System.Collections.Hashtable</T>", b"<T></T>", b"<TN RefId='0'></TN>"]


def mangle(t, data):
    """Valid content with damage anywhere in it: what comes of it is not predicted."""
    if t.bool(2, 3):
        return graft(t, data)
    data = bytearray(data)
    for _ in range(t.int(1, 4)):
        i = t.draw(len(data) + 1)
        k = t.draw(7)
        if k == 0:
            data[i:i] = t.pick(PIECES)
        elif k == 1:
            del data[i : i + t.int(1, 30)]
        elif k == 2 and data:
            data[min(i, len(data) - 1)] = t.draw(256)
        elif k == 3:
            j = i + t.int(1, 80)
            data[i:i] = data[i:j]
        elif k == 4:
            j = t.draw(len(data) + 1)
            data[i : i + t.draw(20)] = data[j : j + t.draw(60)]
        elif k == 5:  # a whole element is swapped for another piece
            a = data.find(b"<", i)
            b = data.find(b">", a)
            if 0 <= a < b:
                data[a : b + 1] = t.pick(PIECES)
        else:
            data[i:i] = t.pick([b"<Obj><LST>", b"<Obj RefId='9'><MS>", b"<LST>"]) * t.pick([1, 5, 300])
    return bytes(data)


TAGS = ("Obj Ref TN TNRef T MS Props ToString LST IE STK QUE DCT En S C B DT TS By SB U16 I16 U32 I32 U64 I64 Sg Db D "
        "BA G URI Nil Version XD SBK SS PR AV AI Foo").split()
TEXTS = ["", " ", "x", "0", "-1", "1e5", "99999999999999999999", "true", "2021-02-03T04:05:06Z", "2021-02-30T04:05:06Z",
         "P1DT2H", "P9999999999D", "-P1D", "1.2.3.4", "1.x", "AAAA", "A", "NaN", "-Infinity", "INF", "_xD83D_", "_x00",
         "_xd83d__xde00_", "00000000-0000-0000-0000-000000000000", "0001-01-01T00:00:00-23:59", "65536", "1E+99999"]


def graft(t, data):
    """Content that is well-formed but whose elements are out of place."""
    root = ElementTree.fromstring(data)
    for _ in range(t.int(1, 4)):
        all_ = list(root.iter())
        e = t.pick(all_)
        k = t.draw(7)
        if k == 0:
            e.tag = t.pick(TAGS)
        elif k == 1:
            e.text = t.pick(TEXTS)
        elif k == 2 and len(e):
            del e[t.draw(len(e))]
        elif k == 3:
            x = t.pick(all_)
            if e not in list(x.iter()):
                e.insert(t.draw(len(e) + 1), x)
        elif k == 4:
            e.set(t.pick(["N", "RefId", "S"]), t.pick(["0", "1", "7", "x", "", "N", "Key", "Value", "_x0041_"]))
        elif k == 5 and e.attrib:
            del e.attrib[t.pick(sorted(e.attrib))]
        else:
            ElementTree.SubElement(e, t.pick(TAGS), t.pick([{}, {"N": "a"}, {"RefId": "0"}])).text = t.pick(TEXTS)
    return ElementTree.tostring(root)


class Sentlike:
    def __init__(self, msg):
        self.type, self.pid, self.rpid, self.data = msg.name, msg.pid, msg.rpid, msg.data


def public(pool):
    return (pool.state, pool.min_runspaces, pool.max_runspaces, pool.apartment_state, pool.thread_options,
            pool.runspace_pool_id, fp(pool.host), fp(pool.application_arguments), fp(pool.application_private_data),
            fp(pool.their_capability), tuple((k, p.state, fp(p.metadata)) for k, p in pool.pipeline_table.items()))


def case(t, m):
    w = World(t, m, max_pipes=3)
    w.open()
    w.captured = {}
    w.donors = [ElementTree.tostring(ElementTree.fromstring(
        T.serialize_clixml([V.build(V.Gen(t, 12).value())], None)).find("*"))
        for _ in range(2)] if t.bool() else []
    w.donors = [re.sub(rb"(</?)ns0:|\sxmlns:ns0=\"[^\"]*\"", rb"\1", x) for x in w.donors]
    pids = []
    for i, kind in enumerate(("ps", "ps", "meta")):
        pids.append(uuid.UUID(int=i + 1))
        w.do("p_new", pids[-1], kind, "s%d" % i, True)
        w.do("p_start", pids[-1])
        w.do("q_start", pids[-1])
    for ln in w.links():
        while ln.send():
            pass
        for x in ln.sent:
            w.captured[x.type] = x.data
            if x.data:
                w.donors.append(x.data)
    w.settle()
    dirs = [Dir(w, 0), Dir(w, 1)]
    pairs = [(k, op) for op, k in MIX]
    shape = []
    for _ in range(t.pick([1, 2, 4])):
        for _ in range(t.pick([2, 5, 12])):
            w.step(t, t.weighted(pairs))
        for d in t.shuffle(dirs):
            d.collect()
            shape.append(d.release(t, m))
            while d.ln.wire:
                w.do_deliver(d.i, t.pick([1, 1, 3, 50]))
                for _ in range(t.draw(4)):
                    m.count("polls")
                    if not d.poll(m):
                        break
            while d.poll(m):
                m.count("polls")
            d.freed += d.freeing
            d.freeing = []
    if any(d.faults or d.maybe for d in dirs):
        same_classes(CLASSES, m, "damaged messages")
    for d in dirs:
        need(not d.queue, "%s: %s never arrives", d.ln.name, [x[1].name for x in d.queue])
        d.collect()
    if any(len(s) > 2 for s in shape):
        m.case((shape, len(w.history)))
    # the session goes on
    for ln in w.links():
        ln.defrag = Defrag()
    m.log("shape %s", shape)
