"""An independent implementation of the PSRP wire format: the oracle side of the monitors.

Nothing here uses the code under test.  Follows MS-PSRP 2.2.1 (message), 2.2.4 (fragment), 2.2.5 (CLIXML).
"""

import base64
import datetime
import decimal
import re
import uuid
from xml.etree import ElementTree

from .mon import Violation, need

EMPTY = uuid.UUID(int=0)

MSG = {
    "SessionCapability": 0x00010002,
    "InitRunspacePool": 0x00010004,
    "PublicKey": 0x00010005,
    "EncryptedSessionKey": 0x00010006,
    "PublicKeyRequest": 0x00010007,
    "ConnectRunspacePool": 0x00010008,
    "RunspacePoolInitData": 0x0002100B,
    "ResetRunspaceState": 0x0002100C,
    "SetMaxRunspaces": 0x00021002,
    "SetMinRunspaces": 0x00021003,
    "RunspaceAvailability": 0x00021004,
    "RunspacePoolState": 0x00021005,
    "CreatePipeline": 0x00021006,
    "GetAvailableRunspaces": 0x00021007,
    "UserEvent": 0x00021008,
    "ApplicationPrivateData": 0x00021009,
    "GetCommandMetadata": 0x0002100A,
    "RunspacePoolHostCall": 0x00021100,
    "RunspacePoolHostResponse": 0x00021101,
    "PipelineInput": 0x00041002,
    "EndOfPipelineInput": 0x00041003,
    "PipelineOutput": 0x00041004,
    "ErrorRecord": 0x00041005,
    "PipelineState": 0x00041006,
    "DebugRecord": 0x00041007,
    "VerboseRecord": 0x00041008,
    "WarningRecord": 0x00041009,
    "ProgressRecord": 0x00041010,
    "InformationRecord": 0x00041011,
    "PipelineHostCall": 0x00041100,
    "PipelineHostResponse": 0x00041101,
}
MSG_NAME = {v: k for k, v in MSG.items()}


# ---- UTF-16 and the _xHHHH_ escapes ---------------------------------------------------------------------------------


def u16(s):
    """The UTF-16 code units of a text, as bytes (the identity of a text for .NET)."""
    return str.__str__(s).encode("utf-16-be", "surrogatepass")


def units(s):
    b = u16(s)
    return [(b[i] << 8) | b[i + 1] for i in range(0, len(b), 2)]


def from_units(us):
    return b"".join(bytes((u >> 8, u & 255)) for u in us).decode("utf-16-be", "surrogatepass")


def escape(s):
    """The canonical encoding: only what has to be escaped is."""
    out = []
    us = units(s)
    for i, u in enumerate(us):
        if u == 0x5F and i + 1 < len(us) and us[i + 1] in (0x78, 0x58):
            out.append("_x005F_")
        elif u < 0x20 or 0x7F <= u <= 0x9F or 0xD800 <= u <= 0xDFFF or u >= 0xFFFE:
            out.append("_x%04X_" % u)
        else:
            out.append(chr(u))
    return "".join(out)


def _hex4(s, i):
    v = 0
    for c in s[i : i + 4]:
        k = "0123456789abcdef".find(c.lower()) if c.isascii() else -1
        if k < 0:
            return None
        v = v * 16 + k
    return v if len(s) >= i + 4 else None


def unescape(s):
    """Decode: scan left to right, a '_x' followed by four hex digits and '_' is one UTF-16 code unit."""
    us = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == "_" and s[i + 1 : i + 2] == "x" and s[i + 6 : i + 7] == "_":
            v = _hex4(s, i + 2)
            if v is not None:
                us.append(v)
                i += 7
                continue
        us.extend(units(s[i]))
        i += 1
    return from_units(us)


# ---- fragments and messages -----------------------------------------------------------------------------------------


class Frag:
    __slots__ = ("oid", "fid", "start", "end", "data")

    def __init__(self, oid, fid, start, end, data):
        self.oid, self.fid, self.start, self.end, self.data = oid, fid, start, end, data


def parse_fragments(b):
    """Split a payload into fragments; it has to consist of whole fragments."""
    b = bytes(b)
    out = []
    i = 0
    while i < len(b):
        need(len(b) - i >= 21, "payload ends inside a fragment header (%d bytes left)", len(b) - i)
        oid = int.from_bytes(b[i : i + 8], "big")
        fid = int.from_bytes(b[i + 8 : i + 16], "big")
        flags = b[i + 16]
        ln = int.from_bytes(b[i + 17 : i + 21], "big")
        need(flags & ~3 == 0, "reserved bits set in fragment flags %#x", flags)
        need(len(b) - i - 21 >= ln, "fragment of %d bytes is cut short in its payload", ln)
        out.append(Frag(oid, fid, bool(flags & 1), bool(flags & 2), b[i + 21 : i + 21 + ln]))
        i += 21 + ln
    return out


def pack_fragment(oid, fid, data, start, end):
    return (
        oid.to_bytes(8, "big")
        + fid.to_bytes(8, "big")
        + bytes([(1 if start else 0) | (2 if end else 0)])
        + len(data).to_bytes(4, "big")
        + data
    )


def _guid_le(b):
    return uuid.UUID(
        fields=(
            int.from_bytes(b[0:4], "little"),
            int.from_bytes(b[4:6], "little"),
            int.from_bytes(b[6:8], "little"),
            b[8],
            b[9],
            int.from_bytes(b[10:16], "big"),
        )
    )


def _le_guid(g):
    f = g.fields
    return (
        f[0].to_bytes(4, "little")
        + f[1].to_bytes(2, "little")
        + f[2].to_bytes(2, "little")
        + bytes([f[3], f[4]])
        + f[5].to_bytes(6, "big")
    )


class Msg:
    __slots__ = ("oid", "dest", "type", "rpid", "pid", "data", "nfrag")

    def __init__(self, oid, dest, type_, rpid, pid, data, nfrag=1):
        self.oid, self.dest, self.type, self.rpid, self.pid, self.data = oid, dest, type_, rpid, pid, data
        self.nfrag = nfrag

    @property
    def name(self):
        return MSG_NAME.get(self.type, hex(self.type))


def parse_message(oid, b, nfrag=1):
    need(len(b) >= 40, "message of %d bytes has no complete header", len(b))
    pid = _guid_le(b[24:40])
    return Msg(
        oid,
        int.from_bytes(b[0:4], "little"),
        int.from_bytes(b[4:8], "little"),
        _guid_le(b[8:24]),
        None if pid == EMPTY else pid,
        b[40:],
        nfrag,
    )


def pack_message(dest, type_, rpid, pid, data):
    return dest.to_bytes(4, "little") + type_.to_bytes(4, "little") + _le_guid(rpid) + _le_guid(pid or EMPTY) + data


class Defrag:
    """Reassembles a sender's stream, checking the fragment rules on the way."""

    def __init__(self):
        self.open = {}
        self.last_oid = 0
        self.before = None  # messages until the numbers begin again
        self.done = []

    def feed(self, payload):
        """The messages completed by this payload."""
        out = []
        for f in parse_fragments(payload):
            cur = self.open.get(f.oid)
            if cur is None:
                need(f.start, "first fragment of object %d is not marked as start", f.oid)
                need(f.fid == 0, "first fragment of object %d has fragment id %d", f.oid, f.fid)
                if self.before is not None:
                    self.before -= 1
                    if self.before < 0:
                        self.last_oid, self.before = 0, None
                need(f.oid > self.last_oid, "object id %d follows %d", f.oid, self.last_oid)
                self.last_oid = f.oid
                cur = self.open[f.oid] = [0, bytearray()]
            else:
                need(not f.start, "fragment %d of object %d is marked as start", f.fid, f.oid)
            need(f.fid == cur[0], "fragment id %d of object %d, expected %d", f.fid, f.oid, cur[0])
            cur[0] += 1
            cur[1] += f.data
            if f.end:
                del self.open[f.oid]
                out.append(parse_message(f.oid, bytes(cur[1]), cur[0]))
        self.done += out
        return out


# ---- CLIXML, decoded to a canonical tree ----------------------------------------------------------------------------
#
#   (tag, value)                                              primitive
#   ("Obj", label, names, adapted, extended, content, text)   object; label numbers the objects in document order
#   ("Ref", label)                                            another occurrence of the object with that label
#
# Lists and dictionaries have the label None: each of their occurrences is written in full.  Enum values are inlined.

_INT = {
    "By": (0, 255),
    "SB": (-128, 127),
    "U16": (0, 65535),
    "I16": (-32768, 32767),
    "U32": (0, 2**32 - 1),
    "I32": (-(2**31), 2**31 - 1),
    "U64": (0, 2**64 - 1),
    "I64": (-(2**63), 2**63 - 1),
    "C": (0, 65535),
}
_TEXT = ("S", "URI", "XD", "SBK")
_SEQ = ("LST", "STK", "IE", "QUE")
_RE_INT = re.compile(r"-?(0|[1-9][0-9]*)\Z")
_RE_FLT = re.compile(r"(-?[0-9]+(\.[0-9]+)?(E[+-]?[0-9]+)?|-?INF|NaN)\Z")
_RE_DEC = re.compile(r"-?[0-9]+(\.[0-9]+)?\Z")
_RE_GUID = re.compile(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}\Z")
_RE_VER = re.compile(r"(0|[1-9][0-9]*)(\.(0|[1-9][0-9]*)){1,3}\Z")
_RE_DT = re.compile(
    r"([0-9]{4})-([0-9]{2})-([0-9]{2})T([0-9]{2}):([0-9]{2}):([0-9]{2})(?:\.([0-9]{1,7}))?(Z|[+-][0-9]{2}:[0-9]{2})?\Z"
)
_RE_TS = re.compile(r"(-)?P(?:([0-9]+)D)?(?:T(?:([0-9]+)H)?(?:([0-9]+)M)?(?:([0-9]+)(?:\.([0-9]{1,7}))?S)?)?\Z")


def flt_key(f):
    """The identity of a float: equal values, one NaN, two zeros."""
    f = float(f)
    if f != f:
        return "nan"
    return f.hex()


def text_of(el, strict=True):
    raw = el.text or ""
    s = unescape(raw)
    if strict:
        need(escape(s) == raw, "text %a is not the canonical escape of %a", raw, s)
    return u16(s)


def dt_key(y, mo, d, h, mi, s, ticks, off):
    """off: None or minutes east of UTC."""
    return (y, mo, d, h, mi, s, ticks, off)


def parse_dt(raw):
    m = _RE_DT.match(raw)
    need(m, "malformed date-time %a", raw)
    off = m.group(8)
    if off == "Z":
        off = 0
    elif off is not None:
        off = (1 if off[0] == "+" else -1) * (int(off[1:3]) * 60 + int(off[4:6]))
    frac = int((m.group(7) or "").ljust(7, "0"))
    return dt_key(*(int(m.group(i)) for i in range(1, 7)), frac, off)


def parse_ts(raw):
    """Duration in ticks."""
    m = _RE_TS.match(raw)
    need(m and raw[-1] not in "PT", "malformed duration %a", raw)
    neg, d, h, mi, s, f = m.groups()
    t = ((int(d or 0) * 24 + int(h or 0)) * 60 + int(mi or 0)) * 60 + int(s or 0)
    t = t * 10**7 + int((f or "").ljust(7, "0"))
    return -t if neg else t


def prim(el, strict=True):
    tag, raw = el.tag, el.text or ""
    need(len(el) == 0, "element %s has children", tag)
    if not strict:
        if tag in _INT:
            raw = str(int(raw))
        elif tag in ("B", "BA", "G"):
            raw = raw.lower() if tag != "BA" else "".join(raw.split())
    if tag == "Nil":
        need(raw == "", "Nil with text")
        return ("Nil", None)
    if tag == "B":
        need(raw in ("true", "false"), "boolean %a", raw)
        return ("B", raw == "true")
    if tag in _INT:
        need(_RE_INT.match(raw) and raw != "-0", "malformed integer %a in %s", raw, tag)
        v = int(raw)
        need(_INT[tag][0] <= v <= _INT[tag][1], "%d does not fit %s", v, tag)
        return (tag, v)
    if tag in ("Sg", "Db"):
        need(_RE_FLT.match(raw), "malformed float %a", raw)
        return (tag, flt_key(float(raw.replace("INF", "inf"))))
    if tag == "D":
        need(_RE_DEC.match(raw), "malformed decimal %a", raw)
        d = decimal.Decimal(raw)
        return (tag, d.as_tuple() if not d else d)
    if tag == "BA":
        b = base64.b64decode(raw, validate=True)
        need(base64.b64encode(b).decode() == raw, "base64 %a is not canonical", raw)
        return (tag, b)
    if tag == "DT":
        return (tag, parse_dt(raw))
    if tag == "TS":
        return (tag, parse_ts(raw))
    if tag == "G":
        need(_RE_GUID.match(raw), "malformed guid %a", raw)
        return (tag, uuid.UUID(raw))
    if tag == "Version":
        need(_RE_VER.match(raw), "malformed version %a", raw)
        return (tag, tuple(int(x) for x in raw.split(".")))
    if tag in _TEXT:
        return (tag, text_of(el, strict))
    if tag == "SS":
        return (tag, raw)
    raise Violation("unknown element %s" % tag)


PRIM_TAGS = set(_INT) | set(_TEXT) | {"Nil", "B", "Sg", "Db", "D", "BA", "DT", "TS", "G", "Version", "SS"}


class Decoder:
    """Decodes one document (or several elements sharing the reference tables)."""

    def __init__(self, strict=True):
        self.objs = {}
        self.names = {}
        self.nlabel = 0
        self.strict = strict

    def decode(self, el):
        tag = el.tag
        if tag == "Ref":
            need(set(el.attrib) - {"N", "S"} == {"RefId"}, "attributes of Ref: %s", sorted(el.attrib))
            rid = el.attrib["RefId"]
            need(rid in self.objs, "reference to the unknown object %s", rid)
            kind, v = self.objs[rid]
            return v if kind == "inline" else ("Ref", v)
        if tag == "PR":
            return self.progress(el)
        if tag != "Obj":
            need(not (set(el.attrib) - {"N", "S"}), "attributes of %s: %s", tag, sorted(el.attrib))
            return prim(el, self.strict)
        need(set(el.attrib) - {"N", "S"} == {"RefId"}, "attributes of Obj: %s", sorted(el.attrib))
        rid = el.attrib["RefId"]
        need(rid not in self.objs, "object id %s used twice", rid)
        tags = [c.tag for c in el]
        is_list = any(t in ("LST", "STK", "IE", "DCT") for t in tags)
        label = None
        if not is_list:
            label = self.nlabel
            self.nlabel += 1
            self.objs[rid] = ("obj", label)
        else:
            self.objs[rid] = ("list", "a list")
        names, adapted, extended, content, text = None, (), (), None, None
        for c in el:
            t = c.tag
            if t in ("TN", "TNRef"):
                need(names is None, "two type name lists")
                if t == "TN":
                    trid = c.attrib["RefId"]
                    need(trid not in self.names, "type name list id %s used twice", trid)
                    names = tuple(x.text or "" for x in c)
                    need(all(x.tag == "T" for x in c), "unexpected element in TN")
                    need(not self.strict or names not in self.names.values(), "type names %s written twice", names)
                    self.names[trid] = names
                else:
                    need(c.attrib["RefId"] in self.names, "unknown type name list %s", c.attrib["RefId"])
                    names = self.names[c.attrib["RefId"]]
            elif t == "Props":
                need(adapted == (), "two Props")
                adapted = self.props(c)
            elif t == "MS":
                need(extended == (), "two MS")
                extended = self.props(c)
            elif t == "ToString":
                need(text is None, "two ToString")
                text = text_of(c, self.strict)
            elif t in _SEQ:
                need(content is None, "two contents")
                content = (t, tuple(self.decode(x) for x in c))
            elif t == "DCT":
                need(content is None, "two contents")
                ents = []
                for en in c:
                    need(en.tag == "En" and len(en) == 2, "malformed dictionary entry")
                    need([x.attrib.get("N") for x in en] == ["Key", "Value"], "dictionary entry is not Key, Value")
                    ents.append((self.decode(en[0]), self.decode(en[1])))
                content = (t, tuple(ents))
            else:
                need(content is None, "two contents")
                content = self.decode(c)
        out = ("Obj", label, names, adapted, extended, content, text)
        if names and "System.Enum" in names and content is not None and content[0] in PRIM_TAGS:
            self.nlabel -= 1
            out = ("Enum", names, content, text)
            self.objs[rid] = ("inline", out)
        return out

    def props(self, el):
        out = []
        for c in el:
            need("N" in c.attrib, "property without a name")
            raw = c.attrib["N"]
            name = unescape(raw)
            if self.strict:
                need(escape(name) == raw, "property name %a is not canonical", raw)
            out.append((u16(name), self.decode(c)))
        return tuple(out)

    def progress(self, el):
        out = {}
        for c in el:
            need(c.tag not in out, "two %s in a progress record", c.tag)
            if c.tag in ("AV", "S", "SD", "T"):
                out[c.tag] = text_of(c, self.strict)
            elif c.tag == "Nil":
                out["S"] = None
            else:
                need(_RE_INT.match(c.text or ""), "malformed integer in %s", c.tag)
                out[c.tag] = int(c.text)
        return ("PR", tuple(sorted(out.items())))


def parse_xml(data):
    try:
        return ElementTree.fromstring(data)
    except ElementTree.ParseError as e:
        raise Violation("not well-formed XML: %s in %a" % (e, data[:300]))


def decode_doc(data, strict=True):
    return Decoder(strict).decode(parse_xml(data))
