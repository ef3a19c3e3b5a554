"""P19: CLIXML documents and shell output are read back as written."""

import base64
import binascii
from xml.etree import ElementTree as ET

from .. import values as V
from ..mon import need
from ..records import ErrorSpec, InfoSpec, ProgressSpec, label_map, part, same_enum, same_text
from ..tape import Tape
from ..wire import Decoder, parse_xml, u16
from ..world import field

import psrpcore
from psrpcore import types as T

PROP = "P19"
LEVEL = "exploration"
RULE = ("distinct sequences of writes (stream and shape of each value) and retrievals whose text was decoded "
        "independently and read back in every way the library offers")
ASSUMPTIONS = ["a text in the information stream is read back as the text",
               "type names are plain identifiers", "plain integers fit 64 bits"]
CASES = {"quick": 5000, "thorough": 400000}
TIME = {"quick": 60, "thorough": 800}
REQUIRE = ["writes", "chunks", "empty retrievals", "secure", "repeated", "shared", "documents", "foreign",
           "output", "error record", "error text", "debug", "verbose", "warning", "progress", "information record",
           "information text", "enumerated"]

NS = "http://schemas.microsoft.com/powershell/2004/04"
HEAD = "#< CLIXML\n"
STREAMS = {"output", "error", "debug", "verbose", "warning", "progress", "information"}


class Xor(T.PSCryptoProvider):
    """A provider of secrets of our own for documents."""

    def encrypt(self, value):
        return base64.b64encode(bytes(b ^ 0x5A for b in u16(value))).decode()

    def decrypt(self, value):
        return bytes(b ^ 0x5A for b in base64.b64decode(value)).decode("utf-16-be", "surrogatepass")

    def register_key(self, key):
        raise AssertionError("no key is exchanged")


def open_xor(text):
    return bytes(b ^ 0x5A for b in base64.b64decode(text))


def open_hex(text):
    b = binascii.unhexlify(text)
    return b"".join(b[i + 1:i + 2] + b[i:i + 1] for i in range(0, len(b), 2))


# ---- what can be written --------------------------------------------------------------------------------------------


class Value:
    stream, name = "output", "output"

    def __init__(self, src):
        self.src = src
        self.n = src.value()

    def build(self):
        return V.build(self.n, self.src.memo)

    def write(self, sh):
        sh.write_output(self.build())

    def shape(self):
        return (self.n.kind, self.n.cls)

    def wire(self, got, labels, st):
        d = V.diff(st["canon"].canon(self.n), part(labels, got, st["names"]))
        need(d is None, "a value was written wrongly: %s (%s)", d, V.show(self.n))

    def same(self, got, st, raw):
        st["same"].same(self.n, got)


class Text:
    def __init__(self, src, stream):
        self.stream = stream
        self.name = stream + " text" if stream in ("error", "information") else stream
        self.text = V.gen_text(src.t, 30)
        self.cls = src.t.pick([str, str, T.PSString])

    def build(self):
        return self.cls(self.text)

    def write(self, sh):
        getattr(sh, "write_" + self.stream)(self.build())

    def shape(self):
        return self.cls.__name__

    def wire(self, got, labels, st):
        need(got == ("S", u16(self.text)), "text %a was written as %s", self.text, got)

    def same(self, got, st, raw):
        if raw or self.stream == "information":
            need(isinstance(got, str), "text %a was read as %r", self.text, got)
            same_text(got, self.text, self.stream + " text")
        elif self.stream == "error":
            need(type(got) is T.ErrorRecord, "an error text was read as %s", type(got).__name__)
            same_text(got.Exception.Message, self.text, "error text")
            same_text(str(got), self.text, "error text")
            same_enum(got.CategoryInfo.Category, "ErrorCategory", 0, "error category")
            same_text(got.FullyQualifiedErrorId, "NativeCommandError", "error id")
        else:
            need(type(got).__name__ == self.stream.title() + "Record", "%s text was read as %s", self.stream,
                 type(got).__name__)
            same_text(got.Message, self.text, self.stream + " text")


class Err:
    stream, name = "error", "error record"

    def __init__(self, src):
        self.spec = ErrorSpec(src.t)
        self.made = None
        self.names = {}

    def build(self):
        if self.made is None:
            self.made = self.spec.build()
        return self.made

    def write(self, sh):
        sh.write_error(self.build())

    def shape(self):
        return (self.spec.inv is not None, self.spec.details is not None)

    def wire(self, got, labels, st):
        first = st["first"].get(id(self))
        if first is not None:
            need(got == ("Ref", first), "a record written again was written as %s", str(got)[:200])
            return
        need(got[0] == "Obj", "an error record was written as %s", got[0])
        st["first"][id(self)] = got[1]
        self.spec.check_wire(got)

    def same(self, got, st, raw):
        first = st["back"].setdefault(id(self), got)
        need(first is got, "one record was read as two")
        self.spec.same(got)


class Prog:
    stream, name = "progress", "progress"

    def __init__(self, src):
        self.spec = ProgressSpec(src.t)
        self.source = V.gen_int_in(src.t, *V.INT_RANGE["PSInt64"])
        self.made = None
        self.note = V.gen_text(src.t) if src.t.bool(1, 6) else None

    def build(self):
        if self.made is None:
            v = {k: x for k, x in self.spec.given.items()}
            names = {"activity": "Activity", "activity_id": "ActivityId", "status_description": "StatusDescription",
                     "current_operation": "CurrentOperation", "parent_activity_id": "ParentActivityId",
                     "percent_complete": "PercentComplete", "record_type": "RecordType",
                     "seconds_remaining": "SecondsRemaining"}
            kw = {names[k]: T.ProgressRecordType(x) if k == "record_type" else x for k, x in v.items()}
            self.made = T.ProgressRecord(**kw)
            if self.note is not None:
                T.add_note_property(self.made, "note", self.note)
        return self.made

    def write(self, sh):
        sh.write_progress(self.source, self.build())

    def shape(self):
        return (tuple(sorted(self.spec.given)), self.note is None)

    def wire(self, got, labels, st):
        need(field(got, "SourceId") == ("I64", self.source), "source id %d was written as %s", self.source,
             field(got, "SourceId"))
        r = field(got, "Record")
        if self.note is not None:
            first = st["first"].get(id(self))
            if first is not None:
                need(r == ("Ref", first), "a record written again was written as %s", str(r)[:200])
                return
            need(r[0] == "Obj" and field(r, "note") == ("S", u16(self.note)), "a progress record with a property was "
                 "written as %s", r)
            st["first"][id(self)] = r[1]
            r = r[5]
        v = self.spec.v
        op = v["current_operation"]
        want = {"AV": u16(v["activity"]), "AI": v["activity_id"], "S": None if op is None else u16(op),
                "PI": v["parent_activity_id"], "PC": v["percent_complete"],
                "T": u16(["Processing", "Completed"][v["record_type"]]), "SR": v["seconds_remaining"],
                "SD": u16(v["status_description"])}
        need(r[0] == "PR" and dict(r[1]) == want, "progress %s was written as %s", want, r)

    def same(self, got, st, raw):
        if raw:
            need(int(got.SourceId) == self.source, "source id %d was read as %s", self.source, got.SourceId)
            got = got.Record
        self.spec.same(got)
        if self.note is not None:
            same_text(got.note, self.note, "property of a progress record")
            first = st["back"].setdefault(id(self), got)
            need(first is got, "one record was read as two")


class Info:
    stream, name = "information", "information record"

    def __init__(self, src):
        self.spec = InfoSpec(src.t)
        self.made = None

    def build(self):
        if self.made is None:
            self.made = self.spec.build()
        return self.made

    def write(self, sh):
        sh.write_information(self.build())

    def shape(self):
        return self.spec.data.kind

    def wire(self, got, labels, st):
        first = st["first"].get(id(self))
        if first is not None:
            need(got == ("Ref", first), "a record written again was written as %s", str(got)[:200])
            return
        need(got[0] == "Obj", "an information record was written as %s", got[0])
        st["first"][id(self)] = got[1]
        self.spec.check_wire(got)

    def same(self, got, st, raw):
        first = st["back"].setdefault(id(self), got)
        need(first is got, "one record was read as two")
        self.spec.same(got)


class Source:
    def __init__(self, t, budget=10, secure=True):
        self.t = t
        self.memo = {}
        self.gen = V.Gen(t, budget, secure=secure, cycles=t.bool(1, 4))

    def value(self):
        if self.t.bool(1, 12):
            return V.N("nil")
        self.gen.budget = max(self.gen.budget, 5)
        return self.gen.value(2)

    def write(self):
        k = self.t.draw(13)
        if k < 4:
            return Value(self)
        if k < 9:
            return Text(self, ["error", "debug", "verbose", "warning", "information"][k - 4])
        return [Err, Prog, Info, Prog][k - 9](self)


def fresh():
    return {"canon": V.Canon(), "names": {}, "first": {}, "same": V.Same(), "back": {}}


def decode_objs(text, what):
    """[(stream attribute, decoded)] of one Objs document."""
    root = parse_xml(text.encode("utf-8"))
    need(root.tag == "{%s}Objs" % NS and root.attrib.get("Version") == "1.1.0.1", "%s is a %s %s", what, root.tag,
         root.attrib)
    for el in root.iter():
        need(el.tag.startswith("{%s}" % NS), "element %s is in no namespace", el.tag)
        el.tag = el.tag[len(NS) + 2:]
    dec = Decoder()
    return [(el.attrib.get("S"), dec.decode(el)) for el in root]


def check_wire(writes, text, what, streams=True):
    items = decode_objs(text, what)
    need(len(items) == len(writes), "%d writes gave %d elements", len(writes), len(items))
    labels = label_map(tuple(x for _s, x in items))
    st = fresh()
    for w, (s, x) in zip(writes, items):
        if streams:
            need(s == w.stream, "a write to %s is marked as %s", w.stream, s)
        w.wire(x, labels, st)


def read_output(chunks, form, what):
    """chunks: the writes of each document that is in what was parsed."""
    out = psrpcore.ClixmlOutput.from_clixml(form)
    have = {s: list(getattr(out, s)) for s in STREAMS}
    steps = 0
    for writes in chunks:
        st = fresh()
        for w in writes:
            need(have[w.stream], "%s: a value of stream %s is missing", what, w.stream)
            w.same(have[w.stream].pop(0), st, False)
            steps += 1
    for s, v in have.items():
        need(not v, "%s: %d values too many in stream %s", what, len(v), s)
    return steps


def read_values(chunks, text, cipher, what, streams=True):
    got = T.deserialize_clixml(text, cipher)
    both = T.deserialize_clixml(text, cipher, preserve_streams=True)
    total = sum(len(x) for x in chunks)
    need(len(got) == len(both) == total, "%s: %d values were read as %d and %d", what, total, len(got), len(both))
    i = 0
    for writes in chunks:
        st, st2 = fresh(), fresh()
        for w in writes:
            w.same(got[i], st, True)
            need(isinstance(both[i], tuple) and len(both[i]) == 2, "%s: read as %r", what, both[i])
            w.same(both[i][0], st2, True)
            need(both[i][1] is T.ClixmlStream(w.stream if streams else "output"), "%s: a value of %s was read from "
                 "%s", what, w.stream, both[i][1])
            i += 1
    return 2 * total


class Hex(T.PSCryptoProvider):
    """What the shell does off Windows, written again."""

    def encrypt(self, value):
        return binascii.hexlify(value.encode("utf-16-le", "surrogatepass")).decode().upper()

    def decrypt(self, value):
        return open_hex(value).decode("utf-16-be", "surrogatepass")

    def register_key(self, key):
        raise AssertionError("no key is exchanged")


def has_secure(n, seen=None):
    seen = set() if seen is None else seen
    if id(n) in seen:
        return False
    seen.add(id(n))
    if n.kind == "sec":
        return True
    kids = list(n.v) if n.kind == "seq" else [x for p in n.v for x in p] if n.kind == "map" else []
    return any(has_secure(x, seen) for x in kids + [x for _n, x in n.adp + n.ext])


def shell(t, m, steps=None, takes=3):
    V.unseal = open_hex
    sh = psrpcore.ClixmlShell()
    other = psrpcore.ClixmlShell() if t.bool(1, 4) else None
    src = Source(t)
    text, texts, chunks, pending, shape = "", [], [], [], []
    for _ in range(steps or t.int(1, 14)):
        if t.draw(7 + takes) < 7:
            old = [w for ws in chunks[-2:] + [pending] for w in ws]
            if old and t.bool(1, 6):
                w = t.pick(old)
                m.count("repeated")
            else:
                w = src.write()
            w.write(sh)
            pending.append(w)
            shape.append((w.name, w.shape()))
            m.count("writes")
            m.count(w.name)
            m.log("write %s %s", w.name, w.shape())
            if isinstance(w, Value) and has_secure(w.n):
                m.count("secure")
            if other is not None and t.bool():
                Text(src, "debug").write(other)
        else:
            text += retrieve(sh, pending, texts, chunks, not text, m)
            pending = []
            shape.append("take")
            if other is not None and t.bool():
                other.data_to_send()
    text += retrieve(sh, pending, texts, chunks, not text, m)
    need(sh.data_to_send() == "", "something was written twice")
    if not text:
        need(T.deserialize_clixml("", Hex()) == [] and read_output([], "", "nothing") == 0, "nothing was read as some")
    m.seen("chunks", len(chunks))
    # read it back
    body = text[len(HEAD):]
    forms = [("joined", text), ("in parts", texts), ("without header", body), ("as a single part", [text]),
             ("with \\r\\n", text.replace("\n", "\r\n") if "\n" not in "".join(texts).replace("\n<", "<") else text)]
    for what, form in forms:
        m.count("read", read_output(chunks, form, what))
    for what, form in forms[:1] + [forms[2]]:
        m.count("read", read_values(chunks, form, Hex(), what))
    for ws, one in zip(chunks, [x for x in texts if x]):
        m.count("read", read_values([ws], one, Hex(), "part"))
    if src.gen.pool:
        m.count("shared")
    m.case(tuple(shape))
    V.unseal = None


def retrieve(sh, pending, texts, chunks, first, m):
    out = sh.data_to_send()
    need(isinstance(out, str), "the shell gave %r", out)
    if not pending:
        need(out == "", "nothing was written and %a came out", out[:100])
        m.count("empty retrievals")
    else:
        want = HEAD if first else "\n"
        need(out.startswith(want + "<Objs "), "what is sent starts with %a", out[:60])
        need("#< CLIXML" not in out[len(want):].split("<Objs", 1)[0], "the header is repeated")
        need("\n" not in out[len(want):], "the document is not one line")
        check_wire(pending, out[len(want):], "what the shell sent")
        chunks.append(list(pending))
        m.count("chunks")
    texts.append(out)
    m.log("take %d writes", len(pending))
    return out


def document(t, m):
    V.unseal = open_xor
    src = Source(t)
    cipher = Xor()
    k = t.draw(4)
    streams = t.bool()
    ws = [Value(src)] if k == 0 else [src.write() if streams else Value(src) for _ in range(t.count(8))]
    vals = []
    for w in ws:
        if isinstance(w, Prog):
            o = T.PSObject()
            T.add_note_property(o, "SourceId", T.PSInt64(w.source))
            T.add_note_property(o, "Record", w.build())
        else:
            o = w.build()
        vals.append((o, T.ClixmlStream(w.stream)) if streams else o)
    if k == 0 and not isinstance(vals[0], list):
        doc = T.serialize_clixml(vals[0], cipher)
    else:
        doc = T.serialize_clixml(vals, cipher)
    check_wire(ws, doc, "a document", streams)
    m.count("read", read_values([ws], doc, cipher, "document", streams))
    m.count("read", read_values([ws], t.pick([HEAD, "#< CLIXML\r\n", "#< CLIXML\r\n\r\n", "#< CLIXML"]) + doc, cipher,
                                "document with header", streams))
    m.count("documents")
    m.case(("document", k, streams, tuple((w.name, w.shape()) for w in ws)))
    V.unseal = None


def foreign(t, m):
    """Documents as PowerShell itself may write them."""
    src = Source(t, secure=False)
    f = V.Foreign(t)
    ws, els = [], []
    for _ in range(t.count(6)):
        w = Value(src)
        w.mark = t.pick([None, "output", "Output", "OUTPUT", "error", "Error", "debug", "Debug", "VERBOSE", "warning",
                         "Warning", "progress", "Progress", "information", "Information", "unknown", ""])
        # ("debug" is DEBUG in whatever case it is written; what is unknown is output)
        low = (w.mark or "").lower()
        w.stream = low if low in STREAMS else "output"
        el = ET.fromstring(f.write(w.n, ""))
        if w.mark is not None:
            el.attrib["S"] = w.mark
        ws.append(w)
        els.append(ET.tostring(el, encoding="unicode"))
    attrs = t.pick([' Version="1.1.0.1" xmlns="%s"' % NS, " xmlns='%s' Version='1.1.0.1'" % NS, "",
                    ' Version="1.1.0.1"', '\n Version="1.1.0.1"\n xmlns="%s"' % NS])
    sep = t.pick(["", "\n", "\r\n  "])
    doc = "<Objs%s>%s</Objs>" % (attrs, sep + sep.join(els) + sep) if els or t.bool() else "<Objs%s />" % attrs
    doc = t.pick(["", HEAD, "#< CLIXML\r\n"]) + doc + t.pick(["", "\n", "\r\n"])
    m.count("read", read_values([ws], doc, Hex(), "foreign document"))
    m.count("foreign")
    m.case(("foreign", tuple((w.mark, w.shape()) for w in ws)))


def case(t, m):
    t.weighted([(5, shell), (2, document), (2, foreign)])(t, m)


def setup():
    V.unseal = None


def _sequences(m):
    """Every sequence of up to five writes and retrievals over three streams."""
    import itertools
    ops = ["output", "error", "verbose", "take"]
    for n in range(1, 6):
        for seq in itertools.product(ops, repeat=n):
            sh = psrpcore.ClixmlShell()
            text, parts, want, i, dirty, heads = "", [], {s: [] for s in STREAMS}, 0, False, 0
            for op in seq + ("take",):
                if op == "take":
                    p = sh.data_to_send()
                    need(bool(p) == dirty, "%s: retrieval gave %a", seq, p)
                    heads += p.count("#< CLIXML")
                    text += p
                    parts.append(p)
                    dirty = False
                else:
                    getattr(sh, "write_" + op)("value %d" % i)
                    want[op].append("value %d" % i)
                    i += 1
                    dirty = True
            need(heads == (1 if i else 0), "%s: %d headers", seq, heads)
            need(not i or text.startswith("#< CLIXML\n<Objs"), "%s: starts with %a", seq, text[:30])
            for form in (text, parts):
                out = psrpcore.ClixmlOutput.from_clixml(form)
                for s in STREAMS:
                    got = [str(x) if s == "output" else x.Exception.Message if s == "error" else x.Message
                           for x in getattr(out, s)]
                    need(got == want[s], "%s: stream %s was read as %s and not %s", seq, s, got, want[s])
            m.count("enumerated")


def _chars(m):
    """Every character, in a text of every stream."""
    step = 256
    for base in range(0, 0x10000, step):
        sh = psrpcore.ClixmlShell()
        text = "".join(chr(c) for c in range(base, base + step))
        for s in sorted(STREAMS - {"progress"}):
            getattr(sh, "write_" + s)(text + s)
        out = psrpcore.ClixmlOutput.from_clixml(sh.data_to_send())
        for s in sorted(STREAMS - {"progress"}):
            (x,) = getattr(out, s)
            got = x if s in ("output", "information") else x.Exception.Message if s == "error" else x.Message
            need(u16(got) == u16(text + s), "characters from %04x in stream %s came back differently", base, s)
            m.count("enumerated")


def _long(steps):
    def run(m):
        """Very many records, taken seldom or after each of them."""
        for takes in (0, 1, 7):
            m.start_trace()
            shell(Tape(seed=steps * 7 + takes), m, steps, takes)
            m.count("long output")
    return run


def units(tier):
    sizes = (40, 150, 600) if tier == "quick" else (40, 150, 600, 1100, 3000)
    return [("sequences", _sequences), ("chars", _chars)] + [("long %d" % n, _long(n)) for n in sizes]
