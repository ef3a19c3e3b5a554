"""P04: text survives exactly, output is well-formed XML with escapes only where required."""

import itertools
from xml.etree import ElementTree as ET

from .. import values as V
from ..mon import need
from ..wire import Decoder, escape, parse_xml, text_of, u16, unescape
from ..world import open_pair

import psrpcore
from psrpcore import types as T
from psrpcore.types import deserialize, serialize

PROP = "P04"
LEVEL = "exploration"
RULE = ("distinct texts (UTF-16 code units) that contain at least one unit that needs, or looks like, an escape and "
        "went through serialize, the independent decoder and deserialize")
ASSUMPTIONS = ["type name lists (<T>) hold plain identifiers", "xml.etree is a correct XML 1.0 parser"]
CASES = {"quick": 26000, "thorough": 900000}
TIME = {"quick": 60, "thorough": 800}
REQUIRE = ["texts", "foreign", "session_texts", "enumerated", "carriers"]

CIPHER = psrpcore.PSRemotingCrypto()


def wire_text(el):
    """The raw character data, after the XML parser has been through it."""
    return parse_xml(ET.tostring(el, encoding="utf-8", method="xml"))


def one(m, s, cls=T.PSString):
    """One text, whole: written canonically, read back."""
    el = wire_text(serialize(cls(s), CIPHER))
    raw = el.text or ""
    need(raw == escape(s), "text %a is written as %a, the protocol's form is %a", s, raw, escape(s))
    back = deserialize(el, CIPHER)
    need(u16(back) == u16(s), "text %a came back as %a", s, str.__str__(back))
    m.count("texts")
    if raw != s:
        m.case(u16(s))


def foreign(m, raw):
    """A text written by somebody else (raw must be XML-safe)."""
    el = ET.Element("S")
    el.text = raw
    back = deserialize(wire_text(el), CIPHER)
    want = unescape(raw)
    need(u16(back) == u16(want), "written %a means %a but was read as %a", raw, want, str.__str__(back))
    m.count("foreign")


def texts_of(t):
    k = t.draw(5)
    if k == 0:
        return "".join(t.pick(V.TRICKY) for _ in range(t.int(0, 30)))
    if k == 1:
        return "".join(chr(t.pick([0x5F, 0x78, 0x58, 0x30, 0x41, 0xD83C, 0xDF00, 0x0A, 0xFFFF, 0x1F600, 0x85])) for _ in
                       range(t.int(1, 24)))
    if k == 2:
        return "_x%s_" % "".join(t.pick("0123456789abcdefABCDEFgG_x ") for _ in range(t.int(3, 5))) + t.pick(V.TRICKY)
    return V.gen_text(t, 20)


def carriers(t, m):
    """The same kinds of text everywhere text can stand in a value."""
    s = [texts_of(t) for _ in range(6)]
    n = V.N("obj", "PSCustomObject", tostr=s[0] or "t")
    n.ext = [(s[1] or "n", V.N("str", "str", s[2])), ((s[1] or "n") + "2", V.N("str", "PSUri", s[3]))]
    n.adp = [(s[4] or "a", V.N("str", "PSScriptBlock", s[5])), ((s[4] or "a") + "_", V.N("str", "PSXml", s[0]))]
    d = V.N("map", t.pick(["dict", "PSDict", "MonDict"]), [(V.N("str", "str", s[2]), V.N("str", "PSString", s[1]))])
    if u16(s[2] + "k") != u16(s[2]):
        d.v.append((V.N("str", "str", s[2] + "k"), V.N("seq", "list", [V.N("str", "str", x) for x in s[:3]])))
    ext = V.N("str", "PSString", s[3], ext=[(s[5] or "e", V.N("str", "str", s[4]))])
    name = s[2] or "f"
    if name.startswith(("__", "_PlainA__")) or name in dir(V.PlainA()) + ["PSObject"]:
        name = "f" + name
    plain = V.N("pyobj", "PlainA")
    plain.ext = [(name, V.N("str", "str", s[0]))]
    root = V.N("seq", t.pick(["list", "PSStack", "PSQueue", "PSIEnumerable"]), [n, d, ext, plain])
    m.log("value %s", V.show(root))
    raw = ET.tostring(serialize(V.build(root), CIPHER), encoding="utf-8", method="xml")
    bad = V.diff(V.canon(root), Decoder().decode(parse_xml(raw)))
    need(bad is None, "written form differs: %s", bad)
    V.same(root, deserialize(parse_xml(raw), CIPHER))
    V.same(root, deserialize(parse_xml(V.encode(root, t).encode("utf-8")), CIPHER))
    m.count("carriers")
    for x in s:
        if escape(x) != x:
            m.case(u16(x))


def session(t, m):
    """Text in records and pipeline data of a session."""
    p = open_pair()
    c, s = p.client, p.server
    ps = psrpcore.ClientPowerShell(c)
    cmd, pname, pval = texts_of(t) or "c", texts_of(t) or "p", texts_of(t)
    ps.add_command(cmd)
    ps.add_parameter(pname, pval)
    sp = psrpcore.ServerPipeline(s, ps.pipeline_id)
    ps.start()
    p.pump()
    got = sp.metadata.commands[0]
    need(u16(got.command_text) == u16(cmd), "command %a arrived as %a", cmd, got.command_text)
    need(u16(got.parameters[0][0]) == u16(pname) and u16(got.parameters[0][1]) == u16(pval),
         "parameter %a=%a arrived as %a", pname, pval, got.parameters[0])
    sp.start()
    x = [texts_of(t) for _ in range(12)]
    x[8] = x[8] or "s"  # an empty stack trace is the same as none
    sp.write_output(x[0])
    sp.write_verbose(x[1])
    sp.write_debug(x[2])
    sp.write_warning(x[3])
    sp.write_error(T.NETException(Message=x[4]), T.ErrorCategoryInfo(Reason=x[5], Activity=x[6]),
                   fully_qualified_error_id=x[7], script_stack_trace=x[8])
    sp.write_progress(x[9] or "a", 3, x[10] or "b", current_operation=x[11] or None)
    sp.write_information(x[0], x[1], tags=[x[2], x[3]], user=x[4], computer=x[5])
    s.send_event(1, x[6], sender=x[7], message_data=x[8], computer=x[9])
    evs = [e for _l, _d, e in p.pump()]
    recs = {type(e).__name__: e for e in evs}

    def eq(a, b, what):
        need(a is not None and u16(a) == u16(b), "%s %a arrived as %a", what, b, a)

    eq(recs["PipelineOutputEvent"].data, x[0], "output")
    eq(recs["VerboseRecordEvent"].record.Message, x[1], "verbose message")
    eq(recs["DebugRecordEvent"].record.Message, x[2], "debug message")
    eq(recs["WarningRecordEvent"].record.Message, x[3], "warning message")
    er = recs["ErrorRecordEvent"].record
    eq(er.Exception.Message, x[4], "exception message")
    eq(er.CategoryInfo.Reason, x[5], "category reason")
    eq(er.CategoryInfo.Activity, x[6], "category activity")
    eq(er.FullyQualifiedErrorId, x[7], "error id")
    eq(er.ScriptStackTrace, x[8], "stack trace")
    pr = recs["ProgressRecordEvent"].record
    eq(pr.Activity, x[9] or "a", "activity")
    eq(pr.StatusDescription, x[10] or "b", "status")
    if x[11]:
        eq(pr.CurrentOperation, x[11], "current operation")
    ir = recs["InformationRecordEvent"].record
    eq(ir.MessageData, x[0], "information")
    eq(ir.Source, x[1], "information source")
    need(len(ir.Tags) == 2, "two tags arrived as %r", ir.Tags)
    eq(ir.Tags[0], x[2], "tag")
    eq(ir.Tags[1], x[3], "tag")
    eq(ir.User, x[4], "user")
    eq(ir.Computer, x[5], "computer")
    ue = recs["UserEventEvent"].event
    eq(ue.SourceIdentifier, x[6], "source identifier")
    eq(ue.Sender, x[7], "sender")
    eq(ue.MessageData, x[8], "message data")
    eq(ue.ComputerName, x[9], "computer name")
    m.count("session_texts", 26)


def case(t, m):
    k = t.draw(10)
    if k < 4:
        s = texts_of(t)
        m.log("text %a", s)
        one(m, s, t.pick([T.PSString, T.PSString, T.PSUri, T.PSScriptBlock, T.PSXml, str]))
        raw = "".join(x for x in s if escape(x) == x or x in "_")
        m.log("foreign %a", raw)
        foreign(m, raw)
    elif k < 9:
        carriers(t, m)
    else:
        session(t, m)


ALPHA = ["_", "x", "X", "0", "F", "a", "\ud83c", "\udf00", "\n", "\U0001f300"]


def _points(lo, hi):
    def run(m):
        for c in range(lo, hi):
            ch = chr(c)
            if c < 0x10000:
                one(m, ch)
            if c < 0x3000 or 0xD700 <= c < 0x10000:
                one(m, "_" + ch + "x")
                one(m, "_x" + ch + "041_")
        for a in range(lo, hi, 512):
            one(m, "|".join(chr(c) for c in range(a, min(hi, a + 512))))
        m.count("enumerated", hi - lo)
    return run


def _short(first, n):
    def run(m):
        for k in range(n):
            for rest in itertools.product(ALPHA, repeat=k):
                one(m, first + "".join(rest))
                m.count("enumerated")
    return run


def _near(pos, n):
    """Every escape-like text with two symbols replaced, as written by us and by others."""
    def run(m):
        sym = ["_", "x", "X", "0", "1", "9", "a", "f", "A", "F", "g", "G", " ", "\u0660", "\u0966"]
        for base in ("_x0041_", "_xd83c_", "_x005F_x0041_", "_xD83C__xDF00_"):
            for j in range(len(base)):
                for a in sym:
                    for b in sym:
                        s = list(base)
                        s[pos % len(base)] = a
                        s[j] = b
                        s = "".join(s)
                        one(m, s)
                        foreign(m, s)
                        foreign(m, s + "_x0042_")
                        foreign(m, "_" + s)
                        m.count("enumerated", 4)
    return run


def _surrogates(m):
    for hi in range(0xD800, 0xDC00, 37):
        for lo in range(0xDC00, 0xE000, 61):
            one(m, chr(hi) + chr(lo))
            one(m, chr(lo) + chr(hi))
            foreign(m, "_x%04X__x%04x_" % (hi, lo))
            m.count("enumerated", 3)


def units(tier):
    out = [("surrogate pairs", _surrogates)]
    for lo in range(0, 0x110000, 0x4000):
        out.append(("code points %#x" % lo, _points(lo, lo + 0x4000)))
    for a in ALPHA:
        out.append(("short texts %a" % a, _short(a, 5 if tier == "quick" else 6)))
    for p in range(14):
        out.append(("near escapes %d" % p, _near(p, 0)))
    return out
