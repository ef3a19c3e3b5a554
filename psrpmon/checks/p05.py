"""P05: primitive values keep their exact type and value; out of range values are refused."""

import datetime
import decimal
import struct
import uuid
from xml.etree import ElementTree as ET

from .. import lits
from .. import values as V
from ..mon import Violation, need
from ..wire import Decoder, flt_key, parse_xml

import psrpcore
from psrpcore import types as T
from psrpcore.types import deserialize, serialize

PROP = "P05"
LEVEL = "exploration"
RULE = ("distinct (type, value) pairs that were written, decoded by the independent decoder, read back, and read back "
        "from the lexical forms other implementations use")
ASSUMPTIONS = ["plain Python integers lie within Int64", "time zone offsets are whole minutes",
               "Decimal values fit the .NET decimal (28 digits)", "durations fit the .NET TimeSpan"]
CASES = {"quick": 120000, "thorough": 4000000}
TIME = {"quick": 60, "thorough": 800}
REQUIRE = ["values", "foreign_forms", "refused", "enumerated"]

CIPHER = psrpcore.PSRemotingCrypto()


def check(n, m, t=None):
    o = V.build(n)
    raw = ET.tostring(serialize(o, CIPHER), encoding="utf-8", method="xml")
    el = parse_xml(raw)
    bad = V.diff(V.wire_prim(n), Decoder().decode(el))
    need(bad is None, "%s is written as %a: %s", V.show(n), raw, bad)
    V.same_prim(n, deserialize(el, CIPHER), "$")
    m.count("values")
    m.case((n.kind, n.cls, n.v if not isinstance(n.v, float) else flt_key(n.v)))
    m.seen("tags", el.tag)
    if t is not None:
        f = V.encode(n, t)
        V.same_prim(n, deserialize(parse_xml(f), CIPHER), f)
        m.count("foreign_forms")


def refuse(cls, v, m):
    try:
        got = cls(v)
    except ValueError:
        m.count("refused")
        return
    raise Violation("%s(%r) is out of range but gave %r" % (cls.__name__, v, got))


def lexical(t, m):
    """Forms only other implementations write."""
    k = t.draw(5)
    if k == 0:
        v = V.gen_float(t)
        if v != v or v in (float("inf"), float("-inf")):
            txt, v = t.pick([("NaN", float("nan")), ("INF", float("inf")), ("-INF", float("-inf")),
                             ("Infinity", float("inf")), ("-Infinity", float("-inf"))])
        else:
            txt = t.pick(["%.17g", "%.17G", "%.17e", "%.17E"]) % v
        tag, cls = t.pick([("Db", T.PSDouble), ("Sg", T.PSSingle)])
        got = deserialize(parse_xml("<%s>%s</%s>" % (tag, txt, tag)), CIPHER)
        need(type(got) is cls and flt_key(got) == flt_key(v), "%s %s was read as %r", tag, txt, got)
    elif k == 1:
        u = uuid.UUID(int=t.draw(1 << 128))
        txt = t.pick([str(u), str(u).upper(), "{%s}" % u])
        got = deserialize(parse_xml("<G>%s</G>" % txt), CIPHER)
        need(type(got) is T.PSGuid and got.int == u.int, "G %s was read as %r", txt, got)
    elif k == 2:
        y, mo, d, h, mi, s, us, ns, off = V.gen_dt(t)
        nd = t.int(0, 7)
        frac = "%07d" % (us * 10 + ns // 100)
        frac = frac[:nd]
        txt = "%04d-%02d-%02dT%02d:%02d:%02d%s" % (y, mo, d, h, mi, s, "." + frac if frac else "")
        if off is not None:
            txt += "Z" if off == 0 and t.bool() else "%s%02d:%02d" % ("-" if off < 0 else "+", abs(off) // 60,
                                                                       abs(off) % 60)
        ticks = int((frac + "0000000")[:7])
        n = V.N("dt", "PSDateTime", (y, mo, d, h, mi, s, ticks // 10, ticks % 10 * 100, off))
        V.same_prim(n, deserialize(parse_xml("<DT>%s</DT>" % txt), CIPHER), txt)
    elif k == 3:
        v = t.bool()
        got = deserialize(parse_xml("<B>%s</B>" % ("true" if v else "false")), CIPHER)
        need(got is v, "B was read as %r", got)
    else:
        n = V.N("dec", "PSDecimal", V.gen_decimal(t))
        txt = format(n.v, "f")
        if t.bool():
            txt = txt + ("0" * t.int(0, 4) if "." in txt else ".0")
        V.same_prim(n, deserialize(parse_xml("<D>%s</D>" % txt), CIPHER), txt)
    m.count("foreign_forms")


def case(t, m):
    k = t.draw(10)
    if k == 0:
        lexical(t, m)
        return
    if k == 1:
        c = t.pick(sorted(V.INT_CLS))
        lo, hi = V.INT_RANGE[c]
        d = 1 + (t.draw(4) if t.bool() else t.draw(1 << t.int(1, 80)))
        refuse(V.cls_of(c), hi + d if t.bool() else lo - d, m)
        return
    n = V.gen_prim(t)
    while n.kind not in V.PRIM_KINDS:
        n = V.gen_prim(t)
    m.log("%s", V.show(n))
    check(n, m, t)


def _ints(cls, lo, hi):
    def run(m):
        for v in range(lo, hi):
            check(V.N("int", cls, v), m)
            m.count("enumerated")
    return run


def _chars(lo, hi):
    def run(m):
        for v in range(lo, hi):
            check(V.N("char", "PSChar", v), m)
            if not 0xD800 <= v <= 0xDFFF:
                got = T.PSChar(chr(v))
                need(int(got) == v, "PSChar(%a) is %d", chr(v), int(got))
            m.count("enumerated")
    return run


def _edges(m):
    for c, (lo, hi) in V.INT_RANGE.items():
        vals = set()
        for k in range(65):
            for d in (-2, -1, 0, 1, 2):
                for s in (1, -1):
                    vals.add(s * (1 << k) + d)
        for d in range(40):
            vals |= {lo + d, hi - d, lo - 1 - d, hi + 1 + d}
        vals |= set(lits.NEAR)
        for v in sorted(vals):
            m.count("enumerated")
            if lo <= v <= hi:
                check(V.N("int", c, v), m)
            elif c != "int":
                refuse(V.cls_of(c), v, m)
    for v in (-1, 65536, 65537, -65536, 1 << 20, 1 << 32):
        refuse(T.PSChar, v, m)
    for v in (True, False):
        check(V.N("bool", None, v), m)


def _durations(sign):
    def run(m):
        units_ = [1, 10, 100, 1000, 10**4, 10**5, 10**6, 10**7, 6 * 10**8, 36 * 10**9, 864 * 10**9]
        for a in range(0, 130):
            for u in units_:
                check(V.N("dur", "PSDuration", sign * a * u), m)
                if (a * u) % 10 == 0:
                    check(V.N("dur", "timedelta", sign * a * u), m)
                m.count("enumerated", 2)
        for d in (0, 1, 9, 10, 11, 30):
            for h in (0, 1, 10, 23):
                for mi in (0, 1, 10, 59):
                    for s in (0, 1, 10, 20, 50, 59):
                        for f in (0, 1, 10, 1000000, 9999999, 5000000):
                            v = (((d * 24 + h) * 60 + mi) * 60 + s) * 10**7 + f
                            check(V.N("dur", "PSDuration", sign * v), m)
                            m.count("enumerated")
        for v in (V.TICKS_MAX, V.TICKS_MAX - 1):
            check(V.N("dur", "PSDuration", sign * v), m)
    return run


def _dates(m):
    for y in list(range(1, 10000, 97)) + [9, 10, 99, 100, 999, 1000, 9999]:
        for mo, d in ((1, 1), (12, 31), (2, 28), (10, 10)):
            for us, ns in ((0, 0), (0, 100), (1, 0), (10, 0), (100000, 0), (999999, 900), (120000, 0), (500, 500)):
                for off in (None, 0, 60, -1, 599, -840):
                    check(V.N("dt", "PSDateTime", (y, mo, d, 23, 5, 9, us, ns, off)), m)
                    m.count("enumerated")


def _floats(m):
    for e in range(-330, 310):
        for f in (1.0, 1.5, 9.999999999999998, 1.2345678901234567):
            try:
                v = f * 10.0**e if e > -300 else float("%re%d" % (f, e))
            except OverflowError:
                continue
            for c in ("PSDouble", "PSSingle", "float"):
                check(V.N("flt", c, v), m)
                check(V.N("flt", c, -v), m)
                m.count("enumerated", 2)
    for b in range(0, 1 << 16, 7):
        v = struct.unpack(">d", (b << 48).to_bytes(8, "big"))[0]
        check(V.N("flt", "PSDouble", v), m)
        m.count("enumerated")


def _misc(m):
    for n in [*range(0, 130), 255, 256, 257, 511, 513, 1000, 4095, 4096, 4097, 30001, 65535, 65536, 100003]:
        check(V.N("bin", "bytes", bytes((n * 7 + i * 13) & 255 for i in range(n))), m)
        check(V.N("bin", "PSByteArray", bytes([n & 255]) * n), m)
    for e in range(-28, 29):
        for d in (0, 1, 10, 123, 79228162514264337593543950335):
            v = decimal.Decimal(d).scaleb(e, decimal.Context(prec=80))
            for c in ("PSDecimal", "Decimal"):
                check(V.N("dec", c, v), m)
                if v:
                    check(V.N("dec", c, -v), m)
    for k in range(2, 5):
        for a in (0, 1, 10, 2147483647):
            for i in range(k):
                v = [1] * k
                v[i] = a
                check(V.N("ver", "PSVersion", tuple(v)), m)
    for i in range(128):
        check(V.N("guid", "PSGuid", uuid.UUID(int=1 << i)), m)
        check(V.N("guid", "UUID", uuid.UUID(int=(1 << 128) - 1 - (1 << i))), m)
    for cls, text in ((T.PSVersion, "1"), (T.PSVersion, "1.2.3.4.5"), (T.PSVersion, "a.b"), (T.PSVersion, ""),
                      (T.PSVersion, "1.-2")):
        refuse(cls, text, m)
    m.count("enumerated", 1000)


def units(tier):
    out = [("edges", _edges), ("durations +", _durations(1)), ("durations -", _durations(-1)), ("dates", _dates),
           ("floats", _floats), ("misc", _misc), ("PSByte", _ints("PSByte", 0, 256)),
           ("PSSByte", _ints("PSSByte", -128, 128))]
    for lo in range(0, 65536, 8192):
        out.append(("PSChar %d" % lo, _chars(lo, lo + 8192)))
        if tier == "thorough":
            out.append(("PSUInt16 %d" % lo, _ints("PSUInt16", lo, lo + 8192)))
            out.append(("PSInt16 %d" % lo, _ints("PSInt16", lo - 32768, lo + 8192 - 32768)))
    return out
