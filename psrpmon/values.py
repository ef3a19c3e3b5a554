"""Specified values: generation, construction with the library, and the oracle for what has to come back.

A value is specified as a tree (graph) of N nodes that knows nothing about the library.  build() makes the library (or
plain Python) object, canon() the canonical wire tree the independent decoder must find, same() compares a value that
came back with the specification, encode() writes the value the way another implementation would.
"""

import base64
import datetime
import decimal
import enum
import queue
import struct
import uuid

from . import env, lits  # noqa: F401
from .mon import Violation, need
from .wire import escape, flt_key, u16, units

import psrpcore
from psrpcore import types as T

_LISTS = (list, dict)


# ---- types of the application that uses the library -----------------------------------------------------------------


@T.PSType(["Monitor.Thing"], adapted_properties=[T.PSNoteProperty("A", ps_type=T.PSInt), T.PSNoteProperty("B")],
          extended_properties=[T.PSNoteProperty("D"), T.PSAliasProperty("E", "B"),
                               T.PSScriptProperty("F", lambda o: 7)])
class MonThing(T.PSObject):
    pass


@T.PSType(["Monitor.Sub"], adapted_properties=[T.PSNoteProperty("Z")])
class MonSub(MonThing):
    pass


@T.PSType(["Monitor.List"])
class MonList(T.PSListBase):
    pass


@T.PSType(["Monitor.Stack"])
class MonStack(T.PSStackBase):
    pass


@T.PSType(["Monitor.Queue"])
class MonQueue(T.PSQueueBase):
    pass


@T.PSType(["Monitor.Dict"])
class MonDict(T.PSDictBase):
    pass


@T.PSType(["Monitor.Level"])
class MonLevel(T.PSEnumBase):
    none = 0
    Low = 1
    High = 2
    Top = 2147483647
    Neg = -5


@T.PSType(["Monitor.Wide"])
class MonWide(T.PSEnumBase, base_type=T.PSUInt64):
    A = 0
    B = 18446744073709551615


@T.PSType(["Monitor.Byte"])
class MonByte(T.PSEnumBase, base_type=T.PSByte):
    A = 3
    B = 255


@T.PSType(["Monitor.Flags"])
class MonFlags(T.PSFlagBase):
    none = 0
    R = 1
    W = 2
    X = 4
    S = 8


@T.PSType(["Monitor.WFlags"])
class MonWFlags(T.PSFlagBase, base_type=T.PSInt64):
    A = 1
    B = 4294967296


class PyColor(enum.Enum):
    Red = 1
    Blue = 5000000000
    none = 0


class PyName(enum.Enum):
    One = "one"
    Two = "_x0041_"


class PyNum(enum.IntEnum):
    P = 3
    Q = -2147483649


class PyBits(enum.Flag):
    A = 1
    B = 2
    C = 4


class PlainA:
    pass


class PlainB:
    kind = "b"

    def __init__(self):
        self.__hidden = 1

    @property
    def answer(self):
        return 42

    def method(self):
        return None


PY_ENUMS = {"PyColor": PyColor, "PyName": PyName, "PyNum": PyNum, "PyBits": PyBits}
PS_ENUMS = {c.__name__: c for c in (MonLevel, MonWide, MonByte, MonFlags, MonWFlags)}
for _n in ("ConsoleColor", "ApartmentState", "PSThreadOptions", "RunspacePoolState", "PSInvocationState",
           "ErrorCategory", "CommandTypes", "RemoteStreamOptions", "PipelineResultTypes", "ProgressRecordType",
           "CommandOrigin", "SessionStateEntryVisibility", "PSCredentialTypes"):
    PS_ENUMS[_n] = getattr(T, _n)
ENUM_TAG = {"MonWide": "U64", "MonByte": "By", "MonWFlags": "I64"}
# What the enum displays as: every defined member contained in it (declaration order), the zero only when alone.
ENUM_NAMES = {}
for _n, _c in list(PS_ENUMS.items()) + list(PY_ENUMS.items()):
    ENUM_NAMES[_n] = [(k, m.value) for k, m in _c.__members__.items()]

INT_CLS = {"PSByte": "By", "PSSByte": "SB", "PSUInt16": "U16", "PSInt16": "I16", "PSUInt": "U32", "PSInt": "I32",
           "PSUInt64": "U64", "PSInt64": "I64"}
INT_RANGE = {"PSByte": (0, 255), "PSSByte": (-128, 127), "PSUInt16": (0, 65535), "PSInt16": (-32768, 32767),
             "PSUInt": (0, 2**32 - 1), "PSInt": (-(2**31), 2**31 - 1), "PSUInt64": (0, 2**64 - 1),
             "PSInt64": (-(2**63), 2**63 - 1), "int": (-(2**63), 2**63 - 1)}
STR_CLS = {"str": "S", "PSString": "S", "PSUri": "URI", "PSXml": "XD", "PSScriptBlock": "SBK"}
SEQ_CLS = {"list": ("LST", "PSList"), "PSList": ("LST", "PSList"), "PSStack": ("STK", "PSStack"),
           "PSIEnumerable": ("IE", "PSIEnumerable"), "PSQueue": ("QUE", "PSQueue"), "Queue": ("QUE", "PSQueue"),
           "MonList": ("LST", "MonList"), "MonStack": ("STK", "MonStack"), "MonQueue": ("QUE", "MonQueue")}
MAP_CLS = {"dict": "PSDict", "PSDict": "PSDict", "PSPrimitiveDictionary": "PSPrimitiveDictionary",
           "MonDict": "MonDict"}
SEQ_NAMES = {
    "PSList": ["System.Collections.ArrayList", "System.Object"],
    "PSStack": ["System.Collections.Stack", "System.Object"],
    "PSIEnumerable": ["System.Collections.IEnumerable", "System.Object"],
    "PSQueue": ["System.Collections.Queue", "System.Object"],
    "PSDict": ["System.Collections.Hashtable", "System.Object"],
    "PSPrimitiveDictionary": ["System.Management.Automation.PSPrimitiveDictionary", "System.Collections.Hashtable",
                              "System.Object"],
    "MonList": ["Monitor.List", "System.Object"],
    "MonStack": ["Monitor.Stack", "System.Object"],
    "MonQueue": ["Monitor.Queue", "System.Object"],
    "MonDict": ["Monitor.Dict", "System.Object"],
    "PSObject": ["System.Object"],
    "PSCustomObject": ["System.Management.Automation.PSCustomObject", "System.Object"],
    "MonThing": ["Monitor.Thing", "System.Object"],
    "MonSub": ["Monitor.Sub", "Monitor.Thing", "System.Object"],
}
ENUM_TYPE = {
    "ConsoleColor": "System.ConsoleColor",
    "ApartmentState": "System.Threading.ApartmentState",
    "PSThreadOptions": "System.Management.Automation.Runspaces.PSThreadOptions",
    "RunspacePoolState": "System.Management.Automation.Runspaces.RunspacePoolState",
    "PSInvocationState": "System.Management.Automation.PSInvocationState",
    "ErrorCategory": "System.Management.Automation.ErrorCategory",
    "CommandTypes": "System.Management.Automation.CommandTypes",
    "RemoteStreamOptions": "System.Management.Automation.RemoteStreamOptions",
    "PipelineResultTypes": "System.Management.Automation.Runspaces.PipelineResultTypes",
    "ProgressRecordType": "System.Management.Automation.ProgressRecordType",
    "CommandOrigin": "System.Management.Automation.CommandOrigin",
    "SessionStateEntryVisibility": "System.Management.Automation.SessionStateEntryVisibility",
    "PSCredentialTypes": "System.Management.Automation.PSCredentialTypes",
    "MonLevel": "Monitor.Level", "MonWide": "Monitor.Wide", "MonByte": "Monitor.Byte", "MonFlags": "Monitor.Flags",
    "MonWFlags": "Monitor.WFlags",
}
# Classes of the library whose objects are read back as the class: type names, then fields with what they hold.
LIB = {
    "NETException": (["System.Exception", "System.Object"], "adp",
                     [("Message", "text!"), ("Data", "map"), ("HelpLink", "text"), ("HResult", "PSInt"),
                      ("InnerException", "any"), ("Source", "text"), ("StackTrace", "text"), ("TargetSite", "text")]),
    "ErrorDetails": (["System.Management.Automation.ErrorDetails", "System.Object"], "adp",
                     [("Message", "text"), ("RecommendedAction", "text")]),
    "ErrorCategoryInfo": (["System.Management.Automation.ErrorCategoryInfo", "System.Object"], "adp",
                          [("Category", "ErrorCategory"), ("Activity", "text"), ("Reason", "text"),
                           ("TargetName", "text"), ("TargetType", "text")]),
    "InformationRecord": (["System.Management.Automation.InformationRecord", "System.Object"], "adp",
                          [("MessageData", "any"), ("Source", "text"), ("TimeGenerated", "dt"), ("Tags", "texts"),
                           ("User", "text"), ("Computer", "text"), ("ProcessId", "PSUInt"),
                           ("NativeThreadId", "PSUInt"), ("ManagedThreadId", "PSUInt")]),
    "Coordinates": (["System.Management.Automation.Host.Coordinates", "System.ValueType", "System.Object"], "adp",
                    [("X", "PSInt!"), ("Y", "PSInt!")]),
    "Size": (["System.Management.Automation.Host.Size", "System.ValueType", "System.Object"], "adp",
             [("Width", "PSInt!"), ("Height", "PSInt!")]),
    "Rectangle": (["System.Management.Automation.Host.Rectangle", "System.ValueType", "System.Object"], "adp",
                  [("Left", "PSInt!"), ("Top", "PSInt!"), ("Right", "PSInt!"), ("Bottom", "PSInt!")]),
    "ChoiceDescription": (["System.Management.Automation.Host.ChoiceDescription", "System.Object"], "adp",
                          [("Label", "text!"), ("HelpMessage", "text")]),
    "CommandMetadataCount": (["Selected.Microsoft.PowerShell.Commands.GenericMeasureInfo",
                              "System.Management.Automation.PSCustomObject", "System.Object"], "ext",
                             [("Count", "PSInt!")]),
}
PRIM_KINDS = {"nil", "bool", "str", "char", "int", "flt", "dec", "bin", "dt", "dur", "guid", "ver"}


def cls_of(name):
    """The class a name stands for."""
    if name == "Queue":
        return queue.Queue
    g = globals()
    if name in g:
        return g[name]
    c = getattr(T, name, None)
    if c is not None:
        return c
    return {"str": str, "int": int, "float": float, "Decimal": decimal.Decimal, "bytes": bytes,
            "datetime": datetime.datetime, "timedelta": datetime.timedelta, "UUID": uuid.UUID, "list": list,
            "dict": dict}[name]


class N:
    """One node of a specified value."""

    __slots__ = ("kind", "cls", "v", "ext", "adp", "names", "tostr")

    def __init__(self, kind, cls=None, v=None, ext=None, adp=None, names=None, tostr=None):
        self.kind, self.cls, self.v = kind, cls, v
        self.ext, self.adp, self.names, self.tostr = ext or [], adp or [], names, tostr

    def __repr__(self):
        return show(self)


def show(n, seen=None, depth=0):
    seen = seen if seen is not None else set()
    if id(n) in seen or depth > 6:
        return "<%s...>" % n.kind
    s = n.kind if n.cls is None else n.cls
    if n.kind in ("seq",):
        seen.add(id(n))
        body = ", ".join(show(x, seen, depth + 1) for x in n.v)
    elif n.kind == "map":
        seen.add(id(n))
        body = ", ".join("%s: %s" % (show(a, seen, depth + 1), show(b, seen, depth + 1)) for a, b in n.v)
    elif n.kind in ("obj", "pyobj", "known", "lib"):
        seen.add(id(n))
        body = "" if n.v is None else repr(n.v)
    else:
        body = ascii(n.v)
        if len(body) > 120:
            body = body[:100] + "...[%d]" % len(body)
    extra = ""
    if n.adp:
        extra += " adapted{%s}" % ", ".join("%a=%s" % (k, show(x, seen, depth + 1)) for k, x in n.adp)
    if n.ext:
        extra += " extended{%s}" % ", ".join("%a=%s" % (k, show(x, seen, depth + 1)) for k, x in n.ext)
    if n.names is not None:
        extra += " names%r" % (n.names,)
    if n.tostr is not None:
        extra += " text %a" % n.tostr
    return "%s(%s)%s" % (s, body, extra)


def size(n):
    seen = set()

    def go(x):
        if id(x) in seen:
            return 1
        seen.add(id(x))
        k = 1
        if x.kind == "seq":
            k += sum(go(c) for c in x.v)
        elif x.kind == "map":
            k += sum(go(a) + go(b) for a, b in x.v)
        for _n, c in x.adp:
            k += go(c)
        for _n, c in x.ext:
            k += go(c)
        return k

    return go(n)


# ---- generators -----------------------------------------------------------------------------------------------------

TRICKY = ["a", "_", "x", "X", "0", "5", "F", "f", "D", "8", "_x", "_X", "_x005F_", "_x000A_", "_xD83C_", "_xdf00_",
          "_x0041_", "x0041_", "_x004", "_x00zz_", "\n", "\r", "\t", " ", "<", ">", "&", '"', "'", "]]>", "\x00",
          "\x01", "\x0b", "\x1f", "\x7f", "\x80", "\x85", "\x9f", "\xa0", "\ud800", "\udbff", "\udc00", "\udfff",
          "\ud83c", "\udf00", "\ufffe", "\uffff", "\ufffd", "\ufeff", "\U0001f600", "\U00010000", "\U0010ffff", "é",
          "中", "\u2028", "e\u0301", "\u0660", "Z", ".", "-", "\\", "$", "{", "}", "%", "PSObject", "#< CLIXML", "true",
          "1", "None", "\u02b0", "A", "_x005f_x", "\ue000", "\ufdd0", "0x1F"]


def gen_text(t, maxlen=12):
    k = t.draw(12)
    if k < 3:
        return "".join(chr(97 + t.draw(26)) for _ in range(t.int(0, 6)))
    if k < 8:
        return "".join(t.pick(TRICKY) for _ in range(t.int(0, maxlen)))
    if k == 8 and lits.STRS:
        return t.pick(lits.STRS) + ("" if t.bool() else t.pick(TRICKY))
    if k == 9:
        return "".join(chr(t.draw(0x110000)) for _ in range(t.int(0, 6)))
    if k == 10:
        return (t.pick(TRICKY) + t.pick(TRICKY)) * t.int(1, 40)
    return "".join(chr(t.draw(0x180)) for _ in range(t.int(0, 10)))


def gen_name(t):
    """A property name: mostly an identifier, sometimes any text."""
    if t.bool(3, 4):
        return t.pick(["Name", "Value", "Id", "alpha", "beta", "gamma", "Count", "p1", "p2", "p3"])
    return gen_text(t, 4) or "e"


def gen_int_in(t, lo, hi):
    k = t.draw(8)
    if k == 0:
        return max(lo, min(hi, t.int(0, 10)))
    if k == 1:
        return lo + t.draw(min(4, hi - lo + 1))
    if k == 2:
        return hi - t.draw(min(4, hi - lo + 1))
    if k == 3:
        b = 1 << t.draw(64)
        v = b + t.int(-1, 1)
        if t.bool():
            v = -v
        return max(lo, min(hi, v))
    if k == 4 and lits.NEAR:
        return max(lo, min(hi, t.pick(lits.NEAR)))
    if k == 5:
        return max(lo, min(hi, t.int(-130, 300)))
    return lo + t.draw(hi - lo + 1)


def gen_float(t):
    k = t.draw(6)
    if k == 0:
        return float(t.int(-3, 1000))
    if k == 1:
        return t.pick([0.0, -0.0, 1.5, -2.25, 0.1, 1e-5, 1e16, 1e15, 9999999999999998.0, 123456789.123, 5e-324,
                       1.7976931348623157e308, float("inf"), float("-inf"), float("nan"), 3.4028234663852886e38, 1e-7,
                       1e22, 1e21, 0.0001, 1e-4])
    if k == 2:
        return struct.unpack(">d", t.draw(1 << 64).to_bytes(8, "big"))[0]
    if k == 3:
        return t.int(-(10**6), 10**6) / 10 ** t.int(0, 12)
    if k == 4:
        return float(t.int(1, 9)) * 10.0 ** t.int(-30, 30)
    return struct.unpack(">f", t.draw(1 << 32).to_bytes(4, "big"))[0]


def gen_decimal(t):
    digits = t.draw(10 ** t.int(0, 28)) if t.bool(2, 3) else t.pick([0, 1, 10, 100, 79228162514264337593543950335])
    d = decimal.Decimal(digits).scaleb(-t.int(0, 28), decimal.Context(prec=60))
    if t.bool(1, 6):
        d = t.pick([decimal.Decimal("1E+3"), decimal.Decimal("1E-7"), decimal.Decimal("0E-9"), decimal.Decimal("0E+5"),
                    decimal.Decimal("100.00"), decimal.Decimal("1.10E+10")])
    return -d if t.bool(1, 3) and d else d


def gen_dt(t):
    """(y, mo, d, h, mi, s, us, ns, off) with ns a multiple of 100 and off None or minutes."""
    y = t.pick([2021, 1, 1601, 1970, 1999, 2000, 2038, 9999, 999, 99]) if t.bool(1, 3) else t.int(1, 9999)
    mo = t.int(1, 12)
    d = t.int(1, 28) if t.bool(3, 4) else min(31, [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo - 1])
    h, mi, s = t.pick([0, 23, 12, 9, 10]), t.int(0, 59), t.int(0, 59)
    k = t.draw(5)
    us = [0, t.draw(1000000), t.pick([1, 10, 100, 999999, 500000, 100000, 120000]), 0, t.draw(1000)][k]
    ns = [0, 100 * t.draw(10), 100 * t.draw(10), 100 * t.int(1, 9), 900][k]
    off = [None, 0, t.int(-14 * 60, 14 * 60), t.pick([60, -60, 330, -30, 30, 765, -570, 840, -840, 1, -1, 599])][
        t.draw(4)]
    return (y, mo, d, h, mi, s, us, ns, off)


TICKS_MAX = 922337203685477580


def gen_ticks(t):
    """A duration in 100 ns ticks."""
    k = t.draw(8)
    if k == 0:
        v = t.int(0, 100)
    elif k == 1:
        v = t.pick([10**7, 10**8, 6 * 10**8, 36 * 10**9, 864 * 10**9, 10**6, TICKS_MAX, 600 * 10**7, 10 * 36 * 10**9])
    elif k == 2:
        v = t.int(0, 200) * t.pick([10**7, 6 * 10**8, 36 * 10**9, 864 * 10**9])
    elif k == 3:
        v = (((t.int(0, 40) * 24 + t.int(0, 23)) * 60 + t.int(0, 59)) * 60 + t.int(0, 59)) * 10**7 + t.draw(10**7)
    elif k == 4:
        v = t.draw(10 ** t.int(1, 18))
    elif k == 5:
        v = t.pick([10, 20, 30, 40, 50, 100, 60, 61, 3600, 86400, 86399]) * 10**7 + t.pick([0, 0, 1, 10, 1000000, -1])
    elif k == 6 and lits.NEAR:
        v = abs(t.pick(lits.NEAR))
    else:
        v = t.draw(TICKS_MAX)
    v = min(v, TICKS_MAX)
    return -v if t.bool(1, 3) else v


def gen_prim(t, hashable=False):
    k = t.draw(24)
    if k == 0:
        return N("nil")
    if k == 1:
        return N("bool", v=t.bool())
    if k < 7:
        return N("str", t.pick(["str", "PSString", "str", "PSUri", "PSScriptBlock", "PSXml"]), gen_text(t))
    if k == 7:
        return N("char", "PSChar", gen_int_in(t, 0, 65535))
    if k < 14:
        c = t.pick(["int", "PSInt", "PSInt64", "PSUInt", "PSUInt64", "PSByte", "PSSByte", "PSInt16", "PSUInt16"])
        return N("int", c, gen_int_in(t, *INT_RANGE[c]))
    if k == 14:
        f = gen_float(t)
        if hashable and f != f:
            f = 0.5
        return N("flt", t.pick(["PSDouble", "float", "PSSingle"]), f)
    if k == 15:
        return N("dec", t.pick(["PSDecimal", "Decimal"]), gen_decimal(t))
    if k == 16:
        n = t.pick([0, 1, 2, 3, 5, 16, 57, 100]) if t.bool() else t.int(0, 40)
        return N("bin", t.pick(["bytes", "PSByteArray"]), bytes(t.draw(256) for _ in range(n)))
    if k in (17, 18):
        return N("dt", t.pick(["PSDateTime", "datetime"]), gen_dt(t))
    if k in (19, 20):
        return N("dur", t.pick(["PSDuration", "timedelta"]), gen_ticks(t))
    if k == 21:
        return N("guid", t.pick(["PSGuid", "UUID"]), uuid.UUID(int=t.draw(1 << 128)))
    if k == 22:
        return N("ver", "PSVersion", tuple(gen_int_in(t, 0, 2**31 - 1) for _ in range(t.int(2, 4))))
    if hashable:
        return N("str", "str", gen_text(t))
    return gen_enum(t)


def gen_enum(t):
    if t.bool(1, 4):
        c = t.pick(sorted(PY_ENUMS))
        if c == "PyBits":
            return N("pyenum", c, t.int(1, 7))
        return N("pyenum", c, t.pick(ENUM_NAMES[c])[1])
    c = t.pick(sorted(PS_ENUMS))
    if c in ("MonFlags",):
        return N("enum", c, t.draw(16))
    if c == "MonWFlags":
        return N("enum", c, t.pick([1, 4294967296, 4294967297]))
    if c == "RemoteStreamOptions":
        return N("enum", c, t.draw(16))
    if c == "CommandTypes":
        return N("enum", c, t.pick([1, 2, 3, 4, 8, 16, 32, 64, 256, 383, 9, 320, 127]))
    return N("enum", c, t.pick(ENUM_NAMES[c])[1])


TYPE_NAMES = [["Custom.Type", "System.Object"], ["Custom.Type", "Custom.Base", "System.Object"], ["Other"], [],
              ["Selected.Custom.Type", "System.Management.Automation.PSCustomObject", "System.Object"],
              ["Custom.Base", "System.Object"], ["Custom.Type", "System.Object", "Custom.Base"],
              ["Monitor.Unknown"], ["System.Object", "Custom.Type"], ["A", "B", "C", "D"], ["B", "A"]]


class Gen:
    """Generates one graph; keeps the objects made so far for sharing and the enclosing ones for cycles."""

    def __init__(self, t, budget=25, refs=True, cycles=False, secure=False, plain=True):
        self.t, self.budget, self.refs, self.cycles, self.plain = t, budget, refs, cycles, plain
        self.pool = []
        self.open = []
        self.secure = secure

    def value(self, depth=0):
        t = self.t
        self.budget -= 1
        if self.secure and t.bool(1, 5):
            n = N("sec", v=self.secure(t) if callable(self.secure) else gen_text(t))
            if self.budget > 2 and depth < 4 and t.bool(1, 5):
                self.budget -= 3
                n.ext = self.props(depth + 3, 2)
                self.pool.append(n)
            return n
        if self.refs and self.pool and t.bool(1, 6):
            return t.pick(self.pool)
        if self.cycles and self.open and t.bool(1, 8):
            return t.pick(self.open)
        if depth > 6 or self.budget <= 0 or t.bool(2, 5):
            if self.budget > 0 and t.bool(1, 8):
                return self.extended(depth)
            return gen_prim(t)
        k = t.draw(12)
        if k < 4:
            return self.seq(depth)
        if k < 6:
            return self.map(depth)
        if k < 9:
            return self.obj(depth)
        if k == 9:
            return self.lib(depth) if t.bool(1, 3) else self.known(depth)
        if k == 10 and self.plain:
            return self.pyobj(depth)
        return self.extended(depth)

    def props(self, depth, n=4, exclude=()):
        out, seen = [], {u16(x) for x in exclude}
        for _ in range(self.t.count(n)):
            name = gen_name(self.t)
            if u16(name) in seen:
                continue
            seen.add(u16(name))
            out.append((name, self.value(depth + 1)))
        return out

    def seq(self, depth):
        t = self.t
        c = t.pick(["list", "PSList", "PSStack", "PSIEnumerable", "PSQueue", "Queue", "MonList", "MonStack",
                    "MonQueue"])
        n = N("seq", c, [])
        refable = c in ("PSQueue", "Queue", "MonQueue")
        if refable:
            self.open.append(n)
        n.v = [self.value(depth + 1) for _ in range(t.count(6))]
        if c not in ("list", "Queue"):
            if t.bool(1, 6):
                n.ext = self.props(depth, 2)
            if t.bool(1, 10):
                n.names = t.pick([x for x in TYPE_NAMES if x])
        if refable:
            self.open.pop()
            self.pool.append(n)
        return n

    def map(self, depth):
        t = self.t
        c = t.pick(["dict", "PSDict", "dict", "PSPrimitiveDictionary", "MonDict"])
        n = N("map", c, [])
        keys = {}
        for _ in range(t.count(5)):
            k = gen_prim(t, hashable=True)
            if k.kind in ("nil",):
                k = N("str", "str", gen_text(t))
            built = build(k)
            if any(isinstance(kk, (str, T.PSVersion)) and type(kk) is not type(built) for kk in keys) and \
                    isinstance(built, (str, T.PSVersion)) and \
                    T.PSVersion in [type(built)] + [type(kk) for kk in keys]:
                continue  # a version and a text do not compare unless the text is a version
            if built in keys or any(kk == built for kk in keys):
                continue
            if isinstance(built, str):
                if any(isinstance(kk, str) and u16(kk) == u16(built) for kk in keys):
                    continue
            keys[built] = k
            n.v.append((k, self.value(depth + 1)))
        if c not in ("dict",):
            if t.bool(1, 6):
                n.ext = self.props(depth, 2)
            if t.bool(1, 10):
                n.names = t.pick([x for x in TYPE_NAMES if x])
        return n

    def obj(self, depth):
        t = self.t
        c = t.pick(["PSCustomObject", "PSObject"])
        n = N("obj", c)
        self.open.append(n)
        n.ext = self.props(depth)
        if t.bool(1, 3):
            n.adp = self.props(depth, 3)
        if t.bool(1, 3):
            n.names = t.pick(TYPE_NAMES)
        if t.bool(1, 3):
            n.tostr = gen_text(t) or "t"
        self.open.pop()
        self.pool.append(n)
        return n

    def known(self, depth):
        t = self.t
        c = t.pick(["MonThing", "MonSub"])
        n = N("known", c)
        self.open.append(n)
        a = N("int", "PSInt", gen_int_in(t, *INT_RANGE["PSInt"])) if t.bool(3, 4) else N("nil")
        b = self.value(depth + 1)
        d = self.value(depth + 1)
        base = [("A", a), ("B", b)]
        n.adp = ([("Z", self.value(depth + 1))] if c == "MonSub" else []) + base
        n.ext = [("D", d), ("E", b), ("F", N("int", "int", 7))]
        more = self.props(depth, 2, exclude=["A", "B", "D", "E", "F", "Z"]) if t.bool(1, 4) else []
        n.ext = n.ext + more
        if t.bool(1, 4):
            n.tostr = gen_text(t) or "t"
        self.open.pop()
        self.pool.append(n)
        return n

    def lib_field(self, kind, depth):
        t = self.t
        must = kind.endswith("!")
        kind = kind.rstrip("!")
        if not must and t.bool(1, 3):
            return N("nil")
        if kind == "text":
            return N("str", "PSString", gen_text(t))
        if kind in INT_RANGE:
            return N("int", kind, gen_int_in(t, *INT_RANGE[kind]))
        if kind == "dt":
            return N("dt", "PSDateTime", gen_dt(t))
        if kind == "texts":
            return N("seq", "PSList", [N("str", "str", gen_text(t)) for _ in range(t.count(4))])
        if kind == "map":
            n = self.map(depth + 1)
            n.cls, n.names, n.ext = "PSDict", None, []
            return n
        if kind == "any":
            return self.value(depth + 1)
        return N("enum", kind, t.pick(ENUM_NAMES[kind])[1])

    def lib(self, depth, cls=None):
        t = self.t
        n = N("lib", cls or t.pick(sorted(LIB)))
        _names, where, fields = LIB[n.cls]
        self.open.append(n)
        got = [(name, self.lib_field(k, depth)) for name, k in fields]
        if n.cls == "ErrorCategoryInfo":
            d = dict(got)
            if d["Category"].kind == "nil":
                d["Category"] = N("enum", "ErrorCategory", 0)
                got[0] = ("Category", d["Category"])
            n.tostr = category_text(d)
        setattr(n, where, got)
        if t.bool(1, 6):
            n.ext = n.ext + self.props(depth, 2, exclude=[a for a, _ in got])
        self.open.pop()
        self.pool.append(n)
        return n

    def pyobj(self, depth):
        t = self.t
        c = t.pick(["PlainA", "PlainB"])
        n = N("pyobj", c)
        self.open.append(n)
        attrs = {}
        for _ in range(t.count(4)):
            attrs[t.pick(["alpha", "Beta", "x_1", "_single", "zeta", "Name", "été", "_x0041_",
                          "a_x000A_b", "a_X0041_"])] = self.value(depth + 1)
        if c == "PlainB":
            attrs["answer"] = N("int", "int", 42)
            attrs["kind"] = N("str", "str", "b")
        n.ext = sorted(attrs.items())
        self.open.pop()
        self.pool.append(n)
        return n

    def extended(self, depth):
        """A primitive with extra properties."""
        t = self.t
        for _ in range(8):
            n = gen_prim(t)
            if n.kind in ("nil", "bool", "enum", "pyenum"):
                continue
            n = N(n.kind, {"str": "PSString", "int": "PSInt64", "float": "PSDouble", "Decimal": "PSDecimal",
                           "bytes": "PSByteArray", "datetime": "PSDateTime", "timedelta": "PSDuration",
                           "UUID": "PSGuid"}.get(n.cls, n.cls), n.v)
            n.ext = self.props(depth, 3) or [("p1", N("int", "int", 1))]
            if t.bool(1, 6):
                n.adp = self.props(depth, 2)
            self.pool.append(n)
            return n
        return N("int", "int", 1)


def gen_value(t, budget=25, refs=True, cycles=False, plain=True):
    return Gen(t, budget, refs, cycles, plain=plain).value()


def refable(n):
    """Whether two occurrences of the node are one object for the receiver."""
    if n.kind in ("obj", "known", "pyobj", "lib"):
        return True
    if n.kind == "seq":
        return SEQ_CLS[n.cls][0] == "QUE"
    if n.kind in PRIM_KINDS or n.kind == "sec":
        return bool(n.ext or n.adp)
    return False


# ---- building -------------------------------------------------------------------------------------------------------


def _tz(off):
    if off is None:
        return None
    if off == 0:
        return datetime.timezone.utc
    return datetime.timezone(datetime.timedelta(minutes=off))


def build(n, memo=None):
    memo = memo if memo is not None else {}
    if id(n) in memo:
        return memo[id(n)][1]
    o = _build(n, memo)
    if n.kind not in ("obj", "known", "pyobj", "seq", "map", "lib"):
        memo[id(n)] = (n, o)
    return o


def _deco(o, n, memo):
    memo[id(n)] = (n, o)
    if n.names is not None:
        o.PSObject.type_names = list(n.names)
    if n.tostr is not None:
        o.PSObject.to_string = n.tostr
    if n.kind != "known":
        for name, x in n.adp:
            o.PSObject.adapted_properties.append(T.PSNoteProperty(name, value=build(x, memo)))
        for name, x in n.ext:
            if any(u16(a) == u16(name) for a, _ in n.adp):
                o.PSObject.extended_properties.append(T.PSNoteProperty(name, value=build(x, memo)))
            else:
                T.add_note_property(o, name, build(x, memo))
    return o


def _build(n, memo):
    k, c, v = n.kind, n.cls, n.v
    if k == "nil":
        return None
    if k == "bool":
        return v
    if k in ("enum", "pyenum"):
        return cls_of(c)(v)
    if k in ("str", "char", "int", "flt", "dec", "bin", "guid"):
        o = cls_of(c)(v) if c != "UUID" else v
        return _deco(o, n, memo) if n.ext or n.adp or n.names is not None or n.tostr is not None else o
    if k == "dt":
        y, mo, d, h, mi, s, us, ns, off = v
        if c == "datetime":
            return datetime.datetime(y, mo, d, h, mi, s, us, tzinfo=_tz(off))
        o = T.PSDateTime(y, mo, d, h, mi, s, us, tzinfo=_tz(off), nanosecond=ns)
        return _deco(o, n, memo)
    if k == "dur":
        if c == "timedelta":
            return datetime.timedelta(microseconds=v // 10)
        return _deco(T.PSDuration(nanoseconds=v * 100), n, memo)
    if k == "ver":
        o = T.PSVersion(".".join(str(x) for x in v))
        return _deco(o, n, memo)
    if k == "sec":
        return _deco(T.PSSecureString(v), n, memo)
    if k == "seq":
        o = cls_of(c)()
        memo[id(n)] = (n, o)
        items = [build(x, memo) for x in v]
        for x in items:
            (o.put if SEQ_CLS[c][0] == "QUE" else o.append)(x)
        return _deco(o, n, memo) if c not in ("list", "Queue") else o
    if k == "map":
        o = cls_of(c)()
        memo[id(n)] = (n, o)
        for a, b in v:
            o[build(a, memo)] = build(b, memo)
        return _deco(o, n, memo) if c != "dict" else o
    if k == "obj":
        o = cls_of(c)()
        memo[id(n)] = (n, o)
        return _deco(o, n, memo)
    if k == "known":
        o = cls_of(c)()
        memo[id(n)] = (n, o)
        for name, x in n.adp:
            setattr(o, name, build(x, memo))
        d = dict(n.ext)
        o.D = build(d["D"], memo)
        for name, x in n.ext[3:]:
            T.add_note_property(o, name, build(x, memo))
        if n.tostr is not None:
            o.PSObject.to_string = n.tostr
        return o
    if k == "lib":
        _names, where, fields = LIB[c]
        simple = {"text", "text!", "PSInt", "PSInt!", "PSUInt", "PSUInt!"}
        kw = {name: None if dict(fields)[name] not in simple else build(x, memo)
              for name, x in getattr(n, where)[: len(fields)]}
        o = cls_of(c)(**kw)
        memo[id(n)] = (n, o)
        for name, x in getattr(n, where)[: len(fields)]:
            if dict(fields)[name] not in simple:
                setattr(o, name, build(x, memo))
        for name, x in (n.ext if where == "adp" else n.ext[len(fields):]):
            T.add_note_property(o, name, build(x, memo))
        return o
    if k == "pyobj":
        o = cls_of(c)()
        memo[id(n)] = (n, o)
        for name, x in n.ext:
            if name not in ("answer", "kind"):
                setattr(o, name, build(x, memo))
        return o
    if k == "prog":
        return T.ProgressRecord(**{a: b for a, b in v.items()})
    raise AssertionError(k)


# ---- the canonical wire tree ----------------------------------------------------------------------------------------


def category_text(d):
    """How an error category reads."""
    s = {k: (x.v if x.kind == "str" else "") for k, x in d.items() if k != "Category"}
    return "%s (%s:%s) [%s], %s" % (enum_text("ErrorCategory", d["Category"].v), s["TargetName"], s["TargetType"],
                                    s["Activity"], s["Reason"])


def enum_text(cname, value):
    members = ENUM_NAMES[cname]
    c = cls_of(cname)
    if issubclass(c, enum.Flag):
        got = [(k, int(m)) for k, m in members if (int(m) & int(value)) == int(m)]
        got = [k for k, m in got if m != 0 or len(got) == 1]
        # aliases of the same value are all listed
    else:
        got = [next(k for k, m in members if m == value)]
    if not c.__name__.startswith("Py"):
        got = ["None" if k == "none" else k for k in got]
    return ", ".join(got)


def wire_prim(n):
    k, c, v = n.kind, n.cls, n.v
    if k == "nil":
        return ("Nil", None)
    if k == "bool":
        return ("B", v)
    if k == "str":
        return (STR_CLS[c], u16(v))
    if k == "char":
        return ("C", v)
    if k == "int":
        if c == "int":
            return ("I32" if -(2**31) <= v < 2**31 else "I64", v)
        return (INT_CLS[c], v)
    if k == "flt":
        return ("Db" if c == "PSDouble" else "Sg", flt_key(v))
    if k == "dec":
        d = decimal.Decimal(format(v, "f"))
        return ("D", d.as_tuple() if not d else d)
    if k == "bin":
        return ("BA", v)
    if k == "dt":
        y, mo, d, h, mi, s, us, ns, off = v
        return ("DT", (y, mo, d, h, mi, s, us * 10 + (ns // 100 if c == "PSDateTime" else 0), off))
    if k == "dur":
        return ("TS", v if c == "PSDuration" else v // 10 * 10)
    if k == "guid":
        return ("G", v)
    if k == "ver":
        return ("Version", v)
    raise AssertionError(k)


def type_names(n):
    if n.names is not None:
        return tuple(n.names)
    if n.kind == "seq":
        return tuple(SEQ_NAMES[SEQ_CLS[n.cls][1]])
    if n.kind == "map":
        return tuple(SEQ_NAMES[MAP_CLS[n.cls]])
    if n.kind == "pyobj":
        return tuple(SEQ_NAMES["PSCustomObject"])
    if n.kind == "lib":
        return tuple(LIB[n.cls][0])
    return tuple(SEQ_NAMES[n.cls])


class Canon:
    def __init__(self):
        self.labels = {}
        self.keep = []

    def canon(self, n):
        k = n.kind
        if k == "sec" and not n.ext:
            return ("SS", ("plain", u16(n.v)))
        if k in PRIM_KINDS and not (n.ext or n.adp):
            return wire_prim(n)
        if k == "enum":
            tag = ENUM_TAG.get(n.cls, "I32")
            return ("Enum", (ENUM_TYPE[n.cls], "System.Enum", "System.ValueType", "System.Object"),
                    (tag, int(n.v)), u16(enum_text(n.cls, n.v)) or None)
        if k == "pyenum":
            raw = N("str", "str", n.v) if isinstance(n.v, str) else N("int", "int", int(n.v))
            return ("Enum", ("%s.%s" % (cls_of(n.cls).__module__, n.cls), "System.Enum", "System.ValueType",
                             "System.Object"), wire_prim(raw), u16(enum_text(n.cls, n.v)) or None)
        label = None
        if refable(n):
            if id(n) in self.labels:
                return ("Ref", self.labels[id(n)])
            label = len(self.labels)
            self.labels[id(n)] = label
            self.keep.append(n)
        if k in PRIM_KINDS or k == "sec":
            adp = tuple((u16(a), self.canon(x)) for a, x in n.adp)
            ext = tuple((u16(a), self.canon(x)) for a, x in n.ext)
            return ("Obj", label, None, adp, ext, wire_prim(n) if k != "sec" else ("SS", ("plain", u16(n.v))), None)
        names = type_names(n) or None
        adp = tuple((u16(a), self.canon(x)) for a, x in n.adp)
        ext = tuple((u16(a), self.canon(x)) for a, x in n.ext)
        content, text = None, None
        if k == "seq":
            content = (SEQ_CLS[n.cls][0], tuple(self.canon(x) for x in n.v))
        elif k == "map":
            content = ("DCT", tuple((self.canon(a), self.canon(b)) for a, b in n.v))
        elif n.tostr is not None:
            text = u16(n.tostr)
        return ("Obj", label, names, adp, ext, content, text)


def canon(n):
    return Canon().canon(n)


unseal = None  # decrypts the text of a secure string with the session key, set by who knows the key


def diff(a, b, path="$"):
    """Where two canonical trees differ (None: nowhere)."""
    if isinstance(a, tuple) and len(a) == 2 and a[0] == "SS" and isinstance(a[1], tuple):
        # a secure string: only its key can tell
        if not (isinstance(b, tuple) and len(b) == 2 and b[0] == "SS"):
            return "%s: a secure string was sent as %a" % (path, b)
        if unseal is not None and unseal(b[1]) != a[1][1]:
            return "%s: a secure string of %a was sent as %a" % (path, a[1][1], unseal(b[1]))
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return "%s: %d parts and not %d: %a / %a" % (path, len(b), len(a), str(a)[:200], str(b)[:200])
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s.%d" % (path, i))
            if d:
                return d
        return None
    if type(a) is not type(b) or a != b:
        return "%s: expected %a, found %a" % (path, a, b)
    return None


# ---- comparing what came back ---------------------------------------------------------------------------------------


def props_of(o, which):
    return [(p.name, p.get_value(o)) for p in getattr(o.PSObject, which)]


def same_prim(n, got, path):
    k, c, v = n.kind, n.cls, n.v

    def typ(cl):
        need(type(got) is cl, "%s: came back as %s and not %s (%s)", path, type(got).__name__, cl.__name__, show(n))

    if k == "nil":
        need(got is None, "%s: expected nothing, got %r", path, got)
    elif k == "bool":
        need(got is v, "%s: expected %r, got %r", path, v, got)
    elif k == "str":
        typ(T.PSString if c == "str" else cls_of(c))
        need(u16(got) == u16(v), "%s: text %a came back as %a", path, v, str.__str__(got))
    elif k == "char":
        typ(T.PSChar)
        need(int(got) == v, "%s: char %d came back as %d", path, v, int(got))
    elif k == "int":
        cl = cls_of(c) if c != "int" else (T.PSInt if -(2**31) <= v < 2**31 else T.PSInt64)
        typ(cl)
        need(int(got) == v, "%s: %d came back as %d", path, v, int(got))
    elif k == "flt":
        typ(T.PSDouble if c == "PSDouble" else T.PSSingle)
        need(flt_key(got) == flt_key(v), "%s: %r came back as %r", path, v, float(got))
    elif k == "dec":
        typ(T.PSDecimal)
        need(decimal.Decimal(got) == v and got.is_signed() == v.is_signed(), "%s: %s came back as %s", path, v, got)
    elif k == "bin":
        typ(T.PSByteArray)
        need(bytes(got) == v, "%s: %r came back as %r", path, v, bytes(got))
    elif k == "dt":
        typ(T.PSDateTime)
        y, mo, d, h, mi, s, us, ns, off = v
        if c == "datetime":
            ns = 0
        g = (got.year, got.month, got.day, got.hour, got.minute, got.second, got.microsecond, got.nanosecond)
        o = got.utcoffset()
        o = None if o is None else o.total_seconds() / 60
        need(g == (y, mo, d, h, mi, s, us, ns) and o == off, "%s: date-time %s came back as %s offset %s", path, v, g, o)
    elif k == "dur":
        typ(T.PSDuration)
        want = v if c == "PSDuration" else v // 10 * 10
        tot = ((got.days * 86400 + got.seconds) * 10**6 + got.microseconds) * 1000 + got.nanoseconds
        need(tot == want * 100, "%s: duration of %d ticks came back as %s ns", path, want, tot)
    elif k == "guid":
        typ(T.PSGuid)
        need(got.int == v.int, "%s: %s came back as %s", path, v, got)
    elif k == "ver":
        typ(T.PSVersion)
        g = tuple(x for x in (got.major, got.minor, got.build, got.revision) if x is not None)
        need(g == v, "%s: version %s came back as %s", path, v, g)
    else:
        raise AssertionError(k)


class Same:
    def __init__(self, idmap=True):
        self.fwd = {}
        self.rev = {}
        self.extra = {}  # id(node) -> names of extended properties that are added on the way
        self.keep = []
        self.steps = 0

    def same(self, n, got, path="$"):
        self.steps += 1
        k = n.kind
        if refable(n):
            if id(n) in self.fwd:
                need(self.fwd[id(n)] is got, "%s: the same object came back as two (%s)", path, show(n))
                return
            need(id(got) not in self.rev, "%s: two objects came back as one (%s)", path, show(n))
            self.fwd[id(n)] = got
            self.rev[id(got)] = n
            self.keep.append((n, got))
        if k == "sec":
            need(type(got) is T.PSSecureString, "%s: a secure string came back as %s", path, type(got).__name__)
            need(u16(got.decrypt()) == u16(n.v), "%s: secure string %a came back as %a", path, n.v,
                 str.__str__(got.decrypt()))
            self.props(n, got, path)
            return
        if k in PRIM_KINDS:
            same_prim(n, got, path)
            if n.ext or n.adp:
                self.props(n, got, path)
            return
        if k == "enum":
            need(type(got) is cls_of(n.cls), "%s: enum %s came back as %s", path, n.cls, type(got).__name__)
            need(got == cls_of(n.cls)(n.v) and int(got) == int(n.v), "%s: enum value %r came back as %r", path, n.v,
                 got)
            return
        if k == "pyenum":
            if isinstance(n.v, str):
                same_prim(N("str", "str", n.v), got, path)
            else:
                same_prim(N("int", "int", int(n.v)), got, path)
            want = ["Deserialized.%s.%s" % (cls_of(n.cls).__module__, n.cls), "Deserialized.System.Enum",
                    "Deserialized.System.ValueType", "Deserialized.System.Object"]
            need(list(got.PSObject.type_names) == want, "%s: enum type names %s", path, got.PSObject.type_names)
            need(u16(got.PSObject.to_string) == u16(enum_text(n.cls, n.v)), "%s: enum text %a", path,
                 got.PSObject.to_string)
            return
        if k == "seq":
            base = SEQ_CLS[n.cls][1]
            known = n.names is None
            if not known:
                base = {"LST": "PSList", "STK": "PSStack", "IE": "PSIEnumerable", "QUE": "PSQueue"}[SEQ_CLS[n.cls][0]]
            need(type(got) is cls_of(base), "%s: %s came back as %s", path, n.cls, type(got).__name__)
            items = list(got.queue) if isinstance(got, queue.Queue) else list(got)
            need(len(items) == len(n.v), "%s: %d elements and not %d", path, len(items), len(n.v))
            for i, (a, b) in enumerate(zip(n.v, items)):
                self.same(a, b, "%s[%d]" % (path, i))
            self.names(n, got, path, known, base)
            self.props(n, got, path)
            return
        if k == "map":
            base = MAP_CLS[n.cls]
            known = n.names is None
            if not known:
                base = "PSDict"
            need(type(got) is cls_of(base), "%s: %s came back as %s", path, n.cls, type(got).__name__)
            items = list(dict.items(got))
            need(len(items) == len(n.v), "%s: %d entries and not %d", path, len(items), len(n.v))
            for i, ((ka, va), (kb, vb)) in enumerate(zip(n.v, items)):
                self.same(ka, kb, "%s{key %d}" % (path, i))
                self.same(va, vb, "%s{%d}" % (path, i))
            self.names(n, got, path, known, base)
            self.props(n, got, path)
            return
        if k in ("obj", "pyobj"):
            base = "PSCustomObject" if k == "pyobj" else n.cls
            known = n.names is None and base == "PSCustomObject"
            cl = cls_of("PSCustomObject" if known else "PSObject")
            need(type(got) is cl, "%s: came back as %s and not %s", path, type(got).__name__, cl.__name__)
            self.names(n, got, path, known, base)
            self.props(n, got, path)
            self.text(n, got, path)
            return
        if k in ("known", "lib"):
            need(type(got) is cls_of(n.cls), "%s: %s came back as %s", path, n.cls, type(got).__name__)
            self.names(n, got, path, True, n.cls)
            self.props(n, got, path)
            self.text(n, got, path)
            return
        raise AssertionError(k)

    def names(self, n, got, path, known, base):
        want = list(type_names(n)) if known else ["Deserialized." + x for x in type_names(n)]
        have = list(got.PSObject.type_names)
        need(have == want, "%s: type names %s and not %s", path, have, want)

    def text(self, n, got, path):
        have = got.PSObject.to_string
        if n.tostr is None:
            need(have is None, "%s: display text %a came from nowhere", path, have)
        else:
            need(have is not None and u16(have) == u16(n.tostr), "%s: display text %a came back as %a", path, n.tostr,
                 have)

    def props(self, n, got, path):
        for which, want in (("adapted_properties", n.adp), ("extended_properties", n.ext)):
            have = props_of(got, which)
            if id(n) in self.extra:
                have = [(a, b) for a, b in have if a not in self.extra[id(n)]]
            need([u16(a) for a, _ in have] == [u16(a) for a, _ in want], "%s: %s are %s and not %s", path, which,
                 [a for a, _ in have], [a for a, _ in want])
            for (name, x), (_n, g) in zip(want, have):
                self.same(x, g, "%s.%s" % (path, ascii(name)))


def same(n, got, path="$"):
    s = Same()
    s.same(n, got, path)
    return s.steps


# ---- writing a value the way other implementations do ---------------------------------------------------------------


def xml_escape(s, attr=False):
    s = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
    if attr:
        s = s.replace('"', "&quot;")
    return s


class Foreign:
    """An independent writer with the freedom other implementations have."""

    def __init__(self, t):
        self.t = t
        self.ids = {}
        self.next = t.int(0, 3)
        self.tn = {}
        self.case = t.draw(3)
        self.ws = t.bool(1, 4)
        self.keep = []

    def esc(self, s, attr=False):
        out = []
        us = units(s)
        for i, u in enumerate(us):
            must = (u == 0x5F and i + 1 < len(us) and us[i + 1] in (0x78, 0x58)) or u < 0x20 or \
                0x7F <= u <= 0x9F or 0xD800 <= u <= 0xDFFF or u >= 0xFFFE
            if must or (self.case == 2 and self.t.bool(1, 12)):
                h = "%04X" % u
                if self.case == 1:
                    h = h.lower()
                elif self.case == 2:
                    h = "".join(x.lower() if self.t.bool() else x for x in h)
                out.append("_x%s_" % h)
            else:
                out.append(chr(u))
        return xml_escape("".join(out), attr)

    def pad(self):
        return "\n  " if self.ws else ""

    def prim(self, n):
        t = self.t
        tag, v = wire_prim(n)
        if tag == "Nil":
            return tag, ""
        if tag == "B":
            return tag, "true" if v else "false"
        if tag in STR_CLS.values():
            return tag, self.esc(n.v)
        if tag in ("Sg", "Db"):
            f = n.v
            if f != f:
                return tag, "NaN"
            if f in (float("inf"), float("-inf")):
                return tag, "INF" if f > 0 else "-INF"
            r = repr(f)
            if r.endswith(".0") and t.bool():
                r = r[:-2]
            return tag, r.upper() if t.bool() else r
        if tag == "D":
            return tag, format(n.v, "f")
        if tag == "BA":
            return tag, base64.b64encode(n.v).decode()
        if tag == "DT":
            y, mo, d, h, mi, s, ticks, off = v
            r = "%04d-%02d-%02dT%02d:%02d:%02d" % (y, mo, d, h, mi, s)
            frac = "%07d" % ticks
            if t.bool():
                frac = frac.rstrip("0")
            if frac:
                r += "." + frac
            if off == 0 and t.bool():
                r += "Z"
            elif off is not None:
                r += "%s%02d:%02d" % ("-" if off < 0 else "+", abs(off) // 60, abs(off) % 60)
            return tag, r
        if tag == "TS":
            neg, x = ("-" if v < 0 else ""), abs(v)
            days, x = divmod(x, 864 * 10**9)
            h, x = divmod(x, 36 * 10**9)
            mi, x = divmod(x, 6 * 10**8)
            s, f = divmod(x, 10**7)
            full = t.bool(1, 4)
            r = "%sP" % neg
            if days or full:
                r += "%dD" % days
            tm = ""
            if h or full:
                tm += "%dH" % h
            if mi or full:
                tm += "%dM" % mi
            if s or f or full or not (days or h or mi):
                fr = "%07d" % f
                if t.bool(2, 3):
                    fr = fr.rstrip("0")
                tm += "%d%sS" % (s, "." + fr if fr else "")
            return tag, r + ("T" + tm if tm else "")
        if tag == "Version":
            return tag, ".".join(str(x) for x in v)
        return tag, str(v)

    def el(self, tag, body, attrs=""):
        if body == "" and self.t.bool():
            return "<%s%s />" % (tag, attrs)
        return "<%s%s>%s</%s>" % (tag, attrs, body, tag)

    def body(self, n):
        k = n.kind
        if k == "seq":
            tag = SEQ_CLS[n.cls][0]
            return self.el(tag, "".join(self.pad() + self.write(x) for x in n.v))
        if k == "map":
            return self.el("DCT", "".join("<En>%s%s%s</En>" % (self.write(a, ' N="Key"'), self.pad(),
                                                               self.write(b, ' N="Value"')) for a, b in n.v))
        if k == "enum":
            return "<%s>%d</%s>" % (ENUM_TAG.get(n.cls, "I32"), int(n.v), ENUM_TAG.get(n.cls, "I32"))
        if k == "pyenum":
            raw = N("str", "str", n.v) if isinstance(n.v, str) else N("int", "int", int(n.v))
            tag, x = self.prim(raw)
            return self.el(tag, x)
        if k in PRIM_KINDS:
            tag, x = self.prim(N(n.kind, n.cls, n.v))
            return self.el(tag, x)
        return None

    def write(self, n, attr=""):
        t = self.t
        k = n.kind
        if k in PRIM_KINDS and not (n.ext or n.adp):
            tag, body = self.prim(n)
            return self.el(tag, body, attr)
        if refable(n) and id(n) in self.ids:
            return self.el("Ref", "", attr + ' RefId="%s"' % self.ids[id(n)])
        rid = self.next
        self.next += 1 + t.draw(3)
        if refable(n):
            self.ids[id(n)] = rid
            self.keep.append(n)
        parts = []
        names = None
        if k in ("enum", "pyenum"):
            names = canon(n)[1]
        elif k not in PRIM_KINDS:
            names = type_names(n)
        if names:
            if names in self.tn:
                parts.append('<TNRef RefId="%d" />' % self.tn[names])
            else:
                self.tn[names] = len(self.tn)
                parts.append('<TN RefId="%d">%s</TN>' % (self.tn[names],
                                                        "".join("<T>%s</T>" % xml_escape(x) for x in names)))
        text = None
        if k in ("enum", "pyenum"):
            text = enum_text(n.cls, n.v)
        elif n.tostr is not None:
            text = n.tostr
        if text and t.bool():  # PowerShell writes the text first for objects and last for enums: both occur
            parts.append(self.el("ToString", self.esc(text)))
            text = None
        late = t.bool()
        body = None if late else self.body(n)
        if body is not None:
            parts.append(body)
        for tag, props in (("Props", n.adp), ("MS", n.ext)):
            if props:
                parts.append("<%s>%s</%s>" % (tag, "".join(
                    self.pad() + self.write(x, ' N="%s"' % self.esc(name, True)) for name, x in props), tag))
        body = self.body(n) if late else None
        if body is not None:
            parts.append(body)
        if text:
            parts.append(self.el("ToString", self.esc(text)))
        sep = self.pad()
        return "<Obj%s RefId=\"%d\">%s</Obj>" % (attr, rid, sep + sep.join(parts))


def encode(n, t):
    """The value as another implementation may write it (text that is not XML safe is always escaped)."""
    return Foreign(t).write(n)
