"""P26: typed values can be used as the Python values they stand for."""

import copy
import datetime
import decimal
import json
import operator
import queue
import uuid

from .. import env, values as V  # noqa: F401
from ..mon import Violation, need

from psrpcore import types as T

PROP = "P26"
LEVEL = "exploration"
RULE = "distinct (type, operation, kinds of the arguments, outcome) that were executed on a value of the library and on Python's own"
ASSUMPTIONS = ["what the library documents as different is left out: text of an index is a property name, display text of "
               "date-times, durations and characters, refused overflows, nanoseconds, copies (copy, pickle)"]
CASES = {"quick": 400000, "thorough": 8000000}
TIME = {"quick": 50, "thorough": 700}
REQUIRE = ["same value", "same refusal", "histories", "indexed", "own properties", "formatted", "json", "kept type", "created", "arithmetic"]

SKIP = {"__class__", "__new__", "__init__", "__init_subclass__", "__subclasshook__", "__reduce__", "__reduce_ex__",
        "__getstate__", "__setstate__", "__getattribute__", "__getattr__", "__setattr__", "__delattr__", "__dir__",
        "__doc__", "__sizeof__", "__repr__", "__str__", "__format__", "__class_getitem__", "__dict__", "__module__",
        "__slots__", "__weakref__", "__getnewargs__", "__getnewargs_ex__", "__buffer__", "__release_buffer__",
        "__getformat__", "__setformat__", "__hash__", "__copy__", "__deepcopy__", "__getitem__", "__setitem__",
        "__delitem__", "__alloc__", "__set_name__", "__match_args__", "__annotations__", "now", "today", "utcnow", "min", "max", "resolution"}
ARITH = {"__%s%s__" % (r, n) for r in ("", "r", "i") for n in (
    "add sub mul truediv floordiv mod divmod pow lshift rshift and or xor matmul".split())} | {
    "__neg__", "__pos__", "__abs__", "__invert__", "__round__", "__trunc__", "__floor__", "__ceil__"}
INTS = {"PSByte": (0, 255), "PSSByte": (-128, 127), "PSInt16": (-2**15, 2**15 - 1), "PSUInt16": (0, 2**16 - 1),
        "PSInt": (-2**31, 2**31 - 1), "PSUInt": (0, 2**32 - 1), "PSInt64": (-2**63, 2**63 - 1), "PSUInt64": (0, 2**64 - 1)}


def text(t):
    return V.gen_text(t) if t.bool(1, 4) else "".join(t.pick("abcAB 1_x,é\n") for _ in range(t.int(0, 9)))


def data(t):
    return bytes(t.pick(b"abcAB 1_\x00\xff\n") if t.bool(3, 4) else t.draw(256) for _ in range(t.int(0, 9)))


def when(t, naive=None):
    tz = None if t.bool() else t.pick([datetime.timezone.utc, datetime.timezone(datetime.timedelta(hours=t.int(-12, 12)))])
    return datetime.datetime(t.int(2, 9998), t.int(1, 12), t.int(1, 28), t.draw(24), t.draw(60), t.draw(60),
                             t.pick([0, 1, 999999, t.draw(1000000)]), tz)


def span(t):
    return datetime.timedelta(t.int(-400, 400), t.draw(86400), t.pick([0, 1, t.draw(1000000)]))


def scalar(t):
    k = t.draw(4)
    return text(t) if k == 0 else t.int(-3, 9) if k < 3 else None


# name of the class -> (Python's type, generator)
SCALARS = {"PSString": (str, text), "PSScriptBlock": (str, text), "PSUri": (str, text), "PSXml": (str, text),
           "PSByteArray": (bytes, data), "PSGuid": (uuid.UUID, lambda t: uuid.UUID(int=t.draw(2**64) << t.pick([0, 64]))),
           "PSDateTime": (datetime.datetime, when), "PSDuration": (datetime.timedelta, span),
           "PSDouble": (float, lambda t: V.gen_float(t) if hasattr(V, "gen_float") else t.int(-90, 90) / 8),
           "PSSingle": (float, lambda t: t.int(-90, 90) / 8),
           "PSDecimal": (decimal.Decimal, lambda t: decimal.Decimal(t.int(-9999, 9999)).scaleb(-t.draw(5)))}
for _n, _r in INTS.items():
    SCALARS[_n] = (int, lambda t, r=_r: V.gen_int_in(t, *r))
TEXTS = ("PSString", "PSScriptBlock", "PSUri", "PSXml")
PLAIN = (str, bytes, int, float, decimal.Decimal, list, dict, uuid.UUID, datetime.datetime, datetime.timedelta)


def wrap(x, t=None):
    """The library's value for a Python value (at random one of several)."""
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, str):
        return getattr(T, t.pick(TEXTS) if t else "PSString")(x)
    if isinstance(x, bytes):
        return T.PSByteArray(x)
    if isinstance(x, int):
        return T.PSInt(x) if -2**31 <= x < 2**31 else x
    if isinstance(x, float):
        return T.PSDouble(x)
    if isinstance(x, decimal.Decimal):
        return T.PSDecimal(x)
    if isinstance(x, uuid.UUID):
        return T.PSGuid(x)
    if isinstance(x, datetime.datetime):
        return T.PSDateTime(x)
    if isinstance(x, datetime.timedelta):
        return T.PSDuration(x)
    if isinstance(x, list):
        return T.PSList([wrap(y, t) if t is None or t.bool() else y for y in x])
    if isinstance(x, dict):
        return T.PSDict({k: (wrap(y, t) if t is None or t.bool() else y) for k, y in x.items()})
    return x


def settle(x):
    """A result that can be compared: what is handed out step by step is read."""
    if hasattr(x, "__next__"):
        return [settle(y) for y in x]
    if isinstance(x, (type({}.keys()), type({}.items()), type({}.values()))):
        return list(x)
    return x


def run(fn):
    try:
        return "value", settle(fn())
    except Exception as e:  # noqa: BLE001 - the refusal is the result
        return "refused", e


def same(a, b):
    if isinstance(a, float) and isinstance(b, float) and a != a:
        return b != b
    if isinstance(a, decimal.Decimal) and isinstance(b, decimal.Decimal) and a.is_nan():
        return b.is_nan()
    if type(a) in (list, tuple) and isinstance(b, type(a)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b or bool(a == b and b == a)


def own(x, m, what):
    """A result that belongs to the library has properties of its own and can be shown."""
    if isinstance(x, T.PSObject) and not isinstance(x, (T.PSEnumBase, T.PSFlagBase)):
        need(x.PSObject is not type(x).PSObject, "%s: the result has no properties of its own", what)
        str(x), repr(x)
        m.count("own properties")


def compare(m, what, fa, fb, any_error=False):
    """fa runs on Python's value, fb on the library's."""
    ka, a = run(fa)
    kb, b = run(fb)
    if a is NotImplemented:
        return ka, a
    if ka == "refused":
        need(kb == "refused", "%s: %s with Python's value, but the library's gives %r", what, type(a).__name__, b)
        need(any_error or isinstance(b, type(a)), "%s: %s with Python's value, but %s (%s) with the library's", what,
             type(a).__name__, type(b).__name__, b)
        m.count("same refusal")
        return ka, type(a).__name__
    need(kb == "value", "%s: %r with Python's value, but %s (%s) with the library's", what, a, type(b).__name__, b)
    for base in PLAIN:
        if isinstance(a, base) and not (base is int and isinstance(a, bool)):
            need(isinstance(b, base), "%s: %r became %r of type %s", what, a, b, type(b).__name__)
    if isinstance(a, bool) or a is None:
        need(a is b, "%s: %r became %r", what, a, b)
    need(same(a, b), "%s: %r with Python's value, but %r with the library's", what, a, b)
    own(b, m, what)
    m.count("same value")
    return ka, type(a).__name__


POOLS = {
    str: lambda t: t.pick([lambda: text(t), lambda: text(t), lambda: t.int(-4, 12), lambda: (text(t), text(t)),
                           lambda: [text(t) for _ in range(t.count(3))], lambda: None, lambda: "utf-8", lambda: "utf-16-le",
                           lambda: "surrogatepass", lambda: {97: "b", 98: None}, lambda: True])(),
    bytes: lambda t: t.pick([lambda: data(t), lambda: data(t), lambda: t.int(-4, 12), lambda: (data(t), data(t)),
                             lambda: [data(t) for _ in range(t.count(3))], lambda: None, lambda: "utf-8", lambda: "latin-1",
                             lambda: text(t), lambda: t.draw(256)])(),
    int: lambda t: t.pick([lambda: t.int(-4, 12), lambda: "little", lambda: "big", lambda: None, lambda: t.int(-300, 300),
                           lambda: 1.5, lambda: text(t), lambda: True])(),
    float: lambda t: t.pick([lambda: t.int(-4, 12), lambda: t.int(-90, 90) / 8, lambda: None, lambda: "0x1p3",
                             lambda: text(t)])(),
    decimal.Decimal: lambda t: t.pick([lambda: t.int(-4, 12), lambda: decimal.Decimal(t.int(-999, 999)).scaleb(-2),
                                       lambda: None, lambda: decimal.ROUND_UP])(),
    uuid.UUID: lambda t: t.pick([lambda: uuid.UUID(int=t.draw(2**64)), lambda: t.int(0, 9), lambda: None])(),
    datetime.datetime: lambda t: t.pick([lambda: t.int(1, 28), lambda: when(t), lambda: span(t), lambda: text(t),
                                         lambda: "%Y-%m-%d %H:%M:%S.%f%z %j %a", lambda: "hours", lambda: "milliseconds",
                                         lambda: None, lambda: datetime.timezone.utc, lambda: t.draw(10**9),
                                         lambda: datetime.timezone(datetime.timedelta(hours=t.int(-9, 9))),
                                         lambda: "2021-02-03T04:05:06" + t.pick(["", "Z", "+05:30", "-01:00", ".123456", ".5+00:00"]),
                                         lambda: when(t).isoformat(), lambda: "2021-02-03 04", lambda: 86400.5 * t.int(0, 9), lambda: when(t).date(), lambda: when(t).time()])(),
    datetime.timedelta: lambda t: t.pick([lambda: span(t), lambda: t.int(-4, 12), lambda: None])(),
}
TIMES = {"year": (2, 9998), "month": (1, 12), "day": (1, 28), "hour": (0, 23), "minute": (0, 59), "second": (0, 59),
         "microsecond": (0, 999999), "fold": (0, 1)}
SPECS = {str: ["", ">12", "<5", "^9", "*^7", ".2", "s"], bytes: [""], int: ["", "d", "05d", "+", "x", "#X", "b", ",", "e", ".2f", "%"],
         float: ["", ".3f", "e", "g", "08.2f", "%", "+", ","], decimal.Decimal: ["", ".3f", "e", "g", "+", ","],
         datetime.datetime: ["%Y", "%H:%M", "%d.%m.%y %f"], uuid.UUID: [""], datetime.timedelta: []}
FUNCS = {
    str: [("len", len), ("list", list), ("set", set), ("tuple", tuple), ("sorted", sorted), ("reversed", reversed),
          ("int", int), ("float", float), ("bool", bool), ("str", str), ("hash", hash), ("enumerate", enumerate),
          ("join", lambda s: "-".join([s, s])), ("encode", lambda s: s.encode("utf-8", "surrogatepass")), ("eq", lambda s: s == str(s)),
          ("key", lambda s: {s: 1}[str(s)]), ("percent", lambda s: "%s|%10s" % (s, s)), ("concat", lambda s: s + "x" + s),
          ("rconcat", lambda s: "x" + s), ("times", lambda s: s * 3), ("rtimes", lambda s: 2 * s), ("in", lambda s: s in "abcabc"),
          ("isinstance", lambda s: isinstance(s, str))],
    bytes: [("len", len), ("list", list), ("set", set), ("tuple", tuple), ("sorted", sorted), ("reversed", reversed),
            ("bool", bool), ("bytes", bytes), ("bytearray", bytearray), ("memoryview", lambda b: memoryview(b).tolist()),
            ("hash", hash), ("join", lambda b: b"-".join([b, b])), ("key", lambda b: {b: 1}[bytes(b)]),
            ("concat", lambda b: b + b"x"), ("rconcat", lambda b: b"x" + b), ("times", lambda b: b * 2),
            ("from_bytes", lambda b: int.from_bytes(b, "big")), ("in", lambda b: b in b"abcabc"), ("max", max),
            ("items", lambda b: [b[i] for i in range(len(b))]), ("unpack", lambda b: (lambda *a: a)(*b))],
    int: [("bool", bool), ("int", int), ("float", float), ("complex", complex), ("hash", hash), ("index", operator.index),
          ("hex", hex), ("bin", bin), ("oct", oct), ("key", lambda i: {i: 1}[int(i)]), ("range", lambda i: list(range(i % 7))),
          ("item", lambda i: "abcdefghi"[i % 9]), ("slice", lambda i: "abcdefghi"[:i]), ("percent", lambda i: "%d %x %s" % (i, i, i)),
          ("sum", lambda i: sum([i, 1]) == int(i) + 1), ("eq", lambda i: (i == int(i), i != int(i), i < int(i) + 1, i >= int(i)))],
    float: [("bool", bool), ("float", float), ("int", int), ("hash", lambda f: hash(f) if f == f else 0),
            ("complex", lambda f: complex(f) if f == f else 0),
            ("percent", lambda f: "%g %.3f %s" % (f, f, float(f))), ("eq", lambda f: (f == float(f), f < 5, f >= 0))],
    decimal.Decimal: [("bool", bool), ("float", float), ("int", int), ("hash", hash), ("str", str),
                      ("eq", lambda d: (d == decimal.Decimal(d), d < 5, d >= 0))],
    uuid.UUID: [("str", str), ("int", int), ("hash", hash), ("key", lambda u: {u: 1}[uuid.UUID(int=u.int)]), ("bool", bool),
                ("eq", lambda u: (u == uuid.UUID(int=u.int), uuid.UUID(int=u.int) == u, u != uuid.UUID(int=u.int), u == 5)),
                ("order", lambda u: (u < uuid.UUID(int=2**127), u >= uuid.UUID(int=5)))],
    datetime.datetime: [("hash", hash), ("bool", bool), ("eq", lambda d: d == d.replace(fold=0)), ("time", lambda d: d.timetuple()),
                        ("date", lambda d: d.date() == datetime.date(d.year, d.month, d.day)), ("isoformat", lambda d: d.isoformat())],
    datetime.timedelta: [("bool", bool), ("total", lambda d: d.total_seconds()), ("parts", lambda d: (d.days, d.seconds, d.microseconds)),
                         ("hash eq", lambda d: hash(d) == hash(d))],
}


def args_of(t, base, name):
    if base is datetime.datetime and name == "replace":
        kw = {k: t.int(*TIMES[k]) for k in t.sample(list(TIMES), t.int(0, 3))}
        if t.bool(1, 3):
            kw["tzinfo"] = t.pick([None, datetime.timezone.utc])
        return (), kw
    return tuple(POOLS[base](t) for _ in range(t.pick([0, 1, 1, 2, 2, 3]))), {}


def mixed(t, a):
    """Arguments of which some are values of the library."""
    if type(a) is tuple:
        return tuple(mixed(t, x) for x in a)
    if type(a) in (str, bytes, int, uuid.UUID) and t.bool(1, 3):
        return wrap(a, t)
    return a


def names_of(base):
    out = [n for n in dir(base) if n not in SKIP and not (n in ARITH and base not in (str, bytes))]
    if base is uuid.UUID:
        out += []
    return sorted(out)


NAMES = {b: names_of(b) for b, _g in SCALARS.values()}


def make(name, v):
    return getattr(T, name)(v)


def method(t, m, name, base, v, w):
    n = t.pick(NAMES[base])
    if not callable(getattr(base, n, None)):
        compare(m, "%s(%r).%s" % (name, v, n), lambda: getattr(v, n), lambda: getattr(w, n))
        m.case((name, n))
        return
    args, kw = args_of(t, base, n)
    # (a value with properties counts as a mapping for %, which then does not insist on using it)
    other = args if n in ("__mod__", "__rmod__") else tuple(mixed(t, a) for a in args)
    res = compare(m, "%s(%r).%s%r%s" % (name, v, n, args, kw or ""), lambda: getattr(v, n)(*args, **kw),
                  lambda: getattr(w, n)(*other, **kw), any_error=True)
    m.case((name, n, tuple(type(a).__name__ for a in other), tuple(sorted(kw)), res[0], str(res[1])[:20]))


def indexing(t, m, name, base, v, w):
    if t.bool():
        i = t.int(-3, len(v) + 2)
        compare(m, "%s(%r)[%d]" % (name, v, i), lambda: v[i], lambda: w[i if t.pos % 2 else T.PSInt(i)])
    else:
        s = slice(*(None if t.bool(1, 3) else t.int(-len(v) - 2, len(v) + 2) for _ in range(2)),
                  t.pick([None, None, 1, 2, -1, -2]))
        compare(m, "%s(%r)[%s]" % (name, v, s), lambda: v[s], lambda: w[s])
        need(type(w[s]) is type(w), "a part of %s is %s", name, type(w[s]).__name__)
        m.count("kept type")
    m.count("indexed")


def instant(t, m, v, w):
    """What is derived from a date-time keeps the nanoseconds that are not concerned."""
    ns = t.pick([0, 100, 900, t.draw(10) * 100])
    w = T.PSDateTime(v, nanosecond=ns)
    kw = args_of(t, datetime.datetime, "replace")[1]
    a, b = v.replace(**kw), w.replace(**kw)
    need(type(b) is T.PSDateTime and a == b and a.tzinfo is b.tzinfo and b.nanosecond == ns and b.fold == a.fold,
         "%r.replace(%s) is %r", w, kw, b)
    own(b, m, "replace")
    if v.tzinfo is not None:
        tz = datetime.timezone(datetime.timedelta(hours=t.int(-9, 9)))
        b = w.astimezone(tz)
        need(type(b) is T.PSDateTime and b == v and b.utcoffset() == tz.utcoffset(None) and b.nanosecond == ns,
             "%r in another time zone is %r", w, b)
        own(b, m, "astimezone")
    T.add_note_property(b, "Mine", 1)
    need(not T.PSDateTime.PSObject.extended_properties, "a property of one date-time became one of the class")
    m.count("instants")
    m.case(("instant", tuple(sorted(kw)), ns != 0, v.tzinfo is None))


def scalars(t, m):
    name = t.pick(list(SCALARS))
    base, gen = SCALARS[name]
    v = gen(t)
    w = make(name, v)
    for _ in range(t.int(1, 6)):
        k = t.draw(8)
        if k < 4:
            method(t, m, name, base, v, w)
        elif k == 4 and base in (str, bytes):
            indexing(t, m, name, base, v, w)
        elif k == 5 and SPECS[base]:
            f = t.pick(SPECS[base])
            compare(m, "format(%s(%r), %r)" % (name, v, f), lambda: format(v, f), lambda: format(w, f))
            m.count("formatted")
        elif k == 6 and base is datetime.datetime:
            instant(t, m, v, w)
        else:
            fname, fn = t.pick(FUNCS[base])
            compare(m, "%s of %s(%r)" % (fname, name, v), lambda: fn(v), lambda: fn(w))
            m.case((name, fname))


# ---- what can be changed ---------------------------------------------------------------------------------------------

LIST_OPS = ["append", "append", "extend", "insert", "pop", "pop", "remove", "sort", "reverse", "clear", "setitem", "setitem",
            "setslice", "delitem", "delslice", "iadd", "imul", "getitem", "getslice", "index", "count", "in", "len", "list",
            "add", "mul", "eq", "lt", "reversed", "json", "bool", "copy", "unpack", "iter change"]


def list_op(t, op, x):
    """The operation with its arguments drawn, to be executed on both lists."""
    i, j = t.int(-7, 7), t.int(-7, 7)
    s = slice(None if t.bool(1, 3) else i, None if t.bool(1, 3) else j, t.pick([None, None, 2, -1]))
    seq = [scalar(t) for _ in range(t.count(3))]

    def put(o):
        o[i] = x

    def puts(o):
        o[s] = seq

    def rem(o):
        del o[i]

    def rems(o):
        del o[s]

    def iadd(o):
        o += seq
        return type(o).__name__ != "list" and not isinstance(o, T.PSObject)

    def imul(o):
        if len(o) < 40:
            o *= t_small

    t_small = t.int(0, 3)
    return {
        "append": lambda o: o.append(x), "extend": lambda o: o.extend(seq), "insert": lambda o: o.insert(i, x),
        "pop": lambda o: o.pop(i) if j > 3 else o.pop(), "remove": lambda o: o.remove(x), "sort": lambda o: o.sort(key=str, reverse=i > 0),
        "reverse": lambda o: o.reverse(), "clear": lambda o: o.clear(), "setitem": put, "setslice": puts, "delitem": rem,
        "delslice": rems, "iadd": iadd, "imul": imul, "getitem": lambda o: o[i], "getslice": lambda o: list(o[s]),
        "index": lambda o: o.index(x, min(abs(i), 2)), "count": lambda o: o.count(x), "in": lambda o: x in o, "len": len,
        "list": list, "add": lambda o: o + seq, "mul": lambda o: o * t_small, "eq": lambda o: (o == seq, o != seq),
        "lt": lambda o: [str(y) for y in o] < [str(y) for y in seq], "reversed": lambda o: list(reversed(o)),
        "json": lambda o: json.dumps(o), "bool": bool, "copy": lambda o: o.copy(), "unpack": lambda o: (lambda *a: a)(*o),
        "iter change": lambda o: [y for y, _z in zip(o, range(3))]}[op]


DICT_OPS = ["set", "set", "set", "get", "getitem", "in", "pop", "pop default", "popitem", "setdefault", "update", "update kw", "del",
            "clear", "keys", "values", "items", "len", "or", "ior", "eq", "json", "iter", "reversed", "copy", "bool", "format",
            "unpack"]


def dict_op(t, op, key):
    x, k2 = scalar(t), t.pick(["a", "b", 1, 2, None, "zz"])
    more = {t.pick(["a", "b", "c", 5]): scalar(t) for _ in range(t.count(3))}

    def put(o):
        o[key] = x

    def rem(o):
        del o[key]

    def ior(o):
        o |= more

    return {
        "set": put, "get": lambda o: o.get(key, x), "getitem": lambda o: o[key], "in": lambda o: (key in o, k2 in o),
        "pop": lambda o: o.pop(key), "pop default": lambda o: o.pop(key, x), "popitem": lambda o: o.popitem(),
        "setdefault": lambda o: o.setdefault(key, x), "update": lambda o: o.update(more), "update kw": lambda o: o.update(q=x),
        "del": rem, "clear": lambda o: o.clear(), "keys": lambda o: list(o.keys()), "values": lambda o: list(o.values()),
        "items": lambda o: list(o.items()), "len": len, "or": lambda o: o | more, "ior": ior, "eq": lambda o: (o == more, o != more),
        "json": lambda o: json.dumps(o), "iter": list, "reversed": lambda o: list(reversed(o)), "copy": lambda o: o.copy(),
        "bool": bool, "format": lambda o: "{a}".format_map(o) if "a" in o else None,
        "unpack": lambda o: dict(**{k: v for k, v in o.items() if isinstance(k, str)})}[op]


def changing(t, m):
    kind = t.pick(["PSList", "PSStack", "PSIEnumerable", "PSDict", "PSDict"])
    cls = getattr(T, kind)
    if kind == "PSDict":
        v = {t.pick(["a", "b", "c", 1, 2, None]): scalar(t) for _ in range(t.count(4))}
        how = t.draw(3)
        if how == 1 and all(isinstance(k, str) for k in v):
            w = cls(**v)
        else:
            w = cls(v) if how else cls(list(v.items()))
        w2 = cls(v)
    else:
        v = [scalar(t) for _ in range(t.count(5))]
        w = cls(v) if t.bool() else cls(iter(list(v)))
        w2 = cls(v)
    v = copy.copy(v)
    before = copy.copy(v)
    hist = []
    T.add_note_property(w, "Note", 7)
    for _ in range(t.int(1, 14)):
        if kind == "PSDict":
            op = t.pick(DICT_OPS)
            key = t.pick(["a", "b", "c", 1, 2, None, "zz", (1, "a")] + [[1]] * t.bool(1, 4))
            fn = dict_op(t, op, key)
        else:
            op = t.pick(LIST_OPS)
            fn = list_op(t, op, scalar(t))
        hist.append(op)
        res = compare(m, "%s: %s after %s" % (kind, op, hist[:-1]), lambda: fn(v), lambda: fn(w),
                      any_error=op == "getitem" and kind == "PSDict" and isinstance(key, str))
        if op == "json":
            m.count("json")
        if op == "getslice":
            m.count("kept type")
        raw = list(w.items()) if kind == "PSDict" else list(w)
        need(raw == (list(v.items()) if kind == "PSDict" else v) and len(w) == len(v) and w == v and v == w,
             "%s after %s: %r instead of %r", kind, hist, raw, v)
        need(type(w) is cls and w["Note"] == 7 and w.Note == 7, "%s after %s lost its property", kind, hist)
        m.case((kind, op, res[0], str(res[1])[:20]))
    need(w2 == before, "%s: another %s made of the same content changed to %r", hist, kind, w2)
    m.count("histories")


def queues(t, m):
    size = t.pick([0, 0, 1, 3])
    v, w = queue.Queue(size), T.PSQueue(size) if t.bool() else T.PSQueue(maxsize=size)
    hist = []
    T.add_note_property(w, "Note", 7)
    for _ in range(t.int(1, 16)):
        op = t.pick(["put", "put", "put", "get", "get", "qsize", "empty", "full", "done", "put nowait", "get nowait"])
        x = scalar(t)
        fn = {"put": lambda o: o.put(x, block=False), "get": lambda o: o.get(block=False), "qsize": lambda o: o.qsize(),
              "empty": lambda o: o.empty(), "full": lambda o: o.full(), "done": lambda o: o.task_done(),
              "put nowait": lambda o: o.put_nowait(x), "get nowait": lambda o: o.get_nowait()}[op]
        hist.append(op)
        res = compare(m, "queue(%d): %s after %s" % (size, op, hist[:-1]), lambda: fn(v), lambda: fn(w))
        need(list(v.queue) == list(w.queue) and v.unfinished_tasks == w.unfinished_tasks and w.Note == 7,
             "a queue after %s has %r instead of %r", hist, list(w.queue), list(v.queue))
        m.case(("queue", size, op, res[0], str(res[1])[:20]))
    m.count("histories")


def creation(t):
    """(name of the class, arguments): one of the ways to make such a value in Python."""
    name = t.pick(list(SCALARS) + ["PSGuid", "PSByteArray", "PSDateTime", "PSDuration", "PSDecimal"])
    base, gen = SCALARS[name]
    v, kw = gen(t), {}
    if base is int:
        args, kw = t.pick([lambda: ((v,), {}), lambda: ((str(v),), {}), lambda: ((" %d " % v,), {}), lambda: ((b"%d" % v,), {}),
                           lambda: (("%x" % v, 16), {}), lambda: ((bin(v),), {"base": 2}), lambda: ((hex(v),), {"base": 0}),
                           lambda: ((float(v % 100) + .5 * (v % 2),), {}), lambda: (("1_0",), {}), lambda: ((text(t),), {}),
                           lambda: ((True,), {}), lambda: ((decimal.Decimal("7.9"),), {}), lambda: ((1j,), {})])()
    elif base is str:
        args, kw = t.pick([lambda: ((v,), {}), lambda: ((t.int(-5, 5),), {}), lambda: ((None,), {}), lambda: ((b"ab\xc3\xa9", "utf-8"), {}),
                           lambda: ((b"a\xff",), {"encoding": "utf-8", "errors": "replace"}), lambda: ((b"a\xff", "utf-8"), {}),
                           lambda: ((), {"object": v}), lambda: ((), {}), lambda: (([1, "a"],), {})])()
    elif base is bytes:
        args, kw = t.pick([lambda: ((v,), {}), lambda: ((t.int(-1, 5),), {}), lambda: (([1, 255, t.int(250, 258)],), {}),
                           lambda: ((text(t), "utf-8", "replace"), {}), lambda: ((text(t),), {}), lambda: ((bytearray(v),), {}),
                           lambda: ((memoryview(v),), {}), lambda: ((), {}), lambda: (("a",), {"encoding": "utf-16-le"})])()
    elif base is float:
        args = t.pick([(v,), (str(v),), (" 1e3 ",), ("nan",), ("-inf",), (t.int(-5, 5),), ("x",), (), (b"1.5",)])
    elif base is decimal.Decimal:
        args = t.pick([(v,), (str(v),), (t.int(-5, 5),), (1.25,), ((1, (1, 2, 3), -2),), ("1e5",), ("1_0.5",), (), ("0.10",), ([],)])
    elif base is uuid.UUID:
        args, kw = t.pick([((str(v),), {}), ((v.hex.upper(),), {}), (("{%s}" % v,), {}), (("urn:uuid:%s" % v,), {}), ((), {"int": v.int}),
                           ((), {"bytes": v.bytes}), ((), {"bytes_le": v.bytes_le}), ((), {"fields": v.fields}), ((), {"hex": v.hex}),
                           (("ab",), {}), ((), {}), ((), {"int": -1}), ((), {"int": 2**127, "version": 4})])
    elif base is datetime.datetime:
        f = (v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond)
        n = t.int(2, 7)
        args, kw = t.pick([(f[:n], {}), (f[:n], {"tzinfo": v.tzinfo}), (f + (v.tzinfo,), {}), (f[:3], {"hour": t.int(0, 24), "fold": 1}),
                           ((), {"year": v.year, "month": v.month, "day": t.int(27, 32)}), (f[:3], {"microsecond": 10**6 - t.draw(2)})])
    else:
        args, kw = (), {k: t.pick([t.int(-90, 90), t.int(-90, 90) / 8])
                        for k in t.sample(["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"], t.int(0, 4))}
        if t.bool():
            args = tuple(t.int(-90, 90) for _ in range(t.int(1, 3)))
    return name, base, args, kw


OPS = [getattr(operator, n) for n in "add sub mul truediv floordiv mod and_ or_ xor lshift rshift pow".split()] + [divmod]
ONES = [operator.neg, operator.pos, operator.abs, operator.invert, round, int, float]
ARGS = {int: lambda t: t.pick([lambda: t.int(-9, 9), lambda: t.int(-90, 90) / 8, lambda: decimal.Decimal(t.int(-9, 9)), lambda: "ab", lambda: t.int(0, 40), lambda: V.gen_int_in(t, -2**31, 2**31 - 1), lambda: True])(),
        float: lambda t: t.pick([lambda: t.int(-9, 9), lambda: t.int(-90, 90) / 8])(),
        decimal.Decimal: lambda t: t.pick([lambda: t.int(-9, 9), lambda: decimal.Decimal(t.int(-999, 999)).scaleb(-2)])(),
        datetime.datetime: lambda t: t.pick([lambda: span(t), lambda: when(t)])(),
        datetime.timedelta: lambda t: t.pick([lambda: span(t), lambda: when(t)])()}


def arithmetic(t, m):
    name = t.pick([n for n, (b, _g) in SCALARS.items() if b in ARGS])
    base, gen = SCALARS[name]
    v = gen(t)
    w = make(name, v)
    lo, hi = INTS.get(name, (None, None))
    if t.bool(1, 4):
        op, other, lib = t.pick(ONES), (), ()
        if base in (datetime.datetime, datetime.timedelta):
            op = t.pick(ONES[:2])
            if base is datetime.datetime:
                return
        if op is operator.invert and base is not int:
            return
        swap = False
    else:
        op = t.pick(OPS[:2] if base in (datetime.datetime, datetime.timedelta) else OPS if base is int else OPS[:6] + OPS[-2:])
        x = ARGS[base](t)
        if op in (operator.lshift, operator.pow) and isinstance(x, int) and abs(x) > 60:
            return
        swap = t.bool(1, 3)
        if isinstance(x, str) and (op is operator.mod or op is operator.mul and abs(v) > 60):
            return
        if swap and op in (operator.lshift, operator.pow) and isinstance(v, int) and abs(v) > 60:
            return
        other, lib = (x,), (wrap(x) if t.bool() else x,)
    with decimal.localcontext() as c:
        c.prec = 28
        kind, a = run(lambda: op(*other, v) if swap else op(v, *other))
        if lo is not None and kind == "value":
            for y in a if isinstance(a, tuple) else (a,):
                if type(y) is int and not (max(lo, -2**31) <= y <= min(hi, 2**31 - 1)):
                    return
        compare(m, "%s(%s%r%s)" % (op.__name__, "swapped " if swap else "", w, "".join(", %r" % x for x in lib)),
                lambda: op(*other, v) if swap else op(v, *other), lambda: op(*lib, w) if swap else op(w, *lib))
    m.count("arithmetic")
    m.case(("arith", name, op.__name__, swap, tuple(type(x).__name__ for x in lib), kind))


def created(t, m):
    name, base, args, kw = creation(t)
    cls = getattr(T, name)
    lo, hi = INTS.get(name, (None, None))
    kind, a = run(lambda: base(*args, **kw))
    if lo is not None and kind == "value" and not lo <= a <= hi:
        return
    compare(m, "%s(*%r, **%r)" % (name, args, kw), lambda: base(*args, **kw), lambda: cls(*args, **kw))
    if kind == "value":
        w = cls(*args, **kw)
        need(type(w) is cls, "%s(*%r) is a %s", name, args, type(w).__name__)
        compare(m, "%s(%s(*%r, **%r))" % (name, name, args, kw), lambda: a, lambda: cls(w))
    m.count("created")
    m.case(("created", name, tuple(type(x).__name__ for x in args), tuple(sorted(kw)), kind))


def case(t, m):
    k = t.draw(12)
    if k == 10:
        created(t, m)
    elif k == 11:
        arithmetic(t, m)
    elif k < 6:
        scalars(t, m)
    elif k < 9:
        changing(t, m)
    else:
        queues(t, m)


# ---- enumerated ------------------------------------------------------------------------------------------------------


def _every(m):
    """Every method and function of every type, many times each."""
    from ..tape import Tape

    for name, (base, gen) in SCALARS.items():
        for n in range(6):
            t = Tape(seed=n)
            v = gen(t)
            w = make(name, v)
            for fname, fn in FUNCS[base]:
                compare(m, "%s of %s(%r)" % (fname, name, v), lambda: fn(v), lambda: fn(w))
                m.case((name, fname))
            for f in SPECS[base]:
                compare(m, "format(%s(%r), %r)" % (name, v, f), lambda: format(v, f), lambda: format(w, f))
            for n2 in NAMES[base]:
                for args in ((), (3,), (3, "little")) if base is int else ((), (v,), (v, v)):
                    if callable(getattr(base, n2, None)):
                        compare(m, "%s(%r).%s%r" % (name, v, n2, args), lambda: getattr(v, n2)(*args),
                                lambda: getattr(w, n2)(*(x if base is int else make(name, x) for x in args)), any_error=True)


def units(tier):
    return [("every operation", _every)]
