"""P07: serialization is pure, instances and sessions do not share state."""

import copy
import inspect
import queue
import re
import uuid
from xml.etree import ElementTree as ET

from .. import values as V
from ..mon import need
from ..tape import Tape
from ..wire import parse_xml
from ..world import Pair, fp, fp_event

import psrpcore
from psrpcore import types as T
from psrpcore.types import deserialize, serialize

PROP = "P07"
LEVEL = "exploration"
RULE = ("distinct documents (bytes) whose value was serialized and deserialized repeatedly, before and after other "
        "values and mutations, with the value, the classes and the results compared each time")
ASSUMPTIONS = ["values are compared through the public view: class, value, type names, text and properties"]
CASES = {"quick": 9000, "thorough": 300000}
TIME = {"quick": 60, "thorough": 800}
REQUIRE = ["serializations", "deserializations", "mutations", "class_snapshots", "sessions", "enumerated", "property objects", "derived",
           "twins", "foreign_contents"]

CIPHER = psrpcore.PSRemotingCrypto()


def all_classes(root=T.PSObject):
    out, todo = [], [root]
    while todo:
        c = todo.pop()
        if c in out:
            continue
        out.append(c)
        todo += type.__subclasses__(c)
    return [c for c in out if c.__module__.startswith(("psrpcore", "psrpmon"))]


def snapshot():
    out = {}
    for c in all_classes():
        o = c.__dict__.get("PSObject")
        if o is None:
            continue
        row = [tuple(o.type_names), o.rehydrate, o.to_string]
        for which in ("adapted_properties", "extended_properties"):
            for p in getattr(o, which):
                v = fp(p.get_value(T.PSObject())) if isinstance(p, T.PSNoteProperty) else None
                row.append((which, type(p).__name__, p.name, p.mandatory, str(p.ps_type), v, p.getter, p.setter,
                            getattr(p, "alias", None)))
        out["%s.%s" % (c.__module__, c.__qualname__)] = tuple(row)
    return out


def same_classes(before, m, what):
    now = snapshot()
    m.count("class_snapshots")
    if now != before:
        for k in before:
            need(now.get(k) == before[k], "%s changed the class %s: %s -> %s", what, k, before[k], now.get(k))
        need(False, "%s changed the classes", what)


def ser(o):
    return ET.tostring(serialize(o, CIPHER), encoding="utf-8", method="xml")


CREATORS = []
for _n in sorted(T.__all__):
    _c = getattr(T, _n)
    if inspect.isclass(_c) and issubclass(_c, T.PSObject) and not issubclass(_c, (T.PSEnumBase, T.PSFlagBase)):
        try:
            _o = _c()
            serialize(_o, CIPHER)
        except Exception:
            continue
        CREATORS.append(_n)


def lib_value(t):
    """An instance of one of the library's own types, decorated."""
    n = t.pick(CREATORS + ["ErrorRecord*", "InformationRecord*", "InvocationInfo*"])
    if n == "ErrorRecord*":
        o = T.ErrorRecord(Exception=T.NETException(Message=V.gen_text(t)), CategoryInfo=T.ErrorCategoryInfo(),
                          TargetObject=V.build(V.gen_value(t, 6)))
    elif n == "InformationRecord*":
        o = T.InformationRecord.create(V.build(V.gen_value(t, 6)), "s", tags=["a"], user="u", computer="c",
                                       process_id=1, native_thread_id=2, managed_thread_id=3,
                                       time_generated=T.PSDateTime(2020, 1, 1))
    elif n == "InvocationInfo*":
        o = T.InvocationInfo(CommandOrigin=T.CommandOrigin.Runspace, Line="x")
    else:
        o = getattr(T, n)()
    return n, o


def mutate(t, o, m, depth=0, seen=None):
    """Change something reachable from a value that came out of the library."""
    seen = seen if seen is not None else set()
    if id(o) in seen or depth > 8:
        return
    seen.add(id(o))
    if isinstance(o, T.PSObject) and not isinstance(o, (T.PSEnumBase, T.PSFlagBase)):
        k = t.draw(6)
        if k == 0:
            o.PSObject.type_names.append("Mutated")
        elif k == 1:
            o.PSObject.type_names.insert(0, "Mutated")
        elif k == 2:
            o.PSObject.to_string = "mutated"
        elif k == 3:
            T.add_note_property(o, "MutatedProp", 1, force=True)
        elif k == 4:
            o.PSObject.type_names[:] = []
        for which in ("adapted_properties", "extended_properties"):
            for p in list(getattr(o.PSObject, which)):
                if isinstance(p, T.PSNoteProperty):
                    v = p.get_value(o)
                    mutate(t, v, m, depth + 1, seen)
                    if t.bool():
                        p.set_value(None, o)
                elif isinstance(p, T.PSScriptProperty) and t.bool():
                    p.getter = lambda self: None
        if t.bool(1, 4):
            o.PSObject.extended_properties.clear()
        if isinstance(o, T.PSVersion) and t.bool():
            o.major, o.minor = o.minor, 77
        m.count("mutations")
    if isinstance(o, dict):
        for v in list(dict.values(o)):
            mutate(t, v, m, depth + 1, seen)
        dict.__setitem__(o, "mutated", 1)
    elif isinstance(o, list):
        for v in list(o):
            mutate(t, v, m, depth + 1, seen)
        o.append("mutated") if t.bool() else o.clear()
        m.count("mutations")
    elif isinstance(o, queue.Queue):
        for v in list(o.queue):
            mutate(t, v, m, depth + 1, seen)
        o.put("mutated")


def values_case(t, m):
    snap = snapshot()
    vals = []
    for _ in range(t.int(1, 3)):
        if t.bool(3, 4):
            n = V.gen_value(t, t.pick([6, 20, 40]), cycles=t.bool(1, 4))
            m.log("%s", V.show(n))
            vals.append(V.build(n))
        else:
            n, o = lib_value(t)
            m.log("instance of %s", n)
            vals.append(o)
    before = [fp(o) for o in vals]
    first = []
    for i, o in enumerate(vals):
        first.append(ser(o))
        m.count("serializations")
        for j, x in enumerate(vals):
            need(fp(x) == before[j], "serializing value %d changed value %d", i, j)
        need(ser(o) == first[i], "value %d serialized again gives other bytes", i)
    same_classes(snap, m, "serializing")
    for i in reversed(range(len(vals))):
        need(ser(vals[i]) == first[i], "value %d serialized after others gives other bytes", i)
    m.count("serializations", 2 * len(vals))
    # reading
    els = [parse_xml(b) for b in first]
    got = []
    for i, el in enumerate(els):
        a = deserialize(el, CIPHER)
        b = deserialize(el, CIPHER)
        m.count("deserializations", 2)
        need(fp(a) == fp(b), "document %d read twice gives different values", i)
        need(ET.tostring(el, encoding="utf-8", method="xml") == first[i], "reading changed the document %d", i)
        got.append((a, b, fp(b)))
        m.case(first[i])
    same_classes(snap, m, "reading")
    # changing what was received
    for i, (a, b, f) in enumerate(got):
        mutate(t, a, m)
        need(fp(b) == f, "changing one received object changed another read from the same document (%d)", i)
        for j, o in enumerate(vals):
            need(fp(o) == before[j], "changing a received object changed the sent one")
    same_classes(snap, m, "changing received objects")
    for i, el in enumerate(els):
        need(fp(deserialize(el, CIPHER)) == got[i][2], "document %d reads differently after other objects changed", i)
        need(ser(vals[i]) == first[i], "value %d serializes differently after received objects changed", i)
    # changing what was sent leaves what was received alone
    for o in vals:
        mutate(t, o, m)
    for i, (a, b, f) in enumerate(got):
        need(fp(b) == f, "changing the sent object changed the received one (%d)", i)
    same_classes(snap, m, "changing sent objects")


def script(t):
    """A fixed session: its complete wire bytes and events."""
    rp, pp = uuid.UUID(int=7), uuid.UUID(int=9)
    trace = []
    p = Pair(psrpcore.ClientRunspacePool(runspace_pool_id=rp), psrpcore.ServerRunspacePool())
    p.client.open()
    for ln, d, ev in p.pump():
        trace.append((d.type, d.data, fp_event(ev)))
    ps = psrpcore.ClientPowerShell(p.client, pipeline_id=pp)
    ps.add_script("script").add_parameter("a", [1, "x"])
    sp = psrpcore.ServerPipeline(p.server, pp)
    ps.start()
    evs = p.pump()
    sp.start()
    inv = T.InvocationInfo(CommandOrigin=T.CommandOrigin.Runspace, Line="x",
                           BoundParameters=T.PSDict({"k": 1}), UnboundArguments=T.PSList([1]))
    sp.write_output({"a": [1, 2, T.PSCustomObject(x=1)]})
    sp.write_error(T.NETException(Message="m"), T.ErrorCategoryInfo(), target_object=T.PSCustomObject(y=2),
                   invocation_info=inv)
    sp.write_verbose("v", inv)
    sp.write_progress("a", 1, "s")
    sp.write_information(T.PSCustomObject(z=1), "src", time_generated=T.PSDateTime(2020, 1, 1), tags=["t"], user="u",
                         computer="c", process_id=1, native_thread_id=1, managed_thread_id=1)
    p.server.host_call(T.HostMethodIdentifier.ReadLine)
    p.server.send_event(1, "s", time_generated=T.PSDateTime(2020, 1, 1), computer="c")
    sp.complete()
    evs += p.pump()
    for ln, d, ev in evs:
        trace.append((d.type, d.data, fp_event(ev)))
    return trace, [e for _l, _d, e in evs], p, sp, inv


BASE = None


def sessions_case(t, m):
    global BASE
    snap = snapshot()
    trace, evs, p, sp, inv = script(t)
    if BASE is None:
        BASE = trace
    need(trace == BASE, "the same session run again sends or receives something else: %s",
         [(a[0], b[0]) for a, b in zip(trace, BASE) if a != b][:3])
    for e in t.shuffle(evs):
        for a in ("record", "data", "pipeline", "event", "host_info", "application_arguments", "method_parameters",
                  "reason", "result"):
            if hasattr(type(e), a):
                mutate(t, getattr(e, a), m)
    mutate(t, p.client.application_private_data, m)
    mutate(t, p.server.application_private_data, m)
    mutate(t, p.server.application_arguments, m)
    mutate(t, p.client.our_capability, m)
    mutate(t, inv, m)
    same_classes(snap, m, "changing what a session received")
    trace, _e, _p, _s, _i = script(t)
    need(trace == BASE, "after objects of another session were changed a session sends or receives something else: %s",
         [(a[0], b[0]) for a, b in zip(trace, BASE) if a != b][:3])
    m.count("sessions", 2)


def change(t, o, m, depth=0, seen=None):
    """Give the properties of an object, and of what it holds, other values; then anything else that mutate() does."""
    seen = seen if seen is not None else []
    if any(o is x for x in seen) or depth > 6:
        return
    seen.append(o)
    if isinstance(o, T.PSObject) and not isinstance(o, (T.PSEnumBase, T.PSFlagBase)):
        for which in ("adapted_properties", "extended_properties"):
            for p in list(getattr(o.PSObject, which)):
                try:
                    v = p.get_value(o)
                except Exception:
                    continue
                change(t, v, m, depth + 1, seen)
                if t.bool():
                    try:
                        p.set_value(t.pick([5, "other", True, None, [1], "x"]), o)
                    except Exception:
                        pass
    for v in list(dict.values(o)) if isinstance(o, dict) else list(o) if isinstance(o, list) else ():
        change(t, v, m, depth + 1, seen)
    if depth == 0 and t.bool(1, 3):
        mutate(t, o, m)


def outcome(fn):
    try:
        return fn()
    except Exception as e:
        return type(e).__name__


def twins_case(t, m):
    """Two equal objects, only one of which is serialized before both are changed in the same way."""
    seeds = [t.draw(1 << 40) for _ in range(6)]
    own, relayed, rounds = t.bool(1, 2), t.bool(1, 3), t.int(1, 2)
    budget, cycles = t.pick([6, 20]), t.bool(1, 4)

    def make():
        b = Tape(seed=seeds[0])
        o = lib_value(b)[1] if own else V.build(V.gen_value(b, budget, cycles=cycles))
        return deserialize(parse_xml(ser(o)), CIPHER) if relayed else o

    a, b = make(), make()
    for i in range(rounds):
        outcome(lambda: ser(a))
        outcome(lambda: str(a))
        outcome(lambda: fp(a))
        for o in (a, b):
            change(Tape(seed=seeds[i + 1]), o, m)
        m.count("twins")
    x, y = outcome(lambda: ser(a)), outcome(lambda: ser(b))
    need(x == y, "an object that was serialized before it was changed is serialized as %a, another one as %a", x, y)
    f = outcome(lambda: fp(a)), outcome(lambda: fp(b))
    need(f[0] == f[1], "an object that was serialized before it was changed is %s, another one %s", *f)
    if isinstance(x, bytes):
        m.case(("twins", x))


def case(t, m):
    if t.bool(1, 12):
        sessions_case(t, m)
    elif t.bool(1, 5):
        twins_case(t, m)
    else:
        values_case(t, m)


def _instances(m):
    """Two instances of every class: changing one leaves the other, and later ones, alone."""
    snap = snapshot()
    for n in CREATORS:
        c = getattr(T, n)
        for seed in range(12):
            a, b = c(), c()
            f = fp(b)
            t = Tape(seed=seed * 1000 + len(n))
            mutate(t, a, m)
            try:
                ser(a)
            except Exception:
                pass  # a mandatory part is gone
            need(fp(b) == f, "changing one %s changed another", n)
            need(fp(c()) == f, "changing one %s changed new ones", n)
            same_classes(snap, m, "changing a " + n)
            m.count("enumerated")


def _get(self):
    return 5


def _get2(self):
    return 6


def _set(self, value):
    self.B = value


@T.PSType(
    ["Mon.Properties"],
    adapted_properties=[T.PSNoteProperty("A", value=T.PSString("a"), ps_type=T.PSString), T.PSAliasProperty("AA", "A"),
                        T.PSScriptProperty("AS", _get, _set, ps_type=T.PSInt), T.PSScriptProperty("AR", _get)],
    extended_properties=[T.PSNoteProperty("B", value=[1]), T.PSAliasProperty("BB", "B", T.PSString),
                         T.PSScriptProperty("BS", _get, _set, mandatory=False), T.PSScriptProperty("BR", _get)],
)
class MonProperties(T.PSObject):
    pass


@T.PSType(["Mon.PropertiesChild"])
class MonPropertiesChild(MonProperties):
    pass


def _props(o, of=None):
    """Everything the properties of an object (or class) say."""
    out = []
    for which in ("adapted_properties", "extended_properties"):
        for p in getattr(o.PSObject, which):
            v = None if of is None and not isinstance(p, T.PSNoteProperty) else fp(p.get_value(of or T.PSObject()))
            getter = None if isinstance(p, T.PSAliasProperty) else p.getter
            out.append((which, type(p).__name__, p.name, p.mandatory, p.ps_type, getter, p.setter,
                        getattr(p, "alias", None), v))
    return out


def _change_property(o, p, what):
    if what in ("name", "alias"):
        setattr(p, what, "Changed")
    elif what == "ps_type":
        p.ps_type = T.PSUri
    elif what == "mandatory":
        p.mandatory = not p.mandatory
    elif what == "getter":
        p.getter = _get2
    elif what == "setter":
        p.setter = lambda self, value: None
    elif what == "no setter":
        p.setter = None
    elif what == "value":
        p.set_value(9, o)


def _property_objects(m):
    """The description of a property belongs to one object: changing it leaves other objects and the class alone."""
    for cls in (MonProperties, MonPropertiesChild):
        for kind in ("instance", "copy"):
            for which, n in (("adapted_properties", 4), ("extended_properties", 4)):
                for i in range(n):
                    for what in ("name", "alias", "ps_type", "mandatory", "getter", "setter", "no setter", "value"):
                        a, b = cls(), cls()
                        p = q = getattr(a.PSObject, which)[i]
                        if kind == "copy":  # a property made from another one
                            p = q.copy()
                        before = (_props(b, b), _props(cls), _props(MonProperties), _props(cls(), cls()))
                        others = [x for x in _props(a, a)]
                        first = (q.name, q.mandatory, q.ps_type, q.getter, q.setter, getattr(q, "alias", None))
                        try:
                            if what == "alias" and not hasattr(p, "alias"):
                                continue
                            _change_property(a, p, what)
                        except (ValueError, TypeError):
                            continue
                        now = (_props(b, b), _props(cls), _props(MonProperties), _props(cls(), cls()))
                        need(before == now, "changing the %s of property %d of one %s changed another object or the "
                             "class: %s", what, i, cls.__name__,
                             [(x, y) for r, s in zip(before, now) for x, y in zip(r, s) if x != y][:1])
                        if kind == "copy":
                            need(first == (q.name, q.mandatory, q.ps_type, q.getter, q.setter,
                                           getattr(q, "alias", None)) and (what == "value" or _props(a, a) == others),
                                 "changing the %s of a copy of a property changed the property", what)
                        m.count("enumerated")
                        m.count("property objects")
                        m.case((cls.__name__, kind, which, i, what))


def _derivations():
    """name -> (make the source, derive another object from it)"""
    import datetime

    cip = psrpcore.PSRemotingCrypto()
    cip.register_key(b"\x02" * 32)

    def received(o):
        return deserialize(serialize(o, cip), cip)

    out = {"decrypted": (lambda: T.PSSecureString("abc"), lambda o: o.decrypt()),
           "decrypted received": (lambda: received(T.PSSecureString("abc")), lambda o: o.decrypt())}
    for n in ("PSByte", "PSSByte", "PSUInt16", "PSInt16", "PSUInt", "PSInt", "PSUInt64", "PSInt64"):
        c = getattr(T, n)
        for label, fn in (("same", lambda o: type(o)(o)), ("+", lambda o: o + 1), ("+0", lambda o: o + 0),
                          ("-", lambda o: o - 1), ("*", lambda o: o * 1), ("//", lambda o: o // 1),
                          ("|", lambda o: o | 0), ("&", lambda o: o & 127), ("pos", lambda o: +o),
                          ("abs", lambda o: abs(o)), ("<<", lambda o: o << 0), ("divmod", lambda o: divmod(o, 1)[0]),
                          ("other type", lambda o: T.PSInt64(o)), ("double", lambda o: T.PSDouble(o)),
                          ("string", lambda o: T.PSString(o))):
            out["%s %s" % (n, label)] = (lambda c=c: c(5), fn)
    for n, v in (("PSString", "abc"), ("PSUri", "http://a"), ("PSXml", "<a/>"), ("PSScriptBlock", "1 + 1")):
        c = getattr(T, n)
        for label, fn in (("same", lambda o: type(o)(o)), ("slice", lambda o: o[1:]), ("whole slice", lambda o: o[:]),
                          ("item", lambda o: o[0]), ("string", lambda o: T.PSString(o)),
                          ("secure", lambda o: T.PSSecureString(o)), ("script", lambda o: T.PSScriptBlock(o))):
            out["%s %s" % (n, label)] = (lambda c=c, v=v: c(v), fn)
    out.update({
        "bytes slice": (lambda: T.PSByteArray(b"abc"), lambda o: o[:]),
        "bytes same": (lambda: T.PSByteArray(b"abc"), lambda o: T.PSByteArray(o)),
        "bytes item": (lambda: T.PSByteArray(b"abc"), lambda o: o[0]),
        "char same": (lambda: T.PSChar("a"), lambda o: T.PSChar(o)),
        "guid same": (lambda: T.PSGuid(int=5), lambda o: T.PSGuid(o) if False else T.PSGuid(str(o))),
        "decimal same": (lambda: T.PSDecimal("1.5"), lambda o: T.PSDecimal(o)),
        "single same": (lambda: T.PSSingle(1.5), lambda o: T.PSSingle(o)),
        "double same": (lambda: T.PSDouble(1.5), lambda o: T.PSDouble(o)),
        "time same": (lambda: T.PSDateTime(2020, 1, 1), lambda o: T.PSDateTime(o)),
        "time from python": (lambda: datetime.datetime(2020, 1, 1), lambda o: T.PSDateTime(o)),
        "time +": (lambda: T.PSDateTime(2020, 1, 1), lambda o: o + T.PSDuration(seconds=0)),
        "time -": (lambda: T.PSDateTime(2020, 1, 1), lambda o: o - T.PSDuration(seconds=1)),
        "time - time": (lambda: T.PSDateTime(2020, 1, 1), lambda o: o - T.PSDateTime(2019, 1, 1)),
        "duration same": (lambda: T.PSDuration(seconds=1), lambda o: T.PSDuration(o)),
        "duration +": (lambda: T.PSDuration(seconds=1), lambda o: o + T.PSDuration(seconds=0)),
        "duration -": (lambda: T.PSDuration(seconds=1), lambda o: o - T.PSDuration(seconds=0)),
        "duration neg": (lambda: T.PSDuration(seconds=1), lambda o: -o),
        "duration pos": (lambda: T.PSDuration(seconds=1), lambda o: +o),
        "time of duration": (lambda: T.PSDuration(seconds=1), lambda o: T.PSDateTime(2020, 1, 1) + o),
        "version": (lambda: T.PSVersion("1.2"), lambda o: T.PSVersion(str(o))),
        "list same": (lambda: T.PSList([1, 2]), lambda o: T.PSList(o)),
        "list of list": (lambda: [1, 2], lambda o: T.PSList(o)),
        "list slice": (lambda: T.PSList([1, 2]), lambda o: T.PSList(o[:])),
        "stack": (lambda: T.PSList([1, 2]), lambda o: T.PSStack(o)),
        "enumerable": (lambda: T.PSList([1, 2]), lambda o: T.PSIEnumerable(o)),
        "dict same": (lambda: T.PSDict({1: 2}), lambda o: T.PSDict(o)),
        "dict of dict": (lambda: {1: 2}, lambda o: T.PSDict(o)),
        "custom object": (lambda: {"a": 1}, lambda o: T.PSCustomObject(**o)),
        "text of received": (lambda: received(T.PSString("abc")), lambda o: T.PSString(o)),
        "record of a record": (lambda: T.ErrorCategoryInfo(Activity="a"), lambda o: T.ErrorCategoryInfo(
            Activity=o.Activity, Reason=o.Reason)),
    })
    return out


def _derived(m):
    """Objects made from other objects: changing either leaves the other alone."""
    from ..tape import Tape

    def dress(o, t):
        """Something of its own on the object, as a sender does."""
        if isinstance(o, T.PSObject):
            T.add_note_property(o, "Own", [1, {"x": 2}], force=True)
            if t.bool():
                T.add_alias_property(o, "OwnAlias", "Own", force=True)
            if t.bool():
                o.PSObject.type_names.insert(0, "Own.Type")
            if t.bool():
                o.PSObject.to_string = "own text"

    snap = snapshot()
    for name, (make, derive) in _derivations().items():
        for seed in range(24):
            t = Tape(seed=seed * 31 + len(name))
            src = make()
            if seed % 3:
                dress(src, t)
            f = fp(src)
            got = derive(src)
            need(fp(src) == f, "%s: making another object of it changed it", name)
            if got is src or not isinstance(got, T.PSObject):
                m.count("enumerated")
                continue
            g = fp(got)
            if seed % 2:
                if seed % 4 == 1:
                    dress(got, t)
                mutate_top(t, got, m)
                need(fp(src) == f, "%s: changing what was made from it changed it", name)
                need(fp(derive(src)) == g, "%s: another one differs after the first was changed", name)
            else:
                if seed % 4 == 0:
                    dress(src, t)
                mutate_top(t, src, m)
                need(fp(got) == g, "%s: changing it changed what was made from it", name)
            m.count("enumerated")
            m.count("derived")
            m.case(("derived", name, seed))
        same_classes(snap, m, "making " + name)


def mutate_top(t, o, m):
    """Change the object itself: its own properties, names, text and entries (what it refers to may be shared)."""
    if isinstance(o, T.PSObject):
        k = t.draw(5)
        if k == 0:
            o.PSObject.type_names.append("Mutated")
        elif k == 1:
            del o.PSObject.type_names[:]
        elif k == 2:
            o.PSObject.to_string = "mutated"
        elif k == 3:
            o.PSObject.extended_properties.clear()
        T.add_note_property(o, "MutatedProp", 1, force=True)
        for p in o.PSObject.extended_properties:
            if p.name == "Own":
                p.set_value("mutated", o)
            p.name += "x"
        m.count("mutations")
    if isinstance(o, dict):
        dict.__setitem__(o, "mutated", 1)
    elif isinstance(o, list):
        list.append(o, "mutated")


def _enum_members(m):
    """Members are shared by design: serializing and reading them must not change them."""
    snap = snapshot()
    for name, c in list(V.PS_ENUMS.items()):
        for mem in c:
            before = (mem.value, mem.name, tuple(mem.PSObject.type_names), mem.PSObject.to_string)
            b1 = ser(mem)
            d = deserialize(parse_xml(b1), CIPHER)
            need(d == mem, "%r came back as %r", mem, d)
            need(ser(mem) == b1, "%r serializes differently the second time", mem)
            now = (mem.value, mem.name, tuple(mem.PSObject.type_names), mem.PSObject.to_string)
            need(now == before, "serializing %r changed it: %s -> %s", mem, before, now)
            m.count("enumerated")
    same_classes(snap, m, "serializing enums")


def _enum_foreign(m):
    """A peer that says something unusual about an enum value cannot change it for everyone else."""
    snap = snapshot()
    extras = ["<ToString>Bogus</ToString>", '<MS><I32 N="extra">1</I32></MS>', '<Props><S N="Name">x</S></Props>',
              '<ToString>Bogus</ToString><Props><S N="a">x</S></Props><MS><S N="Value">x</S></MS>']
    for name, c in list(V.PS_ENUMS.items()):
        mem = list(c)[-1]
        before = [ser(x) for x in c]
        base = ser(mem).decode()
        for more in extras:
            for names in ("", "<T>More</T>"):
                doc = base.replace("</TN>", names + "</TN>").replace("</Obj>", more + "</Obj>")
                try:
                    d = deserialize(parse_xml(doc.encode()), CIPHER)
                except Exception:
                    d = None  # what it gives is not the point here
                m.count("foreign_enums")
                now = [ser(x) for x in c]
                need(now == before, "reading %s changed how other %s values are sent", doc, name)
                same_classes(snap, m, "reading an enum")
                del d


def _foreign_content(m):
    """Whatever an element contains, reading it changes nothing that is shared: every known type inside of and around
    every other one."""
    snap = snapshot()
    samples = {"enum": ser(list(V.PS_ENUMS.values())[0](1)) if 1 in [x.value for x in list(V.PS_ENUMS.values())[0]] else None,
               "nil": b"<Nil/>", "bool": b"<B>true</B>", "int": b"<I32>1</I32>", "text": b"<S>1</S>", "time": b"<TS>PT1S</TS>",
               "list": ser(T.PSList([1])), "dict": ser(T.PSDict({1: 2})), "object": ser(T.PSCustomObject(a=1)),
               "record": ser(T.ErrorRecord(Exception=T.NETException(Message="m"), CategoryInfo=T.ErrorCategoryInfo())),
               "host": ser(T.HostInfo())}
    for name, c in V.PS_ENUMS.items():
        samples["enum " + name] = ser(list(c)[-1])
    shells = ['<Obj RefId="90"><TN RefId="90"><T>%s</T><T>Other</T></TN>%s%%s%s</Obj>' % (n, a, b)
              for n in sorted({c.PSObject.type_names[0] for c in all_classes() if c.PSObject.type_names} | {"Unknown.Type"})
              for a, b in (("", ""), ("", '<ToString>x</ToString><MS><S N="Extra">1</S></MS><Props><S N="Own">2</S></Props>'),
                           ('<MS><S N="Extra">1</S></MS>', ""))]
    renumber = re.compile(rb'RefId="(\d+)"')
    for i, shell in enumerate(shells):
        for name, x in samples.items():
            if x is None:
                continue
            x = renumber.sub(rb'RefId="5\1"', x)
            try:
                d = deserialize(parse_xml(shell.encode() % x), CIPHER)
                if isinstance(d, T.PSObject) and not isinstance(d, (T.PSEnumBase, T.PSFlagBase)):
                    d.PSObject.type_names.append("mutated")
            except Exception:
                pass  # what it gives is not the point here
            m.count("foreign_contents")
        same_classes(snap, m, "reading something inside of %s" % shell)


def _repeat(m):
    """Thousands of serializations of the same value in one process."""
    vals = [T.PSDuration(seconds=5), T.PSDateTime(2020, 1, 1), T.PSVersion("1.2"), T.PSCustomObject(a=1), T.PSList([1]),
            T.PSQueue(), T.PSStack([1]), T.PSDict({1: 2}), V.MonThing(A=1), T.PSSecureString("x"), V.PlainB(),
            T.ErrorRecord(Exception=T.NETException(Message="m"), CategoryInfo=T.ErrorCategoryInfo()), 1, "a", 1.5,
            T.PSGuid(int=1), T.PSByteArray(b"1"), T.PSChar("a"), T.PSDecimal("1.5"), T.PSUri("a"), T.PSXml("<a/>")]
    vals[5].put(1)
    cip = psrpcore.PSRemotingCrypto()
    cip.register_key(b"\x01" * 32)
    snap = snapshot()

    def s(v):
        return ET.tostring(serialize(v, cip), encoding="utf-8", method="xml")

    first = [s(v) for v in vals]
    for i in range(300):
        for v, b in zip(vals, first):
            need(s(v) == b, "%r serializes differently the %d. time", v, i)
            m.count("enumerated")
    for v, b in zip(vals, first):
        f = fp(deserialize(parse_xml(b), cip))
        for i in range(60):
            need(fp(deserialize(parse_xml(b), cip)) == f, "%a reads differently the %d. time", b, i)
    same_classes(snap, m, "repeating")


def units(tier):
    return [("instances", _instances), ("property objects", _property_objects), ("derived", _derived),
            ("enum members", _enum_members), ("foreign enums", _enum_foreign), ("foreign content", _foreign_content), ("repeat", _repeat)]
