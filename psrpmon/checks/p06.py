"""P06: object graphs survive: structure, types and identity."""

from xml.etree import ElementTree as ET

from .. import known as K
from .. import values as V
from ..mon import need
from ..wire import Decoder, parse_xml, u16

import psrpcore
from psrpcore import types as T
from psrpcore.types import deserialize, serialize

PROP = "P06"
LEVEL = "exploration"
RULE = ("distinct object graphs (canonical form) with at least three nodes that were written, decoded independently, "
        "read back, and read back from the form another implementation writes")
ASSUMPTIONS = ["lists and dictionaries are not cyclic through themselves alone",
               "an object whose first type name is a registered class carries that class's full type name list",
               "type names are plain identifiers"]
CASES = {"quick": 30000, "thorough": 900000}
TIME = {"quick": 60, "thorough": 800}
REQUIRE = ["graphs", "shared", "cyclic", "foreign", "deep", "enumerated", "known members", "known classes",
           "known read"]

CIPHER = psrpcore.PSRemotingCrypto()
sample = V.N


def stats(n):
    """(nodes, occurrences of already seen objects, whether there is a cycle)"""
    seen, path = {}, set()
    st = [0, 0, False]

    def go(x):
        st[0] += 1
        if V.refable(x):
            if id(x) in path:
                st[2] = True
            if id(x) in seen:
                st[1] += 1
                return
            seen[id(x)] = x
            path.add(id(x))
        kids = []
        if x.kind == "seq":
            kids += x.v
        elif x.kind == "map":
            for a, b in x.v:
                kids += [a, b]
        kids += [b for _a, b in x.adp] + [b for _a, b in x.ext]
        for k in kids:
            go(k)
        path.discard(id(x))

    go(n)
    return st


def check(n, m, t=None):
    o = V.build(n)
    raw = ET.tostring(serialize(o, CIPHER), encoding="utf-8", method="xml")
    want = V.canon(n)
    bad = V.diff(want, Decoder().decode(parse_xml(raw)))
    need(bad is None, "written form differs: %s\n%a", bad, raw[:600])
    m.count("compared", V.same(n, deserialize(parse_xml(raw), CIPHER)))
    m.count("graphs")
    if t is not None:
        f = V.encode(n, t)
        V.same(n, deserialize(parse_xml(f.encode("utf-8")), CIPHER))
        m.count("foreign")
    nodes, shared, cyc = stats(n)
    if nodes >= 3:
        m.case(want)
    m.count("shared", shared)
    if cyc:
        m.count("cyclic")
    m.seen("shape", (n.kind, nodes, shared, cyc))


def case(t, m):
    budget = t.pick([8, 25, 25, 60, 120])
    g = V.Gen(t, budget, refs=True, cycles=t.bool(1, 3))
    k = t.draw(6)
    n = [g.value, lambda: g.seq(0), lambda: g.map(0), lambda: g.obj(0), lambda: g.known(0), lambda: g.extended(0)][k]()
    if t.bool(1, 4):
        n = V.N("seq", "list", [n, V.gen_enum(t), n, g.value(1), g.value(1)])
    m.log("%s", V.show(n))
    check(n, m, t)


def _deep(kind):
    def run(m):
        for depth in (1, 2, 5, 10, 30, 60):
            n = V.N("int", "int", depth)
            for i in range(depth):
                if kind == "obj":
                    n = V.N("obj", "PSCustomObject", ext=[("a", n), ("b", n)] if i % 2 else [("a", n)])
                elif kind == "map":
                    n = V.N("map", "dict", [(V.N("str", "str", "k%d" % i), n)])
                elif kind == "mix":
                    n = [V.N("seq", "list", [n]), V.N("obj", "PSObject", adp=[("x", n)]),
                         V.N("map", "PSDict", [(V.N("int", "PSInt", i), n)]), V.N("seq", "PSQueue", [n, n])][i % 4]
                    if i % 4 == 3 and n.v[0].kind != "obj":
                        n.v = n.v[:1]
                else:
                    n = V.N("seq", kind, [n])
            check(n, m)
            m.count("deep")
            m.count("enumerated")
    return run


def _wide(m):
    """Many distinct objects and types, every one referenced again at the end."""
    for count in (2, 3, 11, 101, 1100):
        objs = [V.N("obj", "PSObject", names=["Wide.T%d" % (i % 97), "Base"], ext=[("i", V.N("int", "int", i % 50))])
                for i in range(count)]
        root = V.N("seq", "list", objs + objs[::-1])
        check(root, m)
        m.count("enumerated")
    # equal but distinct
    eq = [V.N("obj", "PSCustomObject", ext=[("a", V.N("int", "int", 1))]) for _ in range(5)]
    check(V.N("seq", "PSQueue", eq + eq), m)
    qs = [V.N("seq", "Queue", [V.N("int", "int", 1)]) for _ in range(3)]
    check(V.N("seq", "list", qs + qs), m)
    m.count("enumerated", 2)


def _pairs(m):
    """Every kind of container holding the same object twice, in content and in a property, in every position."""
    mk = {
        "obj": lambda: V.N("obj", "PSCustomObject", ext=[("a", V.N("int", "int", 1))]),
        "named": lambda: V.N("obj", "PSObject", names=["Custom.A", "Custom.B"], adp=[("a", V.N("str", "str", "x"))]),
        "known": lambda: V.N("known", "MonThing", adp=[("A", V.N("nil")), ("B", V.N("nil"))],
                             ext=[("D", V.N("nil")), ("E", V.N("nil")), ("F", V.N("int", "int", 7))]),
        "queue": lambda: V.N("seq", "PSQueue", [V.N("int", "int", 1)]),
        "py": lambda: V.N("pyobj", "PlainA", ext=[("Name", V.N("str", "str", "n"))]),
        "prim": lambda: V.N("str", "PSString", "t", ext=[("e", V.N("int", "int", 1))]),
        "enum": lambda: V.N("enum", "MonLevel", 2),
        "flags": lambda: V.N("enum", "MonFlags", 5),
        "pyenum": lambda: V.N("pyenum", "PyColor", 1),
    }
    for c in list(V.SEQ_CLS) + list(V.MAP_CLS):
        for a in mk:
            for b in mk:
                x, y = mk[a](), mk[b]()
                if c in V.SEQ_CLS:
                    n = V.N("seq", c, [x, y, x, y])
                else:
                    n = V.N("map", c, [(V.N("int", "int", i), v) for i, v in enumerate((x, y, x, y))])
                if c not in ("list", "dict", "Queue"):
                    n.ext = [("p", y), ("q", x)]
                check(n, m)
                m.count("enumerated")


def _enums(m):
    for name, members in V.ENUM_NAMES.items():
        for k, v in members:
            kind = "pyenum" if name in V.PY_ENUMS else "enum"
            check(V.N(kind, name, v), m)
            check(V.N("seq", "list", [V.N(kind, name, v), V.N(kind, name, v)]), m)
            m.count("enumerated", 2)
    for v in range(16):
        check(V.N("enum", "MonFlags", v), m)
        check(V.N("enum", "RemoteStreamOptions", v), m)
        m.count("enumerated", 2)


def _cells(m):
    """Buffer cells and keys, whose enums are special."""
    def back(o):
        return deserialize(serialize(o, CIPHER), CIPHER)

    for kind in range(3):
        for ch in (0, 65, 0xD800, 65535):
            for fg, bg in ((0, 15), (7, 7), (15, 0)):
                g = back(T.BufferCell(T.PSChar(ch), T.ConsoleColor(fg), T.ConsoleColor(bg), T.BufferCellType(kind)))
                need(type(g) is T.BufferCell and type(g.Character) is T.PSChar and int(g.Character) == ch and
                     g.ForegroundColor is T.ConsoleColor(fg) and g.BackgroundColor is T.ConsoleColor(bg),
                     "a cell came back as %r", g)
                k = g.BufferCellType
                if type(k) is T.ControlKeyStates and k.value == kind:
                    m.known["cell-type-name"] = "cell type %d came back as %r" % (kind, k)
                else:
                    need(type(k) is T.BufferCellType and k.value == kind, "cell type %d came back as %r", kind, k)
                m.count("enumerated")
    for state in range(512):
        g = back(T.KeyInfo(state * 3, T.PSChar(state), T.ControlKeyStates(state), bool(state & 1)))
        need(type(g) is T.KeyInfo and g.VirtualKeyCode == state * 3 and int(g.Character) == state and
             type(g.ControlKeyState) is T.ControlKeyStates and g.ControlKeyState.value == state and
             g.KeyDown is bool(state & 1), "a key came back as %r", g)
        m.count("enumerated")


# (records are written in a form of their own, see P14)
OWN_FORM = ["DebugRecord", "VerboseRecord", "WarningRecord", "InformationalRecord", "ErrorRecord", "InvocationInfo",
            "DebugRecordMsg", "VerboseRecordMsg", "WarningRecordMsg", "ErrorRecordMsg", "InformationRecord",
            "ScriptPosition"]


def _simple(kind, i):
    """A raw value of a kind of property: (XML, check of what it is read as)."""
    def is_(cls, v):
        return lambda g: type(g) is cls and g == v
    if kind in K.ENUMS:
        full, mem = K.ENUMS[kind]
        n, v = K.members(mem)[i % len(K.members(mem))]
        return _enum_xml(full, n, v, 50 + i), lambda g: g is getattr(T, kind)(v)
    return {
        "s": ("<S>text %d</S>" % i, is_(T.PSString, "text %d" % i)), "i": ("<I32>%d</I32>" % i, is_(T.PSInt, i)),
        "l": ("<I64>%d</I64>" % i, is_(T.PSInt64, i)), "u": ("<U32>%d</U32>" % i, is_(T.PSUInt, i)),
        "c": ("<C>%d</C>" % (65 + i), lambda g: type(g) is T.PSChar and int(g) == 65 + i),
        "b": ("<B>true</B>", lambda g: g is True), "v": ("<Version>1.%d</Version>" % i, is_(T.PSVersion, "1.%d" % i)),
        "*": ("<S>any %d</S>" % i, is_(T.PSString, "any %d" % i)),
    }.get(kind, ("<Nil/>", lambda g: g is None))


def _enum_xml(name, member, v, ref, tag="I32"):
    return ('<Obj RefId="%d"><TN RefId="%d"><T>%s</T><T>System.Enum</T><T>System.ValueType</T><T>System.Object</T></TN>'
            "<ToString>%s</ToString><%s>%d</%s></Obj>" % (ref, ref, name, member, tag, v, tag))


def _known_enums(m):
    """The enumerations of the protocol: members, values, written form, and what is read from another's text."""
    for name, (full, mem) in K.ENUMS.items():
        cls = getattr(T, name)
        flags = issubclass(cls, T.PSFlagBase)
        for member, v in K.members(mem):
            what = "%s.%s" % (name, member)
            o = getattr(cls, member, None)
            need(isinstance(o, cls) and o.value == v and cls(v) is o, "%s is %r and not %d", what, o, v)
            el = parse_xml(ET.tostring(serialize(o, CIPHER)))
            tn = [x.text for x in el.find("TN")]
            if name == "BufferCellType" and tn[0] == "System.Management.Automation.Host.ControlKeyStates":
                m.known["cell-type-name"] = "%s is written with the type %s" % (what, tn[0])
                tn[0] = full
            need(tn == [full, "System.Enum", "System.ValueType", "System.Object"], "%s is written as %s", what, tn)
            num = [x for x in el if x.tag not in ("TN", "ToString")]
            need(len(num) == 1 and num[0].tag == "I32" and num[0].text == str(v), "%s is written as %s", what,
                 ET.tostring(el))
            s = el.find("ToString").text
            need(s.lower() == member.lower() or flags, "%s has the text %r", what, s)
            if name == "BufferCellType":
                continue
            g = deserialize(parse_xml(_enum_xml(full, member, v, 0).encode()), CIPHER)
            need(g is o, "%s of another implementation is read as %r", what, g)
            m.count("known members")
            m.case((name, member))


def _known_classes(m):
    """The classes of the protocol: type names, the order of the properties, and what is read from another's text."""
    for name, (tn, ad, ex) in K.CLASSES.items():
        cls = getattr(T, name)
        names = tn.split()
        got = list(cls.PSObject.type_names)
        need(not names or got == names, "%s has the type names %s", name, got)
        for what, text, real in (("adapted", ad, cls.PSObject.adapted_properties),
                                 ("extended", ex, cls.PSObject.extended_properties)):
            want = [n for n, _m, _k in K.props(text)]
            have = [p.name for p in real if p.name in want]
            need(have == want, "%s has the %s properties %s and not %s", name, what, have, want)
        m.count("known classes")
        if name in OWN_FORM or not names or not ad or "()" in ad:
            continue
        for n_miss in range(2):
            parts, tests = [], []
            for i, (p, _man, k) in enumerate(K.props(ad)):
                if n_miss and i % 2:
                    continue
                x, ok = _simple(k, i)
                if name == "BufferCell" and p == "BufferCellType":
                    continue
                parts.append(x[:x.index(">")].replace("/", "") + (' N="%s"' % p) + ("/" if x == "<Nil/>" else "") +
                             x[x.index(">"):])
                tests.append((p, ok))
            xml = '<Obj RefId="0"><TN RefId="0">%s</TN><Props>%s</Props></Obj>' % (
                "".join("<T>%s</T>" % n for n in names), "".join(parts))
            g = deserialize(parse_xml(xml.encode()), CIPHER)
            need(type(g) is cls, "%s of another implementation is read as %r", name, g)
            for p, ok in tests:
                v = getattr(g, p)
                need(ok(v), "%s.%s of another implementation is read as %r (%s)", name, p, v, type(v).__name__)
            m.count("known read")
            m.case((name, n_miss))


def units(tier):
    return [("known enums", _known_enums), ("known classes", _known_classes)] + \
        [("deep " + k, _deep(k)) for k in ("obj", "map", "mix", "list", "PSStack", "PSQueue", "PSIEnumerable")] + \
        [("wide", _wide), ("pairs", _pairs), ("enums", _enums), ("cells", _cells)]
