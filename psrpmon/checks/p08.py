"""P08: opening a session makes both sides agree on its parameters."""

from .. import hostvals as H, values as V
from ..mon import need
from ..values import N
from ..world import Pair, cut, field, gen_limit, gen_uuid
from ..wire import EMPTY

import psrpcore
from psrpcore import types as T

PROP = "P08"
LEVEL = "exploration"
RULE = ("distinct configurations of client and server for which every parameter was compared on the wire, in the "
        "events and in both pools after the exchange")
ASSUMPTIONS = ["the application arguments and private data are dictionaries"]
CASES = {"quick": 7000, "thorough": 300000}
TIME = {"quick": 60, "thorough": 800}
REQUIRE = ["opened", "with host data", "with arguments", "with private data", "late polls"]


def gen_map(t, budget):
    g = V.Gen(t, budget)
    n = g.map(0)
    n.cls, n.ext, n.names = "dict", [], None
    if t.bool(1, 3):  # the keys applications use
        n.v = [(N("str", "str", "k%d" % i + V.gen_text(t, 3)), g.value(1)) for i in range(t.count(5))]
    return n


def gen_version(t):
    return tuple(V.gen_int_in(t, 0, 2**31 - 1) if t.bool(1, 3) else t.draw(12) for _ in range(t.int(2, 4)))


def gen_caps(t):
    v = t.weighted([(4, (2, 3)), (2, (2, 2)), (1, (2, 1)), (1, (2, 0)), (2, gen_version(t))])
    tz = bytes(t.draw(256) for _ in range(1 + t.draw(5))) if t.bool(1, 3) else None
    return (v, gen_version(t), gen_version(t), tz)


def text(v):
    return ".".join(map(str, v))


def caps(c):
    kw = {} if c[3] is None else {"TimeZone": c[3]}
    return T.SessionCapability(protocolversion=T.PSVersion(text(c[0])), PSVersion=T.PSVersion(text(c[1])),
                               SerializationVersion=T.PSVersion(text(c[2])), **kw)


def parts(v):
    return tuple(x for x in (v.major, v.minor, v.build, v.revision) if x is not None)


def same_caps(got, c, who):
    need(type(got) is T.SessionCapability, "%s: capability is %s", who, type(got).__name__)
    for n, v in (("protocolversion", c[0]), ("PSVersion", c[1]), ("SerializationVersion", c[2])):
        g = getattr(got, n)
        need(type(g) is T.PSVersion and parts(g) == v, "%s: %s %s is known as %s", who, n, v, g)


def default_table():
    return [(N("str", "str", "PSRemotingProtocolVersion"), N("ver", "PSVersion", (2, 3))),
            (N("str", "str", "SerializationVersion"), N("ver", "PSVersion", (1, 1, 0, 1)))]


def with_table(n):
    """The private data the server really provides: the version table is filled in."""
    out = N("map", "PSPrimitiveDictionary", [])
    found = False
    for k, v in n.v:
        if k.kind == "str" and k.v == "PSVersionTable":
            found = True
            if v.kind == "map":
                have = [a.v for a, _ in v.v if a.kind == "str"]
                v = N("map", v.cls, v.v + [x for x in default_table() if x[0].v not in have], v.ext, v.adp, v.names)
        out.v.append((k, v))
    if not found:
        out.v.append((N("str", "str", "PSVersionTable"), N("map", "dict", default_table())))
    return out


def case(t, m):
    rpid = gen_uuid(t)
    host = H.HostSpec(t) if t.bool(4, 5) else None
    args = gen_map(t, t.pick([0, 6, 20])) if t.bool(3, 4) else None
    priv = gen_map(t, t.pick([0, 6, 20])) if t.bool(3, 4) else None
    if priv is not None and t.bool(1, 4):
        g = V.Gen(t, 4)
        priv.v = [x for x in priv.v if x[0].v != "PSVersionTable"]
        table = g.map(1) if t.bool() else g.value(1)
        priv.v.insert(t.draw(len(priv.v) + 1), (N("str", "str", "PSVersionTable"), table))
    mn, mx = H.gen_i32(t) if t.bool(1, 4) else t.int(1, 9), H.gen_i32(t) if t.bool(1, 4) else t.int(1, 9)
    apart, thread = t.pick([0, 1, 2]), t.pick([0, 1, 2, 3])
    ccaps, scaps = gen_caps(t), gen_caps(t)
    m.log("pool %s limits %s %s apartment %d thread %d caps %s / %s", rpid, mn, mx, apart, thread, ccaps, scaps)
    m.log("arguments %s", V.show(args) if args else None)
    m.log("private %s", V.show(priv) if priv else None)
    kw = dict(apartment_state=T.ApartmentState(apart), thread_options=T.PSThreadOptions(thread), min_runspaces=mn,
              max_runspaces=mx)
    late = t.bool(1, 4)
    if late:  # configured after creation
        c = psrpcore.ClientRunspacePool(runspace_pool_id=rpid)
        c.apartment_state, c.thread_options = kw["apartment_state"], kw["thread_options"]
        c.set_min_runspaces(mn)
        c.set_max_runspaces(mx)
        if host:
            c.host = host.build()
        if args:
            c.application_arguments = V.build(args)
    else:
        if host:
            kw["host"] = host.build()
        if args:
            kw["application_arguments"] = V.build(args)
        c = psrpcore.ClientRunspacePool(runspace_pool_id=rpid, **kw)
    s = psrpcore.ServerRunspacePool(V.build(priv)) if priv else psrpcore.ServerRunspacePool()
    if t.bool(5, 6):
        c.our_capability = caps(ccaps)
    else:
        ccaps = ((2, 3), (2, 0), (1, 1, 0, 1), None)
    if t.bool(5, 6):
        s.our_capability = caps(scaps)
    else:
        scaps = ((2, 3), (2, 0), (1, 1, 0, 1), None)
    pair = Pair(c, s)
    c.open()
    events = []
    argn = N("map", "PSPrimitiveDictionary", args.v if args else [])
    privn = with_table(priv or N("map", "dict", []))

    def wire(d):
        doc = d.doc
        if d.type == "SessionCapability":
            cc = ccaps if d.to_server else scaps
            for n, v in (("protocolversion", cc[0]), ("PSVersion", cc[1]), ("SerializationVersion", cc[2])):
                need(field(doc, n) == ("Version", v), "%s %s was sent as %s", n, v, field(doc, n))
            need(field(doc, "TimeZone") == (None if cc[3] is None else ("BA", cc[3])), "time zone %s was sent as %s",
                 cc[3], field(doc, "TimeZone"))
        elif d.type == "InitRunspacePool":
            need(field(doc, "MinRunspaces") == ("I32", mn) and field(doc, "MaxRunspaces") == ("I32", mx),
                 "limits %d, %d were sent as %s, %s", mn, mx, field(doc, "MinRunspaces"), field(doc, "MaxRunspaces"))
            for n, v in (("ApartmentState", apart), ("PSThreadOptions", thread)):
                got = field(doc, n)
                need(got[0] == "Enum" and got[2] == ("I32", v), "%s %d was sent as %s", n, v, got)
            if host:
                host.check_wire(field(doc, "HostInfo"))
            bad = V.diff(V.canon(argn), H.relabel(field(doc, "ApplicationArguments")))
            need(bad is None, "application arguments differ on the wire: %s", bad)
        elif d.type == "ApplicationPrivateData":
            bad = V.diff(V.canon(privn), H.relabel(field(doc, "ApplicationPrivateData")))
            need(bad is None, "private data differs on the wire: %s", bad)
        elif d.type == "RunspacePoolState":
            need(field(doc, "RunspaceState") == ("I32", 2), "the opened pool was announced as %s",
                 field(doc, "RunspaceState"))

    def event(d, ev):
        events.append(d.type)
        if d.type == "SessionCapability":
            cc = ccaps if d.to_server else scaps
            for n, v in (("protocol_version", cc[0]), ("ps_version", cc[1]), ("serialization_version", cc[2])):
                need(parts(getattr(ev, n)) == v, "%s %s was reported as %s", n, v, getattr(ev, n))
        elif d.type == "InitRunspacePool":
            need((ev.min_runspaces, ev.max_runspaces) == (mn, mx), "limits reported as %s, %s", ev.min_runspaces,
                 ev.max_runspaces)
            need(ev.apartment_state is T.ApartmentState(apart) and ev.ps_thread_options is T.PSThreadOptions(thread),
                 "enums reported as %r %r", ev.apartment_state, ev.ps_thread_options)
            if host:
                host.same(ev.host_info)
            V.same(argn, ev.application_arguments)
        elif d.type == "ApplicationPrivateData":
            V.same(privn, ev.data)

    quiet = 0
    while quiet < 3:
        busy = False
        for ln in t.shuffle(pair.links()):
            if t.bool(3, 4) or quiet:
                n = len(ln.sent)
                if ln.send(gen_limit(t, [200, 900]) if t.bool() else None, (lambda b: cut(t, b)) if t.bool() else None):
                    busy = True
                    for d in list(ln.sent)[n:]:
                        wire(Tagged(d, ln.to_server))
            if t.bool(3, 4) or quiet:
                while ln.deliver():
                    busy = True
                    if t.bool(1, 3):
                        break
            if t.bool() or quiet:
                while True:
                    d, ev = ln.poll()
                    if ev is None:
                        break
                    busy = True
                    event(Tagged(d, ln.to_server), ev)
                    if t.bool(1, 3):
                        break
            else:
                m.count("late polls")
        quiet = 0 if busy else quiet + 1
    need(sorted(events) == sorted(["SessionCapability", "SessionCapability", "InitRunspacePool",
                                   "ApplicationPrivateData", "RunspacePoolState"]), "the exchange was %s", events)
    for who, p in (("client", c), ("server", s)):
        need(p.state == T.RunspacePoolState.Opened, "%s ends in state %s", who, p.state)
        need(p.runspace_pool_id == rpid, "%s uses the pool id %s instead of %s", who, p.runspace_pool_id, rpid)
        need((p.min_runspaces, p.max_runspaces) == (mn, mx), "%s limits are %s, %s instead of %s, %s", who,
             p.min_runspaces, p.max_runspaces, mn, mx)
        need(p.apartment_state is T.ApartmentState(apart), "%s apartment state is %r", who, p.apartment_state)
        need(p.thread_options is T.PSThreadOptions(thread), "%s thread options are %r", who, p.thread_options)
        if host:
            host.same(p.host, who + " host info")
        need(not p.pipeline_table, "%s has pipelines from nowhere", who)
    same_caps(c.their_capability, scaps, "client")
    same_caps(s.their_capability, ccaps, "server")
    same_caps(c.our_capability, ccaps, "client itself")
    same_caps(s.our_capability, scaps, "server itself")
    V.same(argn, s.application_arguments)
    V.same(privn, c.application_private_data)
    m.count("opened")
    if host and host.data:
        m.count("with host data")
    if args and args.v:
        m.count("with arguments")
    if priv and priv.v:
        m.count("with private data")
    m.case((rpid, mn, mx, apart, thread, ccaps, scaps, V.show(argn), V.show(privn), host and (host.flags, host.data)))


class Tagged:
    def __init__(self, d, to_server):
        self.type, self.doc, self.to_server = d.type, d.doc, to_server
