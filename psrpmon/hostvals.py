"""Specified host objects (colours, coordinates, sizes, host info ...): generation, building, wire form, comparison."""

from . import env, values as V  # noqa: F401
from .mon import need
from .wire import u16
from .world import field

from psrpcore import types as T

I32 = V.INT_RANGE["PSInt"]


def relabel(doc):
    """The same canonical tree with its object labels numbered in the order of appearance."""
    labels = {}

    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x[0] == "Obj" and len(x) == 7:
            lab = x[1]
            if lab is not None:
                lab = labels.setdefault(lab, len(labels))
            return ("Obj", lab, x[2]) + tuple(go(y) for y in x[3:])
        if x[0] == "Ref" and len(x) == 2:
            return ("Ref", labels.get(x[1], ("outside", x[1])))
        return tuple(go(y) for y in x)

    return go(doc)


def gen_i32(t):
    return V.gen_int_in(t, *I32)


def gen_coord(t):
    return (gen_i32(t), gen_i32(t))


def raw_pair(names, v):
    """Wire form of a small host structure in a host call: an untyped object with I32 properties."""
    return tuple((u16(n), ("I32", x)) for n, x in zip(names, v))


def need_obj(doc, props, what):
    """doc is an object without type names and exactly these extended properties."""
    need(doc[0] == "Obj" and doc[2] is None and doc[3] == () and doc[5] is None, "%s was sent as %s", what, doc)
    need(doc[4] == tuple(props), "%s was sent as %s instead of %s", what, doc[4], props)


class HostSpec:
    """A HostInfo with all its default data."""

    def __init__(self, t):
        self.flags = tuple(t.bool() for _ in range(4))
        self.data = None
        if t.bool(3, 4):
            self.data = dict(fg=t.draw(16), bg=t.draw(16), cur=gen_coord(t), win=gen_coord(t), csize=gen_i32(t),
                             buf=gen_coord(t), wsize=gen_coord(t), maxw=gen_coord(t), maxp=gen_coord(t),
                             title=V.gen_text(t))

    def build(self):
        kw = {}
        d = self.data
        if d is not None:
            kw["HostDefaultData"] = T.HostDefaultData(
                ForegroundColor=T.ConsoleColor(d["fg"]), BackgroundColor=T.ConsoleColor(d["bg"]),
                CursorPosition=T.Coordinates(*d["cur"]), WindowPosition=T.Coordinates(*d["win"]),
                CursorSize=d["csize"], BufferSize=T.Size(*d["buf"]), WindowSize=T.Size(*d["wsize"]),
                MaxWindowSize=T.Size(*d["maxw"]), MaxPhysicalWindowSize=T.Size(*d["maxp"]), WindowTitle=d["title"])
        a, b, c, e = self.flags
        return T.HostInfo(IsHostNull=a, IsHostUINull=b, IsHostRawUINull=c, UseRunspaceHost=e, **kw)

    def check_wire(self, doc):
        got = tuple(field(doc, n) for n in ("_isHostNull", "_isHostUINull", "_isHostRawUINull", "_useRunspaceHost"))
        need(got == tuple(("B", x) for x in self.flags), "host flags %s were sent as %s", self.flags, got)
        hd = field(doc, "_hostDefaultData")
        if self.data is None:
            need(hd is None or hd[0] == "Nil", "host default data was sent although there is none")
            return
        need(hd is not None, "the host default data was not sent")
        dct = field(hd, "data")
        need(dct is not None and dct[5][0] == "DCT", "host default data was sent as %s", hd)
        d = self.data
        xy, wh = ("x", "y"), ("width", "height")
        co, si = "System.Management.Automation.Host.Coordinates", "System.Management.Automation.Host.Size"
        want = [("System.ConsoleColor", d["fg"]), ("System.ConsoleColor", d["bg"]), (co, raw_pair(xy, d["cur"])),
                (co, raw_pair(xy, d["win"])), ("System.Int32", d["csize"]), (si, raw_pair(wh, d["buf"])),
                (si, raw_pair(wh, d["wsize"])), (si, raw_pair(wh, d["maxw"])), (si, raw_pair(wh, d["maxp"])),
                ("System.String", d["title"])]
        ents = dct[5][1]
        need([k for k, _ in ents] == [("I32", i) for i in range(10)], "host default data keys are %s",
             [k for k, _ in ents])
        for (_k, v), (typ, val) in zip(ents, want):
            need(field(v, "T") == ("S", u16(typ)), "host default data type %s was sent as %s", typ, field(v, "T"))
            got = field(v, "V")
            if isinstance(val, tuple):
                need_obj(got, val, typ)
            else:
                need(got == (("S", u16(val)) if isinstance(val, str) else ("I32", val)), "%s %r was sent as %s", typ,
                     val, got)

    def same(self, got, what="host info"):
        need(type(got) is T.HostInfo, "%s arrived as %s", what, type(got).__name__)
        have = (got.IsHostNull, got.IsHostUINull, got.IsHostRawUINull, got.UseRunspaceHost)
        need(have == self.flags, "%s flags %s arrived as %s", what, self.flags, have)
        g = got.HostDefaultData
        if self.data is None:
            need(g is None, "%s default data came from nowhere", what)
            return
        need(type(g) is T.HostDefaultData, "%s default data arrived as %s", what, type(g).__name__)
        d = self.data

        def xy(o):
            need(type(o) is T.Coordinates, "a position arrived as %s", type(o).__name__)
            return (o.X, o.Y)

        def wh(o):
            need(type(o) is T.Size, "a size arrived as %s", type(o).__name__)
            return (o.Width, o.Height)

        for k, v in (("fg", g.ForegroundColor), ("bg", g.BackgroundColor)):
            need(type(v) is T.ConsoleColor and int(v) == d[k], "%s %s arrived as %r", what, k, v)
        for k, v in (("cur", xy(g.CursorPosition)), ("win", xy(g.WindowPosition)), ("buf", wh(g.BufferSize)),
                     ("wsize", wh(g.WindowSize)), ("maxw", wh(g.MaxWindowSize)), ("maxp", wh(g.MaxPhysicalWindowSize)),
                     ("csize", g.CursorSize)):
            need(v == d[k], "%s %s: %s arrived as %s", what, k, d[k], v)
        need(isinstance(g.WindowTitle, str) and u16(g.WindowTitle) == u16(d["title"]), "%s title %a arrived as %a",
             what, d["title"], g.WindowTitle)
