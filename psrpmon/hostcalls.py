"""Specified parameters and results of host calls."""

from . import env, values as V  # noqa: F401
from .hostvals import gen_i32
from .mon import need
from .records import ProgressSpec, label_map, part, part_canon, same_enum, same_int, same_text
from .values import N
from .wire import u16
from .world import field

from psrpcore import types as T

HM = T.HostMethodIdentifier


def untyped(props):
    o = T.PSObject()
    o.PSObject.type_names = []
    for k, v in props:
        T.add_note_property(o, k, v)
    return o


def need_untyped(doc, props, what):
    need(doc[0] == "Obj" and not doc[2] and doc[3] == () and doc[5] is None, "%s was sent as %s", what, doc)
    want = tuple((u16(k), v) for k, v in props)
    need(doc[4] == want, "%s was sent as %s instead of %s", what, doc[4], want)


class Text:
    what = "text"

    def __init__(self, t, none=False):
        self.v = None if none and t.bool(1, 4) else V.gen_text(t)
        self.raw = self.typed = self.v

    def wire(self, doc):
        need(doc == (("Nil", None) if self.v is None else ("S", u16(self.v))), "text %a was sent as %s", self.v, doc)

    def same(self, g):
        same_text(g, self.v, "text")


class Int:
    what = "number"

    def __init__(self, t, wide=False):
        self.v = V.gen_int_in(t, *V.INT_RANGE["PSInt64"]) if wide else gen_i32(t)
        self.raw = self.v
        self.typed = T.PSInt64(self.v) if wide and t.bool() else self.v
        self.is_typed = self.typed is not self.v

    def wire(self, doc):
        small = -(2**31) <= self.v < 2**31
        need(doc in (("I32", self.v), ("I64", self.v)) and (small or doc[0] == "I64"), "number %d was sent as %s",
             self.v, doc)

    def same(self, g):
        same_int(g, self.v, "number")


class Bool:
    what = "flag"

    def __init__(self, t):
        self.raw = self.typed = self.v = t.bool()

    def wire(self, doc):
        need(doc == ("B", self.v), "%s was sent as %s", self.v, doc)

    def same(self, g):
        need(g is self.v, "%s arrived as %r", self.v, g)


class Enum:
    def __init__(self, t, cls, values, keep=False):
        self.what = cls
        self.cls = getattr(T, cls)
        self.keep = keep
        self.v = t.pick(values)
        self.raw = self.v
        self.typed = self.cls(self.v)

    def wire(self, doc):
        if doc[0] == "Enum":
            need(doc[2] == ("I32", self.v), "%s %d was sent as %s", self.what, self.v, doc)
        else:
            need(doc == ("I32", self.v), "%s %d was sent as %s", self.what, self.v, doc)

    def same(self, g):
        need(type(g) is self.cls and g.value == self.v and g == self.cls(self.v), "%s %d arrived as %r", self.what,
             self.v, g)


def Color(t):
    return Enum(t, "ConsoleColor", list(range(16)))


class Struct:
    """Coordinates, sizes, rectangles."""

    SHAPE = {"Coordinates": ("x", "y"), "Size": ("width", "height"), "Rectangle": ("left", "top", "right", "bottom")}

    def __init__(self, t, cls):
        self.what = cls
        self.cls = getattr(T, cls)
        self.names = self.SHAPE[cls]
        self.v = [gen_i32(t) for _ in self.names]
        self.raw = untyped(zip(self.names, self.v))
        self.typed = self.cls(*self.v)

    def wire(self, doc):
        props = [(n, ("I32", x)) for n, x in zip(self.names, self.v)]
        if doc[0] == "Obj" and doc[2]:
            want = tuple((u16(n.title()), x) for n, x in props)
            need(doc[3] == want and doc[4] == (), "%s was sent as %s", self.what, doc)
        else:
            need_untyped(doc, props, self.what)

    def same(self, g):
        need(type(g) is self.cls, "%s arrived as %s", self.what, type(g).__name__)
        got = [getattr(g, n.title()) for n in self.names]
        need(got == self.v and all(type(x) is T.PSInt for x in got), "%s %s arrived as %s", self.what, self.v, got)


KNOWN = {}  # recorded defects that were met (see known_findings.json)


class Cell:
    what = "cell"
    as_object = False

    def __init__(self, t, simple=False):
        self.ch = V.gen_int_in(t, 0, 65535)
        self.fg, self.bg, self.kind = t.draw(16), t.draw(16), 0 if simple else t.draw(3)
        self.raw = untyped([("character", T.PSChar(self.ch)), ("foregroundColor", self.fg),
                            ("backgroundColor", self.bg), ("bufferCellType", self.kind)])
        self.typed = T.BufferCell(T.PSChar(self.ch), T.ConsoleColor(self.fg), T.ConsoleColor(self.bg),
                                  T.BufferCellType(self.kind))

    def wire(self, doc):
        if doc[0] == "Obj" and doc[2]:
            d = dict((k.decode("utf-16-be"), v) for k, v in doc[3])
            need(set(d) == {"Character", "ForegroundColor", "BackgroundColor", "BufferCellType"} and
                 d["Character"] == ("C", self.ch) and d["ForegroundColor"][2] == ("I32", self.fg) and
                 d["BackgroundColor"][2] == ("I32", self.bg) and d["BufferCellType"][2] == ("I32", self.kind),
                 "cell was sent as %s", doc)
            self.as_object = True
        else:
            need_untyped(doc, [("character", ("C", self.ch)), ("foregroundColor", ("I32", self.fg)),
                               ("backgroundColor", ("I32", self.bg)), ("bufferCellType", ("I32", self.kind))], "cell")

    def same(self, g):
        need(type(g) is T.BufferCell, "cell arrived as %s", type(g).__name__)
        need(type(g.Character) is T.PSChar and int(g.Character) == self.ch, "character %d arrived as %r", self.ch,
             g.Character)
        same_enum(g.ForegroundColor, "ConsoleColor", self.fg, "cell foreground")
        same_enum(g.BackgroundColor, "ConsoleColor", self.bg, "cell background")
        kind = g.BufferCellType
        if self.as_object and type(kind) is T.ControlKeyStates and kind.value == self.kind:
            KNOWN["cell-type-name"] = "the cell type arrived as %r" % (kind,)
        else:
            same_enum(kind, "BufferCellType", self.kind, "cell type")


def size(t, hi):
    """Few elements, now and then many."""
    return t.pick((17, 40, 130, 300)) if t.bool(1, 40) else t.count(hi)


class Cells:
    what = "cells"

    def __init__(self, t):
        self.rows, self.cols = t.int(1, 4), t.int(1, 4)
        if t.bool(1, 40):
            self.rows, self.cols = t.pick(((1, 300), (300, 1), (1, 17), (17, 20), (20, 17), (4, 130)))
        pool = [Cell(t) for _ in range(t.int(1, 4))]
        # the same cell object often occurs several times in a buffer
        self.cells = [[t.pick(pool) if t.bool() else Cell(t) for _ in range(self.cols)] for _ in range(self.rows)]
        self.arg = [[c.typed for c in r] for r in self.cells]
        self.raw = self._array("raw")
        self.typed = self._array("typed")

    def _array(self, form):
        flat = [getattr(c, form) for r in self.cells for c in r]
        return untyped([("mae", flat), ("mal", [self.rows, self.cols])])

    def wire(self, doc):
        need(doc[0] == "Obj" and not doc[2] and len(doc[4]) == 2, "cells were sent as %s", doc)
        mal, mae = field(doc, "mal"), field(doc, "mae")
        need(mal[5] == ("LST", (("I32", self.rows), ("I32", self.cols))), "the shape was sent as %s", mal)
        flat = [c for r in self.cells for c in r]
        items = mae[5][1]
        need(len(items) == len(flat), "%d cells were sent as %d", len(flat), len(items))
        seen = {}
        for c, d in zip(flat, items):
            if d[0] == "Ref":
                need(seen.get(d[1]) is c, "a cell was sent as a reference to another one")
                continue
            if d[1] is not None:
                seen[d[1]] = c
            c.wire(d)

    def same(self, g):
        need(isinstance(g, list) and len(g) == self.rows and all(len(r) == self.cols for r in g),
             "%d x %d cells arrived as %s", self.rows, self.cols, [len(r) for r in g])
        for r, gr in zip(self.cells, g):
            for c, x in zip(r, gr):
                c.same(x)


class Fields:
    what = "fields"
    TXT = (("Name", "name"), ("Label", "label"), ("ParameterTypeName", "parameterTypeName"),
           ("ParameterTypeFullName", "parameterTypeFullName"),
           ("ParameterAssemblyFullName", "parameterAssemblyFullName"), ("HelpMessage", "helpMessage"))

    def __init__(self, t):
        self.v = []
        for _ in range(size(t, 4)):
            d = {}
            for n, _w in self.TXT:
                d[n] = V.gen_text(t) if n in ("Name", "Label", "HelpMessage") or t.bool(3, 4) else None
            d["IsMandatory"] = t.bool()
            self.v.append(d)
        self.typed = [T.FieldDescription(**d) for d in self.v]
        self.arg = self.typed
        self.raw = [untyped([(w, d[n]) for n, w in self.TXT] + [
            ("isMandatory", d["IsMandatory"]), ("metadata", []), ("modifiedByRemotingProtocol", False),
            ("isFromRemoteHost", False)]) for d in self.v]

    def wire(self, doc):
        need(doc[5] is not None and doc[5][0] == "LST" and len(doc[5][1]) == len(self.v), "fields were sent as %s",
             doc)
        for d, x in zip(self.v, doc[5][1]):
            typed = bool(x[2])
            for n, w in self.TXT:
                got = field(x, n if typed else w)
                need(got == (("Nil", None) if d[n] is None else ("S", u16(d[n]))), "field %s %a was sent as %s", n,
                     d[n], got)
            got = field(x, "isMandatory")
            need(got == ("B", d["IsMandatory"]), "IsMandatory %s was sent as %s", d["IsMandatory"], got)
            if not typed:
                for n in ("modifiedByRemotingProtocol", "isFromRemoteHost"):
                    need(field(x, n) == ("B", False), "%s was sent as %s", n, field(x, n))

    def same(self, g):
        need(isinstance(g, list) and len(g) == len(self.v), "%d fields arrived as %r", len(self.v), g)
        for d, x in zip(self.v, g):
            need(type(x) is T.FieldDescription, "a field arrived as %s", type(x).__name__)
            for n, _w in self.TXT:
                same_text(getattr(x, n), d[n], "field " + n)
            need(x.IsMandatory is d["IsMandatory"], "IsMandatory %s arrived as %r", d["IsMandatory"], x.IsMandatory)


class Choices:
    what = "choices"

    def __init__(self, t):
        self.v = [(V.gen_text(t), V.gen_text(t) if t.bool(3, 4) else None) for _ in range(size(t, 4))]
        self.typed = self.arg = [T.ChoiceDescription(Label=a, HelpMessage=b) for a, b in self.v]
        self.raw = [untyped([("label", a), ("helpMessage", b)]) for a, b in self.v]

    def wire(self, doc):
        need(doc[5] is not None and doc[5][0] == "LST" and len(doc[5][1]) == len(self.v), "choices were sent as %s",
             doc)
        for (a, b), x in zip(self.v, doc[5][1]):
            need(field(x, "label") == ("S", u16(a)), "label %a was sent as %s", a, field(x, "label"))
            need(field(x, "helpMessage") == (("Nil", None) if b is None else ("S", u16(b))), "help %a was sent as %s",
                 b, field(x, "helpMessage"))

    def same(self, g):
        need(isinstance(g, list) and len(g) == len(self.v), "%d choices arrived as %r", len(self.v), g)
        for (a, b), x in zip(self.v, g):
            need(type(x) is T.ChoiceDescription, "a choice arrived as %s", type(x).__name__)
            same_text(x.Label, a, "label")
            same_text(x.HelpMessage, b, "help message")


class Ints:
    what = "numbers"

    def __init__(self, t):
        self.v = [gen_i32(t) for _ in range(size(t, 4))]
        self.raw = self.typed = self.v

    def wire(self, doc):
        need(doc[5] == ("LST", tuple(("I32", x) for x in self.v)), "numbers %s were sent as %s", self.v, doc)

    def same(self, g):
        need(isinstance(g, list) and [int(x) for x in g] == self.v and all(type(x) is T.PSInt for x in g),
             "numbers %s arrived as %r", self.v, g)


class Progress:
    what = "progress"

    def __init__(self, t):
        self.p = ProgressSpec(t)
        v = self.p.v
        self.raw = self.typed = T.ProgressRecordMsg(
            ActivityId=v["activity_id"], Activity=v["activity"], StatusDescription=v["status_description"],
            CurrentOperation=v["current_operation"], ParentActivityId=v["parent_activity_id"],
            PercentComplete=v["percent_complete"], Type=T.ProgressRecordType(v["record_type"]),
            SecondsRemaining=v["seconds_remaining"])

    def wire(self, doc):
        self.p.check_wire(doc)

    def same(self, g):
        self.p.same(g)


class Key:
    what = "key"

    def __init__(self, t):
        self.code = gen_i32(t)
        self.ch = V.gen_int_in(t, 0, 65535)
        self.state = t.pick([0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 3, 511, 288])
        self.down = t.bool()
        self.raw = untyped([("virtualKeyCode", self.code), ("character", T.PSChar(self.ch)),
                            ("controlKeyState", self.state), ("keyDown", self.down)])
        self.typed = T.KeyInfo(self.code, T.PSChar(self.ch), T.ControlKeyStates(self.state), self.down)

    def wire(self, doc):
        need(field(doc, "virtualKeyCode") == ("I32", self.code), "key code was sent as %s",
             field(doc, "virtualKeyCode"))
        need(field(doc, "character") == ("C", self.ch), "character was sent as %s", field(doc, "character"))
        st = field(doc, "controlKeyState")
        need((st[2] if st[0] == "Enum" else st) == ("I32", self.state), "key state %d was sent as %s", self.state, st)
        need(field(doc, "keyDown") == ("B", self.down), "key down was sent as %s", field(doc, "keyDown"))

    def same(self, g):
        need(type(g) is T.KeyInfo, "key arrived as %s", type(g).__name__)
        same_int(g.VirtualKeyCode, self.code, "key code")
        need(type(g.Character) is T.PSChar and int(g.Character) == self.ch, "character %d arrived as %r", self.ch,
             g.Character)
        same_enum(g.ControlKeyState, "ControlKeyStates", self.state, "key state")
        need(g.KeyDown is self.down, "key down %s arrived as %r", self.down, g.KeyDown)


class Any:
    what = "value"

    def __init__(self, t, node=None, secure=False):
        if node is None:
            node = V.Gen(t, 8, secure=secure).value()
        self.n = node
        self.raw = self.typed = V.build(node)

    def wire(self, doc):
        d = V.diff(part_canon(self.n), part(label_map(doc), doc))
        need(d is None, "value was sent wrongly: %s (%s)", d, V.show(self.n))

    def same(self, g):
        V.same(self.n, g)


def Prompted(t, secure=False):
    """What a prompt returns: the names with their values."""
    keys = []
    for _ in range(size(t, 4)):
        k = V.gen_text(t)
        if u16(k) not in [u16(x) for x in keys]:
            keys.append(k)
    g = V.Gen(t, 8, secure=secure)
    return Any(t, N("map", "dict", [(N("str", "str", k), g.value(3)) for k in keys]))


class Secure:
    what = "secure string"

    def __init__(self, t):
        self.v = V.gen_text(t)
        self.raw = self.typed = T.PSSecureString(self.v)

    def wire(self, doc):
        d = V.diff(V.canon(N("sec", v=self.v)), doc)
        need(d is None, "%s", d)

    def same(self, g):
        V.same(N("sec", v=self.v), g)


class Credential:
    what = "credential"

    def __init__(self, t):
        self.user = V.gen_text(t)
        self.v = V.gen_text(t)
        self.raw = self.typed = T.PSCredential(UserName=self.user, Password=T.PSSecureString(self.v))

    def wire(self, doc):
        need(doc[0] == "Obj" and doc[2] == ("System.Management.Automation.PSCredential", "System.Object"),
             "credential was sent as %s", doc)
        need(field(doc, "UserName") == ("S", u16(self.user)), "user %a was sent as %s", self.user,
             field(doc, "UserName"))
        d = V.diff(V.canon(N("sec", v=self.v)), field(doc, "Password"))
        need(d is None, "%s", d)

    def same(self, g):
        need(type(g) is T.PSCredential, "credential arrived as %s", type(g).__name__)
        same_text(g.UserName, self.user, "user name")
        V.same(N("sec", v=self.v), g.Password)


CRED_TYPES, CRED_OPTS, READ_KEY = [1, 2, 3], [0, 1, 2, 3], [1, 2, 4, 8, 12, 5, 15, 6]


def cred_types(t):
    return Enum(t, "PSCredentialTypes", CRED_TYPES)


def cred_opts(t):
    return Enum(t, "PSCredentialUIOptions", CRED_OPTS)


def read_opts(t):
    return Enum(t, "ReadKeyOptions", READ_KEY)


def _s(c):
    return lambda t: Struct(t, c)


def text0(t):
    return Text(t, True)


def wide(t):
    return Int(t, True)


# method -> (code, parameter kinds, result kind or None for void methods)
METHODS = {
    "GetName": (1, [], Text), "GetVersion": (2, [], "ver"), "GetInstanceId": (3, [], "guid"),
    "GetCurrentCulture": (4, [], Text), "GetCurrentUICulture": (5, [], Text), "SetShouldExit": (6, [Int], None),
    "EnterNestedPrompt": (7, [], None), "ExitNestedPrompt": (8, [], None), "NotifyBeginApplication": (9, [], None),
    "NotifyEndApplication": (10, [], None), "ReadLine": (11, [], Text), "ReadLineAsSecureString": (12, [], Secure),
    "Write1": (13, [Text], None), "Write2": (14, [Color, Color, Text], None), "WriteLine1": (15, [], None),
    "WriteLine2": (16, [Text], None), "WriteLine3": (17, [Color, Color, Text], None),
    "WriteErrorLine": (18, [Text], None), "WriteDebugLine": (19, [Text], None),
    "WriteProgress": (20, [wide, Progress], None), "WriteVerboseLine": (21, [Text], None),
    "WriteWarningLine": (22, [Text], None), "Prompt": (23, [Text, Text, Fields], Prompted),
    "PromptForCredential1": (24, [Text, Text, text0, Text], Credential),
    "PromptForCredential2": (25, [Text, Text, text0, Text, cred_types, cred_opts], Credential),
    "PromptForChoice": (26, [Text, Text, Choices, Int], Int), "GetForegroundColor": (27, [], Color),
    "SetForegroundColor": (28, [Color], None), "GetBackgroundColor": (29, [], Color),
    "SetBackgroundColor": (30, [Color], None), "GetCursorPosition": (31, [], _s("Coordinates")),
    "SetCursorPosition": (32, [_s("Coordinates")], None), "GetWindowPosition": (33, [], _s("Coordinates")),
    "SetWindowPosition": (34, [_s("Coordinates")], None), "GetCursorSize": (35, [], Int),
    "SetCursorSize": (36, [Int], None), "GetBufferSize": (37, [], _s("Size")), "SetBufferSize": (38, [_s("Size")], None),
    "GetWindowSize": (39, [], _s("Size")), "SetWindowSize": (40, [_s("Size")], None), "GetWindowTitle": (41, [], Text),
    "SetWindowTitle": (42, [Text], None), "GetMaxWindowSize": (43, [], _s("Size")),
    "GetMaxPhysicalWindowSize": (44, [], _s("Size")), "GetKeyAvailable": (45, [], Bool),
    "ReadKey": (46, [read_opts], Key), "FlushInputBuffer": (47, [], None),
    "SetBufferContents1": (48, [_s("Rectangle"), Cell], None),
    "SetBufferContents2": (49, [_s("Coordinates"), Cells], None),
    "GetBufferContents": (50, [_s("Rectangle")], Cells),
    "ScrollBufferContents": (51, [_s("Rectangle"), _s("Coordinates"), _s("Rectangle"), Cell], None),
    "PushRunspace": (52, [Any], None), "PopRunspace": (53, [], None), "GetIsRunspacePushed": (54, [], Bool),
    "GetRunspace": (55, [], Any), "PromptForChoiceMultipleSelection": (56, [Text, Text, Choices, Ints], Ints),
}
SECURE = {"ReadLineAsSecureString", "PromptForCredential1", "PromptForCredential2"}


def gen_result(t, method):
    k = METHODS[method][2]
    if k == "ver":
        return Any(t, N("ver", "PSVersion", tuple(V.gen_int_in(t, 0, 2**31 - 1) for _ in range(t.int(2, 4)))))
    if k == "guid":
        return Any(t, N("guid", t.pick(["PSGuid", "UUID"]), V.uuid.UUID(int=t.draw(1 << 128))))
    return k(t)


# ---- the convenience requestor: method, parameters and the call that makes it --------------------------------------


def _cell_args(t, c):
    form = t.draw(4)
    if form == 0:
        ch = c.ch
    elif form == 1:
        ch = T.PSChar(c.ch)
    elif form == 2 and not 0xD800 <= c.ch <= 0xDFFF:
        ch = chr(c.ch)
    else:
        ch = c.ch
    if t.bool(1, 4):
        c.fg, c.bg = 15, 0
        return (ch,), {}
    return (ch,), {"foreground": T.ConsoleColor(c.fg), "background": T.ConsoleColor(c.bg)}


def simple_cell(t):
    return Cell(t, simple=True)


SNAKE = {}
for _m in METHODS:
    out = ""
    for _i, _ch in enumerate(_m):
        if _ch.isupper() and _i and not (_m[_i - 1].isupper() and not (_i + 1 < len(_m) and _m[_i + 1].islower())):
            out += "_"
        out += _ch.lower()
    SNAKE[_m] = out


def request(t, method):
    """Parameters (in wire order) and a function that makes the call through a requestor; None: it has no such call."""
    code, kinds, _res = METHODS[method]
    if method in ("PushRunspace", "GetRunspace"):
        return None
    ps = [k(t) for k in kinds]
    name = SNAKE[method]
    if method in ("Write1", "WriteLine1", "WriteLine2"):
        fn = "write" if method == "Write1" else "write_line"
        return ps, lambda r: getattr(r, fn)(*[p.v for p in ps])
    if method in ("Write2", "WriteLine3"):
        fg, bg, tx = ps
        miss = t.draw(6)
        if miss == 0:
            fg.v = 0
            return ps, lambda r: (r.write if method == "Write2" else r.write_line)(
                tx.v, background_color=T.ConsoleColor(bg.v))
        if miss == 1:
            bg.v = 0
            return ps, lambda r: (r.write if method == "Write2" else r.write_line)(
                tx.v, foreground_color=T.ConsoleColor(fg.v))
        if miss == 2 and method == "WriteLine3":
            tx.v = ""
            return ps, lambda r: r.write_line(foreground_color=T.ConsoleColor(fg.v),
                                              background_color=T.ConsoleColor(bg.v))
        return ps, lambda r: (r.write if method == "Write2" else r.write_line)(tx.v, T.ConsoleColor(fg.v),
                                                                               T.ConsoleColor(bg.v))
    if method == "WriteProgress":
        src, pr = ps
        kw = dict(pr.p.given)
        if "record_type" in kw:
            kw["record_type"] = T.ProgressRecordType(kw["record_type"])
        return ps, lambda r: r.write_progress(src.v, **kw)
    if method == "Prompt":
        return ps, lambda r: r.prompt(ps[0].v, ps[1].v, ps[2].arg)
    if method in ("PromptForCredential1", "PromptForCredential2"):
        kw = dict(caption=ps[0].v, message=ps[1].v, username=ps[2].v, target_name=ps[3].v)
        if t.bool(1, 4):
            ps[3].v = ""
            kw["target_name"] = None
        if method.endswith("2"):
            miss = t.draw(4)
            if miss == 0:
                ps[4].v = 3
            else:
                kw["allowed_credential_types"] = T.PSCredentialTypes(ps[4].v)
            if miss == 1:
                ps[5].v = 1
            else:
                kw["options"] = T.PSCredentialUIOptions(ps[5].v)
        return ps, lambda r: r.prompt_for_credential(**kw)
    if method == "PromptForChoice":
        if t.bool(1, 4):
            ps[3].v = -1
            return ps, lambda r: r.prompt_for_choice(ps[0].v, ps[1].v, ps[2].arg)
        return ps, lambda r: r.prompt_for_choice(ps[0].v, ps[1].v, ps[2].arg, ps[3].v)
    if method == "PromptForChoiceMultipleSelection":
        if t.bool(1, 4):
            ps[3].v = []
            return ps, lambda r: r.prompt_for_multiple_choice(ps[0].v, ps[1].v, ps[2].arg)
        return ps, lambda r: r.prompt_for_multiple_choice(ps[0].v, ps[1].v, ps[2].arg, ps[3].v)
    if method == "ReadKey":
        if t.bool(1, 4):
            ps[0].v = 4
            return ps, lambda r: r.read_key()
        return ps, lambda r: r.read_key(T.ReadKeyOptions(ps[0].v))
    if method == "SetBufferContents1":
        ps[1] = simple_cell(t)
        a, kw = _cell_args(t, ps[1])
        return ps, lambda r: r.set_buffer_cells(*ps[0].v, *a, **kw)
    if method == "SetBufferContents2":
        return ps, lambda r: r.set_buffer_contents(*ps[0].v, ps[1].arg)
    if method == "ScrollBufferContents":
        ps[3] = simple_cell(t)
        a, kw = _cell_args(t, ps[3])
        return ps, lambda r: r.scroll_buffer_contents(*ps[0].v, *ps[1].v, *ps[2].v, *a, **kw)
    if method in ("SetForegroundColor", "SetBackgroundColor"):
        return ps, lambda r: getattr(r, name)(T.ConsoleColor(ps[0].v))
    if ps and isinstance(ps[0], Struct):
        return ps, lambda r: getattr(r, name)(*ps[0].v)
    return ps, lambda r: getattr(r, name)(*[p.v for p in ps])


def respond(t, method, res):
    """A function that answers through a responder; None: it has no such call."""
    name = SNAKE[method]
    if method == "GetRunspace":
        return None
    if method.startswith("PromptForCredential"):
        return lambda r, ci: r.prompt_for_credential(ci, res.typed)
    if method == "Prompt":
        return lambda r, ci: r.prompt(ci, res.typed)
    if method == "PromptForChoiceMultipleSelection":
        if len(res.v) == 1 and t.bool():
            return lambda r, ci: r.prompt_for_multiple_choice(ci, res.v[0])
        return lambda r, ci: r.prompt_for_multiple_choice(ci, res.v)
    if method == "GetVersion" and t.bool():
        return lambda r, ci: r.get_version(ci, ".".join(str(x) for x in res.n.v))
    if isinstance(res, Struct):
        return lambda r, ci: getattr(r, name)(ci, *res.v)
    if isinstance(res, Cells):
        return lambda r, ci: r.get_buffer_contents(ci, res.arg)
    if isinstance(res, Key):
        kw = {}
        if res.state or t.bool():
            kw["control_key_state"] = T.ControlKeyStates(res.state)
        if res.code or t.bool():
            kw["key_code"] = res.code
        ch = T.PSChar(res.ch) if t.bool() else res.ch
        return lambda r, ci: r.read_key(ci, ch, res.down, **kw)
    return lambda r, ci: getattr(r, name)(ci, res.typed)
