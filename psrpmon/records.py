"""Specified stream records: generation, building, wire form, comparison of what arrived."""

from . import env, values as V  # noqa: F401
from .mon import need
from .values import N
from .wire import u16
from .world import field, has_field

from psrpcore import types as T

NIL = ("Nil", None)


# ---- parts of a document --------------------------------------------------------------------------------------------


def label_map(doc):
    out = {}

    def go(x):
        if isinstance(x, tuple) and x:
            if x[0] == "Obj" and len(x) == 7:
                if x[1] is not None:
                    out[x[1]] = x
                for y in x[3:]:
                    go(y)
                return
            for y in x:
                go(y)

    go(doc)
    return out


def part(labels, doc, names=None):
    """A part of a document as a document of its own: references out of it are resolved, labels are renumbered (parts
    that share their names are parts of one document)."""
    names = {} if names is None else names

    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x[0] == "Ref" and len(x) == 2:
            if x[1] in names:
                return ("Ref", names[x[1]])
            return go(labels[x[1]])
        if x[0] == "Obj" and len(x) == 7:
            lab = x[1]
            if lab is not None:
                if lab in names:
                    return ("Ref", names[lab])
                lab = names.setdefault(lab, len(names))
            return ("Obj", lab, x[2]) + tuple(go(y) for y in x[3:])
        return tuple(go(y) for y in x)

    return go(doc)


class Wire:
    """Decides the fields of one message document."""

    def __init__(self, doc, what):
        self.doc, self.what = doc, what
        self.labels = label_map(doc)
        self.checked = 0

    def prim(self, name, want):
        got = field(self.doc, name)
        need(got == want, "%s: field %s was sent as %s instead of %s", self.what, name, got, want)
        self.checked += 1

    def text(self, name, v):
        self.prim(name, NIL if v is None else ("S", u16(v)))

    def i32(self, name, v, tag="I32"):
        self.prim(name, NIL if v is None else (tag, v))

    def bool(self, name, v):
        self.prim(name, NIL if v is None else ("B", v))

    def node(self, name, n):
        got = field(self.doc, name)
        need(got is not None, "%s: field %s was not sent", self.what, name)
        # (labels of a graph are only compared when it is the part that holds all of it)
        d = V.diff(part_canon(n), part(self.labels, got))
        need(d is None, "%s: field %s was sent wrongly: %s", self.what, name, d)
        self.checked += 1

    def enum(self, name, cls, v):
        got = field(self.doc, name)
        want = V.canon(N("enum", cls, v))
        need(got == want, "%s: field %s was sent as %s instead of %s", self.what, name, got, want)
        self.checked += 1

    def absent(self, name):
        need(not has_field(self.doc, name), "%s: field %s was sent", self.what, name)
        self.checked += 1


def part_canon(n):
    doc = V.canon(n)
    return part(label_map(doc), doc)


def opt_text(t, num=3, den=4):
    return V.gen_text(t) if t.bool(num, den) else None


def same_text(got, want, what):
    if want is None:
        need(got is None, "%s came from nowhere: %a", what, got)
    else:
        need(isinstance(got, str) and u16(got) == u16(want), "%s %a arrived as %a", what, want, got)


def same_int(got, want, what):
    if want is None:
        need(got is None, "%s came from nowhere: %r", what, got)
    else:
        need(isinstance(got, int) and not isinstance(got, bool) and int(got) == want, "%s %d arrived as %r", what,
             want, got)


def same_enum(got, cls, want, what):
    need(type(got) is getattr(T, cls) and got.value == want, "%s %s arrived as %r", what, want, got)


class Item:
    """A generator of values that share objects within one message, and the memo to build them."""

    def __init__(self, t, budget=8):
        self.t = t
        self.gen = V.Gen(t, budget)
        self.memo = {}

    def value(self):
        self.gen.budget = max(self.gen.budget, 3)
        return self.gen.value(2)

    def build(self, n):
        return V.build(n, self.memo)


class InvSpec:
    """Invocation details of a record."""

    def __init__(self, item):
        t = self.t = item.t
        self.item = item
        i32 = V.INT_RANGE["PSInt"]

        def num(rng=i32):
            return V.gen_int_in(t, *rng) if t.bool(4, 5) else None

        self.bound = None
        if t.bool(2, 3):
            keys = []
            for _ in range(t.count(3)):
                k = V.gen_text(t)
                if u16(k) not in [u16(x) for x in keys]:
                    keys.append(k)
            self.bound = N("map", "PSDict" if t.bool() else "dict", [(N("str", "str", k), item.value()) for k in keys])
        self.origin = t.draw(2)
        self.expecting = t.pick([True, False, None])
        self.history = num(V.INT_RANGE["PSInt64"])
        self.name, self.line = opt_text(t), opt_text(t)
        self.offset, self.length, self.position, self.sline = num(), num(), num(), num()
        self.script = opt_text(t)
        self.message, self.path, self.root = opt_text(t, 1, 3), opt_text(t, 1, 3), opt_text(t, 1, 3)
        self.unbound = None
        if t.bool(2, 3):
            self.unbound = N("seq", "PSList" if t.bool() else "list", [item.value() for _ in range(t.count(3))])
        self.cmd = None
        if t.bool(2, 3):
            self.cmd = (t.pick([1, 2, 4, 8, 16, 32, 64, 256]), V.gen_text(t), V.gen_text(t), t.draw(2))
        self.extent = None
        if t.bool(2, 3):
            self.extent = (opt_text(t), t.draw(1000), t.draw(200), t.draw(1000), t.draw(200), V.gen_text(t))

    def build(self):
        b = self.item.build
        kw = {}
        if self.extent:
            f, sl, sc, el, ec, line = self.extent
            kw["DisplayScriptPosition"] = T.ScriptExtent(T.ScriptPosition(f, sl, sc, line),
                                                         T.ScriptPosition(f, el, ec, line))
        if self.cmd:
            ct, name, definition, vis = self.cmd
            kw["MyCommand"] = T.PSCustomObject(CommandType=T.CommandTypes(ct), Name=name, Definition=definition,
                                               Visibility=T.SessionStateEntryVisibility(vis))
        return T.InvocationInfo(
            BoundParameters=None if self.bound is None else b(self.bound), CommandOrigin=T.CommandOrigin(self.origin),
            ExpectingInput=self.expecting, HistoryId=self.history, InvocationName=self.name, Line=self.line,
            OffsetInLine=self.offset, PipelineLength=self.length, PipelinePosition=self.position,
            PositionMessage=self.message, PSCommandPath=self.path, PSScriptRoot=self.root,
            ScriptLineNumber=self.sline, ScriptName=self.script,
            UnboundArguments=None if self.unbound is None else b(self.unbound), **kw)

    def check_wire(self, w):
        p = "InvocationInfo_"
        if self.bound is None:
            w.prim(p + "BoundParameters", NIL)
        else:
            w.node(p + "BoundParameters", self.bound)
        w.enum(p + "CommandOrigin", "CommandOrigin", self.origin)
        w.bool(p + "ExpectingInput", self.expecting)
        w.text(p + "InvocationName", self.name)
        w.text(p + "Line", self.line)
        w.i32(p + "OffsetInLine", self.offset)
        w.i32(p + "HistoryId", self.history, "I64")
        w.i32(p + "PipelineLength", self.length)
        w.i32(p + "PipelinePosition", self.position)
        w.text(p + "PSScriptRoot", self.root)
        w.text(p + "PSCommandPath", self.path)
        w.text(p + "PositionMessage", self.message)
        w.i32(p + "ScriptLineNumber", self.sline)
        w.text(p + "ScriptName", self.script)
        if self.unbound is None:
            w.prim(p + "UnboundArguments", NIL)
        else:
            w.node(p + "UnboundArguments", self.unbound)
        w.bool("SerializeExtent", self.extent is not None)
        if self.extent:
            f, sl, sc, el, ec, _line = self.extent
            w.text("ScriptExtent_File", f)
            for n, v in (("StartLineNumber", sl), ("StartColumnNumber", sc), ("EndLineNumber", el),
                         ("EndColumnNumber", ec)):
                w.i32("ScriptExtent_" + n, v)
        if self.cmd:
            w.enum("CommandInfo_CommandType", "CommandTypes", self.cmd[0])
            w.text("CommandInfo_Name", self.cmd[1])
            w.text("CommandInfo_Definition", self.cmd[2])
            w.enum("CommandInfo_Visibility", "SessionStateEntryVisibility", self.cmd[3])
        else:
            w.absent("CommandInfo_CommandType")

    def same(self, g, s, what):
        need(type(g) is T.InvocationInfo, "%s: invocation info arrived as %s", what, type(g).__name__)
        what += " invocation info"
        if self.bound is None or not self.bound.v:
            need(type(g.BoundParameters) is T.PSDict and not g.BoundParameters, "%s: bound parameters %r", what,
                 g.BoundParameters)
        else:
            s.same(self.bound, g.BoundParameters, "bound parameters")
        same_enum(g.CommandOrigin, "CommandOrigin", self.origin, what + " origin")
        need(g.ExpectingInput is self.expecting, "%s: ExpectingInput %s arrived as %r", what, self.expecting,
             g.ExpectingInput)
        same_int(g.HistoryId, self.history, what + " history id")
        same_text(g.InvocationName, self.name, what + " name")
        same_text(g.Line, self.line or "", what + " line")
        same_int(g.OffsetInLine, self.offset, what + " offset")
        same_int(g.PipelineLength, self.length, what + " pipeline length")
        same_int(g.PipelinePosition, self.position, what + " pipeline position")
        same_int(g.ScriptLineNumber, self.sline, what + " script line")
        same_text(g.ScriptName, self.script, what + " script name")
        if self.unbound is None or not self.unbound.v:
            need(type(g.UnboundArguments) is T.PSList and not g.UnboundArguments, "%s: unbound arguments %r", what,
                 g.UnboundArguments)
        else:
            s.same(self.unbound, g.UnboundArguments, "unbound arguments")
        x = g.DisplayScriptPosition
        need(type(x) is T.ScriptExtent, "%s: display position arrived as %s", what, type(x).__name__)
        if self.extent:
            f, sl, sc, el, ec, _line = self.extent
            same_text(x.File, f, what + " extent file")
            for n, v in (("StartLineNumber", sl), ("StartColumnNumber", sc), ("EndLineNumber", el),
                         ("EndColumnNumber", ec)):
                same_int(getattr(x, n), v, what + " extent " + n)
        else:
            same_text(x.File, self.script or "", what + " extent file")
            same_int(x.StartLineNumber, self.sline, what + " extent start line")
            same_int(x.EndLineNumber, self.sline, what + " extent end line")
            same_int(x.StartColumnNumber, self.offset, what + " extent start column")
        if self.cmd is None:
            need(g.MyCommand is None, "%s: a command came from nowhere: %r", what, g.MyCommand)
        else:
            c = g.MyCommand
            same_enum(c.CommandType, "CommandTypes", self.cmd[0], what + " command type")
            same_text(c.Name, self.cmd[1], what + " command name")
            same_text(c.Definition, self.cmd[2], what + " command definition")
            same_enum(c.Visibility, "SessionStateEntryVisibility", self.cmd[3], what + " command visibility")


def gen_iters(t):
    return [V.gen_int_in(t, *V.INT_RANGE["PSInt"]) for _ in range(t.count(4))] if t.bool(2, 3) else None


def iters_node(v):
    return N("nil") if v is None else N("seq", "PSList", [N("int", "int", x) for x in v])


def same_iters(got, want, what):
    if want is None:
        need(got is None, "%s came from nowhere: %r", what, got)
    else:
        need(type(got) is T.PSList and [int(x) for x in got] == want and all(type(x) is T.PSInt for x in got),
             "%s %s arrived as %r", what, want, got)


class ErrorSpec:
    """An error record with everything a writer can give it."""

    kind = "error"
    msg = "ErrorRecord"

    def __init__(self, t, inv=True):
        self.item = Item(t)
        self.t = t
        if t.bool(3, 4):
            self.exc = self.item.gen.lib(1, "NETException")
        else:
            self.exc = N("obj", "PSObject", names=t.pick([["Custom.Exception", "System.Exception", "System.Object"],
                                                          ["System.Management.Automation.RemoteException"]]))
            props = [("Message", N("str", "PSString", V.gen_text(t))), ("More", self.item.value())]
            setattr(self.exc, t.pick(["adp", "ext"]), props)
            self.item.gen.pool.append(self.exc)
        self.cat = t.pick(V.ENUM_NAMES["ErrorCategory"])[1]
        self.activity, self.reason, self.tname, self.ttype = (opt_text(t) for _ in range(4))
        self.no_cat = t.bool(1, 8)
        if self.no_cat:
            self.cat, self.activity, self.reason, self.tname, self.ttype = 0, None, None, None, None
        self.target = N("nil") if t.bool(1, 3) else self.item.value()
        self.fqid = opt_text(t)
        self.details = None
        if t.bool():
            self.details = (opt_text(t), opt_text(t))
            if not (self.details[0] or self.details[1]):
                self.details = ("m", None)
        self.inv = InvSpec(self.item) if inv and t.bool(2, 3) else None
        self.iters = gen_iters(t) if self.inv else None
        self.stack = (V.gen_text(t) or "s") if t.bool() else None

    def cat_text(self):
        return "%s (%s:%s) [%s], %s" % (V.enum_text("ErrorCategory", self.cat), self.tname or "", self.ttype or "",
                                        self.activity or "", self.reason or "")

    def parts(self):
        b = self.item.build
        cat = None if self.no_cat else T.ErrorCategoryInfo(
            Category=T.ErrorCategory(self.cat), Activity=self.activity, Reason=self.reason, TargetName=self.tname,
            TargetType=self.ttype)
        det = None
        if self.details:
            det = T.ErrorDetails(Message=self.details[0], RecommendedAction=self.details[1])
        return (b(self.exc), cat, b(self.target), self.fqid, det, None if self.inv is None else self.inv.build(),
                self.iters, self.stack)

    def build(self):
        e, cat, target, fqid, det, inv, iters, stack = self.parts()
        r = T.ErrorRecord(Exception=e, CategoryInfo=cat or T.ErrorCategoryInfo(), TargetObject=target,
                          FullyQualifiedErrorId=fqid, ErrorDetails=det, InvocationInfo=inv,
                          PipelineIterationInfo=iters, ScriptStackTrace=stack)
        r.serialize_extended_info = inv is not None
        return r

    def write(self, pipe):
        e, cat, target, fqid, det, inv, iters, stack = self.parts()
        pipe.write_error(e, category_info=cat, target_object=target, fully_qualified_error_id=fqid, error_details=det,
                         invocation_info=inv, pipeline_iteration_info=iters, script_stack_trace=stack)

    def check_wire(self, doc):
        w = Wire(doc, "error record")
        w.node("Exception", self.exc)
        w.node("TargetObject", self.target)
        w.text("FullyQualifiedErrorId", self.fqid)
        w.i32("ErrorCategory_Category", self.cat)
        w.text("ErrorCategory_Activity", self.activity)
        w.text("ErrorCategory_Reason", self.reason)
        w.text("ErrorCategory_TargetName", self.tname)
        w.text("ErrorCategory_TargetType", self.ttype)
        w.text("ErrorCategory_Message", self.cat_text())
        if self.details:
            w.text("ErrorDetails_Message", self.details[0])
            w.text("ErrorDetails_RecommendedAction", self.details[1])
        else:
            for n in ("ErrorDetails_Message", "ErrorDetails_RecommendedAction"):
                need(field(doc, n, NIL) == NIL, "error record: %s was sent", n)
        if self.stack:
            w.text("ErrorDetails_ScriptStackTrace", self.stack)
        else:
            need(field(doc, "ErrorDetails_ScriptStackTrace", NIL) == NIL, "error record: a stack trace was sent")
        w.bool("SerializeExtendedInfo", self.inv is not None)
        if self.inv:
            self.inv.check_wire(w)
            w.node("PipelineIterationInfo", iters_node(self.iters))
        return w.checked

    def same(self, r, what="error record"):
        need(type(r) is T.ErrorRecord, "%s arrived as %s", what, type(r).__name__)
        s = V.Same()
        s.extra[id(self.exc)] = {"SerializedRemoteInvocationInfo"}
        s.same(self.exc, r.Exception, "exception")
        s.same(self.target, r.TargetObject, "target")
        same_text(r.FullyQualifiedErrorId, self.fqid, what + " id")
        c = r.CategoryInfo
        need(type(c) is T.ErrorCategoryInfo, "%s category arrived as %s", what, type(c).__name__)
        same_enum(c.Category, "ErrorCategory", self.cat, what + " category")
        for n, v in (("Activity", self.activity), ("Reason", self.reason), ("TargetName", self.tname),
                     ("TargetType", self.ttype)):
            same_text(getattr(c, n), v, "%s category %s" % (what, n))
        same_text(c.PSObject.to_string, self.cat_text(), what + " category text")
        if self.details is None:
            need(r.ErrorDetails is None, "%s details came from nowhere", what)
        else:
            need(type(r.ErrorDetails) is T.ErrorDetails, "%s details arrived as %r", what, r.ErrorDetails)
            same_text(r.ErrorDetails.Message, self.details[0], what + " details message")
            same_text(r.ErrorDetails.RecommendedAction, self.details[1], what + " recommended action")
        same_text(r.ScriptStackTrace, self.stack, what + " stack trace")
        raw = [p.get_value(r.Exception) for p in r.Exception.PSObject.extended_properties
               if p.name == "SerializedRemoteInvocationInfo"]
        if self.inv is None:
            need(r.InvocationInfo is None and r.PipelineIterationInfo is None, "%s invocation info came from nowhere",
                 what)
            need(raw == [None], "%s: remote invocation info is %r", what, raw)
        else:
            self.inv.same(r.InvocationInfo, s, what)
            same_iters(r.PipelineIterationInfo, self.iters, what + " iteration info")
            need(len(raw) == 1 and type(raw[0]) is T.InvocationInfo, "%s: remote invocation info is %r", what, raw)
            same_text(raw[0].InvocationName, self.inv.name, what + " remote invocation name")
        # what it reads as
        d = self.details
        msg = next((x for n, x in self.exc.adp + self.exc.ext if n == "Message"), None)
        same_text(str(r), d[0] if d and d[0] else msg.v, what + " text")
        return s.steps

    def got(self, ev):
        return self.same(ev.record)


class MessageSpec:
    """Debug, verbose and warning records."""

    def __init__(self, t, kind):
        self.kind = kind
        self.msg = {"debug": "DebugRecord", "verbose": "VerboseRecord", "warning": "WarningRecord"}[kind]
        self.text = opt_text(t, 15, 16)
        self.item = Item(t)
        self.inv = InvSpec(self.item) if t.bool() else None
        self.iters = gen_iters(t) if self.inv else None

    def write(self, pipe):
        kw = {}
        if self.inv:
            kw = dict(invocation_info=self.inv.build(), pipeline_iteration_info=self.iters)
        getattr(pipe, "write_" + self.kind)(self.text, **kw)

    def check_wire(self, doc):
        w = Wire(doc, self.kind + " record")
        w.text("InformationalRecord_Message", self.text)
        w.bool("InformationalRecord_SerializeInvocationInfo", self.inv is not None)
        if self.inv:
            self.inv.check_wire(w)
            w.node("InformationalRecord_PipelineIterationInfo", iters_node(self.iters))
        return w.checked

    def got(self, ev):
        r = ev.record
        need(type(r).__name__ == self.msg, "%s record arrived as %s", self.kind, type(r).__name__)
        same_text(r.Message, self.text, self.kind + " message")
        s = V.Same()
        if self.inv is None:
            need(r.InvocationInfo is None and r.PipelineIterationInfo is None, "%s invocation info came from nowhere",
                 self.kind)
        else:
            self.inv.same(r.InvocationInfo, s, self.kind)
            same_iters(r.PipelineIterationInfo, self.iters, self.kind + " iteration info")
        return s.steps + 1


class ProgressSpec:
    kind = "progress"
    msg = "ProgressRecord"

    def __init__(self, t):
        i32 = V.INT_RANGE["PSInt"]
        self.given = {"activity": V.gen_text(t), "activity_id": V.gen_int_in(t, *i32),
                      "status_description": V.gen_text(t)}
        if t.bool(2, 3):
            self.given["current_operation"] = V.gen_text(t)
        if t.bool(2, 3):
            self.given["parent_activity_id"] = V.gen_int_in(t, *i32)
        if t.bool(2, 3):
            self.given["percent_complete"] = t.int(-1, 100) if t.bool() else V.gen_int_in(t, *i32)
        if t.bool():
            self.given["record_type"] = t.draw(2)
        if t.bool(2, 3):
            self.given["seconds_remaining"] = V.gen_int_in(t, *i32)
        self.v = dict({"current_operation": None, "parent_activity_id": -1, "percent_complete": -1, "record_type": 0,
                       "seconds_remaining": -1}, **self.given)

    def write(self, pipe):
        kw = dict(self.given)
        if "record_type" in kw:
            kw["record_type"] = T.ProgressRecordType(kw["record_type"])
        pipe.write_progress(**kw)

    def check_wire(self, doc):
        w = Wire(doc, "progress record")
        v = self.v
        w.text("Activity", v["activity"])
        w.i32("ActivityId", v["activity_id"])
        w.text("StatusDescription", v["status_description"])
        w.text("CurrentOperation", v["current_operation"])
        w.i32("ParentActivityId", v["parent_activity_id"])
        w.i32("PercentComplete", v["percent_complete"])
        w.enum("Type", "ProgressRecordType", v["record_type"])
        w.i32("SecondsRemaining", v["seconds_remaining"])
        return w.checked

    def got(self, ev):
        return self.same(ev.record)

    def same(self, r):
        need(type(r) is T.ProgressRecord, "progress record arrived as %s", type(r).__name__)
        v = self.v
        same_text(r.Activity, v["activity"], "activity")
        same_int(r.ActivityId, v["activity_id"], "activity id")
        same_text(r.StatusDescription, v["status_description"], "status description")
        same_text(r.CurrentOperation, v["current_operation"], "current operation")
        same_int(r.ParentActivityId, v["parent_activity_id"], "parent activity id")
        same_int(r.PercentComplete, v["percent_complete"], "percent complete")
        same_enum(r.RecordType, "ProgressRecordType", v["record_type"], "record type")
        same_int(r.SecondsRemaining, v["seconds_remaining"], "seconds remaining")
        return 8


class InfoSpec:
    kind = "information"
    msg = "InformationRecord"

    def __init__(self, t):
        self.item = Item(t)
        u32 = V.INT_RANGE["PSUInt"]
        self.data = self.item.value()
        self.source = V.gen_text(t)
        self.time = N("dt", t.pick(["PSDateTime", "datetime"]), V.gen_dt(t))
        self.tags = [V.gen_text(t) for _ in range(t.count(4))] if t.bool(3, 4) else None
        self.user, self.computer = V.gen_text(t), V.gen_text(t)
        self.ids = [V.gen_int_in(t, *u32) for _ in range(3)]

    def write(self, pipe):
        b = self.item.build
        pipe.write_information(b(self.data), self.source, time_generated=b(self.time), tags=self.tags, user=self.user,
                               computer=self.computer, process_id=self.ids[0], native_thread_id=self.ids[1],
                               managed_thread_id=self.ids[2])

    def fields(self):
        def s(x):
            return N("str", "PSString", x)

        def u(x):
            return N("int", "PSUInt", x)
        return [("MessageData", self.data), ("Source", s(self.source)), ("TimeGenerated", self.time),
                ("Tags", N("seq", "PSList", [N("str", "str", x) for x in self.tags or []])), ("User", s(self.user)),
                ("Computer", s(self.computer)), ("ProcessId", u(self.ids[0])), ("NativeThreadId", u(self.ids[1])),
                ("ManagedThreadId", u(self.ids[2]))]

    def check_wire(self, doc):
        w = Wire(doc, "information record")
        for name, n in self.fields():
            w.node(name, n)
        return w.checked

    def build(self):
        b = self.item.build
        return T.InformationRecord(
            MessageData=b(self.data), Source=self.source, TimeGenerated=b(self.time), Tags=list(self.tags or []),
            User=self.user, Computer=self.computer, ProcessId=self.ids[0], NativeThreadId=self.ids[1],
            ManagedThreadId=self.ids[2])

    def got(self, ev):
        return self.same(ev.record)

    def same(self, r):
        need(type(r) is T.InformationRecord, "information record arrived as %s", type(r).__name__)
        s = V.Same()
        for name, n in self.fields():
            s.same(n, getattr(r, name), "information " + name)
        return s.steps


class EventSpec:
    """A user event of the pool."""

    kind = "event"
    msg = "UserEvent"

    def __init__(self, t, rpid):
        self.item = Item(t)
        self.rpid = rpid
        self.ident = V.gen_int_in(t, *V.INT_RANGE["PSInt"])
        self.source = V.gen_text(t)
        self.sender = self.item.value()
        self.args = [self.item.value() for _ in range(t.count(3))] if t.bool(3, 4) else None
        self.data = self.item.value()
        self.time = N("dt", t.pick(["PSDateTime", "datetime"]), V.gen_dt(t))
        self.computer = V.gen_text(t)

    def send(self, pool):
        b = self.item.build
        pool.send_event(self.ident, self.source, sender=b(self.sender),
                        source_args=None if self.args is None else [b(x) for x in self.args],
                        message_data=b(self.data), time_generated=b(self.time), computer=self.computer)

    def fields(self):
        return [("EventIdentifier", N("int", "PSInt", self.ident)),
                ("SourceIdentifier", N("str", "PSString", self.source)), ("TimeGenerated", self.time),
                ("Sender", self.sender), ("SourceArgs", N("seq", "list", self.args or [])),
                ("MessageData", self.data), ("ComputerName", N("str", "PSString", self.computer)),
                ("RunspaceId", N("guid", "PSGuid", self.rpid))]

    def check_wire(self, doc):
        w = Wire(doc, "user event")
        for name, n in self.fields():
            w.node("PSEventArgs." + name, n)
        return w.checked

    def got(self, ev):
        r = ev.event
        s = V.Same()
        for name, n in self.fields():
            s.same(n, getattr(r, name), "event " + name)
        return s.steps


class ValueSpec:
    """A value written to the output or sent as input."""

    def __init__(self, t, kind, node=None):
        self.kind = kind
        self.msg = {"output": "PipelineOutput", "input": "PipelineInput"}[kind]
        self.item = Item(t, 20)
        self.node = node or (N("nil") if t.bool(1, 12) else self.item.value())

    def write(self, pipe):
        getattr(pipe, "write_output" if self.kind == "output" else "send")(self.item.build(self.node))

    def check_wire(self, doc):
        if doc is None:  # nothing is sent as a message without content
            need(self.node.kind == "nil", "%s value was sent without content (%s)", self.kind, V.show(self.node))
            return 1
        d = V.diff(V.canon(self.node), doc)
        need(d is None, "%s value was sent wrongly: %s (%s)", self.kind, d, V.show(self.node))
        return 1

    def got(self, ev):
        return V.same(self.node, ev.data)


class ErrorValueSpec:
    """An error record (alone or inside a list) written as a value."""

    def __init__(self, t, kind):
        self.kind = kind
        self.msg = {"output": "PipelineOutput", "input": "PipelineInput"}[kind]
        self.err = ErrorSpec(t)
        self.inside = t.bool()

    def write(self, pipe):
        r = self.err.build()
        getattr(pipe, "write_output" if self.kind == "output" else "send")([1, r, r] if self.inside else r)

    def check_wire(self, doc):
        if self.inside:
            items = doc[5][1]
            need(len(items) == 3 and items[1][0] == "Obj", "a list with an error record was sent as %s", doc)
            need(items[2] == ("Ref", items[1][1]), "an error record that occurs twice was sent as %s", items[2])
            doc = items[1]
        return self.err.check_wire(doc)

    def got(self, ev):
        d = ev.data
        if self.inside:
            need(type(d) is T.PSList and len(d) == 3 and d[0] == 1, "a list with an error record arrived as %r",
                 type(d))
            need(d[1] is d[2], "an error record that occurs twice arrived as two")
            d = d[1]
        return self.err.same(d)
