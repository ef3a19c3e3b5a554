"""P15: a pipeline definition arrives as the client built it."""

from .. import hostvals as H, records as R, values as V
from ..mon import need
from ..tape import Tape
from ..values import N
from ..wire import u16
from ..world import Pair, field, gen_uuid, has_field
from .p08 import caps, gen_caps

import psrpcore
from psrpcore import types as T

PROP = "P15"
LEVEL = "exploration"
RULE = ("distinct pipeline definitions (shape of statements, kinds of commands, parameters, merges, settings, peer "
        "version) and metadata requests, compared on the wire, in the event and on the server's pipeline")
ASSUMPTIONS = ["parameter names passed as keywords are the ones Python accepts as keywords",
               "the last command of a statement is marked as its end on the server whether or not the client marked it"]
CASES = {"quick": 4500, "thorough": 400000}
TIME = {"quick": 60, "thorough": 800}
REQUIRE = ["pipelines", "metadata requests", "statements", "named", "positional", "switch", "merge", "old peer",
           "newest peer", "refused", "started again", "command twice", "pool apartment", "nested", "host",
           "same server pipeline", "settings changed"]
STREAMS = ("error", "warning", "verbose", "debug", "information")
NONE, OUTPUT, ERROR, NULL = 0, 1, 2, 7
PRT = T.PipelineResultTypes
assert (PRT.none.value, PRT.Output.value, PRT.Error.value) == (NONE, OUTPUT, ERROR)
NULL = PRT.Null.value


class Cmd:
    """One command as the model knows it."""

    def __init__(self, text, script, scope):
        self.text, self.script, self.scope = text, script, scope
        self.params = []
        self.end = False
        self.unclaimed = False
        self.my = self.to = NONE
        self.merge = dict.fromkeys(STREAMS, NONE)

    def redirect(self, stream, to):
        if stream == "error":
            if to == NONE:
                self.my = self.to = NONE
            elif to != NULL:
                self.my, self.to = ERROR, to
        self.merge[stream] = to


class Definition:
    """Drives the building calls of a client pipeline and the model next to it."""

    def __init__(self, t, m, pool, apart):
        self.t, self.m = t, m
        self.item = R.Item(t, 14)
        self.cmds = []
        self.history = V.gen_text(t) if t.bool() else None
        self.add, self.nested, self.noin, self.redir = (t.bool() for _ in range(4))
        self.options = t.pick([0, 1, 2, 3, 4, 8, 15])
        self.apart = t.pick([None, 0, 1, 2])
        self.host = H.HostSpec(t) if t.bool(2, 3) else None
        kw = {}
        if t.bool(7, 8):
            kw = dict(add_to_history=self.add, history=self.history, is_nested=self.nested, no_input=self.noin,
                      remote_stream_options=T.RemoteStreamOptions(self.options),
                      redirect_shell_error_to_out=self.redir)
            if self.host:
                kw["host"] = self.host.build()
            if self.apart is not None:
                kw["apartment_state"] = T.ApartmentState(self.apart)
        else:
            self.add, self.history, self.nested, self.noin, self.options, self.redir = False, None, False, True, 0, True
            self.apart = self.host = None
            m.count("defaults")
        if self.apart is None:
            self.apart = apart
            m.count("pool apartment")
        self.ps = psrpcore.ClientPowerShell(pool, **kw)
        self.objs = {}

    def settings(self):
        """Other settings before it is started once more."""
        t, md = self.t, self.ps.metadata
        if t.bool():
            self.add = md.add_to_history = t.bool()
        if t.bool():
            self.noin = md.no_input = t.bool()
        if t.bool():
            self.redir = md.redirect_shell_error_to_out = t.bool()
        if t.bool():
            self.options = t.draw(16)
            md.remote_stream_options = T.RemoteStreamOptions(self.options)
        if t.bool():
            self.apart = t.draw(3)
            md.apartment_state = T.ApartmentState(self.apart)
        if t.bool():
            self.host = H.HostSpec(t)
            md.host = self.host.build()
        if t.bool(1, 3):
            self.history = V.gen_text(t) if t.bool() else None
            md.history = self.history
        self.m.count("settings changed")

    def value(self):
        n = N("bool", "bool", self.t.bool()) if self.t.bool(1, 6) else self.item.value()
        return n, self.item.build(n)

    def name(self):
        return V.gen_text(self.t) if self.t.bool(1, 2) else self.t.pick(["Name", "Path", "p", "-x", ""])

    def chain(self, got, target=None):
        """What adds something gives its object back, so that calls can be chained."""
        want = self.ps if target is None else target
        need(got is want, "adding to %r gave %r instead of the same object", want, got)
        self.m.count("chained")

    def params(self, target, c):
        t, m = self.t, self.m
        how = t.draw(5)
        if how == 0:
            name = self.name()
            self.chain(target.add_parameter(name), target)
            c.params.append((name, N("bool", "bool", True)))
            m.count("switch")
        elif how == 1:
            n, v = self.value()
            self.chain(target.add_argument(v), target)
            c.params.append((None, n))
            m.count("positional")
        elif how == 2:
            kw = {}
            for _ in range(t.count(3)):
                k = self.name()
                if k in kw or k in ("self", "parameters"):
                    continue
                kw[k] = self.value()
            self.chain(target.add_parameters(**{k: v for k, (_n, v) in kw.items()}), target)
            c.params += [(k, n) for k, (n, _v) in kw.items()]
            m.count("named", len(kw))
        else:
            n, v = self.value()
            name = None if t.bool(1, 6) else self.name()
            self.chain(target.add_parameter(name, v), target)
            c.params.append((name, n))
            m.count("named" if name is not None else "positional")

    def merges(self, real, c):
        t, m = self.t, self.m
        k = t.draw(4)
        to = t.pick([NONE, OUTPUT, NULL])
        if k == 0:
            real.merge_unclaimed = c.unclaimed = t.bool()
        elif k == 1:
            if to == OUTPUT and t.bool():
                real.redirect_all()
            else:
                real.redirect_all(PRT(to))
            for s in STREAMS:
                c.redirect(s, to)
        elif k == 2 and t.bool(1, 4):
            s = t.pick(STREAMS)
            bad = t.pick([x for x in PRT if x.value not in (NONE, OUTPUT, NULL)])
            refuses(lambda: getattr(real, "redirect_" + s)(bad), ValueError, "a redirection of %s to %s" % (s, bad))
            m.count("refused")
        else:
            s = t.pick(STREAMS)
            if to == OUTPUT and t.bool():
                getattr(real, "redirect_" + s)()
            else:
                getattr(real, "redirect_" + s)(PRT(to))
            c.redirect(s, to)
        m.count("merge")

    def step(self):
        t, m, ps = self.t, self.m, self.ps
        k = t.draw(16)
        if k < 5 or not self.cmds:
            if not self.cmds and t.bool(1, 5):
                refuses(lambda: ps.add_parameter("x", 1), ValueError, "a parameter without a command")
                refuses(lambda: ps.add_argument(1), ValueError, "an argument without a command")
                refuses(ps.start, ValueError, "starting without a command")
                self.chain(ps.add_statement())  # no effect
                m.count("refused")
            text, scope = V.gen_text(t) if t.bool() else t.pick(["Get-Item", "'a'", "", "a;b", "x|y"]), \
                t.pick([None, None, True, False])
            how = t.draw(3)
            if how == 0:
                c = Cmd(text, False, scope)
                self.chain(ps.add_command(text, scope) if t.bool() else ps.add_command(text, use_local_scope=scope))
            elif how == 1:
                c = Cmd(text, True, scope)
                self.chain(ps.add_script(text, scope) if t.bool() else ps.add_script(text, use_local_scope=scope))
            else:
                c = Cmd(text, t.bool(), scope)
                real = psrpcore.Command(text, is_script=c.script, use_local_scope=scope)
                for _ in range(t.count(2)):
                    self.params(real, c)
                if t.bool():
                    self.merges(real, c)
                if t.bool(1, 6):
                    refuses(lambda: ps.add_command(real, use_local_scope=t.bool()), TypeError,
                            "a scope next to a Command")
                    m.count("refused")
                self.chain(ps.add_command(real))
            self.cmds.append(c)
            self.objs[id(c)] = ps.metadata.commands[-1]
        elif k < 9:
            self.params(ps, self.cmds[-1])
        elif k < 12:
            c = t.pick(self.cmds)
            self.merges(self.objs[id(c)], c)
        elif k < 15:
            self.chain(ps.add_statement())
            self.cmds[-1].end = True
            m.count("statements")
        else:
            c = t.pick(self.cmds)
            self.chain(ps.add_command(self.objs[id(c)]))
            self.cmds.append(c)
            m.count("command twice")

    def groups(self):
        out = [[]]
        for c in self.cmds:
            out[-1].append(c)
            if c.end:
                out.append([])
        return [g for g in out if g]

    def check_wire(self, doc, version):
        labels = R.label_map(doc)

        def at(x):
            return labels[x[1]] if x[0] == "Ref" else x

        def enum(d, name, cls, v, what):
            got = field(d, name)
            need(got is not None and got[0] == "Enum" and got == V.canon(N("enum", cls, v)), "%s: %s %d was sent as %s",
                 what, name, v, got)

        for name, v in (("NoInput", self.noin), ("AddToHistory", self.add), ("IsNested", self.nested)):
            need(field(doc, name) == ("B", v), "%s %s was sent as %s", name, v, field(doc, name))
        enum(doc, "ApartmentState", "ApartmentState", self.apart, "pipeline")
        enum(doc, "RemoteStreamOptions", "RemoteStreamOptions", self.options, "pipeline")
        if self.host:
            self.host.check_wire(field(doc, "HostInfo"))
        p = field(doc, "PowerShell")
        need(field(p, "IsNested") == ("B", self.nested), "nesting was sent as %s", field(p, "IsNested"))
        need(field(p, "RedirectShellErrorOutputPipe") == ("B", self.redir), "the error redirection was sent as %s",
             field(p, "RedirectShellErrorOutputPipe"))
        need(field(p, "History") == (R.NIL if self.history is None else ("S", u16(self.history))), "history %a was "
             "sent as %s", self.history, field(p, "History"))
        first = [at(x) for x in at(field(p, "Cmds"))[5][1]]
        groups = self.groups()
        if has_field(p, "ExtraCmds"):
            sent = [[at(x) for x in at(field(at(e), "Cmds"))[5][1]] for e in at(field(p, "ExtraCmds"))[5][1]]
            need(sent and sent[0] == first, "the first statement differs between Cmds and ExtraCmds")
            while sent and not sent[-1]:
                sent.pop()
        else:
            sent = [first]
        need([len(g) for g in sent] == [len(g) for g in groups], "statements of %s commands were sent as %s",
             [len(g) for g in groups], [len(g) for g in sent])
        for gi, (g, s) in enumerate(zip(groups, sent)):
            for ci, (c, d) in enumerate(zip(g, s)):
                what = "command %d.%d" % (gi, ci)
                need(field(d, "Cmd") == ("S", u16(c.text)), "%s %a was sent as %s", what, c.text, field(d, "Cmd"))
                need(field(d, "IsScript") == ("B", c.script), "%s: script flag was sent as %s", what,
                     field(d, "IsScript"))
                need(field(d, "UseLocalScope") == (R.NIL if c.scope is None else ("B", c.scope)), "%s: scope %s was "
                     "sent as %s", what, c.scope, field(d, "UseLocalScope"))
                args = at(field(d, "Args"))[5][1]
                need(len(args) == len(c.params), "%s: %d parameters were sent as %d", what, len(c.params), len(args))
                for (name, n), a in zip(c.params, args):
                    a = at(a)
                    need(field(a, "N") == (R.NIL if name is None else ("S", u16(name))), "%s: parameter %a was sent "
                         "as %s", what, name, field(a, "N"))
                    bad = V.diff(R.part_canon(n), R.part(labels, field(a, "V")))
                    need(bad is None, "%s: value of parameter %a was sent wrongly: %s", what, name, bad)
                enum(d, "MergeMyResult", "PipelineResultTypes", c.my, what)
                enum(d, "MergeToResult", "PipelineResultTypes", c.to, what)
                enum(d, "MergePreviousResults", "PipelineResultTypes", (OUTPUT | ERROR) if c.unclaimed else NONE, what)
                for s in STREAMS:
                    name = "Merge" + s.capitalize()
                    if version >= ((2, 3) if s == "information" else (2, 2)):
                        enum(d, name, "PipelineResultTypes", c.merge[s], what)
                    else:
                        need(not has_field(d, name), "%s: %s was sent to a peer of version %s", what, name, version)

    def check(self, got, version, where):
        for name, v in (("add_to_history", self.add), ("is_nested", self.nested), ("no_input", self.noin),
                        ("redirect_shell_error_to_out", self.redir)):
            g = getattr(got, name)
            need(isinstance(g, (bool, T.PSBool)) and bool(g) == v, "%s: %s %s arrived as %r", where, name, v, g)
        R.same_text(got.history, self.history, "history")
        R.same_enum(got.apartment_state, "ApartmentState", self.apart, "apartment state")
        R.same_enum(got.remote_stream_options, "RemoteStreamOptions", self.options, "stream options")
        if self.host:
            self.host.same(got.host)
        groups = [[]]
        for c in got.commands:
            groups[-1].append(c)
            if c.end_of_statement:
                groups.append([])
        groups = [g for g in groups if g]
        want = self.groups()
        need([len(g) for g in groups] == [len(g) for g in want], "statements of %s commands arrived as %s",
             [len(g) for g in want], [len(g) for g in groups])
        same = V.Same()
        for c, g in zip(self.cmds, got.commands):
            what = "%s command %a" % (where, c.text)
            R.same_text(g.command_text, c.text, what)
            need(bool(g.is_script) == c.script, "%s: script flag arrived as %r", what, g.is_script)
            need((g.use_local_scope is None) == (c.scope is None) and bool(g.use_local_scope) == bool(c.scope),
                 "%s: scope %s arrived as %r", what, c.scope, g.use_local_scope)
            need(len(g.parameters) == len(c.params), "%s: %d parameters arrived as %d", what, len(c.params),
                 len(g.parameters))
            for (name, n), (gn, gv) in zip(c.params, g.parameters):
                R.same_text(gn, name, "%s: parameter name" % what)
                same.same(n, gv)
            R.same_enum(g.merge_my, "PipelineResultTypes", c.my, "%s: merge my" % what)
            R.same_enum(g.merge_to, "PipelineResultTypes", c.to, "%s: merge to" % what)
            need(g.merge_unclaimed is c.unclaimed, "%s: merge of unclaimed results arrived as %r", what,
                 g.merge_unclaimed)
            for s in STREAMS:
                known = version >= ((2, 3) if s == "information" else (2, 2))
                R.same_enum(getattr(g, "merge_" + s), "PipelineResultTypes", c.merge[s] if known else NONE,
                            "%s: merge of %s" % (what, s))
        self.m.count("values", same.steps)

    def shape(self):
        return (tuple(tuple((c.script, c.scope, c.unclaimed, c.my, c.to, tuple(c.merge.values()),
                             tuple((name is None, n.kind, n.cls) for name, n in c.params)) for c in g)
                      for g in self.groups()), self.apart, self.options, self.nested, self.noin, self.add, self.redir)


def refuses(fn, exc, what):
    try:
        fn()
    except exc:
        return
    need(False, "%s was accepted", what)


def run_definition(t, m, pair, version, apart, steps=None):
    d = Definition(t, m, pair.client, apart)
    rounds = t.int(2, 3) if t.bool(1, 5) else 1
    s = None
    for i in range(rounds):
        for _ in range(steps or t.int(1, 12)):
            d.step()
        m.log("start pipeline of %s commands", [len(g) for g in d.groups()])
        d.ps.start()
        if s is None:
            s = psrpcore.ServerPipeline(pair.server, d.ps.pipeline_id)
        ((_ln, sent, ev),) = pair.pump()
        need(sent.type == "CreatePipeline" and sent.pid == d.ps.pipeline_id, "a pipeline was sent as %s for %s",
             sent.type, sent.pid)
        d.check_wire(sent.doc, version)
        d.check(ev.pipeline, version, "event")
        d.check(s.metadata, version, "server")
        m.count("pipelines")
        m.count("old peer" if version < (2, 2) else "peer 2.2" if version < (2, 3) else "newest peer")
        if d.nested:
            m.count("nested")
        if d.host:
            m.count("host")
        m.case((version >= (2, 2), version >= (2, 3), d.shape()))
        if i + 1 < rounds:
            if t.bool():  # the server's pipeline is used again, or another one takes its place
                s.start()
                s.complete() if t.bool() else s.stop()
                m.count("same server pipeline")
            else:
                s.start()
                s.complete()
                s.close()
                s = None
            pair.pump()
            m.count("started again")
            if t.bool():
                d.settings()
    return d


def gen_names(t, n=None):
    return [V.gen_text(t) if t.bool() else t.pick(["*", "Get-*", ""]) for _ in range(n or t.count(4))]


def run_metadata(t, m, pair, size=None):
    names = gen_names(t, size)
    one = t.bool(1, 3) and not size
    if one:
        names = [V.gen_text(t)]
    kw = {}
    ctype = 383
    if t.bool(3, 4):
        ctype = t.pick([1, 2, 4, 8, 16, 32, 64, 256, 3, 9, 127, 383, 1 | 8 | 256])
        if ctype == 383:
            ctype = T.CommandTypes.All.value
        kw["command_type"] = T.CommandTypes(ctype)
    else:
        ctype = T.CommandTypes.All.value
    ns = args = None
    item = R.Item(t, 8)
    if t.bool(2, 3):
        ns = gen_names(t, size)
        kw["namespace"] = list(ns)
    if t.bool(2, 3):
        args = N("seq", "list", [item.value() for _ in range(size or t.count(4))])
        kw["arguments"] = item.build(args)
    c = psrpcore.ClientGetCommandMetadata(pair.client, names[0] if one else list(names), **kw)
    c.start()
    s = psrpcore.ServerPipeline(pair.server, c.pipeline_id)
    ((_ln, sent, ev),) = pair.pump()
    m.log("metadata request %s type %d", len(names), ctype)
    need(sent.type == "GetCommandMetadata" and sent.pid == c.pipeline_id, "a metadata request was sent as %s for %s",
         sent.type, sent.pid)
    doc = sent.doc
    labels = R.label_map(doc)
    texts = N("seq", "list", [N("str", "str", x) for x in names])
    for name, n in (("Name", texts), ("Namespace", None if ns is None else N("seq", "list", [
            N("str", "str", x) for x in ns])), ("ArgumentList", args)):
        got = field(doc, name)
        bad = V.diff(R.part_canon(n or N("nil")), R.part(labels, got) if got is not None else R.NIL)
        need(bad is None, "%s of a metadata request was sent wrongly: %s", name, bad)
    got = field(doc, "CommandType")
    need(got == V.canon(N("enum", "CommandTypes", ctype)), "command type %d was sent as %s", ctype, got)
    for where, p in (("event", ev.pipeline), ("server", s.metadata)):
        V.same(texts, p.name)
        R.same_enum(p.command_type, "CommandTypes", ctype, "%s: command type" % where)
        for want, have, what in ((None if ns is None else N("seq", "list", [N("str", "str", x) for x in ns]),
                                  p.namespace, "namespace"), (args, p.arguments, "arguments")):
            if want is None:
                need(have is None, "%s: %s came from nowhere: %r", where, what, have)
            else:
                V.same(want, have)
    m.count("metadata requests")
    m.case(("metadata", len(names), one, ctype, ns is None, args and tuple((n.kind, n.cls) for n in args.v)))


def case(t, m, size=None):
    scaps = gen_caps(t)
    apart = t.draw(3)
    client = psrpcore.ClientRunspacePool(runspace_pool_id=gen_uuid(t), apartment_state=T.ApartmentState(apart))
    server = psrpcore.ServerRunspacePool()
    server.our_capability = caps(scaps)
    pair = Pair(client, server)
    client.open()
    pair.pump()
    for _ in range(t.int(1, 3) if not size else 4):
        if t.bool(1, 4):
            run_metadata(t, m, pair, size)
        else:
            run_definition(t, m, pair, scaps[0], apart, size)


def _large(size):
    def run(m):
        """Pipelines of very many statements, commands and parameters."""
        for seed in range(2):
            m.start_trace()
            case(Tape(seed=size * 3 + seed), m, size)
            m.count("large definitions")
    return run


def units(tier):
    sizes = (40, 120, 400) if tier == "quick" else (40, 120, 400, 1100)
    return [("large %d" % n, _large(n)) for n in sizes]
