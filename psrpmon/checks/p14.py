"""P14: host call parameters and results are conveyed faithfully."""

from .. import hostcalls as H
from .. import values as V
from ..mon import need
from ..records import ErrorSpec
from ..world import Pair, field, gen_uuid, has_field

import psrpcore
from psrpcore import types as T

PROP = "P14"
LEVEL = "exploration"
RULE = ("distinct (method, way of calling, way of answering, shape of the parameters and of the result) combinations "
        "whose call and answer were compared on the wire and in the event")
ASSUMPTIONS = ["buffer contents are rectangular with at least one cell",
               "DefaultValue and Attributes of a field description are not part of what the protocol conveys",
               "a colour the requestor is not given next to one that is given is sent as Black"]
CASES = {"quick": 6000, "thorough": 400000}
TIME = {"quick": 60, "thorough": 800}
REQUIRE = ["calls", "answers", "errors", "requestor", "responder", "raw", "typed", "nothing", "secure", "all methods",
           "out of order"]

NAMES = sorted(H.METHODS)


def exchange_key(pair):
    pair.client.exchange_key()
    pair.pump()


class Talk:
    def __init__(self, t, m, pair, places):
        self.t, self.m, self.pair, self.places = t, m, pair, places
        self.open = []  # (ci, method, place)
        self.secure = False

    def call(self, method):
        t, m = self.t, self.m
        place = t.draw(len(self.places))
        client, server, pid = self.places[place]
        code, kinds, res = H.METHODS[method]
        via = t.draw(3)
        made = H.request(t, method) if via == 0 else None
        if made:
            ps, fn = made
            way = "requestor"
            ci = fn(psrpcore.ServerHostRequestor(server))
        else:
            ps = [k(t) for k in kinds]
            forms = [t.pick(["raw", "typed"]) for _ in ps]
            way = "raw" if "raw" in forms else "typed"
            args = [getattr(p, f) for p, f in zip(ps, forms)]
            if args or t.bool():
                ci = server.host_call(H.HM[method], args)
            else:
                ci = server.host_call(H.HM[method])
        m.log("%s(%s) by %s at place %d", method, ", ".join(p.what for p in ps), way, place)
        got = self.pair.pump()
        need(len(got) == 1, "one call arrived as %d events", len(got))
        _ln, d, ev = got[0]
        need(d.type == ("PipelineHostCall" if pid else "RunspacePoolHostCall") and d.pid == pid, "the call was sent "
             "as %s for %s", d.type, d.pid)
        mi = field(d.doc, "mi")
        need((mi[2] if mi[0] == "Enum" else mi) == ("I32", code), "%s was sent as method %s", method, mi)
        mp = field(d.doc, "mp")
        items = mp[5][1] if mp[0] == "Obj" and mp[5] else ()
        need(len(items) == len(ps), "%s: %d parameters were sent as %d", method, len(ps), len(items))
        for p, x in zip(ps, items):
            p.wire(x)
        need(ev.method_identifier is H.HM[method], "%s was reported as %s", method, ev.method_identifier)
        for _again in range(2):  # reading an event twice gives the same
            have = list(ev.method_parameters)
            need(len(have) == len(ps), "%s: %d parameters were reported as %d", method, len(ps), len(have))
            for p, g in zip(ps, have):
                p.same(g)
        m.count("calls")
        m.count(way)
        m.count("parameters", len(ps))
        if any(isinstance(p, H.Secure) for p in ps):
            m.count("secure")
        m.case((method, way, pid is None, tuple(shape(p) for p in ps)))
        if res is None:
            need(ev.ci == -100, "void call %s carries id %s", method, ev.ci)
        else:
            need(ev.ci == ci, "call %s has id %s at the server and %s at the client", method, ci, ev.ci)
            self.open.append((ci, method, place))

    def answer(self):
        t, m = self.t, self.m
        i = t.draw(len(self.open))
        if i:
            m.count("out of order")
        ci, method, place = self.open.pop(i)
        client, server, pid = self.places[place]
        res = err = None
        k = t.draw(10)
        if k < 7:
            res = H.gen_result(t, method)
        elif k == 7:
            m.count("nothing")
        if k in (6, 8, 9):
            err = ErrorSpec(t)
        if k == 6 and t.bool():
            err = None
        if not self.secure and isinstance(res, (H.Secure, H.Credential)):
            exchange_key(self.pair)
            self.secure = True
        fn = H.respond(t, method, res) if res is not None and err is None and t.bool() else None
        # a pipeline's call may also be answered through the pool
        conn = client if t.bool(3, 4) or pid is None else self.pair.client
        if fn:
            way = "responder"
            fn(psrpcore.ClientHostResponder(conn), ci)
        else:
            way = t.pick(["raw", "typed"])
            conn.host_response(ci, getattr(res, way) if res is not None else None,
                               err.build() if err is not None else None)
        m.log("answer %s: %s by %s%s", method, res and res.what, way, " with error" if err else "")
        got = self.pair.pump()
        need(len(got) == 1, "one answer arrived as %d events", len(got))
        _ln, d, ev = got[0]
        need(d.type == ("PipelineHostResponse" if pid else "RunspacePoolHostResponse") and d.pid == pid,
             "the answer was sent as %s for %s", d.type, d.pid)
        mr, me = field(d.doc, "mr"), field(d.doc, "me")
        if res is None:
            need(not has_field(d.doc, "mr") or mr[0] == "Nil", "no answer was sent as %s", mr)
        elif isinstance(res, H.Any) and res.n.kind == "nil":
            need(not has_field(d.doc, "mr") or mr[0] == "Nil", "nothing as an answer was sent as %s", mr)
        else:
            need(mr is not None, "the result of %s was not sent", method)
            res.wire(mr)
        if err is None:
            need(not has_field(d.doc, "me") or me[0] == "Nil", "an error that was not given was sent: %s", me)
        else:
            need(me is not None, "the error was not sent")
            err.check_wire(me)
        need(ev.ci == ci and ev.method_identifier is H.HM[method], "the answer to %s (%d) was reported for %s (%s)",
             method, ci, ev.method_identifier, ev.ci)
        for _again in range(2):
            if res is None:
                need(ev.result is None, "no result was reported as %r", ev.result)
            else:
                res.same(ev.result)
            if err is None:
                need(ev.error is None, "an error came from nowhere: %r", ev.error)
        if err is not None:
            err.same(ev.error, "error of a host call")
            m.count("errors")
        m.count("answers")
        m.count(way)
        if isinstance(res, (H.Secure, H.Credential)):
            m.count("secure")
        m.case(("answer", method, way, pid is None, res and shape(res), err is None))


def shape(p):
    if isinstance(p, H.Any):
        return (p.n.kind, p.n.cls)
    v = getattr(p, "v", None)
    if isinstance(p, (H.Fields, H.Choices, H.Ints)):
        return (p.what, len(v))
    if isinstance(p, H.Cells):
        return (p.what, p.rows, p.cols)
    if isinstance(p, H.Enum):
        return (p.what, v)
    return (p.what, v is None)


def session(t, pipes):
    pair = Pair(psrpcore.ClientRunspacePool(runspace_pool_id=gen_uuid(t)), psrpcore.ServerRunspacePool())
    pair.client.open()
    pair.pump()
    places = [(pair.client, pair.server, None)]
    for _ in range(pipes):
        c = psrpcore.ClientPowerShell(pair.client)
        c.add_script("x")
        c.start()
        s = psrpcore.ServerPipeline(pair.server, c.pipeline_id)
        pair.pump()
        s.start()
        pair.pump()
        places.append((c, s, c.pipeline_id))
    return pair, places


def case(t, m):
    V.unseal = None
    pair, places = session(t, t.draw(3))
    talk = Talk(t, m, pair, places)
    for _ in range(t.int(2, 9)):
        if talk.open and t.bool(2, 5):
            talk.answer()
        else:
            talk.call(t.pick(NAMES))
    while talk.open:
        talk.answer()
    m.known.update(H.KNOWN)


def every(first, count):
    def run(m):
        """Each method, each way, deterministic in its choice of methods."""
        from ..tape import Tape

        for k, name in enumerate(NAMES):
            if k % count != first:
                continue
            for r in range(40):
                t = Tape(seed="%s/%d" % (name, r))
                pair, places = session(t, 1)
                talk = Talk(t, m, pair, places)
                talk.call(name)
                while talk.open:
                    talk.answer()
            m.count("all methods")
        m.known.update(H.KNOWN)
    return run


def units(tier):
    return [("methods %d" % i, every(i, 8)) for i in range(8)]
