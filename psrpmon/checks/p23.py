"""P23: descriptions and logging work for anything, change nothing and reveal no secret.

Everything is executed twice: once described at every step - repr, str and format of each value, event, pool, pipeline
and error, every public attribute read, the library's log switched on and every record formatted - and once left alone.
The two executions have to send the same bytes, report the same events and end in the same state.
"""

import logging
import uuid

from .. import hostcalls as H
from .. import keys
from .. import values as V
from ..hostvals import HostSpec
from ..mon import Violation, need
from ..records import ErrorSpec, ErrorValueSpec, EventSpec, InfoSpec, MessageSpec, ProgressSpec, ValueSpec
from ..session import World
from ..tape import Tape
from ..values import N
from ..world import Pair, field, fp, fp_event, gen_limit, gen_uuid
from .p07 import change, lib_value, outcome
from .p11 import MIX, SECRET, TRANSPORT, public, same_wires

import psrpcore
from psrpcore import types as T

PROP = "P23"
LEVEL = "exploration"
RULE = ("distinct values, messages and histories of which one execution was described and logged at every step and "
        "compared with another one that was left alone, all descriptions and log lines searched for the secrets")
ASSUMPTIONS = ["the descriptions of the user's own types and computed properties work",
               "nothing is nested deeper than the interpreter can describe",
               "a value's text that the user made out of a secret is the user's"]
CASES = {"quick": 3000, "thorough": 150000}
TIME = {"quick": 60, "thorough": 800}
REQUIRE = ["descriptions", "attributes", "log lines", "values", "messages", "histories", "steps compared", "cyclic",
           "searched", "secrets", "changed", "errors described", "empty objects", "host objects", "payloads compared"]

LOG = logging.getLogger("psrpcore")


def setup():
    keys.stock(16)


# ---- watching the log -----------------------------------------------------------------------------------------------


class Log(logging.Handler):
    """Formats every record at once; a record that cannot be formatted is a violation."""

    def __init__(self, m, keep=None):
        super().__init__(1)
        self.m, self.keep, self.bad = m, keep, None

    def emit(self, record):
        try:
            text = self.format(record)
        except Exception as e:
            self.bad = "the log line %r cannot be formatted: %s: %s" % (record.msg, type(e).__name__, e)
            return
        self.m.count("log lines")
        if self.keep is not None:
            self.keep.append(text)

    def __enter__(self):
        self.before = LOG.level, LOG.propagate, logging.root.manager.disable
        logging.disable(logging.NOTSET)
        LOG.setLevel(1)
        LOG.propagate = False
        LOG.addHandler(self)
        return self

    def __exit__(self, *exc):
        LOG.removeHandler(self)
        LOG.setLevel(self.before[0])
        LOG.propagate = self.before[1]
        logging.disable(self.before[2])
        if self.bad and exc[0] is None:
            raise Violation(self.bad)


# ---- describing -----------------------------------------------------------------------------------------------------

class Describer:
    def __init__(self, m, keep=None):
        self.m, self.keep = m, keep

    def __call__(self, o, what):
        """Every description of an object."""
        out = []
        for name, fn in (("repr", repr), ("str", str), ("format", format), ("%s", lambda x: "%s" % (x,))):
            try:
                text = fn(o)
            except Exception as e:
                raise Violation("%s() of %s fails: %s: %s" % (name, what, type(e).__name__, str(e)[:200]))
            need(isinstance(text, str), "%s() of %s is a %s", name, what, type(text).__name__)
            out.append(text)
            self.m.count("descriptions")
        if isinstance(o, T.PSObject):
            vars(o), dir(o)
        try:
            again = repr(o)
        except Exception as e:
            raise Violation("the second repr() of %s fails: %s" % (what, e))
        need(again == out[0], "%s is described as %a and then as %a", what, out[0][:300], again[:300])
        if self.keep is not None:
            self.keep.extend(out)
        return out

    def parts(self, o, what, depth=0):
        """An object and all its public attributes that are not methods."""
        self(o, what)
        if depth > 2:
            return
        names = [n for n in dir(type(o)) if not n.startswith(("_", "PS")) and isinstance(getattr(type(o), n, None), property)]
        names += [n for n in getattr(o, "__dict__", {}) if isinstance(n, str) and not n.startswith("_")]
        for n in names:
            try:
                v = getattr(o, n)
            except Exception as e:
                raise Violation("%s of %s cannot be read: %s: %s" % (n, what, type(e).__name__, str(e)[:200]))
            self.m.count("attributes")
            if n == "runspace_pool":
                continue
            if type(v).__module__.startswith("psrpcore") and not isinstance(v, (int, str)):
                self.parts(v, what + "." + n, depth + 1)
            else:
                self(v, what + "." + n)

    def pool(self, p, what):
        self.parts(p, what)
        for k, x in list(p.pipeline_table.items()):
            self.parts(x, what + " pipeline")
            for c in getattr(x.metadata, "commands", None) or []:
                self.parts(c, what + " command")

    def error(self, e):
        self(e, "the error " + type(e).__name__)
        self.m.count("errors described")


# ---- single values --------------------------------------------------------------------------------------------------


class NoCipher:
    """Values that hold no secure string need no cipher."""

    def encrypt(self, value):
        raise psrpcore.MissingCipherError()

    decrypt = encrypt

    def register_key(self, key):
        pass


def as_text(o):
    return T.serialize_clixml([o], NoCipher())


def from_text(x):
    got = T.deserialize_clixml(x, NoCipher())
    need(len(got) == 1, "one value came back as %d", len(got))
    return got[0]


def is_cyclic(n):
    open_, done = set(), set()

    def go(x):
        if not isinstance(x, N):
            return False
        if id(x) in open_:
            return True
        if id(x) in done:
            return False
        open_.add(id(x))
        subs = [v for _, v in (x.ext or [])] + [v for _, v in (x.adp or [])]
        if x.kind == "map":
            subs += [y for kv in x.v for y in kv]
        elif isinstance(x.v, list):
            subs += [y for y in x.v if isinstance(y, N)]
        elif isinstance(x.v, dict):
            subs += [y for y in x.v.values() if isinstance(y, N)]
        r = any(go(y) for y in subs)
        open_.discard(id(x))
        done.add(id(x))
        return r

    return go(n)


def value_case(t, m):
    n = V.Gen(t, t.pick([2, 8, 25]), cycles=t.bool()).value()
    one_value(n, m)
    m.case(("value", V.show(n)))


def changed_case(t, m):
    """Two equal objects, one of them described, are changed in the same way: by their properties, names and text."""
    seeds = [t.draw(1 << 40) for _ in range(4)]
    own, attr, relayed, budget = t.bool(2, 3), t.bool(), t.bool(1, 3), t.pick([4, 12])
    if own:
        o = lib_value(Tape(seed=seeds[0]))[1]

    def make():
        b = Tape(seed=seeds[0])
        o = lib_value(b)[1] if own else V.build(V.Gen(b, budget).value())
        if relayed:
            o = from_text(as_text(o))
        if attr and isinstance(o, T.PSObject) and not isinstance(o, (T.PSEnumBase, T.PSFlagBase)):
            outcome(lambda: setattr(o, "own_attribute", 1))
        return o

    a, b = make(), make()
    d = Describer(m)
    with Log(m):
        tree(d, a)
    for i in range(t.int(1, 2)):
        how = assign if t.bool() else change
        for o in (a, b):
            how(Tape(seed=seeds[i + 1]), o, m)
    try:
        g = fp(b), attributes(b)
    except Exception:
        return  # it can not be described any more
    f = fp(a), attributes(a)
    need(f == g, "an object that was described before it was changed is %s, another one %s", f, g)
    try:
        y = as_text(b)
    except Exception:
        return
    x = as_text(a)
    need(x == y, "an object that was described before it was changed is serialized as %a, another one as %a", x, y)
    m.count("changed")
    m.case(("changed", x[:2000]))


def names(o):
    if not isinstance(o, T.PSObject) or isinstance(o, (T.PSEnumBase, T.PSFlagBase)):
        return []
    return [p.name for p in list(o.PSObject.adapted_properties) + list(o.PSObject.extended_properties)]


def attributes(o):
    """What its properties are as attributes."""
    return [(n, outcome(lambda: fp(getattr(o, n)))) for n in names(o)]


def assign(t, o, m):
    for n in names(o):
        if t.bool():
            outcome(lambda: setattr(o, n, t.pick([5, "other", True, None, [1], "x"])))


def tree(d, o, depth=0):
    """Describe an object and what its properties hold."""
    d(o, "a value")
    if isinstance(o, T.PSObject) and depth < 4:
        for p in list(o.PSObject.adapted_properties) + list(o.PSObject.extended_properties):
            tree(d, p.get_value(o), depth + 1)


def one_value(n, m):
    a, b = V.build(n), V.build(n)
    d = Describer(m)
    with Log(m):
        d(a, "a %s value" % n.kind)
        if isinstance(a, T.PSObject):
            d(a.PSObject.to_string, "the text of a value")
        x = as_text(a)
        d(a, "a serialized value")
        x2 = as_text(a)
    y = as_text(b)
    need(x == y, "a value that was described is serialized as %a instead of %a", x[:600], y[:600])
    need(x2 == y, "a value that was described again is serialized as %a instead of %a", x2[:600], y[:600])
    with Log(m):
        g = from_text(x)
        d(g, "a deserialized value")
        if isinstance(g, T.PSObject):
            for p in list(g.PSObject.adapted_properties) + list(g.PSObject.extended_properties):
                d(p, "a property")
                d(p.get_value(g), "a property value")
    h = from_text(x)
    need(fp(g) == fp(h), "a received value is %s after it was described instead of %s", fp(g), fp(h))
    u, v = as_text(g), as_text(h)
    need(u == v, "a received value that was described is relayed as %a instead of %a", u[:600], v[:600])
    m.count("values")
    if is_cyclic(n):
        m.count("cyclic")


# ---- single messages ------------------------------------------------------------------------------------------------


def two_pairs(t, ids):
    out = []
    for _ in range(2):
        c = psrpcore.ClientRunspacePool(runspace_pool_id=ids, min_runspaces=1, max_runspaces=2)
        p = Pair(c, psrpcore.ServerRunspacePool())
        c.open()
        p.pump()
        pid = uuid.UUID(int=77)
        q = psrpcore.ClientPowerShell(c, pipeline_id=pid)
        q.add_script("x")
        sp = psrpcore.ServerPipeline(p.server, pid)
        q.start()
        p.pump()
        sp.start()
        p.pump()
        out.append((p, q, sp))
    return out


def message(t, ids):
    """(what, function that sends it from (pair, client pipeline, server pipeline), what it is made of)"""
    k = t.draw(9)
    if k == 0:
        s = ErrorSpec(t)
    elif k == 1:
        s = MessageSpec(t, t.pick(["debug", "verbose", "warning"]))
    elif k == 2:
        s = ProgressSpec(t)
    elif k == 3:
        s = InfoSpec(t)
        if s.time is None if hasattr(s, "time") else False:
            s = ErrorSpec(t)
    elif k == 4:
        s = EventSpec(t, ids)
        return "an event", lambda x: s.send(x[0].server)
    elif k == 5:
        s = ValueSpec(t, t.pick(["output", "input"]))
        return "a value", lambda x: s.write(x[1] if s.kind == "input" else x[2])
    elif k == 6:
        s = ErrorValueSpec(t, "output")
    elif k == 7:
        e = ErrorSpec(t)
        return "a failure", lambda x: x[2].stop() if False else x[0].server.set_broken(e.build())
    else:
        method = t.pick(sorted(H.METHODS))
        code, kinds, res = H.METHODS[method]
        ps = [q(t) for q in kinds]
        if any(isinstance(p, (H.Secure, H.Credential)) for p in ps):
            ps = None
        r = H.gen_result(t, method) if res is not None else None
        if isinstance(r, (H.Secure, H.Credential)):
            r = None
        err = ErrorSpec(t) if t.bool(1, 3) else None
        if ps is not None:
            def send(x):
                return (x[2] if t2 else x[0].server).host_call(H.HM[method], [p.raw for p in ps])

            t2 = t.bool()
            return ("call", res is not None, t2, r, err), send
        s = ErrorSpec(t)
    return type(s).__name__, lambda x: s.write(x[2])


def message_case(t, m):
    ids = gen_uuid(t)
    pairs = two_pairs(t, ids)
    d = Describer(m)
    outs = []
    what, send = message(t, ids)
    for i, x in enumerate(pairs):
        got = []

        def on(ln, s, ev):
            got.append((s.type, s.data, fp_event(ev)) if i else None)
            if not i:
                before = ev
                d.parts(ev, "the event " + type(ev).__name__)
                got[-1] = (s.type, s.data, fp_event(before))

        def go():
            try:
                ci = send(x)
            except (OverflowError, ValueError) as e:
                if not i:
                    d.error(e)
                return "refused"
            if not i:
                d.pool(x[0].server, "the server pool")
                d.pool(x[0].client, "the client pool")
            x[0].pump(on)
            if isinstance(what, tuple) and what[1] and ci is not None:
                who = x[1] if what[2] else x[0].client
                who.host_response(ci, what[3].raw if what[3] is not None else None,
                                  what[4].build() if what[4] is not None else None)
                x[0].pump(on)

        if i:
            res = go()
        else:
            with Log(m):
                res = go()
        outs.append((res, got))
    a, b = outs
    if isinstance(what, str) and what in ("InfoSpec", "an event"):
        a, b = strip_time(a), strip_time(b)
    need(a == b, "%s: described at every step it went as %a, left alone as %a", what, a, b)
    m.count("messages")
    m.case(("message", repr(a)[:2000]))


def strip_time(x):
    """Without the content of messages that carry the current time."""
    return x[0], [g[0] for g in x[1]]


# ---- histories ------------------------------------------------------------------------------------------------------


def history_case(t, m):
    ids = gen_uuid(t)
    lim = (t.int(1, 3), t.int(3, 6))
    ver = (t.pick([(2, 3), (2, 3), (2, 2)]), t.pick([(2, 3), (2, 3), (2, 2)]))
    log = Log(m)
    with log:
        a = World(Tape(data=[]), m, name="described ", ids=ids, limits=lim, versions=ver)
    b = World(Tape(data=[]), m, name="twin ", ids=ids, limits=lim, versions=ver)
    keyed = t.bool(1, 6)
    d = Describer(m)
    wrapped = [0]

    def refusing(fn):
        def inner():
            try:
                return fn()
            except Exception as e:
                d.error(e)
                wrapped[0] += 1
                raise
        return inner

    plain = a.refuse
    a.refuse = lambda what, fn, *r, **kw: plain(what, refusing(fn), *r, **kw)

    def both(op, *args):
        with log:
            out = a.do(op, *args)
            if op == "poll" and a.last_event is not None:
                d.parts(a.last_event, "the event " + type(a.last_event).__name__)
            if t.bool(1, 6):
                d.pool(a.c.real, "the client pool")
                d.pool(a.s.real, "the server pool")
            if op == "send" and out is None:
                d(a.links()[args[0]].wire[-1][1], "a payload")
        res = b.do(op, *args)
        m.count("steps compared")
        need(res == out, "%s%s: %s when described, %s otherwise", op, args, out, res)
        if op == "poll" and not (a.last_event is not None and a.last_event.message_type.name in SECRET):
            need(fp_event(a.last_event) == fp_event(b.last_event), "event %s instead of %s",
                 fp_event(a.last_event), fp_event(b.last_event))
        if op == "send" and out is None:
            same_wires(a, b, m, keyed)
        return out

    def settle():
        for _ in range(200):
            busy = False
            for i in (0, 1):
                while both("send", i, None) is None:
                    busy = True
                while both("deliver", i, 1) is None:
                    busy = True
                while both("poll", i) != "idle":
                    busy = True
            if not busy:
                return

    if t.bool(9, 10):
        both("c_open")
        settle()
    pairs = [(w, op) for op, w in MIX + ([("c_key", 3), ("s_key", 2)] if keyed else [])]
    for _ in range(t.pick([10, 25, 50])):
        if t.bool(1, 3):
            k = t.weighted([(w, op) for op, w in TRANSPORT])
            i = t.draw(2)
            both(*{"send": ("send", i, gen_limit(t, [60, 200, 450])), "poll": ("poll", i)}.get(
                k, ("deliver", i, t.pick([1, 1, 2, 30]))))
        else:
            op = t.weighted(pairs)
            both(op, *getattr(a, "gen_" + op)(t))
        if t.bool(1, 12):
            settle()
    settle()
    need(public(a) == public(b), "public state differs after descriptions: %s / %s", public(a), public(b))
    m.count("histories")
    m.case(tuple(a.history))


# ---- secrets --------------------------------------------------------------------------------------------------------

ALNUM = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def secret_case(t, m):
    keep = []
    d = Describer(m, keep)
    marks = []

    def secret(t):
        mark = "".join(t.pick(ALNUM) for _ in range(14))
        marks.append(mark)
        m.count("secrets")
        return mark if t.bool(3, 4) else V.gen_text(t) + mark + V.gen_text(t)

    found = []

    def on(ln, s, ev):
        if s.type == "PublicKey":
            found[:] = [keys.private_of(field(s.doc, "PublicKey")[1].decode("utf-16-be"))]
        elif s.type == "EncryptedSessionKey" and found:
            found.append(keys.session_key(found[0], field(s.doc, "EncryptedSessionKey")[1].decode("utf-16-be")))
        d.parts(ev, "the event " + type(ev).__name__)

    with Log(m, keep):
        c = psrpcore.ClientRunspacePool()
        p = Pair(c, psrpcore.ServerRunspacePool())
        c.open()
        p.pump(on)
        pid = gen_uuid(t)
        q = psrpcore.ClientPowerShell(c, pipeline_id=pid)
        sp = psrpcore.ServerPipeline(p.server, pid)

        def value(build=True):
            if t.bool(1, 3):  # the secret itself, or a credential
                o = T.PSSecureString(secret(t))
                if t.bool(1, 3):
                    o = T.PSCredential(UserName="user", Password=o)
                d.parts(o, "a secret")
                return o
            g = V.Gen(t, t.int(1, 8), secure=secret)
            n = g.value(1)
            n = N("seq", "PSList", [n, N("sec", v=secret(t))]) if t.bool() else N("obj", "PSCustomObject", ext=[
                ("a", N("sec", v=secret(t))), ("b", n)])
            o = V.build(n)
            d.parts(o, "a value with a secret")
            return o

        early = t.bool(1, 4)
        if early:  # refused before there is a key
            o = value()
            try:
                p.server.send_event(1, "x", sender=o)
                if o is not None:
                    m.count("server side first")
            except psrpcore.MissingCipherError as e:
                d.error(e)
            try:
                sp.prepare_message(o, message_type=None)
            except Exception as e:
                d.error(e)
            try:
                c.prepare_message(o, psrpcore.types.PSRPMessageType.PipelineInput, pid)
                need(False, "a secure string was queued without a key")
            except psrpcore.MissingCipherError as e:
                d.error(e)
            d(o, "a refused value")
        c.exchange_key() if t.bool() else p.server.request_key()
        p.pump(on)
        q.add_command("x").add_argument(value()).add_parameter("p", value())
        d.pool(c, "the client pool")
        q.start()
        p.pump(on)
        d.pool(p.server, "the server pool")
        sp.start()
        for _ in range(t.int(1, 4)):
            k = t.draw(8)
            if k == 5:  # (what a host is asked need not fit the method)
                (sp if t.bool() else p.server).host_call(t.pick([H.HM.WriteLine2, H.HM.WriteErrorLine, H.HM.Write1,
                                                                 H.HM.SetWindowTitle]), [value() for _ in range(t.int(1, 2))])
            elif k == 6:
                ci = sp.host_call(t.pick([H.HM.ReadLineAsSecureString, H.HM.PromptForCredential1]), [value()])
                p.pump(on)
                o = value()
                if t.bool():
                    q.host_response(ci, o)
                else:
                    q.host_response(ci, error_record=T.ErrorRecord(
                        Exception=T.NETException(Message="m"), CategoryInfo=T.ErrorCategoryInfo(), TargetObject=o))
            elif k == 7:
                sp.write_information(value(), "src")
            elif k == 0:
                q.send(value())
            elif k == 1:
                sp.write_output(value())
            elif k == 2:
                sp.write_error(T.NETException(Message="m"), target_object=value())
            elif k == 3:
                ci = p.server.host_call(H.HM.ReadLineAsSecureString, [])
                p.pump(on)
                o = T.PSSecureString(secret(t))
                if t.bool():
                    o = T.PSCredential(UserName="user", Password=o)
                d.parts(o, "an answer with a secret")
                c.host_response(ci, o)
            else:
                p.server.send_event(1, "x", sender=value(), message_data=value())
            d.pool(c, "the client pool")
            d.pool(p.server, "the server pool")
            p.pump(on)
        if t.bool(1, 3):
            gm = psrpcore.ClientGetCommandMetadata(c, "x", arguments=[value()])
            sm = psrpcore.ServerPipeline(p.server, gm.pipeline_id)
            gm.start()
            p.pump(on)
            d.parts(sm, "a metadata pipeline")
        for x in (c, p.server):
            d.pool(x, "a pool")
    pats = []
    for mark in marks:
        for enc in ("ascii", "utf-16-le", "utf-16-be"):
            pats += [(x, "the text of a secure string") for x in keys.needles(mark.encode(enc))]
    need(len(found) == 2, "no session key was seen")
    for k in (found[1], found[1][::-1]):
        pats += [(x, "the session key") for x in keys.needles(k)] + [(ascii(k)[2:-1].encode(), "the session key")]
    num = found[0].private_numbers()
    for v in (num.d, num.p, num.q):
        pats += [(str(v).encode(), "the private key"), (b"%x" % v, "the private key")]
    all_ = "\n".join(keep).encode("utf-8", "surrogatepass")
    for pat, what in pats:
        m.count("searched")
        if pat in all_:
            line = next((x for x in keep if pat in x.encode("utf-8", "surrogatepass")), "?")
            raise Violation("%s shows up in a description or log line: %a" % (what, line[:400]))
    m.case(("secret", len(keep), len(marks), early, c.runspace_pool_id.int))


def case(t, m):
    k = t.draw(10)
    if k < 4:
        (changed_case if t.bool(1, 3) else value_case)(t, m)
    elif k < 7:
        message_case(t, m)
    elif k < 9:
        history_case(t, m)
    else:
        secret_case(t, m)


# ---- the deterministic part -----------------------------------------------------------------------------------------


def cyclic_values():
    def self_obj():
        o = T.PSCustomObject(a=1, me=None)
        o.me = o
        return o

    def two():
        a, b = T.PSCustomObject(n="a", other=None), T.PSCustomObject(n="b", other=None)
        a.other, b.other = b, a
        return a

    def in_list():
        o = T.PSCustomObject(content=None, record=None)
        o.content = T.PSList([1, o])
        return o

    def in_dict():
        o = T.PSCustomObject(content=None, record=None)
        o.content = T.PSDict({"k": o})
        return o

    def in_stack():
        o = T.PSCustomObject(content=None, record=None)
        o.content = T.PSStack([o, o])
        return o

    def the_list():
        o = T.PSCustomObject(content=None, record=None)
        x = T.PSList([o])
        o.content = x
        return x

    def the_dict():
        o = T.PSCustomObject(content=None, record=None)
        x = T.PSDict({"k": o})
        o.content = x
        return x

    def on_prim():
        s = T.PSString("text")
        o = T.PSCustomObject(s=s)
        s.PSObject.extended_properties.append(T.PSNoteProperty("owner", o))
        return o

    def exception():
        e = T.NETException(Message="m")
        T.add_note_property(e, "InnerError", e)
        return e

    def record():
        o = T.PSCustomObject(content=None, record=None)
        r = T.ErrorRecord(Exception=T.NETException(Message="m"), CategoryInfo=T.ErrorCategoryInfo(), TargetObject=o)
        o.record = r
        return r

    return [self_obj, two, in_list, in_dict, in_stack, the_list, the_dict, on_prim, exception, record]


def cyclic(make):
    def unit(m):
        a, b = make(), make()
        d = Describer(m)
        with Log(m):
            d(a, make.__name__)
            x = as_text(a)
        need(x == as_text(b), "%s: described it is serialized as %a", make.__name__, x[:500])
        g = from_text(x)
        d(g, make.__name__ + " that came back")
        # (an error record that contains itself does not come back as one)
        need(make.__name__ == "record" or as_text(g) == as_text(from_text(x)), "%s: relayed differently",
             make.__name__)
        # in an event, in a pipeline, and in host data
        c = psrpcore.ClientRunspacePool(application_arguments={"x": make()})
        p = Pair(c, psrpcore.ServerRunspacePool({"y": make()}))
        with Log(m):
            d.pool(c, "the client pool")
            c.open()
            for _ln, _s, ev in p.pump():
                d.parts(ev, "event " + type(ev).__name__)
            q = psrpcore.ClientPowerShell(c, pipeline_id=uuid.UUID(int=9))
            q.add_command("x").add_argument(make()).add_parameter("p", make())
            sp = psrpcore.ServerPipeline(p.server, uuid.UUID(int=9))
            d.pool(c, "the client pool")
            q.start()
            sp_ = []
            for _ln, _s, ev in p.pump():
                d.parts(ev, "event " + type(ev).__name__)
            d.pool(p.server, "the server pool")
            sp.start()
            q.send(make())
            sp.write_output(make())
            sp.write_error(T.NETException(Message="m"), target_object=make())
            sp.write_information(make(), "src")
            p.server.send_event(1, "x", sender=make(), source_args=[make()])
            ci = sp.host_call(H.HM.ReadLine, [make()])
            for _ln, _s, ev in p.pump():
                d.parts(ev, "event " + type(ev).__name__)
                sp_.append(ev)
            q.host_response(ci, make())
            for _ln, _s, ev in p.pump():
                d.parts(ev, "event " + type(ev).__name__)
            d.pool(c, "the client pool")
            d.pool(p.server, "the server pool")
        m.count("cyclic")
        m.case(("cyclic", make.__name__))

    return unit


def empty_objects(m):
    """The library's own types with as little content as they can be made of."""
    d = Describer(m)
    for name in sorted(dir(T)):
        cls = getattr(T, name)
        if not isinstance(cls, type) or not issubclass(cls, T.PSObject):
            continue
        o = None
        plain = cls.__module__.endswith(("_primitive", "_enum", "_collection"))
        for args in ((), (1,), (1, 2), ("a",), (b"a",)) if plain else ((),):
            try:
                o = cls(*args)
                break
            except Exception:
                continue
        if o is None or name in ("PSCryptoProvider",):
            continue
        d(o, "an empty " + name)
        d(o.PSObject, "the meta of " + name)
        m.count("empty objects")
        m.case(("empty", name))
    for cls, kw in ((T.ErrorRecord, {"Exception": T.NETException(Message=None), "CategoryInfo": T.ErrorCategoryInfo()}),
                    (T.ErrorRecord, {"Exception": T.NETException(Message=""), "CategoryInfo": T.ErrorCategoryInfo()}),
                    (T.ErrorRecord, {"Exception": T.NETException(Message=None), "CategoryInfo": T.ErrorCategoryInfo(),
                                     "ErrorDetails": T.ErrorDetails()}),
                    (T.ErrorRecord, {"Exception": T.NETException(Message=None), "CategoryInfo": T.ErrorCategoryInfo(),
                                     "ErrorDetails": T.ErrorDetails(Message="", RecommendedAction="x")})):
        a, b = cls(**kw), cls(**kw)
        d(a, "an error record without a message")
        need(as_text(a) == as_text(b), "described, an error record is serialized differently")
        g = from_text(as_text(a))
        d(g, "an error record without a message that came back")
        m.count("empty objects")


def enums(m):
    d = Describer(m)
    for name in sorted(dir(T)):
        cls = getattr(T, name)
        if isinstance(cls, type) and issubclass(cls, int) and hasattr(cls, "__members__"):
            for x in cls:
                d(x, "%s.%s" % (name, x.name))
                m.case(("enum", name, x.name))
            if issubclass(cls, __import__("enum").Flag):
                members = list(cls)
                for x in members:
                    for y in members:
                        d(x | y, name + " combination")
                if members:
                    d(cls(0), name + " zero")


def errors(m):
    d = Describer(m)
    cur = list(T.RunspacePoolState)
    for a in cur:
        d.error(psrpcore.InvalidRunspacePoolState("do it", a, cur))
        d.error(psrpcore.InvalidRunspacePoolState("do it", a, []))
    for a in T.PSInvocationState:
        d.error(psrpcore.InvalidPipelineState("do it", a, list(T.PSInvocationState)))
    d.error(psrpcore.InvalidProtocolVersion("do it", T.PSVersion("2.0"), T.PSVersion("2.3.4.5")))
    d.error(psrpcore.MissingCipherError())
    d.error(psrpcore.PSRPCoreError("text"))
    m.case("errors")


def hosts(t, m):
    d = Describer(m)
    spec = HostSpec(t)
    a, b = spec.build(), spec.build()
    d.parts(a, "host information")
    x, y = (psrpcore.ClientRunspacePool(runspace_pool_id=uuid.UUID(int=1), host=h) for h in (a, b))
    for p in (x, y):
        p.open()
    need(x.data_to_send().data == y.data_to_send().data, "host information that was described is sent differently")
    m.count("host objects")


def texts(m):
    """Descriptions follow from the content: they do not depend on a previous description, and tell values apart."""
    d = Describer(m)
    pid = uuid.UUID(int=5)
    c = psrpcore.ClientRunspacePool()
    q = psrpcore.ClientPowerShell(c, pipeline_id=pid)
    one = d(q.metadata, "an empty pipeline")[0]
    q.add_script("Get-Unusual-Thing").add_parameter("Some-Name", "some value")
    two = d(q.metadata, "a pipeline")[0]
    need(one != two and "Get-Unusual-Thing" in two, "a pipeline is described as %s", two)
    o = T.PSCustomObject(First="x1", Second=2)
    need(all(x in d(o, "an object")[0] for x in ("First", "x1", "Second", "2")), "an object is described as %s",
         repr(o))
    o.First = "x2"
    need("x2" in d(o, "an object")[0], "a changed object is described as %s", repr(o))
    m.case("texts")


def units(tier):
    out = [("cyclic " + f.__name__, cyclic(f)) for f in cyclic_values()]
    out += [("empty", empty_objects), ("enums", enums), ("errors", errors), ("texts", texts)]
    for i in range(30):
        out.append(("host %d" % i, lambda m, i=i: hosts(Tape(seed=i), m)))
    for i in range(12):
        out.append(("secret %d" % i, lambda m, i=i: secret_case(Tape(seed=i), m)))
    return out
