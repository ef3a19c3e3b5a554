"""P17: secure strings are never sent in clear and decrypt to the same text."""

import random
from collections import deque

from .. import hostcalls as H
from .. import keys, records as R, values as V
from ..mon import need
from ..values import N
from ..wire import u16
from ..world import Pair, cut, field, gen_limit, gen_uuid

import psrpcore
from psrpcore import types as T

PROP = "P17"
LEVEL = "exploration"
RULE = ("distinct (channel, direction, shape of the value, phase of the key exchange, relayed or not) combinations in "
        "which a secure string was decrypted independently from the wire and compared at the receiver, every "
        "transmitted message having been scanned for the secrets and keys")
ASSUMPTIONS = ["RSA and AES of the cryptography package are trusted",
               "the server owns the key from the start and may send secure strings before the exchange; the client can "
               "read them once it has the key"]
CASES = {"quick": 5000, "thorough": 200000}
TIME = {"quick": 60, "thorough": 800}
REQUIRE = ["exchange by client", "exchange by server", "exchange by both", "repeated exchange", "refused", "output",
           "input", "error", "information", "event", "answer", "parameter", "relayed", "shared", "before exchange",
           "during exchange", "empty", "block", "keys", "opened later", "private data"]
ALNUM = "abcdefghijkmnpqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789"
SEEN_KEYS = set()


def setup():
    keys.stock(24)


class Side:
    """One session of a case with everything the monitor knows about it."""

    def __init__(self, t, m, name, rpid):
        self.t, self.m, self.name = t, m, name
        random.seed(7)  # a key that depends on anything but real randomness repeats itself
        self.pair = Pair(psrpcore.ClientRunspacePool(runspace_pool_id=rpid), psrpcore.ServerRunspacePool())
        self.keys = []
        self.private = None
        self.owed = {self.pair.c2s: deque(), self.pair.s2c: deque()}
        self.later = []  # what only the key can decide
        self.phase = "none"  # none, begun (a key message is under way), done
        self.pipe = None
        self.calls = []
        self.received = []  # (node, object, at client)
        self.secrets = []
        self.scanned = 0

    # -- wire

    def scan(self, d):
        self.scanned += 1
        for what, pats in self.secrets + [("session key", k) for k in self.key_needles()]:
            for p in pats:
                need(p not in d.data, "%s: %s was sent with the %s in clear", self.name, d.type, what)

    def key_needles(self):
        return [keys.needles(k) + keys.needles(k[::-1]) for k in self.keys]

    def watch(self, ln, d):
        """Key messages on the wire."""
        if d.type == "PublicKey":
            text = field(d.doc, "PublicKey")
            need(text and text[0] == "S", "the public key was sent as %s", text)
            self.private = keys.private_of(text[1].decode("utf-16-be"))
            need(self.private is not None, "%s: the public key sent belongs to no key pair made here", self.name)
        elif d.type == "EncryptedSessionKey":
            text = field(d.doc, "EncryptedSessionKey")
            need(text and text[0] == "S", "the session key was sent as %s", text)
            need(self.private is not None, "a session key was sent that nobody asked for")
            k = keys.session_key(self.private, text[1].decode("utf-16-be"))
            need(len(k) == 32 and len(set(k)) > 8, "%s: weak session key of %d bytes", self.name, len(k))
            if k not in self.keys:
                need(k not in SEEN_KEYS, "%s: the session key was used in another session", self.name)
                SEEN_KEYS.add(k)
                self.keys.append(k)
                self.m.count("keys")

    def unseal(self, text):
        bad = None
        for k in reversed(self.keys):
            try:
                return keys.open_sealed(k, text)
            except ValueError as e:
                bad = e
        need(False, "%s: a secure string was not encrypted with the session key (%s)", self.name, bad)

    def arrive(self, ln, d, ev):
        self.scan(d)
        self.watch(ln, d)
        if d.type in ("PublicKey", "EncryptedSessionKey", "PublicKeyRequest", "PipelineState", "CreatePipeline") \
                and not (self.owed[ln] and self.owed[ln][0][0] == d.type):
            if d.type == "EncryptedSessionKey":
                self.phase = "done"
                todo, self.later = self.later, []
                for fn in todo:
                    fn()
                    self.m.count("opened later")
            return
        need(self.owed[ln], "%s: %s arrived although nothing was sent", self.name, d.type)
        typ, fn = self.owed[ln].popleft()
        need(typ == d.type, "%s: %s arrived instead of %s", self.name, d.type, typ)

        def decide():
            V.unseal = self.unseal
            try:
                fn(d, ev)
            finally:
                V.unseal = None

        if self.phase == "done":
            decide()
        else:
            # the client cannot read it yet
            decode_check(ev)
            self.later.append(decide)

    def move(self, all_=True):
        t = self.t
        if all_:
            self.pair.pump(self.arrive)
            return
        for ln in t.shuffle(self.pair.links()):
            if t.bool(2, 3):
                ln.send(gen_limit(t) if t.bool() else None, (lambda b: cut(t, b)) if t.bool() else None)
            for _ in range(t.int(0, 6)):
                if not ln.deliver():
                    break
            while t.bool(3, 4):
                d, ev = ln.poll()
                if ev is None:
                    break
                self.arrive(ln, d, ev)

    # -- workload

    def secret(self, t):
        k = t.draw(8)
        if k == 0:
            self.m.count("empty")
            return ""
        if k <= 2:
            return V.gen_text(t)
        if k == 3:  # around the block size
            self.m.count("block")
            return "".join(t.pick(ALNUM) for _ in range(t.pick([7, 8, 9, 15, 16, 17, 24, 127, 128])))
        mark = "".join(t.pick(ALNUM) for _ in range(14))
        pats = []
        for enc in ("ascii", "utf-16-le", "utf-16-be"):
            pats += keys.needles(mark.encode(enc))
        self.secrets.append(("text of a secure string", pats))
        return mark if k < 6 else V.gen_text(t) + mark + V.gen_text(t)

    def gen(self):
        g = V.Gen(self.t, self.t.int(1, 10), secure=self.secret)
        n = g.value(1)
        if not has_secret(n):
            n = N("sec", v=self.secret(self.t)) if self.t.bool() else N("seq", "PSList", [n, N("sec", v=self.secret(
                self.t))])
        return n


def decode_check(ev):
    """An event that holds unreadable secure strings can still be looked at."""
    need(ev.message_type is not None, "no type")
    repr(ev.pipeline_id)


def has_secret(n, seen=None):
    seen = seen if seen is not None else set()
    if id(n) in seen:
        return False
    seen.add(id(n))
    if n.kind == "sec":
        return True
    subs = [x for _k, x in n.adp + n.ext]
    if n.kind == "seq":
        subs += n.v
    elif n.kind == "map":
        subs += [x for kv in n.v for x in kv]
    return any(has_secret(x, seen) for x in subs)


def find_secure(node, got):
    """A plain secure string inside a received value and its node."""
    if node.kind == "sec" and not node.ext:
        return node, got
    if node.kind == "seq" and isinstance(got, list):
        for a, b in zip(node.v, got):
            if a.kind == "sec" and not a.ext:
                return a, b
    return None


def shape(n):
    return (n.kind, n.cls, tuple(x.kind for x in n.v) if n.kind == "seq" else len(n.ext))


def write(side, t, m, node, obj, phase, relayed):
    """Send a value that holds a secure string over a drawn channel."""
    pair = side.pair
    c, s = side.pipe
    pid = c.pipeline_id
    chan = t.pick(["output", "input", "input", "error", "information", "event", "parameter", "answer"])
    if chan == "answer" and not side.calls:
        chan = "input"
    from_client = chan in ("input", "parameter", "answer")
    box = {}

    def check(pick, wire):
        def fn(d, ev):
            got = pick(ev)
            w = wire(d.doc)
            labels = R.label_map(d.doc)
            bad = V.diff(R.part_canon(node), R.part(labels, w))
            need(bad is None, "%s: the value was sent wrongly: %s (%s)", side.name, bad, V.show(node))
            V.same(node, got)
            found = find_secure(node, got)
            if found:
                side.received.append(found + (not from_client,))
            m.count(chan)
            if relayed:
                m.count("relayed")
            m.case((chan, phase, relayed, shape(node)))
        return fn

    fn = None
    if chan == "output":
        s.write_output(obj)
        fn = ("PipelineOutput", check(lambda e: e.data, lambda d: d))
    elif chan == "input":
        def send():
            c.send(obj)
        fn = ("PipelineInput", check(lambda e: e.data, lambda d: d))
    elif chan == "error":
        s.write_error(T.NETException(Message="m"), target_object=obj)
        fn = ("ErrorRecord", check(lambda e: e.record.TargetObject, lambda d: field(d, "TargetObject")))
    elif chan == "information":
        s.write_information(obj, "source")
        fn = ("InformationRecord", check(lambda e: e.record.MessageData, lambda d: field(d, "MessageData")))
    elif chan == "event":
        pair.server.send_event(1, "src", message_data=obj)
        fn = ("UserEvent", check(lambda e: e.event.MessageData, lambda d: field(d, "PSEventArgs.MessageData")))
    elif chan == "parameter":
        p = psrpcore.ClientPowerShell(pair.client)
        p.add_command("x").add_parameter("p", obj)

        def send():
            p.start()
            box["pid"] = p.pipeline_id
            psrpcore.ServerPipeline(pair.server, p.pipeline_id)

        def arg(doc):
            labels = R.label_map(doc)
            cmd = field(field(doc, "PowerShell"), "Cmds")[5][1][0]
            a = field(cmd, "Args")[5][1][0]
            a = labels[a[1]] if a[0] == "Ref" else a
            return field(a, "V")
        fn = ("CreatePipeline", check(lambda e: e.pipeline.commands[0].parameters[0][1], arg))
    else:
        i = t.draw(len(side.calls))
        ci, kind = side.calls[i]
        via = pair.client if t.bool() else c

        def send():
            if kind == "pool":
                pair.client.host_response(ci, obj)
            else:
                via.host_response(ci, obj)
            side.calls.pop(i)
        fn = ("RunspacePoolHostResponse" if kind == "pool" else "PipelineHostResponse",
              check(lambda e: e.result, lambda d: field(d, "mr")))
    m.log("%s: %s %s (%s)", side.name, chan, V.show(node), phase)
    if not from_client:
        side.owed[pair.s2c].append(fn)
        if phase != "done":
            m.count("before exchange")
        return True
    if side.phase != "done":
        if phase == "begun":
            m.count("during exchange")
        before = sorted(pair.client.pipeline_table)
        try:
            send()
        except psrpcore.MissingCipherError:
            m.count("refused")
            if chan == "parameter":
                need(p.state == T.PSInvocationState.NotStarted, "a pipeline that could not be sent is %s", p.state)
                p.close()
            else:
                need(sorted(pair.client.pipeline_table) == before, "the refused call changed the table")
            m.case(("refused", chan, phase, shape(node)))
            return False
        need(False, "%s: a client without the key sent a secure string as %s", side.name, chan)
    send()
    side.owed[pair.c2s].append(fn)
    return True


def begin(side, t, m):
    """Start (or repeat) a key exchange."""
    pair = side.pair
    how = t.pick(["client", "server", "both", "both2"])
    m.log("%s: exchange by %s in phase %s", side.name, how, side.phase)
    if side.phase == "done":
        m.count("repeated exchange")
    else:
        m.count("exchange by " + how.rstrip("2"))
    if how in ("client", "both"):
        pair.client.exchange_key()
    if how in ("server", "both", "both2"):
        pair.server.request_key()
    if how == "both2":
        side.move(False)
        pair.client.exchange_key()
    if side.phase == "none":
        side.phase = "begun"
    if t.bool():
        side.move()
        need(side.phase == "done", "%s: the key exchange by %s ended without a key", side.name, how)


def host_call(side, t):
    c, s = side.pipe
    kind = t.pick(["pool", "pipeline"])
    which = side.pair.server if kind == "pool" else s
    ci = which.host_call(H.HM["GetRunspace"])
    side.owed[side.pair.s2c].append(("RunspacePoolHostCall" if kind == "pool" else "PipelineHostCall",
                                     lambda d, ev: None))
    side.move()
    side.calls.append((ci, kind))


def open_session(sd, t, m):
    """Arguments of the client cannot hold secrets yet, the private data of the server can."""
    c, s = sd.pair.client, sd.pair.server
    if t.bool(1, 6):
        old = c.application_arguments
        c.application_arguments = {"a": V.build(sd.gen())}
        try:
            c.open()
        except psrpcore.MissingCipherError:
            m.count("refused")
        else:
            need(False, "%s: a client without the key sent a secure string with its arguments", sd.name)
        need(c.state == T.RunspacePoolState.BeforeOpen and c.data_to_send() is None, "the refused opening left %s",
             c.state)
        c.application_arguments = old
    node = None
    if t.bool(1, 6):
        node = sd.gen()
        s.application_private_data["secret"] = V.build(node)
    c.open()
    sd.pair.pump(lambda ln, d, ev: sd.scan(d))
    if node is not None:
        m.count("private data")
        sd.later.append(lambda: V.same(node, c.application_private_data["secret"]))


def case(t, m):
    n = t.weighted([(2, 1), (2, 2), (1, 3)])
    one = gen_uuid(t)
    sides = [Side(t, m, "session %d" % i, one if t.bool() else gen_uuid(t)) for i in range(n)]
    for sd in sides:
        open_session(sd, t, m)
        c = psrpcore.ClientPowerShell(sd.pair.client, no_input=False)
        c.add_script("x")
        c.start()
        s = psrpcore.ServerPipeline(sd.pair.server, c.pipeline_id)
        sd.pair.pump()
        s.start()
        sd.pair.pump()
        sd.pipe = (c, s)
    try:
        for _ in range(t.int(4, 16)):
            sd = t.pick(sides)
            k = t.draw(12)
            if k < 2:
                begin(sd, t, m)
            elif k < 3:
                host_call(sd, t)
            elif k < 5:
                sd.move(False)
            elif k < 7:  # hand on something received, to any session
                have = [(o, r) for o in sides for r in o.received]
                if have:
                    src, (node, obj, at_client) = t.pick(have)
                    if not (at_client and src.phase != "done"):
                        sd.secrets += src.secrets
                        write(sd, t, m, node, obj, sd.phase, True)
            elif k == 7 and n > 1:  # one object in several sessions
                node = sd.gen()
                obj = V.build(node)
                for o in sides:
                    o.secrets += [x for x in sd.secrets if x not in o.secrets]
                    write(o, t, m, node, obj, o.phase, False)
                m.count("shared")
            else:
                node = sd.gen()
                write(sd, t, m, node, V.build(node), sd.phase, False)
        for sd in sides:
            sd.move()
            if sd.phase != "done":
                begin(sd, t, m)
                sd.move()
                need(sd.phase == "done", "%s: the key exchange ended without a key", sd.name)
            sd.move()
            for ln, q in sd.owed.items():
                need(not q, "%s: %d messages never arrived", sd.name, len(q))
            need(not sd.later, "%s: undecided values", sd.name)
            # both directions still work
            for _ in range(2):
                node = sd.gen()
                write(sd, t, m, node, V.build(node), sd.phase, False)
            sd.move()
            m.count("scanned", sd.scanned)
    finally:
        V.unseal = None
        random.seed()
    ks = [sd.keys[0] for sd in sides]
    need(len(set(ks)) == len(ks), "two sessions use the same key")


# ---- lengths ---------------------------------------------------------------------------------------------------------


def _lengths(sizes, pad):
    def run(m):
        """Texts of every length, both ways, again and again in one session."""
        pair = Pair(psrpcore.ClientRunspacePool(), psrpcore.ServerRunspacePool())
        pair.client.open()
        pair.pump()
        pair.client.exchange_key()
        got = pair.pump()
        pub = [d.doc for _l, d, _e in got if d.type == "PublicKey"]
        enc = [d.doc for _l, d, _e in got if d.type == "EncryptedSessionKey"]
        need(len(pub) == len(enc) == 1, "a key exchange of %s", [d.type for _l, d, _e in got])
        private = keys.private_of(text_of(field(pub[0], "PublicKey")))
        key = keys.session_key(private, text_of(field(enc[0], "EncryptedSessionKey")))
        c = psrpcore.ClientPowerShell(pair.client, no_input=False)
        c.add_script("x")
        c.start()
        s = psrpcore.ServerPipeline(pair.server, c.pipeline_id)
        pair.pump()
        s.start()
        pair.pump()
        for n in sizes:
            text = "".join(chr(pad + (i * 7 + n) % 50) for i in range(n))
            for write in (c.send, s.write_output):
                write(T.PSSecureString(text))
                ((_ln, d, ev),) = pair.pump()
                need(d.doc[0] == "SS", "a secure string of %d characters was sent as %s", n, d.doc[0])
                need(n < 8 or text.encode("utf-16-le", "surrogatepass")[:16] not in d.data, "sent in clear")
                need(keys.open_sealed(key, text_of(d.doc)) == u16(text), "%d characters were encrypted wrongly", n)
                need(isinstance(ev.data, T.PSSecureString), "a secure string arrived as %r", type(ev.data))
                for _ in range(2):
                    need(u16(ev.data.decrypt()) == u16(text), "%d characters were decrypted wrongly", n)
                m.count("lengths")
        m.case(("lengths", sizes[0], pad))
    return run


def text_of(x):
    v = x[1]
    return v.decode("utf-16-be") if isinstance(v, bytes) else v


def units(tier):
    big = [511, 512, 1000, 1023, 1024, 4095, 4096, 4097, 16384, 32767, 32768, 65535, 65536, 70000, 200000]
    out = []
    for pad in (0x41, 0x3040, 0xD800):
        out += [("lengths %x %d" % (pad, lo), _lengths(list(range(lo, lo + 100)), pad)) for lo in range(0, 300, 100)]
        out.append(("lengths %x large" % pad, _lengths(big, pad)))
    return out
