"""P25: the same said in other words, as another implementation of the protocol may, is understood as the same."""

from xml.etree import ElementTree as ET

from .. import rewrite as RW
from .. import session as S
from .. import values as V
from .. import world as W
from ..mon import need
from ..wire import Decoder, parse_xml
from . import p01, p08, p09, p10, p12, p13, p14, p15, p16, p17, p19, p22

import psrpcore
from psrpcore import types as T
from psrpcore.types import deserialize, serialize

PROP = "P25"
LEVEL = "exploration"
RULE = ("distinct cases (values, documents, sessions) of which at least one document was read in other words and "
        "compared with what was written")
ASSUMPTIONS = ["messages are UTF-8", "object references follow the object they refer to in document order",
               "the type names of an object stand before its other parts"]
CASES = {"quick": 6000, "thorough": 200000}
TIME = {"quick": 60, "thorough": 800}
REQUIRE = ["rewritten forms", "values rewritten", "documents rewritten", "messages rewritten", "events"]

CIPHER = psrpcore.PSRemotingCrypto()
SESSIONS = [p01, p08, p09, p10, p12, p13, p14, p15, p16, p17, p22]


def setup():
    for mod in [S, W] + SESSIONS:
        if hasattr(mod, "Link"):
            mod.Link = RW.Far
    for mod in SESSIONS:
        if hasattr(mod, "setup"):
            mod.setup()


def value(t, m):
    n = V.Gen(t, t.pick([3, 10, 30]), cycles=t.bool(1, 4)).value()
    m.log("value %s", V.show(n))
    raw = ET.tostring(serialize(V.build(n), CIPHER), encoding="utf-8", method="xml")
    ours = t.bool(2, 3)
    if not ours:
        raw = V.encode(n, t).encode("utf-8")
    for _ in range(t.pick([1, 1, 3])):
        order = t.bool()
        new = RW.rewrite(t, raw, m=m, order=order)
        m.log("written %s", new)
        bad = V.diff(V.canon(n), Decoder(strict=False).decode(parse_xml(new))) if ours and not order else None
        need(bad is None, "the harness is wrong, its rewriting changes the value: %s", bad)
        m.count("compared", V.same(n, deserialize(parse_xml(new), CIPHER)))
        m.count("values rewritten")
    m.case(("value", V.canon(n)))


def document(t, m):
    V.unseal = p19.open_hex
    src = p19.Source(t, t.pick([3, 10]))
    sh = psrpcore.ClixmlShell()
    chunks, texts = [], []
    for _ in range(t.int(1, 3)):
        chunks.append([src.write() for _ in range(t.int(1, 5))])
        for w in chunks[-1]:
            w.write(sh)
        texts.append(sh.data_to_send())
    new = RW.rewrite_document(t, "".join(texts), m)
    m.log("written %s", new)
    m.count("compared", p19.read_values(chunks, new, p19.Hex(), "a document in other words"))
    m.count("compared", p19.read_output(chunks, new, "output in other words"))
    m.count("documents rewritten")
    m.case(("document", tuple((w.name, w.shape()) for ws in chunks for w in ws)))
    V.unseal = None


def session(t, m):
    RW.Far.tape, RW.Far.mon = t, m
    mod = t.pick(SESSIONS)
    mod.case(t, m)
    m.known.clear()  # what is reported by those checks and has nothing to do with how a message is written


def case(t, m):
    t.weighted([(2, value), (1, document), (5, session)])(t, m)
