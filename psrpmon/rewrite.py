"""The same document in other words: what an independent writer of XML and CLIXML may do differently without a change of
meaning, and a network whose far end is such a writer."""

import re
from xml.etree import ElementTree as ET

from .wire import MSG, pack_fragment, pack_message, units, unescape
from .world import Link, Sent, cut

BOX = ("Obj", "MS", "Props", "LST", "IE", "STK", "QUE", "DCT", "En", "TN", "PR", "Objs")
TEXT = ("S", "URI", "XD", "SBK", "ToString", "AV", "SD")  # where the escapes of CLIXML apply
INT = ("By", "SB", "I16", "U16", "I32", "U32", "I64", "U64", "C", "AI", "PI", "PC", "SR")
NS = "http://schemas.microsoft.com/powershell/2004/04"
_ESC = re.compile("(_x[0-9A-Fa-f]{4}_)")
NOTES = ["<!-- a note -->", "<!---->", "<?note a b?>", "<!-- <Obj RefId=\"0\"> -->", "<!-- RefId -->", "<?n?>"]

ENUMS = {"System.Management.Automation.Runspaces.PSThreadOptions", "System.Threading.ApartmentState",
         "System.Management.Automation.RemoteStreamOptions",
         "System.Management.Automation.Remoting.RemoteHostMethodId",
         "System.Management.Automation.Runspaces.PipelineResultTypes"}

# the messages whose properties are declared by the protocol: their order carries nothing
DECLARED = {x for x in MSG if x not in ("PipelineInput", "PipelineOutput", "EndOfPipelineInput")}


NESTED = ("PowerShell", "Cmds", "Args", "ExtraCmds", "HostInfo", "_hostDefaultData", "data")


def structures(root, host=False):
    """The property lists of a protocol message and of the structures in it (not those of values it carries)."""
    for el in root:
        if el.tag == "MS":
            yield el
            for x in el:
                n = x.attrib.get("N")
                if x.tag == "Obj" and (n in NESTED or (host and n == "V" and x.find("TN") is None
                                                       and x.find("TNRef") is None)):
                    yield from structures(x, host or n == "_hostDefaultData")
        elif el.tag == "LST":
            for x in el:
                if x.tag == "Obj":
                    yield from structures(x, host)
        elif el.tag == "DCT":
            for x in el.iterfind("En/Obj"):
                yield from structures(x, host)


class Rewriter:
    """One way of writing, chosen once per document so that each freedom is also taken alone."""

    def __init__(self, t, m=None):
        self.t, self.m = t, m
        self.mild = t.bool(1, 10)  # as the library writes it, apart from the ids

        def want(num=1, den=2):
            return not self.mild and t.bool(num, den)

        self.ids, self.expand, self.collapse = want(), want(), want(1, 3)
        self.order, self.props, self.space = want(), want(), want()
        self.notes, self.quotes, self.refs, self.cdata = want(1, 3), want(), want(1, 3), want(1, 3)
        self.escapes, self.empty, self.attrs, self.case = want(1, 3), want(), want(), want(1, 3)
        self.prolog = t.pick(["", "", "\ufeff", '<?xml version="1.0" encoding="utf-8"?>',
                              "<?xml version='1.0' encoding='UTF-8' standalone='yes'?>\r\n", "<!-- first -->\n", "\n",
                              '\ufeff<?xml version="1.0"?>']) if want() else ""
        self.tail = t.pick(["", "\n", "<!-- last -->", " <?end?>\r\n"]) if want(1, 3) else ""
        self.extra = want(1, 4)
        self.tostring = want(1, 3)
        self.forms = want(1, 3)

    def done(self, what):
        if self.m is not None:
            self.m.seen("freedoms taken", what)
            self.m.count("rewritten " + what)

    # -- the tree

    def renumber(self, roots):
        t = self.t
        if self.ids:
            for tags, kind in ((("Obj", "Ref"), 0), (("TN", "TNRef"), 1)):
                new, used, top = {}, set(), -1
                base = t.pick([1, 50, 10**6, 2**31 - 1])
                for root in roots:
                    for el in root.iter():
                        if el.tag in tags and "RefId" in el.attrib:
                            old = el.attrib["RefId"]
                            if old not in new:
                                x = t.draw(base + len(used) + 1)
                                if x in used:
                                    x = top + 1
                                top = max(top, x)
                                used.add(x)
                                new[old] = str(x)
                            el.attrib["RefId"] = new[old]
                if new:
                    self.done("numbers")

    def names(self, roots):
        """Type names in full instead of a reference to them, and the other way round."""
        t = self.t
        known = {}
        top = 0
        for root in roots:
            for el in root.iter("TN"):
                known[el.attrib["RefId"]] = [x.text for x in el]
                top = max(top, int(el.attrib["RefId"]))
        seen, ids = {}, {}
        for root in roots:
            for el in root.iter():
                if el.tag == "TNRef" and self.collapse and len(ids.get(tuple(known[el.attrib["RefId"]]), ())) > 1:
                    el.attrib["RefId"] = t.pick(ids[tuple(known[el.attrib["RefId"]])])
                    self.done("names by another reference")
                if el.tag == "TNRef" and self.expand and t.bool():
                    top += 1
                    names = known[el.attrib["RefId"]]
                    el.tag = "TN"
                    el.attrib["RefId"] = str(top)
                    for x in names:
                        ET.SubElement(el, "T").text = x
                    known[str(top)] = names
                    ids.setdefault(tuple(names), []).append(str(top))
                    self.done("names in full")
                elif el.tag == "TN":
                    names = tuple(x.text for x in el)
                    if self.collapse and names and names in seen and t.bool():
                        for x in list(el):
                            el.remove(x)
                        old = el.attrib["RefId"]
                        el.tag = "TNRef"
                        el.attrib["RefId"] = seen[names]
                        for r2 in roots:  # what referred to this one refers to the other now
                            for y in r2.iter("TNRef"):
                                if y.attrib["RefId"] == old:
                                    y.attrib["RefId"] = seen[names]
                        self.done("names by reference")
                    else:
                        seen.setdefault(names, el.attrib["RefId"])
                        ids.setdefault(names, []).append(el.attrib["RefId"])

    def reorder(self, root, declared):
        """Children of an object in another order (nothing in it refers to something before it)."""
        t = self.t
        if self.order:
            for el in root.iter("Obj"):
                kids = list(el)
                head = [x for x in kids if x.tag in ("TN", "TNRef")]
                rest = [x for x in kids if x.tag not in ("TN", "TNRef")]
                if len(rest) > 1:
                    new = t.shuffle(rest)
                    if new != rest:
                        el[:] = head + new
                        self.done("order of parts")
        if declared and self.props:
            for x in root.iter("Obj"):  # the settings of a host are a table without an order
                if x.attrib.get("N") == "data" and x.find("DCT") is not None:
                    x.find("DCT")[:] = t.shuffle(list(x.find("DCT")))
                    self.done("order of host settings")
            for el in structures(root):
                if len(el) > 1:
                    el[:] = t.shuffle(list(el))
                    self.done("order of properties")

    def expand_all(self, root):
        """Every reference to type names written in full, so that order does not matter."""
        known, top = {}, 0
        for el in root.iter("TN"):
            known[el.attrib["RefId"]] = [x.text for x in el]
            top = max(top, int(el.attrib["RefId"]))
        for el in list(root.iter("TNRef")):
            top += 1
            el.tag = "TN"
            for x in known[el.attrib["RefId"]]:
                ET.SubElement(el, "T").text = x
            el.attrib["RefId"] = str(top)

    def tree(self, root, declared=False, extra=None):
        t = self.t
        if (self.order or self.props) and self.expand and not any(el.tag == "Ref" for el in root.iter()):
            self.expand_all(root)
            self.reorder(root, declared)
        self.names([root])
        if declared and self.tostring:  # the display text of an enum member is a comment
            for el in root.iter("Obj"):
                name = el.find("TN/T")
                if name is not None and name.text in ENUMS:
                    x = el.find("ToString")
                    if x is not None and t.bool():
                        el.remove(x)
                        self.done("no text of an enum")
        if extra and self.extra:
            for el in structures(root):
                if t.bool(1, 2):
                    x = ET.Element(*t.pick([("S", {"N": "AddedLater"}), ("I32", {"N": "Extra"}), ("Nil", {"N": "None"}),
                                            ("B", {"N": "Newer"})]))
                    x.text = {"S": "new", "I32": "77", "Nil": None, "B": "true"}[x.tag]
                    el.insert(t.draw(len(el) + 1), x)
                    self.done("unknown property")
        self.renumber([root])

    # -- the text

    def reescape(self, raw):
        """Characters as escapes that need none, and the letters of escapes in another case."""
        t = self.t
        out = []
        for i, part in enumerate(_ESC.split(raw)):
            if i % 2:
                out.append("_x%s_" % t.pick([part[2:6].upper(), part[2:6].lower()]) if self.case and t.bool() else part)
                continue
            for c in part:
                if self.escapes and t.bool(1, 8):
                    out.append("".join("_x%04X_" % u for u in units(c)))
                else:
                    out.append(c)
        new = "".join(out)
        if new != raw and unescape(new) == unescape(raw):
            self.done("escapes")
            return new
        return raw

    def form(self, tag, s):
        """Another form of the text of a number, truth value, date-time, id or byte array."""
        t = self.t
        if tag == "B":
            new = t.pick([s, s.capitalize(), s.upper()])
        elif tag in INT and re.fullmatch("-?[0-9]+", s):
            sign, n = (s[0], s[1:]) if s[0] == "-" else (t.pick(["", "+"]), s)
            new = sign + t.pick(["", "0", "000"]) + n
        elif tag == "BA":
            k = t.pick([4, 64, 76])
            new = t.pick(["\n", " ", "\n  "]).join(s[i:i + k] for i in range(0, len(s), k))
        elif tag == "G":
            new = t.pick([s, s.upper()])
        elif tag == "DT":
            m = re.fullmatch(r"([^.]*T[0-9:]*)(?:\.([0-9]*))?(Z|[+-][0-9:]+)?", s)
            if m is None:
                return s
            frac = (m.group(2) or "").rstrip("0")
            frac += "0" * t.draw(8 - len(frac)) if len(frac) < 8 else ""
            zone = m.group(3) or ""
            if zone in ("Z", "+00:00"):
                zone = t.pick(["Z", "+00:00"])
            new = m.group(1) + ("." + frac if frac else "") + zone
        else:
            return s
        if new != s:
            self.done("forms")
        return new

    def chars(self, s, quote=None):
        t = self.t
        out = []
        for c in s:
            if c in "&<" or c == quote:
                out.append(t.pick(["&#%d;" % ord(c), "&#x%x;" % ord(c)]) if self.refs and t.bool() else
                           {"&": "&amp;", "<": "&lt;", '"': "&quot;", "'": "&apos;"}[c])
            elif c == ">":
                out.append("&gt;")
            elif c == "\r" or (quote and c in "\t\n"):
                out.append("&#%d;" % ord(c))
            elif self.refs and t.bool(1, 10):
                out.append(t.pick(["&#%d;" % ord(c), "&#x%X;" % ord(c), "&#x%06x;" % ord(c)]))
            else:
                out.append(c)
        return "".join(out)

    def body(self, s):
        t = self.t
        if self.cdata and s and "\r" not in s and "<Objs" not in s and t.bool():
            k = t.draw(len(s) + 1)
            a, b = s[:k], s[k:]
            self.done("sections")
            return self.chars(a) + "<![CDATA[" + b.replace("]]>", "]]]]><![CDATA[>") + "]]>"
        return self.chars(s)

    def gap(self):
        t = self.t
        out = ""
        if self.space and t.bool():
            out += t.pick([" ", "\n", "\r\n  ", "\t", "\n\n"])
        if self.notes and t.bool(1, 3):
            out += t.pick(NOTES)
            self.done("notes")
        return out

    def write(self, el, entry=False):
        t = self.t
        attrs = list(el.attrib.items())
        if self.attrs:
            attrs = t.shuffle(attrs)
        out = ["<", el.tag]
        for k, v in attrs:
            if k == "N" and (self.escapes or self.case) and not entry:
                v = self.reescape(v)
            q = t.pick("\"'") if self.quotes else '"'
            sp = t.pick([" ", "\n", "  "]) if self.space else " "
            eq = t.pick(["=", " = "]) if self.space else "="
            out.append("%s%s%s%s%s%s" % (sp, k, eq, q, self.chars(v, q), q))
        out.append(t.pick(["", " "]) if self.space else "")
        box = len(el) or el.tag in BOX
        s = "" if box else el.text or ""
        if s and el.tag in TEXT and (self.escapes or self.case):
            s = self.reescape(s)
        if s and self.forms and t.bool():
            s = self.form(el.tag, s)
        if not len(el) and not s:
            if self.empty and t.bool():
                out.append("></%s>" % el.tag if not box else ">%s</%s>" % (self.gap(), el.tag))
            else:
                out.append("/>")
            return "".join(out)
        out.append(">")
        if box:
            for x in el:
                out.append(self.gap())
                out.append(self.write(x, el.tag == "En"))
            out.append(self.gap())
        else:
            out.append(self.body(s))
        out.append("</%s%s>" % (el.tag, t.pick(["", " "]) if self.space else ""))
        return "".join(out)


def rewrite(t, data, declared=False, m=None, extra=False, order=True):
    """The document (bytes) in other words (bytes)."""
    w = Rewriter(t, m)
    w.order = w.order and order
    root = ET.fromstring(data)
    w.tree(root, declared, extra)
    out = w.prolog + w.write(root) + w.tail
    return out.encode("utf-8")


def rewrite_document(t, text, m=None):
    """A CLIXML document (text): each of its values has its own object numbers, all of them share type names."""
    w = Rewriter(t, m)
    head = ""
    if text.startswith("#< CLIXML"):
        i = text.index("<Objs")
        head, text = text[:i], text[i:]
    out = []
    for part in re.split("(?<=</Objs>)|(?<=/>)(?=<Objs)", text):
        if not part.strip():
            continue
        root = ET.fromstring(part)
        for el in root.iter():
            el.tag = el.tag[len(NS) + 2:]
        w.names([root])
        w.renumber([root])
        root.attrib["xmlns"] = NS
        out.append(w.write(root))
    return head + t.pick(["", "\n", "\r\n"]).join(out)


class Far(Link):
    """A direction whose sender writes and cuts its messages in its own way (what was sent stays the expectation)."""

    tape = None
    mon = None

    def __init__(self, src, dst, name, to_server):
        super().__init__(src, dst, name, to_server)
        self.out = 0
        self.last = 0
        self.left = []

    def frame(self, msg, data):
        """One message as fragments."""
        t = self.tape
        raw = pack_message(msg.dest, msg.type, msg.rpid, msg.pid, data)
        self.last += t.pick([1, 1, 2, 1000, 1 << 40]) if self.last < (1 << 62) else 1
        k = t.draw(4)
        points = sorted({p for p in (t.draw(len(raw)) for _ in range(k * k)) if p})
        parts = [raw[a:b] for a, b in zip([0] + points, points + [len(raw)])]
        if t.bool(1, 8):
            parts.insert(t.draw(len(parts)), b"")
        res = t.draw(64) << 2 if t.bool(1, 6) else 0  # the reserved bits, which receivers ignore
        out = []
        for i, d in enumerate(parts):
            f = pack_fragment(self.last, i, d, i == 0, i == len(parts) - 1)
            out.append((f, res))
        return out

    def say(self, msg):
        t, m = self.tape, self.mon
        if not msg.data:
            return msg.data
        new = rewrite(t, msg.data, msg.name in DECLARED, m, msg.name in DECLARED)
        if new != msg.data:
            m.count("messages rewritten")
            m.seen("rewritten types", msg.name)
        return new

    def send(self, limit=None, pieces=None):
        p = self.src.data_to_send() if limit is None else self.src.data_to_send(limit)
        if p is None:
            return False
        self.payloads += 1
        for msg, _end in self.check_payload(p, limit):
            exp = None
            if self.expect is not None:
                exp = self.expect.popleft()
                exp.on_wire(self, msg)
            frags = self.frame(msg, self.say(msg))
            stream = b"".join(f for f, _res in frags)
            self.out += len(stream)
            self.sent.append(Sent(msg, self.out, exp))
            marked = bytearray()
            for f, res in frags:
                marked += f
                marked[len(marked) - len(f) + 16] |= res
                self.mon.count("reserved bits", 1 if res else 0)
            at = 0
            for piece in (pieces(stream) if pieces else [stream]):
                self.wire.append((bytes(marked[at : at + len(piece)]), p))
                at += len(piece)
        return True
