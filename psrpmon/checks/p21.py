"""P21: object properties behave as a consistent property bag."""

import datetime
import inspect
import uuid

from .. import known as K
from .. import values as V
from ..mon import need

from psrpcore import types as T

PROP = "P21"
LEVEL = "exploration"
RULE = "distinct histories (declared types, operations with the kinds of property they met, outcomes)"
ASSUMPTIONS = ["a property is not named as a Python attribute of its object",
               "one property object belongs to one object; names are unique within one declared list",
               "aliases and script properties do not refer to themselves in a circle",
               "subclasses of PSCustomObject take any property and demand none"]
CASES = {"quick": 50000, "thorough": 1500000}
TIME = {"quick": 60, "thorough": 800}
REQUIRE = ["constructed", "construction refused", "read", "missing", "assigned", "assignment refused", "converted",
           "conversion failed", "added", "duplicate refused", "replaced", "shadowed", "alias read", "script read",
           "script assigned", "class member", "type checks", "custom", "inherited", "redeclared", "enumerated", "declared",
           "declared refused", "declared mandatory", "declared default"]

NAMES = ["Alpha", "Beta", "Gamma", "Delta", "Eps", "my prop", "Zeta_1", "été"]
CASTS = [None, None, None, "PSInt", "PSString", "PSInt64", "ConsoleColor", "str", "PSVersion", "list", "PSObject"]


def cast_of(name):
    return None if name is None else {"str": str, "list": list}.get(name) or getattr(T, name)


class Missing(Exception):
    """The property (or what it leads to) does not exist."""


class Refused(Exception):
    pass


def cast(kind, v):
    """What a value becomes as a property of a declared type: (value, how)."""
    cls = cast_of(kind)
    if v is None or cls is None or isinstance(v, cls):
        return v, "as it is"
    try:
        if kind == "PSObject":
            raise TypeError("not a PSObject")
        return cls(v), "converted"
    except Exception as e:  # noqa: BLE001 - the conversion itself is Python's
        raise Refused(str(e))


class P:
    """One property of the model."""

    def __init__(self, name, kind, cast=None, value=None, mandatory=False, target=None, script=None):
        self.name, self.kind, self.cast, self.value = name, kind, cast, value
        self.mandatory, self.target, self.script = mandatory, target, script

    def copy(self):
        return P(self.name, self.kind, self.cast, self.value, self.mandatory, self.target, self.script)

    def real(self):
        """The property object of the library."""
        ct = cast_of(self.cast)
        if self.kind == "note":
            kw = {} if self.value is None else {"value": self.value}
            return T.PSNoteProperty(self.name, mandatory=self.mandatory, ps_type=ct, **kw)
        if self.kind == "alias":
            return T.PSAliasProperty(self.name, self.target, ps_type=ct)
        g, s = functions(self)
        return T.PSScriptProperty(self.name, g, setter=s, mandatory=self.mandatory, ps_type=ct)


def functions(p):
    k, writable = p.script
    if k == "const":
        val = p.value
        return (lambda o: val), ((lambda o, v: None) if writable else None)
    if k == "store":
        attr = "_store_" + p.name
        return (lambda o: getattr(o, attr, None)), ((lambda o, v: setattr(o, attr, v)) if writable else None)
    target = p.target
    if k == "through":
        return (lambda o: getattr(o, target)), ((lambda o, v: setattr(o, target, v)) if writable else None)
    # (an item of a dictionary that is assigned is an entry of it)
    return (lambda o: o[target]), ((lambda o, v: setattr(o, target, v) if isinstance(o, dict)
                                    else o.__setitem__(target, v)) if writable else None)


class Bag:
    """The model of an object or a class."""

    def __init__(self, names, adapted=(), extended=(), plain=None):
        self.names = list(names)
        self.adapted = [p.copy() for p in adapted]
        self.extended = [p.copy() for p in extended]
        self.plain = dict(plain or {})

    def copy(self):
        return Bag(self.names, self.adapted, self.extended)

    def find(self, name):
        for p in self.extended:
            if p.name == name:
                return p
        for p in self.adapted:
            if p.name == name:
                return p
        return None

    def entries(self):
        out = {p.name: p for p in self.adapted}
        out.update({p.name: p for p in self.extended})
        return out

    def read(self, name):
        """(value, how)"""
        if name in self.plain:
            return self.plain[name], "plain"
        p = self.find(name)
        if p is None:
            raise Missing(name)
        return self.value(p)

    def value(self, p):
        if p.kind == "note":
            return p.value, "as it is"
        if p.kind == "alias":
            v, _ = self.read(p.target)
        elif p.script[0] == "const":
            v = p.value
        elif p.script[0] == "store":
            v = self.plain.get("_store_" + p.name)
        else:
            v, _ = self.read(p.target)
        return cast(p.cast, v)

    def assign(self, name, v):
        p = self.find(name)
        if name in self.plain or p is None:
            self.plain[name] = v
            return "plain"
        return self.put(p, v)

    def put(self, p, v):
        if p.kind == "note":
            p.value, how = cast(p.cast, v)
            return how
        if p.kind == "alias" or not p.script[1]:
            raise Refused("read only")
        if p.script[0] == "const":
            return "dropped"
        if p.script[0] == "store":
            self.plain["_store_" + p.name] = v
            return "stored"
        return self.assign(p.target, v)

    def reaches(self, name, goal, seen=()):
        """Whether reading or assigning name leads to goal."""
        if name == goal:
            return True
        if name in seen:
            return True
        p = self.find(name)
        if p is None or p.target is None:
            return False
        return self.reaches(p.target, goal, seen + (name,))

    def names_of(self):
        return [p.name for p in self.adapted], [p.name for p in self.extended]


def same_value(got, want, how, what):
    # (objects are equal only to themselves; converted values are made anew by the model)
    need(got is want or (type(got) is type(want) and got == want), "%s is %r (%s) and not %r (%s)", what, got,
         type(got).__name__, want, type(want).__name__)


OBJ = [T.PSObject(), T.PSCustomObject(a=1), T.PSCustomObject(a=1), [1, 2], T.PSList([3])]


def gen_value(t):
    return t.pick([None, 0, 1, 5, -3, 300, 2**33, "1", "text", "", "1.2", T.PSInt(7), T.PSString("12"), T.PSInt64(9),
                   T.ConsoleColor.Red, 4, True, "Red", T.PSVersion("3.4"), t.pick(OBJ), t.pick(OBJ), 2.5, "12.0"])


def gen_prop(t, bag, name=None, declared=False):
    """A property that fits the bag (None: would go round in a circle)."""
    name = name or t.pick(NAMES)
    c = t.pick(CASTS)
    k = t.draw(6)
    if k < 3:
        p = P(name, "note", c, None, declared and t.bool(1, 3))
        if t.bool(2, 3):
            try:
                v = gen_value(t)
                p.value = v if not declared else cast(c, v)[0]
            except Refused:
                p.value = None
        return p
    if k == 3:
        p = P(name, "alias", c, target=t.pick([x for x in NAMES if x != name]))
    else:
        kind = t.pick(["const", "store", "through", "item"])
        writable = t.bool()
        p = P(name, "script", c, script=(kind, writable), mandatory=declared and writable and t.bool(1, 4))
        if kind == "const":
            p.value = gen_value(t)
        elif kind != "store":
            p.target = t.pick([x for x in NAMES if x != name])
    if p.target is not None and bag.reaches(p.target, name):
        return None
    return p


class Type:
    """A declared type: the class and its model."""

    count = 0

    def __init__(self, t, m, types, log):
        Type.count += 1
        bases = [("PSObject", T.PSObject, Bag(["System.Object"]))]
        if types and t.bool(2, 3):
            b = t.pick(types)
            bases = [(b.name, b.cls, b.bag)]
            m.count("inherited")
        bname, bcls, bbag = bases[0]
        self.name = "MonBag%d" % Type.count
        own = ["Mon.Bag%d" % t.int(1, 4)] + (["Mon.Extra"] if t.bool(1, 3) else [])
        self.skip = bcls is not T.PSObject and t.bool(1, 8)
        taken = Bag([], *([], []) if self.skip else (bbag.adapted, bbag.extended))
        ad, ex = [], []
        for lst in (ad, ex):
            for _ in range(t.count(4)):
                p = gen_prop(t, taken, declared=True)
                if p is None or p.name in [x.name for x in lst]:
                    continue
                lst.append(p)
                old = [x for x in (taken.adapted if lst is ad else taken.extended) if x.name == p.name]
                if old:
                    m.count("redeclared")
                    (taken.adapted if lst is ad else taken.extended).remove(old[0])
                (taken.adapted if lst is ad else taken.extended).insert(0, p)
                if any(taken.reaches(x.target, x.name) for x in taken.adapted + taken.extended if x.target):
                    (taken.adapted if lst is ad else taken.extended).remove(p)
                    lst.remove(p)
                    if old:
                        (taken.adapted if lst is ad else taken.extended).append(old[0])
        self.cls = T.PSType(list(own), [p.real() for p in ad], [p.real() for p in ex], skip_inheritance=self.skip,
                            rehydrate=False)(type(self.name, (bcls,), {}))
        if self.skip:
            self.bag = Bag(own, ad, ex)
        else:
            self.bag = Bag(own + bbag.names, ad + [p for p in bbag.adapted if p.name not in [x.name for x in ad]],
                           ex + [p for p in bbag.extended if p.name not in [x.name for x in ex]])
        log("type %s(%s) adapted %s extended %s%s", self.name, bname, [(p.name, p.kind) for p in ad],
            [(p.name, p.kind) for p in ex], " alone" if self.skip else "")


def construct(t, m, ty):
    """(object, model) or None when it is refused."""
    bag = ty.bag.copy()
    entries = bag.entries()
    order = list(entries)
    k = t.draw(6)
    npos = t.draw(len(order) + 1) if t.bool() else 0
    args = [gen_value(t) for _ in range(npos)]
    kw = {}
    for n in order[npos:]:
        if (entries[n].mandatory and k != 0) or t.bool(1, 3):
            kw[n] = gen_value(t)
    if k == 1 and t.bool():
        kw[t.pick(NAMES + ["Nope"])] = gen_value(t)
    if k == 2 and t.bool():
        args.extend(gen_value(t) for _ in range(len(order) + 1 - npos))
    # what should happen
    why = None
    given = dict(zip(order, args))
    if len(args) > len(order):
        why = "too many"
    elif any(n in given for n in kw):
        why = "twice"
    else:
        given.update(kw)
        if any(p.mandatory and n not in given for n, p in entries.items()):
            why = "missing"
        elif any(n not in entries for n in given):
            why = "unexpected"
    if why is None:
        try:
            for n, v in given.items():
                bag.assign(n, v)
        except Refused:
            why = "value"
    try:
        o = ty.cls(*args, **kw)
    except Exception as e:  # noqa: BLE001 - compared below
        need(why is not None, "%s(*%r, **%r) was refused: %r", ty.name, args, kw, e)
        need(why in ("value", "unexpected") or isinstance(e, TypeError), "%s(*%r, **%r) (%s) failed with %r", ty.name, args, kw, why, e)
        m.count("construction refused")
        m.log("%s(%d, %s) refused: %s", ty.name, len(args), sorted(kw), why)
        return why, None
    need(why is None, "%s(*%r, **%r) was accepted although %s", ty.name, args, kw, why)
    m.count("constructed")
    m.log("%s(%d, %s)", ty.name, len(args), sorted(kw))
    return "ok", (o, bag)


HOLDERS = {
    "PSObject": lambda: T.PSObject(), "PSList": lambda: T.PSList([1, 2]), "PSDict": lambda: T.PSDict({"k": 1}),
    "PSString": lambda: T.PSString("text"), "PSInt": lambda: T.PSInt(5), "PSStack": lambda: T.PSStack(["s"]),
    "PSCustomObject": lambda: T.PSCustomObject(), "PSDateTime": lambda: T.PSDateTime(2020, 1, 2),
    "PSQueue": lambda: T.PSQueue(), "PSDouble": lambda: T.PSDouble(1.5), "PSVersion": lambda: T.PSVersion("1.2"),
}


def holder(t, m):
    """An object of a type of the library."""
    if t.bool(1, 3):
        kw = {}
        for _ in range(t.count(4)):
            kw[t.pick(NAMES)] = gen_value(t)
        names = ["System.Management.Automation.PSCustomObject", "System.Object"]
        bag = Bag(names, (), [P(n, "note", None, v) for n, v in kw.items()])
        if t.bool(1, 3):
            bag.names.insert(0, "Mon.Custom")
            items = list(kw.items())
            items.insert(t.draw(len(items) + 1), ("PSTypeName", "Mon.Custom"))
            kw = dict(items)
        o = T.PSCustomObject(**kw)
        m.count("custom")
        return o, bag
    k = t.pick(sorted(HOLDERS))
    o = HOLDERS[k]()
    return o, Bag(V.SEQ_NAMES.get(k) or list(o.PSObject.type_names))


def item_ok(o):
    """Items of a dictionary are its entries first; other objects have their properties as items."""
    return not isinstance(o, dict)


def readers(o, name):
    out = [("attribute", lambda: getattr(o, name)), ("item", lambda: o[name])]
    return out if hasattr(type(o), "__getitem__") else out[:1]


def observe(o, bag, m, what):
    """Everything the object shows, against the model."""
    ad, ex = [p.name for p in o.PSObject.adapted_properties], [p.name for p in o.PSObject.extended_properties]
    need((ad, ex) == bag.names_of(), "%s has the properties %s, %s and not %s, %s", what, ad, ex, *bag.names_of())
    need(list(o.PSTypeNames) == bag.names and list(o.PSObject.type_names) == bag.names, "%s has the type names %s and "
         "not %s", what, o.PSTypeNames, bag.names)
    clear = True
    for name in NAMES:
        try:
            want, how = bag.read(name)
            err = None
        except Missing:
            err = AttributeError
        except Refused:
            err = Exception
        for form, fn in readers(o, name):
            try:
                got = fn()
            except Exception as e:  # noqa: BLE001 - compared
                need(err is not None and isinstance(e, err), "%s: reading %s as %s failed: %r", what, name, form, e)
                m.count("missing")
                continue
            need(err is None, "%s: %s does not exist and reads as %r", what, name, got)
            same_value(got, want, how, "%s.%s (%s)" % (what, name, form))
            m.count("read")
            p = bag.find(name)
            if p is not None and p.kind != "note":
                m.count(p.kind + " read")
            if how == "converted":
                m.count("converted")
    for lst, real in ((bag.adapted, o.PSObject.adapted_properties), (bag.extended, o.PSObject.extended_properties)):
        for p, r in zip(lst, real):
            try:
                want, how = bag.value(p)
            except (Missing, Refused):
                clear = False
                need_raises(lambda: r.get_value(o), "%s: property %s" % (what, p.name))
                continue
            same_value(r.get_value(o), want, how, "%s, property object %s" % (what, p.name))
            if p in bag.adapted and bag.find(p.name) is not p:
                m.count("shadowed")
    if clear:
        have = vars(o)
        for n in bag.entries():
            if n in bag.plain:
                continue
            want, how = bag.read(n)
            same_value(have.get(n), want, how, "%s, vars()[%s]" % (what, n))


def need_raises(fn, what):
    try:
        got = fn()
    except Exception:  # noqa: BLE001 - that it fails is what is asked
        return
    need(False, "%s gave %r", what, got)


def add(t, m, o, bag, what, cls=False):
    p = gen_prop(t, bag)
    if p is None or p.name in bag.plain:
        return "none"
    force = t.bool()
    exists = p.name in bag.entries()
    # the value is converted when the property is made
    try:
        want = p.copy()
        if p.kind == "note":
            want.value = cast(p.cast, p.value)[0]
        bad = False
    except Refused:
        bad = True
    after = bag.copy()
    if not bad and (not exists or force):
        idx = [i for i, x in enumerate(after.extended) if x.name == p.name]
        if idx:
            after.extended[idx[0]] = want
        else:
            after.extended.append(want)
        if any(after.reaches(x.target, x.name) for x in after.adapted + after.extended if x.target):
            return "none"
    fkw = {"force": force} if force or t.bool() else {}
    try:
        if t.bool():
            real = p.real()
            if p.kind == "note" and p.value is None and t.bool():
                real = T.PSNoteProperty(p.name, None, ps_type=cast_of(p.cast))
            T.add_member(o, real, **fkw)
        elif p.kind == "note":
            T.add_note_property(o, p.name, p.value, ps_type=cast_of(p.cast), **fkw)
        elif p.kind == "alias":
            T.add_alias_property(o, p.name, p.target, ps_type=cast_of(p.cast), **fkw)
        else:
            g, s = functions(p)
            T.add_script_property(o, p.name, g, setter=s, ps_type=cast_of(p.cast), **fkw)
    except Exception as e:  # noqa: BLE001 - compared
        m.log("%s: add %s %s%s refused", what, p.kind, p.name, " with force" if force else "")
        if bad:
            m.count("conversion failed")
            return "bad value"
        need(exists and not force, "%s: adding %s was refused: %r", what, p.name, e)
        need(isinstance(e, RuntimeError), "%s: adding %s twice failed with %r", what, p.name, e)
        m.count("duplicate refused")
        return "duplicate"
    m.log("%s: add %s %s (%s)%s", what, p.kind, p.name, p.cast, " with force" if force else "")
    need(not bad, "%s: %s was added with the value %r as %s", what, p.name, p.value, p.cast)
    need(force or not exists, "%s: %s was added twice", what, p.name)
    bag.extended = after.extended
    m.count("class member" if cls else "replaced" if exists else "added")
    return (p.kind, exists)


def assign(t, m, o, bag, what):
    name = t.pick(NAMES)
    p = bag.find(name)
    form = t.draw(3)
    v = gen_value(t)
    if p is None and t.bool(3, 4):
        return "none"
    kind = p.kind if p else "plain"
    before = bag.plain.copy()
    try:
        if form == 2 and p is not None and name not in bag.plain:
            how = bag.put(p, v)
        else:
            how = bag.assign(name, v)
        err = None
    except Refused as e:
        err, how = e, None
        bag.plain = before
    try:
        if form == 0 or not item_ok(o) or not hasattr(type(o), "__setitem__"):
            if form == 2 and p is not None and name not in bag.plain:
                real = [x for x in o.PSObject.extended_properties if x.name == name] or \
                    [x for x in o.PSObject.adapted_properties if x.name == name]
                real[0].set_value(v, o)
            else:
                setattr(o, name, v)
        elif form == 1 or p is None or name in bag.plain:
            o[name] = v
        else:
            real = [x for x in o.PSObject.extended_properties if x.name == name] or \
                [x for x in o.PSObject.adapted_properties if x.name == name]
            real[0].set_value(v, o)
    except Exception as e:  # noqa: BLE001 - compared
        need(err is not None, "%s: assigning %r to %s was refused: %r", what, v, name, e)
        m.count("assignment refused" if kind != "note" else "conversion failed")
        m.log("%s.%s = %r refused", what, name, v)
        return (kind, "refused")
    m.log("%s.%s = %r", what, name, v)
    need(err is None, "%s: assigning %r to %s %s was accepted (%s)", what, v, kind, name, err)
    m.count("assigned")
    if kind == "script":
        m.count("script assigned")
    if how == "converted":
        m.count("converted")
    return (kind, how)


def names_op(t, m, o, bag, what):
    k = t.draw(4)
    pool = ["Mon.Bag1", "Mon.Bag2", "Mon.Extra", "Deserialized.Mon.Bag1", "Deserialized.System.Object", "Other",
            "Deserialized.Deserialized.X"]
    n = t.pick(pool)
    if k == 0:
        o.PSObject.type_names.insert(0, n)
        bag.names.insert(0, n)
    elif k == 1:
        o.PSTypeNames.append(n)
        bag.names.append(n)
    elif k == 2 and len(bag.names) > 1:
        i = t.draw(len(bag.names))
        o.PSTypeNames.pop(i)
        bag.names.pop(i)
    else:
        bag.names = [n] + bag.names[:1]
        o.PSObject.type_names = list(bag.names)
    m.log("%s: type names are %s", what, bag.names)
    return ("names", k)


def strip(n, on):
    return n[len("Deserialized."):] if on and n.startswith("Deserialized.") else n


def type_check(t, m, o, bag, types):
    asked, real = [], []
    for _ in range(t.pick([1, 1, 2, 3])):
        k = t.draw(3)
        if k == 0 and types:
            ty = t.pick(types)
            asked.append(ty.bag.names[0])
            real.append(ty.cls)
        elif k == 1:
            n, c = t.pick([("System.Object", T.PSObject), ("System.Collections.ArrayList", T.PSList),
                           ("System.String", T.PSString),
                           ("System.Management.Automation.PSCustomObject", T.PSCustomObject)])
            asked.append(n)
            real.append(c)
        else:
            n = t.pick(bag.names + ["Mon.Bag1", "Deserialized.Mon.Bag1", "Nothing", "X", "Deserialized.X"])
            asked.append(n)
            real.append(n)
    ign = t.bool()
    want = bool({strip(n, ign) for n in bag.names} & {strip(n, ign) for n in asked})
    arg = real[0] if len(real) == 1 and t.bool() else tuple(real) if t.bool(3, 4) else list(real)
    kw = {"ignore_deserialized": ign} if ign or t.bool() else {}
    got = T.ps_isinstance(o, arg, **kw)
    need(got is want, "an object with the type names %s is%s one of %s (deserialized ignored: %s)", bag.names,
         "" if got else " not", asked, ign)
    m.count("type checks")
    return ("is", want)


def case(t, m):
    types, objs, hist = [], [], []
    for _ in range(t.count(3)):
        types.append(Type(t, m, types, m.log))
    for step in range(t.int(2, 16)):
        k = t.draw(12)
        if not objs or k == 0:
            if types and t.bool(3, 4):
                out, made = construct(t, m, t.pick(types))
                hist.append(("new", out))
                if made is None:
                    continue
            else:
                made = holder(t, m)
                hist.append(("holder", type(made[0]).__name__))
            objs.append(made)
        elif k == 1 and types and t.bool():
            ty = t.pick(types)
            hist.append(("class", add(t, m, ty.cls, ty.bag, ty.name, True)))
        else:
            i = t.draw(len(objs))
            o, bag = objs[i]
            what = "object %d (%s)" % (i, type(o).__name__)
            if k < 5:
                hist.append(("add", add(t, m, o, bag, what)))
            elif k < 9:
                hist.append(("assign", assign(t, m, o, bag, what)))
            elif k == 9:
                hist.append(names_op(t, m, o, bag, what))
            else:
                hist.append(type_check(t, m, o, bag, types))
        for i, (o, bag) in enumerate(objs):
            observe(o, bag, m, "object %d (%s)" % (i, type(o).__name__))
    m.case(tuple(hist))
    m.seen("objects", len(objs))


# ---- enumerated -----------------------------------------------------------------------------------------------------


def _signatures(m):
    """Which functions can be a getter or a setter: those that can be called with that many values."""
    fns = [lambda: 0, lambda a: a, lambda a, b: None, lambda a, b, c: None, lambda a=1: a, lambda a, b=1: a,
           lambda a, b, c=1: None, lambda *a: None, lambda a, *b: a, lambda a, b, *c: None, lambda *, k=1: None,
           lambda a, *, k=1: a, lambda a, b, *, k=1: None, lambda **k: None, lambda a, **k: a,
           lambda a=1, b=2, c=3: None, lambda a, /: a, lambda a, b, /: None]
    for fn in fns:
        def fits(n):
            try:
                inspect.signature(fn).bind(*range(n))
                return True
            except TypeError:
                return False

        for n, make in ((1, lambda: T.PSScriptProperty("p", fn)),
                        (2, lambda: T.PSScriptProperty("p", lambda s: None, fn))):
            try:
                make()
                got = True
            except TypeError:
                got = False
            need(got is fits(n), "%s as a function of %d values: %s", inspect.signature(fn), n,
                 "accepted" if got else "refused")
            m.count("enumerated")
    for bad in (5, "x", int, len, object()):
        need_raises(lambda: T.PSScriptProperty("p", bad), "a getter %r" % (bad,))
        need_raises(lambda: T.PSScriptProperty("p", lambda s: 0, bad), "a setter %r" % (bad,))
        m.count("enumerated", 2)
    need_raises(lambda: T.PSScriptProperty("p", None), "a script property without a getter")
    need_raises(lambda: T.PSScriptProperty("p", lambda s: 0, mandatory=True), "a mandatory read-only property")
    for bad in (5, "x", [], None, object()):
        need_raises(lambda: T.add_note_property(bad, "p", 1), "a property of %r" % (bad,))
    m.count("enumerated", 7)


def _shadow(m):
    """Every pair of kinds: declared (adapted or extended), then added with and without force, read and assigned."""
    kinds = ["note", "alias", "script", "typed"]

    def make(kind, name, v):
        if kind == "note":
            return T.PSNoteProperty(name, v)
        if kind == "typed":
            return T.PSNoteProperty(name, v, ps_type=T.PSString)
        if kind == "alias":
            return T.PSAliasProperty(name, "Base")
        return T.PSScriptProperty(name, lambda s: ("script", v), lambda s, x: setattr(s, "Base", x))

    def reads(kind, v):
        return {"note": v, "typed": T.PSString(v), "alias": "base", "script": ("script", v)}[kind]

    for where in ("adapted", "extended", "instance"):
        for a in kinds:
            for b in kinds:
                for force in (False, True):
                    props = {"adapted_properties": [T.PSNoteProperty("Base", "base")]}
                    if where == "adapted":
                        props["adapted_properties"].append(make(a, "X", 1))
                    elif where == "extended":
                        props["extended_properties"] = [make(a, "X", 1)]
                    cls = T.PSType(["Mon.Shadow"], rehydrate=False, **props)(type("Shadow", (T.PSObject,), {}))
                    o, other = cls(), cls()
                    if where == "instance":
                        T.add_member(o, make(a, "X", 1))
                    need(o.X == reads(a, 1) and o["X"] == reads(a, 1), "%s %s reads as %r", where, a, o.X)
                    try:
                        T.add_member(o, make(b, "X", 2), force=force)
                        need(force, "%s %s: %s was added twice", where, a, b)
                        now, v = b, 2
                    except RuntimeError:
                        need(not force, "%s %s: %s was refused with force", where, a, b)
                        now, v = a, 1
                    need(o.X == reads(now, v), "%s %s under %s (force %s) reads as %r", where, a, b, force, o.X)
                    need([p.name for p in o.PSObject.extended_properties].count("X") <= 1, "two properties")
                    try:
                        o.X = 5
                        need(now != "alias", "an alias was assigned")
                        if now == "script":
                            need(o.Base == 5 and o.X == ("script", v), "the setter did not run")
                        else:
                            need(o.X == (5 if now == "note" else "5"), "assigned 5 and read %r", o.X)
                    except ValueError:
                        need(now == "alias", "%s could not be assigned", now)
                    if where != "instance":
                        need(other.X == reads(a, 1) and cls().X == reads(a, 1), "another object changed")
                    m.count("enumerated")


def _extent(m):
    """The parts of a script extent are those of its two positions."""
    for n in range(4):
        a = T.ScriptPosition("file %d" % n, 3 + n, 5 * n, "line a")
        b = T.ScriptPosition("other %d" % n, 40 + n, 9 + n, "line b")
        x = T.ScriptExtent(a, b) if n % 2 else T.ScriptExtent(EndPosition=b, StartPosition=a)
        need((a.File, a.LineNumber, a.ColumnNumber, a.Line, a.Offset) == ("file %d" % n, 3 + n, 5 * n, "line a", 0), "a position has %s",
             vars(a))
        want = dict(File=a.File, StartLineNumber=3 + n, StartColumnNumber=5 * n, EndLineNumber=40 + n,
                    EndColumnNumber=9 + n, StartOffset=0, EndOffset=0)
        for k, v in want.items():
            need(getattr(x, k) == v and x[k] == v, "%s of an extent is %r and not %r", k, getattr(x, k), v)
            try:
                setattr(x, k, v)
            except ValueError:
                pass
            else:
                need(False, "%s of an extent was assigned", k)
        for k, v in (("StartScriptPosition", a), ("EndScriptPosition", b)):
            need(v.File in str(getattr(x, k)) and str(int(v.LineNumber)) in str(getattr(x, k)), "%s of an extent is %r", k, getattr(x, k))
        m.count("extents")


# raw values of a kind of property, and what they become
UUID = uuid.UUID("01020304-0506-0708-090a-0b0c0d0e0f10")
NOW = datetime.datetime(2021, 2, 3, 4, 5, 6)
RAW = {
    "s": [("text", "text"), (5, "5"), ("", "")], "i": [(5, 5), ("7", 7), (-(2**31), -(2**31))],
    "l": [(2**40, 2**40), ("7", 7)], "u": [(2**32 - 1, 2**32 - 1), ("7", 7)], "c": [(65, T.PSChar("A")), ("B", T.PSChar(66))],
    "b": [(True, True), (False, False)], "L": [([1, "a"], [1, "a"]), ((), [])], "D": [({"a": 1}, {"a": 1}), ({}, {})],
    "P": [({"a": 1}, {"a": 1}), ({}, {})], "v": [("1.2.3", T.PSVersion("1.2.3"))], "y": [(b"ab", b"ab"), (b"", b"")],
    "g": [(str(UUID), UUID)], "t": [],
}
OUT_OF_RANGE = {"i": [2**31, -(2**31) - 1, "x"], "l": [2**63], "u": [-1, 2**32], "v": ["x"], "g": ["x"]}
DEFAULTS = {
    "ProgressRecord": {"ParentActivityId": -1, "PercentComplete": -1, "SecondsRemaining": -1, "CurrentOperation": None,
                       "RecordType": T.ProgressRecordType.Processing},
    "ErrorCategoryInfo": {"Category": T.ErrorCategory.NotSpecified, "Activity": None, "Reason": None,
                          "TargetName": None, "TargetType": None},
    "FieldDescription": {"Label": "", "HelpMessage": "", "IsMandatory": True, "DefaultValue": None},
    "HostInfo": {"IsHostNull": True, "IsHostUINull": True, "IsHostRawUINull": True, "UseRunspaceHost": True},
}


def _declared(m):
    """The properties of the protocol's classes: the class of their values, what has to be given and what not."""
    for name, (tn, ad, ex) in K.CLASSES.items():
        cls = getattr(T, name)
        o = cls.PSObject
        if tn:
            need(" ".join(o.type_names) == tn, "%s has the type names %s", name, o.type_names)
        for kind, have, spec in (("adapted", o.adapted_properties, ad), ("extended", o.extended_properties, ex)):
            names = [p[0] for p in K.props(spec)]
            need([p.name for p in have] == names, "%s has the %s properties %s", name, kind, [p.name for p in have])
        m.count("declared names")
        ps = [p for p in K.props(ad) + K.props(ex) if p[2] != "()"]
        for p, _mandatory, k in ps:
            what = "%s.%s" % (name, p)
            o = cls.__new__(cls)
            inst = object()
            if k == "*":
                vals, bad, want = [(inst, inst), (5, 5), ("a", "a")], [], None
            elif k in K.ENUMS:
                want = getattr(T, k)
                vals, bad = [(v, want(v)) for _n, v in K.members(K.ENUMS[k][1])], []
                vals += [(want(v), want(v)) for _n, v in K.members(K.ENUMS[k][1])]
            elif k in K.KINDS:
                want = bool if k == "b" else getattr(T, K.KINDS[k])
                vals, bad = RAW[k], OUT_OF_RANGE.get(k, [])
                if k == "t":
                    now = T.PSDateTime(2021, 2, 3, 4, 5, 6)
                    vals = [(now, now)]
            else:
                want = getattr(T, k)
                pos = T.ScriptPosition("f", 1, 2, "line")
                i = T.ScriptExtent(pos, pos) if k == "ScriptExtent" else want.__new__(want)
                vals, bad = [(i, i)], []
            for v, w in vals:
                setattr(o, p, v)
                g = getattr(o, p)
                need((want is None or type(g) is want) and (g is w or g == w), "%s = %r became %r (%s)", what, v, g,
                     type(g).__name__)
                m.count("declared")
                m.case((name, p, repr(v) if k in K.ENUMS or k in RAW else type(v).__name__))
            for v in bad:
                try:
                    setattr(o, p, v)
                except (ValueError, TypeError, OverflowError):
                    m.count("declared refused")
                else:
                    need(False, "%s = %r became %r", what, v, getattr(o, p))
                need(getattr(o, p) is g, "%s = %r was refused and is now %r", what, v, getattr(o, p))
            setattr(o, p, None)
            need(getattr(o, p) is None, "%s = None became %r", what, getattr(o, p))
        if issubclass(cls, T.PSCustomObject) or not ps or "()" in ad and name != "ScriptPosition":
            continue
        # what has to be given
        must = [p for p, mandatory, _k in ps if mandatory]
        for missing in [None] + must:
            given = {p: None for p in must if p != missing}
            try:
                o = cls(**given)
            except TypeError:
                need(missing is not None, "%s(%s) was refused", name, ", ".join(given))
                m.count("declared mandatory")
                continue
            need(missing is None, "%s was made without %s", name, missing)
            for p, v in DEFAULTS.get(name, {}).items():
                g = getattr(o, p)
                need(g == v and (v is None) == (g is None), "%s.%s is %r when it is not given and not %r", name, p, g, v)
                m.count("declared default")


def units(tier):
    return [("signatures", _signatures), ("shadow", _shadow), ("declared", _declared), ("extent", _extent)]
