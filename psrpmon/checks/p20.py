"""P20: arithmetic and ordering of numeric, time and version types is exact."""

import datetime
import decimal
import itertools
import operator
import re

from .. import values as V
from ..mon import need

from psrpcore import types as T

PROP = "P20"
LEVEL = "exploration"
RULE = ("distinct (operator, operand types, operands) whose result was compared with exact integer arithmetic; "
        "texts that were parsed back independently")
ASSUMPTIONS = ["the result has the type of the left operand; with a plain left operand its type is not fixed",
               "date-times have whole-minute offsets from UTC; comparing date-times is not part of the property",
               "a version is compared with versions and with texts that are versions",
               "multiplication and division of durations are not part of the property"]
CASES = {"quick": 60000, "thorough": 6000000}
TIME = {"quick": 60, "thorough": 800}
REQUIRE = ["integer results", "integer refusals", "reflected", "date-time results", "date-time differences",
           "duration results", "duration comparisons", "version comparisons", "hashes", "texts", "constructions",
           "enumerated", "flag results"]

RANGE = {k: v for k, v in V.INT_RANGE.items() if k != "int"}
INTS = sorted(RANGE)
DT0 = datetime.datetime(1, 1, 1)
DT_MAX = (datetime.datetime.max - DT0) // datetime.timedelta(microseconds=1)


# ---- integers -------------------------------------------------------------------------------------------------------


def lshift(a, b):
    if b > 200:
        raise ValueError("too far")
    return a << b


def power(a, b):
    return a ** b


BIN = {"+": operator.add, "-": operator.sub, "*": operator.mul, "//": operator.floordiv, "%": operator.mod,
       "<<": lshift, ">>": operator.rshift, "&": operator.and_, "|": operator.or_, "^": operator.xor, "**": power,
       "divmod": divmod}
UN = {"neg": operator.neg, "pos": operator.pos, "abs": operator.abs, "~": operator.invert}
CMP = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}


def outcome(fn, *a):
    try:
        return ("is", fn(*a))
    except Exception as e:  # noqa: BLE001 - the kind of refusal is compared
        return ("refused", e)


def exact(got, want, cls, what):
    """One integer result: its value, and its type when that is fixed."""
    need(isinstance(got, int) and not isinstance(got, bool) and int(got) == want, "%s is %d and not %r", what, want,
         got)
    if cls is not None:
        need(type(got) is cls, "%s is a %s", what, type(got).__name__)


def int_binary(op, a, b, m):
    """a and b: plain or bounded integers, at least one bounded."""
    fn = BIN[op]
    pa, pb = int(a), int(b)
    if op == "**" and not (abs(pa) <= 1 or abs(pb) <= 70):
        return
    if op in ("<<", ">>") and pb > 300:
        return
    what = "%s(%d) %s %s(%d)" % (type(a).__name__, pa, op, type(b).__name__, pb)
    k, want = outcome(fn, pa, pb)
    g, got = outcome(fn, a, b)
    left = type(a) if type(a).__name__ in RANGE else None
    if k == "refused":
        need(g == "refused", "%s gave %r", what, got)
        m.count("integer refusals")
        return
    if isinstance(want, float):  # a negative power is no integer
        need(g == "refused" or (isinstance(got, float) and got == want), "%s gave %r and not %r", what, got, want)
        return
    parts = list(want) if op == "divmod" else [want]
    fits = left is None or RANGE[left.__name__][0] <= parts[0] <= RANGE[left.__name__][1]
    if not fits:
        need(g == "refused" and isinstance(got, (ValueError, OverflowError)), "%s does not fit and gave %r", what, got)
        m.count("integer refusals")
        return
    need(g == "is", "%s was refused: %r", what, got)
    have = list(got) if op == "divmod" else [got]
    need(len(have) == len(parts), "%s gave %r", what, got)
    exact(have[0], parts[0], left, what)
    for x, y in zip(have[1:], parts[1:]):
        exact(x, y, None, what)
    m.count("integer results" if left is not None else "reflected")
    m.case((op, type(a).__name__, pa, type(b).__name__, pb))


def int_unary(op, a, m):
    fn = UN[op]
    want = fn(int(a))
    lo, hi = RANGE[type(a).__name__]
    what = "%s %s(%d)" % (op, type(a).__name__, a)
    g, got = outcome(fn, a)
    if lo <= want <= hi:
        need(g == "is", "%s was refused: %r", what, got)
        exact(got, want, type(a), what)
        m.count("integer results")
    else:
        need(g == "refused", "%s does not fit and gave %r", what, got)
        m.count("integer refusals")
    m.case((op, type(a).__name__, int(a)))


def int_same(a, m):
    """Text, hash and equality of a bounded integer."""
    p = int(a)
    need(type(p) is int, "int() gave a %s", type(p).__name__)
    need(str(a) == str(p) and repr(a) == repr(p) and "%d" % a == str(p) and format(a, "x") == format(p, "x") and
         format(a) == str(p) and format(a, "d") == str(p), "%s(%d) reads as %s, %r, %s", type(a).__name__, p, a, a,
         format(a, "x"))
    need(a == p and p == a and hash(a) == hash(p) and bool(a) == bool(p) and not a != p, "%s(%d) differs from %d",
         type(a).__name__, p, p)
    for c in INTS:
        lo, hi = RANGE[c]
        g, got = outcome(getattr(T, c), a)
        if lo <= p <= hi:
            need(g == "is" and type(got) is getattr(T, c) and int(got) == p, "%s(%d) gave %r", c, p, got)
            need(got == a and hash(got) == hash(a), "%s(%d) and %s(%d) differ", c, p, type(a).__name__, p)
        else:
            need(g == "refused" and isinstance(got, ValueError), "%s(%d) gave %r", c, p, got)
        m.count("constructions")
    m.count("hashes")
    m.count("texts")


def gen_ps_int(t, cls=None):
    c = cls or t.pick(INTS)
    lo, hi = RANGE[c]
    v = t.int(max(lo, -20), min(hi, 20)) if t.bool(1, 3) else V.gen_int_in(t, lo, hi)
    return getattr(T, c)(v)


def gen_other(t):
    k = t.draw(4)
    if k == 0:
        return gen_ps_int(t)
    if k == 1:
        return t.int(-70, 70)
    if k == 2:
        return V.gen_int_in(t, -2**66, 2**66)
    return t.bool()


def ints(t, m):
    a = gen_ps_int(t)
    k = t.draw(8)
    if k == 0:
        int_unary(t.pick(sorted(UN)), a, m)
    elif k == 1:
        int_same(a, m)
        b = gen_other(t)
        for op, fn in CMP.items():
            need(fn(a, b) is fn(int(a), int(b)), "%r %s %r", a, op, b)
            need(fn(b, a) is fn(int(b), int(a)), "%r %s %r", b, op, a)
    elif k == 2:  # constructions
        lo, hi = RANGE[type(a).__name__]
        v = V.gen_int_in(t, lo - 300, hi + 300) if t.bool() else V.gen_int_in(t, -2**70, 2**70)
        base = t.pick([10, 16, 2, 8])
        text = {10: "%d", 16: "%x", 8: "%o"}.get(base, "%d") % v if base != 2 else format(v, "b")
        for fn in (lambda: type(a)(v), lambda: type(a)(str(v)), lambda: type(a)(text, base),
                   lambda: type(a)(text, base=base)):
            g, got = outcome(fn)
            if lo <= v <= hi:
                need(g == "is" and type(got) is type(a) and int(got) == v, "%s of %d gave %r", type(a).__name__, v, got)
            else:
                need(g == "refused" and isinstance(got, ValueError), "%s of %d gave %r", type(a).__name__, v, got)
            m.count("constructions")
    elif k == 3 and t.bool():  # three operands
        e, mod = t.int(0, 40), t.pick([1, 2, 7, 97, 251, -5])
        want = pow(int(a), e, mod)
        lo, hi = RANGE[type(a).__name__]
        g, got = outcome(pow, a, e, mod)
        if lo <= want <= hi:
            need(g == "is", "pow was refused: %r", got)
            exact(got, want, type(a), "pow(%d, %d, %d)" % (a, e, mod))
        else:
            need(g == "refused", "pow(%d, %d, %d) gave %r", a, e, mod, got)
    else:
        b = gen_other(t)
        op = t.pick(sorted(BIN))
        if op in ("<<", ">>", "**") and t.bool(7, 8):
            b = t.int(-2, 66)
        if t.bool(3, 4):
            int_binary(op, a, b, m)
        elif abs(int(b)) < 300 or op not in ("<<", ">>", "**"):
            if op in ("<<", ">>", "**"):
                a = type(a)(int(a) % 60)
            int_binary(op, b, a, m)


# ---- durations ------------------------------------------------------------------------------------------------------


def ns_of(d):
    """What a duration says of itself, in nanoseconds."""
    n = getattr(d, "nanoseconds", 0)
    need(isinstance(n, int) and 0 <= n <= 999, "nanoseconds of a duration are %r", n)
    return ((d.days * 86400 + d.seconds) * 10**6 + d.microseconds) * 1000 + n


def td(us):
    return datetime.timedelta(microseconds=us)


def gen_ns(t):
    k = t.draw(6)
    if k == 0:
        return t.int(-2500, 2500)
    if k == 1:
        return V.gen_int_in(t, -2**63 * 100, (2**63 - 1) * 100)
    if k == 2:
        unit = t.pick([1, 100, 1000, 10**6, 10**9, 60 * 10**9, 3600 * 10**9, 86400 * 10**9])
        return unit * t.int(-3, 3) + t.int(-2, 2)
    if k == 3:
        return t.int(-10, 10) * 86400 * 10**9 + t.int(-10**12, 10**12)
    if k == 4:
        return V.gen_int_in(t, -10**15, 10**15)
    return V.gen_ticks(t) * 100


def gen_dur(t):
    """(object, its nanoseconds)"""
    ns = gen_ns(t)
    if t.bool(1, 4):
        return td(ns // 1000), ns // 1000 * 1000
    return make_dur(t, ns), ns


def make_dur(t, ns):
    k = t.draw(4)
    if k == 0:
        return T.PSDuration(nanoseconds=ns)
    if k == 1:
        return T.PSDuration(td(ns // 1000), nanoseconds=ns % 1000)
    rest, n = divmod(ns, 1000)
    rest, us = divmod(rest, 10**6)
    days, s = divmod(rest, 86400)
    if k == 2:
        return T.PSDuration(days, s, us, nanoseconds=n)
    ms, us = divmod(us, 1000)
    mi, s = divmod(s, 60)
    h, mi = divmod(mi, 60)
    return T.PSDuration(days=days, hours=h, minutes=mi, seconds=s, milliseconds=ms, microseconds=us, nanoseconds=n)


_RE_DUR = re.compile(r"^(?:(-?\d+) days?, )?(\d+):(\d\d):(\d\d)(?:\.(\d{6}|\d{9}))?$")


def dur_text(d, ns):
    x = _RE_DUR.match(str(d))
    need(x is not None, "a duration reads as %a", str(d))
    days, h, mi, s, f = x.groups()
    got = ((int(days or 0) * 24 + int(h)) * 3600 + int(mi) * 60 + int(s)) * 10**9 + int((f or "").ljust(9, "0"))
    need(got == ns and int(mi) < 60 and int(s) < 60 and int(h) < 24, "%d ns read as %a", ns, str(d))
    back = eval(repr(d), {"PSDuration": T.PSDuration})  # noqa: S307 - the text the code under test just made
    need(type(back) is T.PSDuration and ns_of(back) == ns, "%d ns are represented as %s", ns, repr(d))


def is_dur(got, ns, what):
    need(type(got) is T.PSDuration, "%s is a %s", what, type(got).__name__)
    need(ns_of(got) == ns, "%s is %d ns and not %d", what, ns_of(got), ns)


def check_dur_pair(a, na, b, nb, m):
    ps = [x for x in (a, b) if type(x) is T.PSDuration]
    need(ns_of(a) == na and ns_of(b) == nb, "durations of %d and %d ns were made as %d and %d", na, nb, ns_of(a),
         ns_of(b))
    if not ps:
        return
    for sym, fn in CMP.items():
        need(fn(a, b) is fn(na, nb), "%d ns %s %d ns is %s", na, sym, nb, fn(a, b))
    m.count("duration comparisons", 6)
    if na == nb:
        need(hash(a) == hash(b), "equal durations of %d ns have different hashes", na)
        m.count("hashes")
    is_dur(a + b, na + nb, "%d ns + %d ns" % (na, nb))
    is_dur(a - b, na - nb, "%d ns - %d ns" % (na, nb))
    x = a
    x += b
    is_dur(x, na + nb, "%d ns += %d ns" % (na, nb))
    x = a
    x -= b
    is_dur(x, na - nb, "%d ns -= %d ns" % (na, nb))
    for p, n in ((a, na), (b, nb)):
        if type(p) is T.PSDuration:
            is_dur(-p, -n, "- %d ns" % n)
            is_dur(+p, n, "+ %d ns" % n)
            is_dur(T.PSDuration(p), n, "a copy of %d ns" % n)
            dur_text(p, n)
            m.count("texts")
        need(ns_of(p) == n, "an operation changed %d ns to %d", n, ns_of(p))
    m.count("duration results", 4)
    m.case(("dur", type(a).__name__, na, type(b).__name__, nb))


def durations(t, m):
    a, na = gen_dur(t)
    k = t.draw(4)
    if k == 0:  # an equal or close one
        nb = na + t.pick([0, 0, 1, -1, 100, -100, 999, 1000, -1000])
        b = make_dur(t, nb) if t.bool(2, 3) else td(nb // 1000)
        nb = nb if type(b) is T.PSDuration else nb // 1000 * 1000
    else:
        b, nb = gen_dur(t)
    check_dur_pair(a, na, b, nb, m)
    if type(a) is T.PSDuration and t.bool(1, 4):
        for other in (5, "x", None, 1.5):
            need(outcome(operator.add, a, other)[0] == "refused" and outcome(operator.sub, other, a)[0] == "refused" and
                 outcome(operator.lt, a, other)[0] == "refused", "a duration and %r were combined", other)
            need((a == other) is False and (a != other) is True, "a duration equals %r", other)


# ---- date-times -----------------------------------------------------------------------------------------------------


def make_tz(off):
    return None if off is None else datetime.timezone(datetime.timedelta(minutes=off))


def wall(d):
    """(nanoseconds since year 1 on its own clock, offset in minutes) of a date-time, from its fields."""
    n = getattr(d, "nanosecond", 0)
    need(isinstance(n, int) and 0 <= n <= 999, "nanoseconds of a date-time are %r", n)
    us = ((d.toordinal() - 1) * 86400 + d.hour * 3600 + d.minute * 60 + d.second) * 10**6 + d.microsecond
    off = d.utcoffset()
    return us * 1000 + n, None if off is None else off // datetime.timedelta(minutes=1)


def gen_dt(t):
    """(object, nanoseconds, offset)"""
    us = V.gen_int_in(t, 0, DT_MAX) if t.bool(1, 3) else t.pick(
        [0, DT_MAX, 719162 * 86400 * 10**6, t.int(0, DT_MAX)]) + t.int(-3 * 10**6, 3 * 10**6)
    us = min(max(us, 0), DT_MAX)
    off = t.pick([None, None, 0, 60, -60, 330, -210, 14 * 60, t.int(-1439, 1439)])
    base = (DT0 + td(us)).replace(tzinfo=make_tz(off))
    if t.bool(1, 4):
        return base, us * 1000, off
    n = t.pick([0, 1, 100, 999, t.int(0, 999), t.int(0, 9) * 100])
    if t.bool():
        d = T.PSDateTime(base, nanosecond=n)
    else:
        d = T.PSDateTime(base.year, base.month, base.day, base.hour, base.minute, base.second, base.microsecond,
                         tzinfo=base.tzinfo, nanosecond=n)
    return d, us * 1000 + n, off


_RE_DT = re.compile(r"^(\d{4})-(\d\d)-(\d\d) (\d\d):(\d\d):(\d\d)(?:\.(\d{6}|\d{9}))?(?:([+-])(\d\d):(\d\d))?$")


def dt_text(d, ns, off):
    x = _RE_DT.match(str(d))
    need(x is not None, "a date-time reads as %a", str(d))
    y, mo, da, h, mi, s, f, sign, oh, om = x.groups()
    us = (datetime.datetime(int(y), int(mo), int(da), int(h), int(mi), int(s)) - DT0) // td(1)
    got = us * 1000 + int((f or "").ljust(9, "0"))
    o = None if sign is None else (int(oh) * 60 + int(om)) * (1 if sign == "+" else -1)
    need(got == ns and o == off, "date-time of %d ns offset %s reads as %a", ns, off, str(d))
    back = eval(repr(d), {"PSDateTime": T.PSDateTime, "datetime": datetime})  # noqa: S307
    need(type(back) is T.PSDateTime and wall(back) == (ns, off), "date-time of %d ns is represented as %s", ns, repr(d))


def is_dt(fn, ns, off, what, m):
    k, got = outcome(fn)
    if not 0 <= ns <= DT_MAX * 1000 + 999:
        need(k == "refused" and isinstance(got, OverflowError), "%s is out of range and gave %r", what, got)
        return
    if k == "refused" and isinstance(got, OverflowError) and ns < 1000:
        return  # (the first microsecond of year 1 may not be reached)
    need(k == "is", "%s was refused: %r", what, got)
    need(type(got) is T.PSDateTime, "%s is a %s", what, type(got).__name__)
    need(wall(got) == (ns, off), "%s is %s and not %s", what, wall(got), (ns, off))
    m.count("date-time results")


def check_dt_dur(d, nd, off, u, nu, m):
    what = "date-time %d ns %s duration %d ns"
    if type(d) is datetime.datetime:
        if type(u) is T.PSDuration and nu % 1000 == 0:
            # (the plain type has no nanoseconds: it cannot be asked for more)
            k, got = outcome(operator.add, d, u)
            if 0 <= nd + nu <= DT_MAX * 1000:
                need(k == "is" and wall(got)[0] == nd + nu, "%d + %d is %r", nd, nu, got)
        return
    is_dt(lambda: d + u, nd + nu, off, what % (nd, "+", nu), m)
    is_dt(lambda: u + d, nd + nu, off, what % (nd, "radd", nu), m)
    is_dt(lambda: d - u, nd - nu, off, what % (nd, "-", nu), m)
    need(outcome(operator.sub, u, d)[0] == "refused", "a date-time was subtracted from a duration")
    need(wall(d) == (nd, off) and ns_of(u) == nu, "an operation changed its operands")
    if off is not None and 0 <= nd + nu <= DT_MAX * 1000 + 999:
        k, got = outcome(operator.add, d, u)
        need(k == "refused" or got.tzinfo is d.tzinfo, "the time zone changed")
    m.case(("dt", nd, off, type(u).__name__, nu))


def check_dt_dt(a, na, oa, b, nb, ob, m):
    if type(a) is datetime.datetime and type(b) is datetime.datetime:
        return
    k, got = outcome(operator.sub, a, b)
    if (oa is None) != (ob is None):
        need(k == "refused" and isinstance(got, TypeError), "naive and aware date-times were subtracted: %r", got)
        return
    want = na - nb - ((oa or 0) - (ob or 0)) * 60 * 10**9
    need(k == "is", "a difference was refused: %r", got)
    is_dur(got, want, "the difference of %d (%s) and %d (%s)" % (na, oa, nb, ob))
    need(wall(a) == (na, oa) and wall(b) == (nb, ob), "an operation changed its operands")
    if a == b and type(a) is type(b):
        need(hash(a) == hash(b), "equal date-times have different hashes")
        m.count("hashes")
    m.count("date-time differences")
    m.case(("dtdt", type(a).__name__, na, oa, type(b).__name__, nb, ob))


def datetimes(t, m):
    a, na, oa = gen_dt(t)
    if type(a) is T.PSDateTime:
        dt_text(a, na, oa)
        m.count("texts")
        c = T.PSDateTime(a)
        need(wall(c) == (na, oa), "a copy of a date-time differs")
        need(hash(c) == hash(a) and c == a, "a copy of a date-time is not equal")
        m.count("hashes")
        for other in (5, "x", None):
            need(outcome(operator.add, a, other)[0] == "refused" and outcome(operator.sub, a, other)[0] == "refused",
                 "a date-time and %r were combined", other)
    k = t.draw(3)
    if k == 0:
        u, nu = gen_dur(t)
        check_dt_dur(a, na, oa, u, nu, m)
    elif k == 1:  # one that leads close to the end of the range or across a boundary
        nu = t.pick([-na, DT_MAX * 1000 + 999 - na, -(na % 1000), -(na % 10**9), -(na % (86400 * 10**9))]) + \
            t.int(-1100, 1100)
        check_dt_dur(a, na, oa, make_dur(t, nu), nu, m)
    else:
        b, nb, ob = gen_dt(t)
        check_dt_dt(a, na, oa, b, nb, ob, m)
        if type(a) is T.PSDateTime and (oa is None) == (ob is None):
            d = a - b
            if oa == ob:  # and back again
                is_dt(lambda: b + d if type(b) is T.PSDateTime else T.PSDateTime(b) + d, na, ob, "b + (a - b)", m)


# ---- versions and the rest ------------------------------------------------------------------------------------------


def gen_ver(t):
    n = t.int(2, 4)
    return tuple(t.pick([0, 1, 2, 9, 10, 11, 99, 100, 2**31 - 1, t.int(0, 30)]) for _ in range(n))


def make_ver(t, v):
    if t.bool():
        return T.PSVersion(".".join(map(str, v)))
    return T.PSVersion(**dict(zip(("major", "minor", "build", "revision"), v)))


def check_versions(a, va, b, vb, m):
    ta, tb = ".".join(map(str, va)), ".".join(map(str, vb))
    for sym, fn in CMP.items():
        want = fn(va, vb)
        need(fn(a, b) is want, "version %s %s %s is %s", ta, sym, tb, fn(a, b))
        need(fn(a, tb) is want, "version %s %s text %s is %s", ta, sym, tb, fn(a, tb))
        need(fn(ta, b) is want, "text %s %s version %s is %s", ta, sym, tb, fn(ta, b))
        need(fn(a, T.PSString(tb)) is want, "version %s %s string %s", ta, sym, tb)
    if va == vb:
        need(hash(a) == hash(b) == hash(ta), "equal versions %s have different hashes", ta)
        m.count("hashes")
    need(str(a) == ta, "version %s reads as %s", ta, a)
    back = eval(repr(a), {"PSVersion": T.PSVersion})  # noqa: S307
    need((back.major, back.minor, back.build, back.revision) == (va + (None, None))[:4], "version %s is represented as "
         "%s", ta, repr(a))
    m.count("texts")
    m.count("version comparisons", 24)
    m.case(("ver", va, vb))


BAD = ["1", "", "1.", ".1", "a.b", "1.2.3.4.5", "01.2", "1.02", "-1.2", "1.-2", " 1.2", "1.2 ", "1.2\n", "1,2",
       "1.2.", "1..2", "1.2.3.x", "1.\u0661", "1.2\u0663", "+1.2", "1.2.3.04", "1_0.2"]


def versions(t, m):
    va = gen_ver(t)
    if t.bool():
        vb = list(va)
        k = t.draw(4)
        if k == 0 and len(vb) < 4:
            vb.append(t.pick([0, 1]))
        elif k == 1 and len(vb) > 2:
            vb.pop()
        elif k == 2:
            i = t.draw(len(vb))
            vb[i] = max(0, vb[i] + t.pick([-1, 1, 10]))
        vb = tuple(vb)
    else:
        vb = gen_ver(t)
    check_versions(make_ver(t, va), va, make_ver(t, vb), vb, m)
    if t.bool(1, 8):
        a = make_ver(t, va)
        for other in (5, None, 1.5, va, [1]):
            need((a == other) is False and (a != other) is True, "version equals %r", other)
            need(outcome(operator.lt, a, other)[0] == "refused" and outcome(operator.ge, a, other)[0] == "refused",
                 "version and %r were ordered", other)


def others(t, m):
    k = t.draw(4)
    if k == 0:
        f = V.gen_float(t)
        for c in (T.PSDouble, T.PSSingle):
            x = c(f)
            need(str(x) == str(f) and repr(x) == repr(f) and (f != f or float(str(x)) == f), "%r reads as %s", f, x)
            if f == f:
                need(x == f and hash(x) == hash(f), "%r differs from itself", f)
                g = V.gen_float(t)
                for op in (operator.add, operator.mul, operator.lt, operator.ge):
                    need(repr(op(x, g)) == repr(op(f, g)) and repr(op(g, x)) == repr(op(g, f)), "%r and %r", f, g)
        m.count("texts")
    elif k == 1:
        d = V.gen_decimal(t)
        x = T.PSDecimal(d)
        need(str(x) == str(d) and decimal.Decimal(str(x)).as_tuple() == d.as_tuple() and x == d and
             hash(x) == hash(d), "%s reads as %s", d, x)
        e = V.gen_decimal(t)
        for op in (operator.add, operator.sub, operator.mul, operator.lt, operator.ge):
            need(op(x, e) == op(d, e) and op(T.PSDecimal(e), x) == op(e, d), "%s and %s", d, e)
        m.count("texts")
    elif k == 2:
        c = t.pick([0, 65, 0x7F, 0xD7FF, 0xE000, 0xFFFF, t.int(0, 65535)])
        x = T.PSChar(c)
        need(int(x) == c and str(x) == chr(c) and x == c and hash(x) == hash(c) and repr(x) == repr(c), "char %d", c)
        if not 0xD800 <= c <= 0xDFFF:
            need(int(T.PSChar(chr(c))) == c and int(T.PSChar(chr(c).encode())) == c, "char %d made from text", c)
        for bad in (-1, 65536, "ab", "\U0001F600", -2**40, 2**40):
            need(outcome(T.PSChar, bad)[0] == "refused", "a char was made of %r", bad)
        m.count("texts")
    else:
        bad = t.pick(BAD)
        k, got = outcome(T.PSVersion, bad)
        need(k == "refused" and isinstance(got, ValueError), "a version was made of %a: %r", bad, got)
        for kw in ({"major": 1}, {"minor": 1}, {}, {"major": 1, "minor": 2, "revision": 3}):
            need(outcome(lambda: T.PSVersion(**kw))[0] == "refused", "a version was made of %s", kw)
    m.count("constructions")


def case(t, m):
    t.weighted([(5, ints), (3, durations), (3, datetimes), (2, versions), (1, others)])(t, m)


# ---- enumerated -----------------------------------------------------------------------------------------------------


def _edges(part):
    def run(m):
        for c in INTS[part::4]:
            cls = getattr(T, c)
            lo, hi = RANGE[c]
            vals = sorted({lo, lo + 1, lo // 2, hi // 2, hi - 1, hi} | {v for v in range(-4, 5) if lo <= v <= hi})
            for a in vals:
                int_same(cls(a), m)
                for op in UN:
                    int_unary(op, cls(a), m)
                others_ = [cls(v) for v in vals] + list(range(-5, 6)) + [7, 8, 15, 16, 31, 32, 63, 64, hi + 1, lo - 1]
                for b in others_:
                    for op in BIN:
                        int_binary(op, cls(a), b, m)
                        if type(b) is int and abs(a) < 100:
                            int_binary(op, b, cls(a), m)
                    m.count("enumerated")
    return run


def _all_bytes(m):
    """Every pair of the two smallest types, every operator."""
    for c in ("PSByte", "PSSByte"):
        cls = getattr(T, c)
        lo, hi = RANGE[c]
        objs = [cls(v) for v in range(lo, hi + 1)]
        for a in objs[::3] + objs[-1:]:
            for b in objs[::7] + objs[-1:]:
                for op in ("+", "-", "*", "//", "%", "&", "|", "^"):
                    int_binary(op, a, b, m)
                m.count("enumerated")


def _dur_edges(m):
    units_ = [0, 1, 99, 100, 999, 1000, 1001, 10**6, 10**9 - 1, 10**9, 60 * 10**9, 3600 * 10**9, 86400 * 10**9 - 1,
              86400 * 10**9, 2**63 * 100 - 100]
    vals = sorted({s * u for u in units_ for s in (1, -1)} | {-2**63 * 100})
    for a, b in itertools.product(vals, repeat=2):
        check_dur_pair(T.PSDuration(nanoseconds=a), a, T.PSDuration(nanoseconds=b), b, m)
        if b % 1000 == 0:
            check_dur_pair(T.PSDuration(nanoseconds=a), a, td(b // 1000), b, m)
            check_dur_pair(td(b // 1000), b, T.PSDuration(nanoseconds=a), a, m)
        m.count("enumerated")
    days = [0, 1, 719162 * 86400 * 10**6, DT_MAX - 1, DT_MAX]
    for us, n, off, u in itertools.product(days, (0, 1, 100, 900, 999), (None, 0, 90, -570), vals):
        d = T.PSDateTime((DT0 + td(us)).replace(tzinfo=make_tz(off)), nanosecond=n)
        check_dt_dur(d, us * 1000 + n, off, T.PSDuration(nanoseconds=u), u, m)
        if u % 1000 == 0:
            check_dt_dur(d, us * 1000 + n, off, td(u // 1000), u, m)
        m.count("enumerated")
    need(ns_of(T.PSDuration.min) == -2**63 * 100 and ns_of(T.PSDuration.max) == (2**63 - 1) * 100 and
         ns_of(T.PSDuration.resolution) == 100, "the limits of a duration changed")


def _ver_pairs(m):
    vals = [v for n in (2, 3, 4) for v in itertools.product((0, 1, 10), repeat=n)]
    objs = {v: T.PSVersion(".".join(map(str, v))) for v in vals}
    for a, b in itertools.product(vals, repeat=2):
        check_versions(objs[a], a, objs[b], b, m)
        m.count("enumerated")
    for bad in BAD:
        k, got = outcome(T.PSVersion, bad)
        need(k == "refused" and isinstance(got, ValueError), "a version was made of %a: %r", bad, got)


FLAGS = [c for c in V.PS_ENUMS.values() if issubclass(c, T.PSFlagBase)]
BITS = {"|": operator.or_, "&": operator.and_, "^": operator.xor}


def flag_pair(c, a, b, m):
    for op, fn in BITS.items():
        got = fn(a, b)
        need(type(got) is c and int(got) == fn(int(a), int(b)), "%r %s %r is %r", a, op, b, got)
        for x, y in ((a, int(b)), (int(b), a)):
            got = fn(x, y)
            need(isinstance(got, int) and int(got) == fn(int(a), int(b)), "%r %s %r is %r", x, op, y, got)
        m.count("flag results", 3)
    need((b in a) == (int(a) & int(b) == int(b)), "%r in %r", b, a)
    need((a == b) == (int(a) == int(b)) and (a != b) == (int(a) != int(b)), "%r == %r", a, b)
    if a == b:
        need(hash(a) == hash(b) and c(int(a)) == a, "equal flags %r have different hashes", a)
    m.case(("flags", c.__name__, int(a), int(b)))


def _flags(m):
    """Sets of flags: every operator on single flags and on combinations."""
    for c in FLAGS:
        mask = 0
        for x in c.__members__.values():
            mask |= int(x)
        one = sorted({1 << i for i in range(mask.bit_length()) if mask >> i & 1})
        vals = {0, mask, *one, *(a | b for a, b in zip(one, one[1:])), *(mask & ~a for a in one)}
        vals = [c(v) for v in sorted(vals)[:24]]
        for a in vals:
            got = ~a
            need(type(got) is c and int(got) == mask & ~int(a), "~%r is %r", a, got)
            need(~got == a, "~~%r is %r", a, ~got)
            need(bool(a) == bool(int(a)), "%r is %s", a, bool(a))
            for b in vals:
                flag_pair(c, a, b, m)
            for other in ("x", None, 1.5, []):
                for op, fn in BITS.items():
                    need(outcome(fn, a, other)[0] == "refused" and outcome(fn, other, a)[0] == "refused",
                         "%r %s %r was accepted", a, op, other)
            m.count("enumerated")


def units(tier):
    return [("edges %d" % i, _edges(i)) for i in range(4)] + [("bytes", _all_bytes), ("durations", _dur_edges),
                                                              ("versions", _ver_pairs),
                                                              ("flags", _flags)]
