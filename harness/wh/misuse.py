"""Calls that must be refused with TypeError or ValueError: arguments of the
wrong kind, unknown names, combinations that make no sense."""
import datetime as dt
import operator

import whenever as W

from .ops import tname

NUMBERS = [1, 0, -3, 1.5, "1", None, dt.timedelta(1), [1]]
BINARY = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv, "%": operator.mod,
          "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
CLASSES = [W.Date, W.Time, W.YearMonth, W.MonthDay, W.Instant, W.OffsetDateTime, W.ZonedDateTime, W.SystemDateTime, W.LocalDateTime,
           W.TimeDelta, W.DateDelta, W.DateTimeDelta]


def ign(x):
    return {"ignore_dst": True} if tname(x) in ("Local", "Offset") else {}


def allowed(x, op, n, flipped):
    """does the library define this?  (numbers scale durations)"""
    t = tname(x)
    number = type(n) in (int, float)
    if op == "*":
        return (t == "TD" and number) or (t in ("DD", "DTD") and type(n) is int)
    return op == "/" and t == "TD" and number and not flipped


def mixing(rng, P):
    """operators and methods given something that is no such value (C15)"""
    x = P.value()
    if x is None:
        return None
    t = tname(x)
    k = rng.random()
    if k < 0.6:
        n, (op, f), flip = rng.choice(NUMBERS), rng.choice(list(BINARY.items())), rng.random() < 0.5
        if allowed(x, op, n, flip):
            return None
        return "%s %s %r %d" % (t, op, n, flip), (lambda: f(n, x)) if flip else (lambda: f(x, n))
    if k < 0.7:
        c = rng.choice(CLASSES)
        return "subclass " + c.__name__, lambda: type("X", (c,), {})
    if k < 0.85:
        d = P.dd()
        if d is None or t not in ("Date", "Local", "Offset", "Zoned", "System"):
            return None
        m, u = rng.choice(["add", "subtract"]), rng.choice(["days", "months", "years", "weeks"])
        return "%s.%s both %s" % (t, m, u), lambda: getattr(x, m)(d, **{u: rng.choice([0, 1])}, **ign(x))
    if t in ("Date", "Local", "Offset", "Zoned", "System", "Instant"):
        m = rng.choice(["add", "subtract"])
        kw = rng.choice([{"foo": 1}, {"day": 1}, {"month": 1}, {"tz": "UTC"}, {"picoseconds": 1}] + ([{"hours": 1}, {"nanoseconds": 0}] if t == "Date" else [])
                        + ([{"days": 1}, {"months": 0}, {"ignore_dst": True}, {"disambiguate": "later"}] if t == "Instant" else []))
        return "%s.%s %s" % (t, m, sorted(kw)), lambda: getattr(x, m)(**kw, **ign(x))
    return None


def ranges(rng, P):
    """fields and offsets out of range or of the wrong kind (C14)"""
    f = P.fields()
    ns = rng.choice([10**9, -1, 2 * 10**9, -10**9, "x", None, 10**30])
    o = rng.choice([1.5, "1", dt.timedelta(hours=1), W.TimeDelta(milliseconds=1), W.TimeDelta(nanoseconds=-1), 24, -24, W.hours(24), W.hours(-24), 25, -100,
                    W.TimeDelta(hours=23, minutes=59, seconds=59, nanoseconds=1), W.seconds(86401)])
    x = P.value()
    loc = P.local()
    ins = P.instant()
    k = rng.randint(0, 10)
    if k == 0:
        return "ns instant %r" % ns, lambda: W.Instant.from_utc(*f[:6], nanosecond=ns)
    if k == 1:
        return "ns local %r" % ns, lambda: W.LocalDateTime(*f[:6], nanosecond=ns)
    if k == 2:
        return "ns zoned %r" % ns, lambda: W.ZonedDateTime(*f[:6], nanosecond=ns, tz="UTC")
    if k == 3:
        return "ns offset %r" % ns, lambda: W.OffsetDateTime(*f[:6], nanosecond=ns, offset=1)
    if k == 4:
        return "ns system %r" % ns, lambda: W.SystemDateTime(*f[:6], nanosecond=ns)
    if k == 5:
        return "ns time %r" % ns, lambda: W.Time(*f[3:6], nanosecond=ns)
    if k == 6 and x is not None and tname(x) in ("Local", "Offset", "Zoned", "System", "Time"):
        g = {"ignore_dst": True} if tname(x) == "Offset" else {}
        return "ns replace %s %r" % (tname(x), ns), lambda: x.replace(nanosecond=ns, **g)
    if k == 7:
        return "offset new %r" % (o,), lambda: W.OffsetDateTime(*f[:6], offset=o)
    if k == 8 and loc is not None:
        return "offset assume %r" % (o,), lambda: loc.assume_fixed_offset(o)
    if k == 9 and ins is not None:
        return "offset to %r" % (o,), lambda: ins.to_fixed_offset(o)
    if k == 10:
        return "offset stamp %r" % (o,), lambda: W.OffsetDateTime.from_timestamp(0, offset=o, ignore_dst=True)
    return None


def options(rng, P):
    """unknown ways to disambiguate (C04, C05)"""
    d = rng.choice(["foo", "", "Later", "EARLIER", "raise ", "compatible\n", "first", "later,earlier"])
    f = P.fields()
    loc, z, s = P.local(), P.zoned(), P.system()
    k = rng.randint(0, 9)
    if k == 0:
        return "zoned %r" % d, lambda: W.ZonedDateTime(*f[:6], tz="UTC", disambiguate=d)
    if k == 1:
        return "system %r" % d, lambda: W.SystemDateTime(*f[:6], disambiguate=d)
    if k == 2 and loc is not None:
        return "assume_tz %r" % d, lambda: loc.assume_tz(P.zone(), disambiguate=d)
    if k == 3 and loc is not None:
        return "assume_system_tz %r" % d, lambda: loc.assume_system_tz(disambiguate=d)
    x = rng.choice([z, s])
    if x is None or not d:
        return None
    t = tname(x)
    if k == 4:
        return "%s.replace %r" % (t, d), lambda: x.replace(hour=4, disambiguate=d)
    if k == 5:
        return "%s.replace_time %r" % (t, d), lambda: x.replace_time(W.Time(3), disambiguate=d)
    if k == 6:
        return "%s.replace_date %r" % (t, d), lambda: x.replace_date(W.Date(2001, 2, 3), disambiguate=d)
    u = rng.choice(["days", "weeks", "months", "years"])
    m = rng.choice(["add", "subtract"])
    if k == 7:
        return "%s.%s %s %r" % (t, m, u, d), lambda: getattr(x, m)(**{u: 1}, disambiguate=d)
    if k == 8:
        return "%s.%s delta %r" % (t, m, d), lambda: getattr(x, m)(W.days(1), disambiguate=d)
    return None


def standard(rng, P):
    """values of the wrong kind from the standard library (C16)"""
    c, m, good = rng.choice([(W.Date, "from_py_date", (dt.date,)), (W.Time, "from_py_time", (dt.time,))])
    b = rng.choice(["2020-01-01", 5, None, dt.date(2020, 1, 1), dt.time(1), dt.timedelta(1)])
    if isinstance(b, good):
        return None
    return "%s %r" % (m, b), lambda: getattr(c, m)(b)


def texts(rng, P):
    """things that are no texts (C10)"""
    c = rng.choice(CLASSES)
    b = rng.choice([5, None, b"2020-01-01", ["2020-01-01"], dt.date(2020, 1, 1), 2020.5])
    return "%s.parse %r" % (c.__name__, b), lambda: c.parse_common_iso(b)


def fields(rng, P):
    """names replace doesn't know, and unsound values (C23)"""
    k = rng.random()
    ym, md = P.ym(), P.md()
    if k < 0.2 and ym is not None:
        kw = rng.choice([{"day": 1}, {"day": None}, {"hour": 1}, {"month": 0}, {"month": 13}, {"year": 0}, {"year": 10000}])
        return "YearMonth.replace %r" % kw, lambda: ym.replace(**kw)
    if k < 0.4 and md is not None:
        kw = rng.choice([{"year": 2020}, {"year": None}, {"hour": 1}, {"month": 0}, {"month": 13}, {"day": 0}, {"day": 32}])
        return "MonthDay.replace %r" % kw, lambda: md.replace(**kw)
    x = P.value()
    if x is None or not hasattr(x, "replace") or tname(x) in ("YearMonth", "MonthDay"):
        return None
    g = {"ignore_dst": True} if tname(x) == "Offset" else {}
    kw = rng.choice([{"hour": 1.0}, {"minute": "x"}, {"second": None}, {"hour": None}, {"hour": 24}, {"minute": 60}, {"second": -1}] if hasattr(x, "hour")
                    else [{"month": 1.0}, {"day": "x"}, {"year": None}])
    return "%s.replace %r" % (tname(x), kw), lambda: x.replace(**kw, **g)
