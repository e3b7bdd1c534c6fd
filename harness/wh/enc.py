"""The values of the library as records of the specification (Values.tla)."""
import datetime as dt
import zoneinfo
import whenever as W

EPOCH_ORD = dt.date(1970, 1, 1).toordinal()
NONE = {"t": "None", "n": [], "z": ""}


def rec(t, n=(), z=""):
    return {"t": t, "n": list(n), "z": z}


def small(t, n, z=""):
    n = list(n)
    for i in n:
        if type(i) is not int or not (-(2**31) < i < 2**31):
            return rec("Malformed", [], "%s %r" % (t, n))
    return rec(t, n, z)


def limbs(i):
    """A big: sign, then little-endian limbs in base 1000"""
    out = [(i > 0) - (i < 0)]
    i = abs(i)
    while i:
        i, r = divmod(i, 1000)
        out.append(r)
    return out


def span_of_ns(ns):
    secs, n = divmod(ns, 1_000_000_000)
    d, s = divmod(secs, 86400)
    return [d, s, n]


def sym(s):
    return rec("Sym", [], s)


def enc_float(x):
    if x != x or x in (float("inf"), float("-inf")):
        return rec("Float", [0, 0], "nan")
    a, b = x.as_integer_ratio()
    L = limbs(a)
    return rec("Float", [L[0], b.bit_length() - 1] + L[1:])


def enc_str(s):
    return rec("Str", [ord(c) for c in s])


def _offset_secs(x):
    ns = x.offset.in_nanoseconds()
    s, r = divmod(ns, 1_000_000_000)
    if r:
        raise ValueError("offset with a fraction")
    return s


def _dtfields(x):
    return [x.year, x.month, x.day, x.hour, x.minute, x.second, x.nanosecond]


def _pydt(d):
    tz = d.tzinfo
    offs = offu = 0
    if tz is None:
        z = "naive"
    else:
        o = d.utcoffset()
        if o is None:
            z = "nooffset"
        else:
            offs = o.days * 86400 + o.seconds
            offu = o.microseconds
            if isinstance(tz, zoneinfo.ZoneInfo):
                z = tz.key if type(tz) is zoneinfo.ZoneInfo and tz.key else "other"
            elif type(tz) is dt.timezone:
                z = "fixed"
            else:
                z = "other"
    return small("PyDT", [d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, d.fold, offs, offu], z)


def enc(x):
    try:
        return _enc(x)
    except Exception as e:
        return rec("Malformed", [], "%s: %s" % (type(x).__name__, type(e).__name__))


def _enc(x):
    t = type(x)
    if t is W.ZonedDateTime:
        return small("Zoned", _dtfields(x) + [_offset_secs(x)], x.tz if type(x.tz) is str else "not a key")
    if t is W.OffsetDateTime:
        return small("Offset", _dtfields(x) + [_offset_secs(x)])
    if t is W.SystemDateTime:
        return small("System", _dtfields(x) + [_offset_secs(x)])
    if t is W.LocalDateTime:
        return small("Local", _dtfields(x))
    if t is W.Instant:
        d, s, n = span_of_ns(x.timestamp_nanos())
        return small("Instant", [d + EPOCH_ORD, s, n])
    if t is W.Date:
        return small("Date", [x.year, x.month, x.day])
    if t is W.Time:
        return small("Time", [x.hour, x.minute, x.second, x.nanosecond])
    if t is W.TimeDelta:
        return small("TD", span_of_ns(x.in_nanoseconds()))
    if t is W.DateDelta:
        return small("DD", x.in_months_days())
    if t is W.DateTimeDelta:
        m, d, s, n = x.in_months_days_secs_nanos()
        return small("DTD", [m, d] + span_of_ns(s * 1_000_000_000 + n))
    if t is W.YearMonth:
        return small("YearMonth", [x.year, x.month])
    if t is W.MonthDay:
        return small("MonthDay", [x.month, x.day])
    if t is bool:
        return rec("Bool", [int(x)])
    if t is int or isinstance(x, W.Weekday):
        return rec("Int", limbs(int(x.value) if t is not int else x))
    if t is float:
        return enc_float(x)
    if t is str:
        return enc_str(x)
    if x is None:
        return NONE
    if t is tuple and all(type(i) is int for i in x):
        return rec("Ints", [limbs(i) for i in x])
    if isinstance(x, dt.datetime):
        return _pydt(x)
    if isinstance(x, dt.date):
        return small("PyDate", [x.year, x.month, x.day])
    if isinstance(x, dt.time):
        return small("PyTime", [x.hour, x.minute, x.second, x.microsecond, x.fold, int(x.tzinfo is not None)])
    if isinstance(x, dt.timedelta):
        return small("PyTD", [x.days, x.seconds, x.microseconds])
    return rec("Malformed", [], t.__name__)


def enc_err(e):
    if isinstance(e, W.SkippedTime):
        k = "Skipped"
    elif isinstance(e, W.RepeatedTime):
        k = "Repeated"
    elif isinstance(e, W.InvalidOffset):
        k = "InvalidOffset"
    elif isinstance(e, W.ImplicitlyIgnoringDST):
        k = "IgnoreDST"
    elif isinstance(e, zoneinfo.ZoneInfoNotFoundError):
        k = "ZoneNotFound"
    elif isinstance(e, ZeroDivisionError):
        k = "ZeroDivision"
    elif isinstance(e, (ValueError, OverflowError)):
        k = "Value"
    elif isinstance(e, AttributeError):
        k = "Attribute"
    elif isinstance(e, TypeError):
        k = "Type"
    elif isinstance(e, OSError):
        k = "OSError"
    else:
        k = "Other:" + type(e).__name__
    return rec("Err", [], k)


def kw_rec(units):
    """dict of units -> KW"""
    names = ("years", "months", "weeks", "days", "hours", "minutes", "seconds",
             "milliseconds", "microseconds", "nanoseconds")
    return rec("KW", [limbs(units.get(k, 0)) for k in names])
