"""From the specification's records back to the library: decoding of values,
and making the call that an event stands for."""
import operator
import random
import whenever as W
from .ops import CLS, Ops, tname
from .enc import EPOCH_ORD, enc

KW_NAMES = ("years", "months", "weeks", "days", "hours", "minutes", "seconds",
            "milliseconds", "microseconds", "nanoseconds")
FIELD_NAMES = ("year", "month", "day", "hour", "minute", "second", "nanosecond")


def big(b):
    i = 0
    for limb in reversed(b[1:]):
        i = i * 1000 + limb
    return b[0] * i


def span_ns(n):
    return (n[0] * 86400 + n[1]) * 1_000_000_000 + n[2]


def offset_text(o):
    a = abs(o)
    s = "%s%02d:%02d" % ("-" if o < 0 else "+", a // 3600, a // 60 % 60)
    return s + (":%02d" % (a % 60) if a % 60 else "")


def dt_text(n):
    s = "%04d-%02d-%02dT%02d:%02d:%02d" % tuple(n[:6])
    return s + (".%09d" % n[6] if n[6] else "")


def dec(v, tm=W):
    """the library's value for record v (raises if there is none)"""
    t, n, z = v["t"], v["n"], v["z"]
    if t == "Date":
        return W.Date(*n)
    if t == "YearMonth":
        return W.YearMonth(*n)
    if t == "MonthDay":
        return W.MonthDay(*n)
    if t == "Time":
        return W.Time(*n[:3], nanosecond=n[3])
    if t == "Local":
        return W.LocalDateTime(*n[:6], nanosecond=n[6])
    if t == "Instant":
        return W.Instant.from_timestamp_nanos(span_ns([n[0] - EPOCH_ORD, n[1], n[2]]))
    if t == "Offset":
        return W.OffsetDateTime(*n[:6], nanosecond=n[6], offset=W.seconds(n[7]))
    if t == "System":
        return W.SystemDateTime.parse_common_iso(dt_text(n) + offset_text(n[7]))
    if t == "Zoned":
        for d in ("earlier", "later"):
            x = W.ZonedDateTime(*n[:6], nanosecond=n[6], tz=z, disambiguate=d)
            if enc(x) == v:
                return x
        raise ValueError("no such ZonedDateTime")
    if t == "TD":
        return W.nanoseconds(span_ns(n))
    if t == "DD":
        return W.DateDelta(months=n[0], days=n[1])
    if t == "DTD":
        return W.DateTimeDelta(months=n[0], days=n[1], nanoseconds=span_ns(n[2:]))
    if t == "Int":
        return big(n)
    if t == "Float":
        if z:
            return float(z)
        return n[0] * big([1] + n[2:]) / 2 ** n[1]
    if t == "Bool":
        return bool(n[0])
    if t == "Str":
        return "".join(map(chr, n))
    if t == "None":
        return None
    raise ValueError("cannot decode " + t)


def kwargs(v):
    if v["t"] == "KW":
        return {k: big(b) for k, b in zip(KW_NAMES, v["n"]) if len(b) > 1}
    return {k: big(b) for k, b in zip(FIELD_NAMES, v["n"]) if b}


def flags(x, dis, ign):
    kw = {}
    if dis and isinstance(x, (W.ZonedDateTime, W.SystemDateTime)):
        kw["disambiguate"] = dis
    if ign and isinstance(x, (W.LocalDateTime, W.OffsetDateTime)):
        kw["ignore_dst"] = True
    return kw


def call(op, a, val, rng):
    """A function that makes the call; val(i): the i-th argument as a value of the library"""
    z = lambda i: a[i]["z"]
    flag = lambda i: a[i]["n"] == [1]
    if op == "plus":
        return lambda: val(0) + val(1)
    if op == "minus":
        return lambda: val(0) - val(1)
    if op in ("add", "sub"):
        x = val(0)
        return lambda: (x.add if op == "add" else x.subtract)(**kwargs(a[1]), **flags(x, z(2), flag(3)))
    if op in ("addd", "subd"):
        x = val(0)
        return lambda: (x.add if op == "addd" else x.subtract)(val(1), **flags(x, z(2), flag(3)))
    if op == "get":
        x = val(1)
        f = Ops.GET[z(0)]
        if z(0) == "py":
            return lambda: getattr(x, f(x))()
        return lambda: f(x)
    if op == "exact_eq":
        return lambda: val(0).exact_eq(val(1))
    if op == "difference":
        x = val(0)
        return lambda: x.difference(val(1), **({"ignore_dst": True} if flag(2) and isinstance(x, W.LocalDateTime) else {}))
    if op in ("start_of_day", "day_length", "is_ambiguous", "assume_utc"):
        return lambda: getattr(val(0), op)()
    if op == "to_system":
        return lambda: val(0).to_system_tz()
    if op == "to_tz":
        return lambda: val(0).to_tz(z(1))
    if op == "to_fixed":
        return lambda: val(0).to_fixed_offset() if a[1]["t"] == "None" else val(0).to_fixed_offset(val(1))
    if op == "assume_fixed":
        return lambda: val(0).assume_fixed_offset(val(1))
    if op == "assume_tz":
        return lambda: val(0).assume_tz(z(1), disambiguate=z(2))
    if op == "assume_system":
        return lambda: val(0).assume_system_tz(disambiguate=z(1))
    if op == "timestamp":
        m = {"s": "timestamp", "ms": "timestamp_millis", "ns": "timestamp_nanos"}[z(0)]
        return lambda: getattr(val(1), m)()
    if op == "round":
        x = val(0)
        kw = {"ignore_dst": True} if isinstance(x, W.OffsetDateTime) and flag(4) else {}
        return lambda: x.round(z(1), increment=val(2), mode=z(3), **kw)
    if op == "replace":
        x = val(0)
        kw = kwargs(a[1])
        if z(2):
            kw["tz"] = z(2)
        if a[3]["t"] != "None":
            kw["offset"] = val(3)
        if z(4):
            kw["disambiguate"] = z(4)
        if isinstance(x, W.OffsetDateTime) and flag(5):
            kw["ignore_dst"] = True
        return lambda: x.replace(**kw)
    if op in ("replace_date", "replace_time"):
        x = val(0)
        kw = flags(x, z(2), flag(3))
        if isinstance(x, W.LocalDateTime):
            kw = {}
        return lambda: getattr(x, op)(val(1), **kw)
    if op in ("at", "on", "in_year", "on_day", "days_since", "days_until"):
        return lambda: getattr(val(0), op)(val(1))
    if op == "mul":
        return lambda: val(0) * val(1)
    if op == "floordiv":
        return lambda: val(0) // val(1)
    if op == "mod":
        return lambda: val(0) % val(1)
    if op == "same":
        return lambda: val(0)
    if op == "from_timestamp":
        m = {"s": "from_timestamp", "ms": "from_timestamp_millis", "ns": "from_timestamp_nanos"}[z(0)]
        kw = {"Zoned": {"tz": z(3)}, "Offset": {"offset": val(3)}}.get(z(1), {})
        if flag(4):
            kw["ignore_dst"] = True
        return lambda: getattr(CLS[z(1)], m)(val(2), **kw)
    if op == "new" and z(0) == "System":
        f = [big(b) for b in a[1]["n"]]
        return lambda: W.SystemDateTime(*f[:6], nanosecond=f[6], disambiguate=z(3))
    if op == "parse":
        return lambda: CLS[z(0)].parse_common_iso(val(1))
    if op == "parse3339":
        return lambda: CLS[z(0)].parse_rfc3339(val(1))
    if op == "parse2822":
        return lambda: CLS[z(0)].parse_rfc2822(val(1))
    if op == "truediv":
        return lambda: val(0) / val(1)
    if op == "mulfloat":
        return lambda: val(0) * val(1)
    if op == "in_unit":
        return lambda: getattr(val(1), "in_" + z(0))()
    raise ValueError("no call for " + op)


def cmp_vector(x, y):
    def go(f):
        try:
            r = f()
        except TypeError:
            return 2
        return int(r) if r is True or r is False else 3
    v = [go(lambda: f(x, y)) for f in (operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge)]
    return v + [int(hash(x) == hash(y))]
