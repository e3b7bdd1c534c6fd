"""Calls that are close to another one: the same operation on a value that is
equal to the first in all but one respect (the same moment in another
timezone, the same local time at its other occurrence, another nanosecond,
...), or with one argument different.  What a call gives must not depend on
the calls made before it: such pairs show where it does."""
import whenever as W
from . import replay
from .enc import enc, sym
from .ops import B

DIS = ("compatible", "earlier", "later", "raise")
MODES = ("ceil", "floor", "half_ceil", "half_floor", "half_even")
AWARE = {"plus", "minus", "add", "sub", "addd", "subd", "start_of_day", "day_length", "is_ambiguous",
         "to_tz", "to_fixed", "to_system", "timestamp"}
OPS = AWARE | {"replace", "replace_date", "replace_time", "round", "difference", "get", "exact_eq", "assume_utc", "assume_fixed",
               "assume_tz", "assume_system", "at", "on", "in_year", "on_day", "days_since", "days_until", "mul", "floordiv", "mod", "in_unit"}
VALUES = {"Zoned", "System", "Offset", "Local", "Instant", "Time", "Date", "TD", "DD", "DTD", "YearMonth", "MonthDay"}


def other(rng, xs, x):
    return rng.choice([y for y in xs if y != x])


def fields(x):
    return (x.year, x.month, x.day, x.hour, x.minute, x.second), {"nanosecond": x.nanosecond}


def nanos(x, rng):
    return rng.choice([n for n in (0, 1, 500_000_000, 999_999_999, x.nanosecond // 1000 * 1000, (x.nanosecond + 1) % 10**9) if n != x.nanosecond])


def vary(x, op, rng, zones):
    """a value close to x"""
    k = rng.randrange(5)
    if isinstance(x, W.ZonedDateTime):
        if k == 0:
            return x.to_tz(other(rng, zones, x.tz))
        if k == 1:
            f, kw = fields(x)
            return W.ZonedDateTime(*f, **kw, tz=other(rng, zones, x.tz), disambiguate=rng.choice(DIS[:3]))
        if k == 2:
            f, kw = fields(x)
            y = W.ZonedDateTime(*f, **kw, tz=x.tz, disambiguate="earlier")
            return y if y.offset != x.offset else W.ZonedDateTime(*f, **kw, tz=x.tz, disambiguate="later")
        if k == 3 and op in AWARE:
            return x.to_system_tz()
        f, kw = fields(x)
        y = W.ZonedDateTime(*f, nanosecond=nanos(x, rng), tz=x.tz, disambiguate="earlier")
        return y if y.offset == x.offset else W.ZonedDateTime(*f, nanosecond=y.nanosecond, tz=x.tz, disambiguate="later")
    if isinstance(x, W.SystemDateTime):
        if k == 0 and op in AWARE:
            return x.to_tz(rng.choice(zones))
        if k == 1:
            return W.SystemDateTime(*fields(x)[0], **fields(x)[1], disambiguate=rng.choice(DIS[:3]))
        if k == 2:
            return x.instant().to_system_tz()
        return W.SystemDateTime(*fields(x)[0], nanosecond=nanos(x, rng), disambiguate=rng.choice(DIS[:3]))
    if isinstance(x, W.OffsetDateTime):
        f, kw = fields(x)
        o = rng.choice([-5, 0, 1, 14, -12])
        if k < 2:
            return x.to_fixed_offset(o)
        if k < 4:
            return W.OffsetDateTime(*f, **kw, offset=o)
        return W.OffsetDateTime(*f, nanosecond=nanos(x, rng), offset=x.offset)
    if isinstance(x, W.LocalDateTime):
        f, kw = fields(x)
        return W.LocalDateTime(*f, nanosecond=nanos(x, rng)) if k < 3 else W.LocalDateTime(x.year + rng.choice([1, 4, -4, -100]), *f[1:], **kw)
    if isinstance(x, W.Time):
        return W.Time(x.hour, x.minute, x.second, nanosecond=nanos(x, rng))
    if isinstance(x, W.Instant):
        return W.Instant.from_timestamp_nanos(x.timestamp_nanos() + rng.choice([1, -1, 10**9, -10**9, 1000]))
    if isinstance(x, W.Date):
        return W.Date(x.year + rng.choice([1, -1, 4, -4, 100, -100]), x.month, x.day)
    if isinstance(x, W.YearMonth):
        return W.YearMonth(x.year + rng.choice([1, -1, 100]), x.month)
    if isinstance(x, W.MonthDay):
        return W.MonthDay(x.month % 12 + 1, x.day)
    if isinstance(x, W.TimeDelta):
        return -x if k < 2 else W.nanoseconds(x.in_nanoseconds() + rng.choice([1, -1, 1000, -3600 * 10**9]))
    return -x


def twin(op, args, rng, zones):
    """<<arguments, call>> of a call close to op(args), or None"""
    if op not in OPS:
        return None
    a = list(args)
    at = [i for i, v in enumerate(a) if v["t"] in VALUES]
    if not at:
        return None
    i = at[0] if rng.random() < 0.7 else rng.choice(at)
    try:
        if rng.random() < 0.75:
            a[i] = enc(vary(replay.dec(a[i]), op, rng, zones))
        else:
            x = a[at[0]]
            if op in ("add", "sub", "addd", "subd", "replace_date", "replace_time") and x["t"] in ("Zoned", "System"):
                a[2] = sym(other(rng, DIS + ("",), a[2]["z"]))
            elif op in ("add", "sub", "addd", "subd") and x["t"] == "Local":
                a[3] = B(a[3]["n"] != [1])
            elif op == "assume_tz":
                a[1 + rng.randrange(2)] = None
                a = [sym(rng.choice(zones)) if v is None and j == 1 else sym(rng.choice(DIS)) if v is None else v for j, v in enumerate(a)]
            elif op == "assume_system":
                a[1] = sym(other(rng, DIS, a[1]["z"]))
            elif op == "to_tz":
                a[1] = sym(other(rng, zones, a[1]["z"]))
            elif op == "round":
                a[3] = sym(other(rng, MODES, a[3]["z"]))
            else:
                return None
        if a == args:
            return None
        vals = {}

        def val(j):
            if j not in vals:
                vals[j] = replay.dec(a[j])
            return vals[j]
        for j in at:
            val(j)
        return a, replay.call(op, a, val, rng)
    except Exception:
        return None
