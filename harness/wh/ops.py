"""Calls of the library under test, with the record of what was called."""
import copy
import datetime as dt
import pickle
import random
import whenever as W
from . import tzif
from .enc import enc, enc_float, enc_str, kw_rec, limbs, rec, small, sym, NONE

CLS = {"Date": W.Date, "YearMonth": W.YearMonth, "MonthDay": W.MonthDay, "Time": W.Time,
       "Local": W.LocalDateTime, "Instant": W.Instant, "Offset": W.OffsetDateTime,
       "Zoned": W.ZonedDateTime, "System": W.SystemDateTime, "TD": W.TimeDelta,
       "DD": W.DateDelta, "DTD": W.DateTimeDelta}
NAME = {c: n for n, c in CLS.items()}
UNITS_DATE = ("years", "months", "weeks", "days")
UNITS_TIME = ("hours", "minutes", "seconds", "milliseconds", "microseconds", "nanoseconds")


def tname(x):
    return NAME.get(type(x), "?")


def B(b):
    return rec("Bool", [int(b)])


def I(n):
    return rec("Int", limbs(n))


class Ops:
    def __init__(self, R):
        self.R = R
        self.rng = R.rng

    # ---- making values
    def new(self, t, fields, a3=NONE, dis=None, tz=None, offset=None):
        """fields: ints y m d h mi s ns (or those the type has); trailing zeros may be left out"""
        f = list(fields)
        R, rng = self.R, self.rng
        n = len(f)
        enc_f = rec("Fields", [limbs(i) for i in f])
        if t in ("Date", "YearMonth", "MonthDay"):
            if rng.random() < 0.3:
                names = {"Date": ("year", "month", "day"), "YearMonth": ("year", "month"), "MonthDay": ("month", "day")}[t]
                fn = lambda: CLS[t](**dict(zip(names, f)))
            else:
                fn = lambda: CLS[t](*f)
            return R.call("new", [sym(t), enc_f, NONE, sym("")], fn)
        names = ("hour", "minute", "second") if t == "Time" else ("year", "month", "day", "hour", "minute", "second")
        pos, ns = f[:-1], f[-1]
        kw = {}
        k = len(pos)
        lo = 0 if t == "Time" else 3
        if rng.random() < 0.3:
            k = rng.randint(0, k)
        for i in range(k, len(pos)):
            if pos[i] or i < lo or rng.random() < 0.5:
                kw[names[i]] = pos[i]
        if ns or rng.random() < 0.5:
            kw["nanosecond"] = ns
        pos = pos[:k]
        ctor = CLS[t]
        ea3 = NONE
        if t == "Instant":
            ctor = W.Instant.from_utc
        elif t == "Offset":
            kw["offset"] = offset
            ea3 = enc(offset)
        elif t == "Zoned":
            kw["tz"] = tz
            ea3 = sym(tz)
        if dis is not None and t in ("Zoned", "System"):
            kw["disambiguate"] = dis
        return R.call("new", [sym(t), enc_f, ea3, sym(dis or "")], lambda: ctor(*pos, **kw))

    def new_delta(self, t, units):
        """units: ints, or floats that stand for a whole number of nanoseconds"""
        R = self.R
        real = {k: v for k, v in units.items()}
        e = {}
        for k, v in units.items():
            if isinstance(v, float):
                e["nanoseconds"] = e.get("nanoseconds", 0) + ns_of(k, v)
            else:
                e[k] = e.get(k, 0) + v
        ctor = CLS[t]
        if len(real) == 1 and self.rng.random() < 0.5:
            (k, v), = real.items()
            if t == ("DD" if k in UNITS_DATE else "TD"):
                return R.call("new", [sym(t), kw_rec(e), NONE, sym("")], lambda: getattr(W, k)(v))
        return R.call("new", [sym(t), kw_rec(e), NONE, sym("")], lambda: ctor(**real))

    # ---- arithmetic
    def binop(self, op, x, y):
        if op == "plus":
            return self.R.call("plus", [enc(x), enc(y)], lambda: x + y)
        return self.R.call("minus", [enc(x), enc(y)], lambda: x - y)

    def _flags(self, x, dis, ign, exact=False):
        kw = {}
        t = tname(x)
        if t in ("Zoned", "System") and dis:
            kw["disambiguate"] = dis
        if t in ("Local", "Offset") and ign:
            kw["ignore_dst"] = True
        return kw, (dis if t in ("Zoned", "System") and dis else ""), (ign if t in ("Local", "Offset") else True)

    def shift(self, op, x, units, dis="", ign=True):
        """x.add(**units) or x.subtract(**units)"""
        kw, d, i = self._flags(x, dis, ign)
        u = dict(units)
        items = list(u.items())
        self.rng.shuffle(items)
        u2 = dict(items)
        m = x.add if op == "add" else x.subtract
        return self.R.call(op, [enc(x), kw_rec(u), sym(d), B(i)], lambda: m(**u2, **kw))

    def shiftd(self, op, x, delta, dis="", ign=True):
        kw, d, i = self._flags(x, dis, ign)
        m = x.add if op == "addd" else x.subtract
        return self.R.call(op, [enc(x), enc(delta), sym(d), B(i)], lambda: m(delta, **kw))

    def difference(self, x, y, ign=False):
        kw = {"ignore_dst": True} if ign and tname(x) == "Local" else {}
        return self.R.call("difference", [enc(x), enc(y), B(bool(kw))], lambda: x.difference(y, **kw))

    # ---- comparing
    def cmp(self, x, y):
        def go(f):
            try:
                r = f()
            except TypeError:
                return 2
            if r is True or r is False:
                return int(r)
            return 3

        def fn():
            v = [go(lambda: x == y), go(lambda: x != y), go(lambda: x < y), go(lambda: x <= y),
                 go(lambda: x > y), go(lambda: x >= y)]
            return v + [int(hash(x) == hash(y))]
        try:
            v = fn()
            r = rec("Cmp", v)
        except Exception as e:
            from .enc import enc_err
            r = enc_err(e)
        self.R.log("cmp", [enc(x), enc(y)], r)

    def exact_eq(self, x, y):
        return self.R.call("exact_eq", [enc(x), enc(y)], lambda: x.exact_eq(y))

    # ---- reading
    GET = {
        "year_month": lambda x: x.year_month(), "month_day": lambda x: x.month_day(),
        "day_of_week": lambda x: x.day_of_week(), "is_leap": lambda x: x.is_leap(),
        "date": lambda x: x.date(), "time": lambda x: x.time(), "local": lambda x: x.local(),
        "instant": lambda x: x.instant(), "offset": lambda x: x.offset, "tz": lambda x: x.tz,
        "date_part": lambda x: x.date_part(), "time_part": lambda x: x.time_part(),
        "in_nanoseconds": lambda x: x.in_nanoseconds(), "hmsn": lambda x: x.in_hrs_mins_secs_nanos(),
        "in_months_days": lambda x: x.in_months_days(),
        "in_years_months_days": lambda x: x.in_years_months_days(),
        "in_months_days_secs_nanos": lambda x: x.in_months_days_secs_nanos(),
        "bool": lambda x: bool(x), "neg": lambda x: -x, "pos": lambda x: +x, "abs": lambda x: abs(x),
        "iso": lambda x: x.format_common_iso(), "str": lambda x: str(x), "repr": lambda x: repr(x),
        "rfc3339": lambda x: x.format_rfc3339(), "rfc2822": lambda x: x.format_rfc2822(),
        "py": lambda x: {"Date": "py_date", "Time": "py_time", "TD": "py_timedelta"}.get(tname(x), "py_datetime"),
    }

    def get(self, name, x):
        f = self.GET[name]
        if name == "py":
            fn = lambda: getattr(x, f(x))()
        else:
            fn = lambda: f(x)
        return self.R.call("get", [sym("iso" if name == "str" else name), enc(x)], fn)

    def day(self, op, x):
        return self.R.call(op, [enc(x)], lambda: getattr(x, op)())

    def timestamp(self, unit, x):
        m = {"s": "timestamp", "ms": "timestamp_millis", "ns": "timestamp_nanos"}[unit]
        return self.R.call("timestamp", [sym(unit), enc(x)], lambda: getattr(x, m)())

    def from_timestamp(self, unit, t, n, tz=None, offset=None, ign=True):
        m = {"s": "from_timestamp", "ms": "from_timestamp_millis", "ns": "from_timestamp_nanos"}[unit]
        kw = {}
        a = NONE
        if t == "Zoned":
            kw["tz"] = tz
            a = sym(tz)
        elif t == "Offset":
            kw["offset"] = offset
            a = enc(offset)
            if ign:
                kw["ignore_dst"] = True
        return self.R.call("from_timestamp", [sym(unit), sym(t), enc(n), a, B(ign)],
                           lambda: getattr(CLS[t], m)(n, **kw))

    # ---- converting
    def to_tz(self, x, tz):
        return self.R.call("to_tz", [enc(x), sym(tz)], lambda: x.to_tz(tz))

    def to_fixed(self, x, off=None):
        if off is None:
            return self.R.call("to_fixed", [enc(x), NONE], lambda: x.to_fixed_offset())
        return self.R.call("to_fixed", [enc(x), enc(off)], lambda: x.to_fixed_offset(off))

    def to_system(self, x):
        return self.R.call("to_system", [enc(x)], lambda: x.to_system_tz())

    def assume_utc(self, x):
        return self.R.call("assume_utc", [enc(x)], lambda: x.assume_utc())

    def assume_fixed(self, x, off):
        return self.R.call("assume_fixed", [enc(x), enc(off)], lambda: x.assume_fixed_offset(off))

    def assume_tz(self, x, tz, dis=None):
        kw = {"disambiguate": dis} if dis else {}
        return self.R.call("assume_tz", [enc(x), sym(tz), sym(dis or "compatible")], lambda: x.assume_tz(tz, **kw))

    def assume_system(self, x, dis=None):
        kw = {"disambiguate": dis} if dis else {}
        return self.R.call("assume_system", [enc(x), sym(dis or "compatible")], lambda: x.assume_system_tz(**kw))

    def at(self, d, t):
        return self.R.call("at", [enc(d), enc(t)], lambda: d.at(t))

    def on(self, t, d):
        return self.R.call("on", [enc(t), enc(d)], lambda: t.on(d))

    def in_year(self, md, y):
        return self.R.call("in_year", [enc(md), I(y)], lambda: md.in_year(y))

    def on_day(self, ym, d):
        return self.R.call("on_day", [enc(ym), I(d)], lambda: ym.on_day(d))

    def days(self, op, a, b):
        return self.R.call(op, [enc(a), enc(b)], lambda: getattr(a, op)(b))

    # ---- rounding and replacing
    def round(self, x, unit=None, inc=None, mode=None, ign=True):
        kw = {}
        if unit is not None:
            kw["unit"] = unit
        if inc is not None:
            kw["increment"] = inc
        if mode is not None:
            kw["mode"] = mode
        if tname(x) == "Offset":
            if ign:
                kw["ignore_dst"] = True
        else:
            ign = True
        args = [enc(x), sym("second" if unit is None else unit), enc_float(inc) if isinstance(inc, float) else I(1 if inc is None else inc), sym("half_even" if mode is None else mode), B(ign)]
        return self.R.call("round", args, lambda: x.round(**kw))

    def replace(self, x, fields, tz=None, offset=None, dis=None, ign=True):
        names = ("year", "month", "day", "hour", "minute", "second", "nanosecond")
        kw = dict(fields)
        kwr = rec("KWR", [limbs(kw[n]) if n in kw else [] for n in names])
        items = list(kw.items())
        self.rng.shuffle(items)
        kw = dict(items)
        t = tname(x)
        if tz is not None:
            kw["tz"] = tz
        if offset is not None:
            kw["offset"] = offset
        if dis:
            kw["disambiguate"] = dis
        if t == "Offset" and ign:
            kw["ignore_dst"] = True
        args = [enc(x), kwr, sym(tz or ""), NONE if offset is None else enc(offset), sym(dis or ""), B(ign)]
        return self.R.call("replace", args, lambda: x.replace(**kw))

    def replace_part(self, op, x, v, dis=None, ign=True):
        kw = {}
        t = tname(x)
        if dis and t in ("Zoned", "System"):
            kw["disambiguate"] = dis
        else:
            dis = None
        if t == "Offset" and ign:
            kw["ignore_dst"] = True
        return self.R.call(op, [enc(x), enc(v), sym(dis or ""), B(ign)], lambda: getattr(x, op)(v, **kw))

    # ---- text
    def parse(self, t, s):
        if t == "Zoned" and "[" in s and s.endswith("]"):
            key = s[s.index("[") + 1:-1]
            try:
                if key.strip("/") and "\0" not in key and len(key) < 200:
                    tzif.read(key)
                    self.R.zones.add(key)
            except KeyError:
                if not key or unsure_key(key):
                    return None
            except (tzif.Unsupported, ValueError, OSError):
                return None
        if t == "System":
            self.R.zones.add(self.R.sys)
        return self.R.call("parse", [sym(t), enc_str(s)], lambda: CLS[t].parse_common_iso(s))

    def parse3339(self, t, s):
        return self.R.call("parse3339", [sym(t), enc_str(s)], lambda: CLS[t].parse_rfc3339(s))

    def parse2822(self, t, s):
        return self.R.call("parse2822", [sym(t), enc_str(s)], lambda: CLS[t].parse_rfc2822(s))

    def strptime(self, t, s, fmt):
        try:
            p = enc(dt.datetime.strptime(s, fmt))
        except Exception as e:
            from .enc import enc_err
            p = enc_err(e)
        return self.R.call("strptime", [sym(t), p], lambda: CLS[t].strptime(s, fmt))

    # ---- the standard library
    def from_py(self, t, p):
        m = {"Date": "from_py_date", "Time": "from_py_time", "TD": "from_py_timedelta"}.get(t, "from_py_datetime")
        return self.R.call("from_py", [sym(t), enc(p)], lambda: getattr(CLS[t], m)(p))

    # ---- pickling and copying
    def same(self, x, fn):
        return self.R.call("same", [enc(x)], fn)

    def pickled(self, x, proto):
        return self.same(x, lambda: pickle.loads(pickle.dumps(x, proto)))

    # ---- deltas
    def mul(self, x, k):
        if self.rng.random() < 0.5:
            return self.R.call("mul", [enc(x), I(k)], lambda: x * k)
        return self.R.call("mul", [enc(x), I(k)], lambda: k * x)

    def mulfloat(self, x, f):
        return self.R.call("mulfloat", [enc(x), enc(f)], lambda: x * f)

    def floordiv(self, x, y):
        return self.R.call("floordiv", [enc(x), enc(y)], lambda: x // y)

    def mod(self, x, y):
        return self.R.call("mod", [enc(x), enc(y)], lambda: x % y)

    def truediv(self, x, y):
        return self.R.call("truediv", [enc(x), enc(y)], lambda: x / y)

    def in_unit(self, u, x):
        return self.R.call("in_unit", [sym(u), enc(x)], lambda: getattr(x, "in_" + u)())

    def const(self, name):
        c, a = name.split(".")
        return self.R.call("const", [sym(name)], lambda: getattr(getattr(W, c), a))

    def misuse(self, op, what, fn):
        """a call that has to be refused: op is refused (types, DST), invalid or immutable"""
        return self.R.call(op, [sym(what)], fn)


def unsure_key(key):
    return False


NS_PER = {"hours": 3600 * 10**9, "minutes": 60 * 10**9, "seconds": 10**9, "milliseconds": 10**6,
          "microseconds": 1000, "nanoseconds": 1}


def ns_of(unit, v):
    """the whole number of nanoseconds that the float v of the unit stands for"""
    a, b = v.as_integer_ratio()
    q, r = divmod(a * NS_PER[unit], b)
    assert r == 0
    return q


ECHOED = ("binop", "shift", "shiftd", "difference", "cmp", "exact_eq", "get", "day", "timestamp", "to_tz", "to_fixed",
          "to_system", "round", "replace", "replace_part", "pickled")


class Echo(Ops):
    """Now and then the same call again with a value that equals the one given
    (the same moment, another timezone, offset or system timezone), then the first again"""
    zones = ("UTC",)
    sysz = ("UTC",)
    busy = False

    def echo(self, f, a, kw):
        rng, R, x = self.rng, self.R, a[1] if type(a[0]) is str else a[0]
        t = tname(x)
        sys = R.sys
        try:
            if t == "Zoned":
                y = x.to_tz(rng.choice(self.zones))
            elif t == "Offset":
                y = x.to_fixed_offset(rng.choice([-24, -9, -1, 0, 1, 3, 14, W.minutes(330), W.seconds(-3601), W.hours(24)]))
            elif t == "System":
                R.set_sys(rng.choice(self.sysz))
                y = x.to_system_tz()
            else:
                return
            b = tuple(y if v is x else v for v in a)
            if rng.random() < 0.2:
                b = tuple(y if tname(v) == t and v == x else v for v in a)
        except (ValueError, OverflowError):
            R.set_sys(sys)
            return
        f(*b, **kw)
        if R.sys != sys:
            R.set_sys(sys)
        if rng.random() < 0.3:
            f(*a, **kw)


def _echoed(name):
    plain = getattr(Ops, name)

    def f(self, *a, **kw):
        r = plain(self, *a, **kw)
        if not self.busy and self.rng.random() < (0.04 if any(type(v) is W.SystemDateTime for v in a) else 0.01):
            self.busy = True
            try:
                self.echo(plain.__get__(self), a, kw)
            finally:
                self.busy = False
        return r
    return f


for _n in ECHOED:
    setattr(Echo, _n, _echoed(_n))
