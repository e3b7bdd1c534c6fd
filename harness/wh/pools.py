"""Inputs: boundary values, values around timezone transitions, and random
ones.  Nothing here is an oracle; moments are ints of nanoseconds since the
epoch (may be out of range), local times lists [y, m, d, h, mi, s, ns]."""
import datetime as dt
import functools
import os
import pickle
import copy
import zoneinfo
import whenever as W
from . import tzif
from .enc import EPOCH_ORD

G = 1_000_000_000
DAYNS = 86400 * G
MIN_NS = (1 - EPOCH_ORD) * DAYNS
MAX_NS = (3652059 - EPOCH_ORD + 1) * DAYNS - 1
TD_MAX = 3659634 * DAYNS

CORE_ZONES = [
    "Europe/Amsterdam", "America/New_York", "Australia/Lord_Howe", "Africa/Casablanca",
    "Africa/Monrovia", "Europe/Dublin", "Pacific/Apia", "Asia/Manila", "Antarctica/Troll",
    "America/Sao_Paulo", "Asia/Beirut", "Africa/Cairo", "America/Havana", "America/Nuuk",
    "Pacific/Chatham", "Asia/Kathmandu", "Asia/Tehran", "Europe/Lisbon", "America/St_Johns",
    "Antarctica/Casey", "Pacific/Kwajalein", "UTC", "Etc/GMT+12", "Etc/GMT-14", "America/Caracas",
    "Asia/Kolkata", "Africa/El_Aaiun", "Asia/Gaza", "America/Juneau", "America/Scoresbysund",
    "America/Toronto", "Europe/London", "Asia/Pyongyang", "America/Santiago", "Pacific/Kiritimati",
    "America/Phoenix", "Asia/Tokyo", "Pacific/Fakaofo", "America/Asuncion", "Asia/Dhaka",
]
# Zones that glibc and the database read alike are all of them; those used as
# the timezone of the system:
SYS_ZONES = ["Europe/Amsterdam", "America/New_York", "Australia/Lord_Howe", "Asia/Kathmandu",
             "America/Sao_Paulo", "Africa/Monrovia", "Europe/Dublin", "Pacific/Apia", "UTC",
             "America/St_Johns", "Pacific/Chatham", "America/Nuuk", "Asia/Tokyo", "America/Havana"]


@functools.lru_cache(None)
def all_zones():
    out = []
    for k in tzif.all_keys():
        try:
            tzif.read(k)
        except (tzif.Unsupported, KeyError, ValueError):
            continue
        out.append(k)
    return out


@functools.lru_cache(None)
def system_has(key):
    """whether the C library knows it (some are only in the tzdata package)"""
    return os.path.isfile(os.path.join(tzif.TZPATHS[0], key))


def _rule_moments(rule, y):
    def day(m, w, d):
        first = dt.date(y, m, 1)
        first_o = first.toordinal()
        dow = first.isoweekday() % 7
        x = first_o + (d - dow) % 7 + (w - 1) * 7
        last = (dt.date(y, m, 28) + dt.timedelta(4)).replace(day=1).toordinal() - 1 if m < 12 else dt.date(y, 12, 31).toordinal()
        return x if x <= last else x - 7
    std, dst, m1, w1, d1, t1, m2, w2, d2, t2 = rule
    a = (day(m1, w1, d1) - EPOCH_ORD) * 86400 + t1 - std
    b = (day(m2, w2, d2) - EPOCH_ORD) * 86400 + t2 - dst
    return [(a, std, dst), (b, dst, std)]


RULE_YEARS = (1, 2, 2037, 2038, 2039, 2040, 2050, 2099, 2100, 2104, 2200, 2400, 5000, 9998, 9999)


@functools.lru_cache(None)
def transitions(key):
    """[(epoch second, offset before, offset after)]"""
    z = tzif.read(key)
    out = []
    prev = z["first"]
    for d, s, o in z["trans"]:
        t = (d - EPOCH_ORD) * 86400 + s
        if o != prev:
            out.append((t, prev, o))
        prev = o
    if z["rule"]:
        last = z["trans"][-1][0] if z["trans"] else 0
        for y in RULE_YEARS:
            for t in _rule_moments(z["rule"], y):
                if t[0] // 86400 + EPOCH_ORD > last:
                    out.append(t)
    return out


@functools.lru_cache(None)
def at_midnight(key):
    """the transitions that skip or repeat midnight, or that have it at one end"""
    over = [(t, a, b) for t, a, b in transitions(key) if (t + min(a, b)) // 86400 != (t + max(a, b) - 1) // 86400]
    ends = [(t, a, b) for t, a, b in transitions(key) if (t + min(a, b) - 1) // 86400 != (t + max(a, b)) // 86400]
    return over * max(1, len(ends) // max(1, len(over))) + ends


@functools.lru_cache(None)
def odd(key):
    """the transitions not between offsets of whole half hours, or by an unusual amount"""
    return [(t, a, b) for t, a, b in transitions(key) if a % 1800 or b % 1800 or abs(a - b) not in (1800, 3600)]


@functools.lru_cache(None)
def midnight_zones():
    return [k for k in all_zones() if len(at_midnight(k)) > 8]


NANOS = [0, 1, 2, 9, 10, 499, 500, 501, 999, 1000, 1001, 999_999, 1_000_000, 1_000_001, 123_456_789,
         499_999_999, 500_000_000, 500_000_001, 999_999_000, 999_999_999, 100_000_000, 120_000_000,
         987_654_321, 999_999_500, 1_500_000, 2_500_000, 3_500, 12_345_000]
YEARS = [1, 2, 3, 4, 5, 99, 100, 101, 400, 1582, 1583, 1600, 1752, 1899, 1900, 1901, 1904, 1919, 1969, 1970, 1971,
         1999, 2000, 2001, 2003, 2004, 2019, 2020, 2021, 2023, 2024, 2025, 2037, 2038, 2096, 2100, 2104,
         2399, 2400, 9600, 9995, 9996, 9997, 9998, 9999]
OFFSETS = [0, 1, -1, 59, -59, 60, -60, 1172, -2670, 1800, -1800, 3600, -3600, 7200, 19800, 20700, -12600,
           -34200, 43200, -43200, 46800, 50400, 45900, 86399, -86399, 86340, -86340, 82800, -82800, 3601,
           -3599, 17762, 30 * 60 + 15]


def is_leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def dim(y, m):
    return [31, 29 if is_leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


class Pools:
    def __init__(self, rng, ops=None):
        self.rng = rng
        self.ops = ops

    # ---- plain numbers
    def year(self):
        r = self.rng
        return r.choice(YEARS) if r.random() < 0.7 else r.randint(1, 9999)

    def ymd(self):
        r = self.rng
        if r.random() < 0.015:
            return r.choice([[1, 1, 1], [9999, 12, 31], [1, 1, 2], [9999, 12, 30]])
        y = self.year()
        m = r.choice([1, 2, 2, 2, 3, 4, 12]) if r.random() < 0.5 else r.randint(1, 12)
        last = dim(y, m)
        d = r.choice([1, 2, 27, 28, last - 1, last, last]) if r.random() < 0.6 else r.randint(1, last)
        return [y, m, min(d, last)]

    def nanos(self):
        r = self.rng
        x = r.random()
        if x < 0.6:
            return r.choice(NANOS)
        if x < 0.8:
            return r.randrange(10 ** r.randint(1, 9)) * 10 ** r.randint(0, 8) % G
        return r.randrange(G)

    def hms(self):
        r = self.rng
        x = r.random()
        if x < 0.35:
            return r.choice([[0, 0, 0], [23, 59, 59], [12, 0, 0], [0, 0, 1], [23, 59, 0], [23, 0, 0], [0, 30, 0],
                             [1, 0, 0], [1, 30, 0], [2, 0, 0], [2, 30, 0], [2, 59, 59], [3, 0, 0], [11, 59, 59],
                             [12, 30, 30], [0, 59, 59], [0, 0, 30], [0, 0, 59], [0, 1, 0]])
        return [r.choice([0, 1, 2, 3, 11, 12, 22, 23, r.randint(0, 23)]), r.choice([0, 1, 29, 30, 31, 59, r.randint(0, 59)]),
                r.choice([0, 1, 29, 30, 31, 59, r.randint(0, 59)])]

    def clock(self):
        """hour to nanosecond"""
        r = self.rng
        x = r.random()
        return [0, 0, 0, 0] if x < 0.02 else [23, 59, 59, 999_999_999] if x < 0.04 else self.hms() + [self.nanos()]

    def fields(self):
        if self.rng.random() < 0.006:
            return self.rng.choice([[1, 1, 1, 0, 0, 0, 0], [9999, 12, 31, 23, 59, 59, 999_999_999]])
        return self.ymd() + self.clock()

    def offset(self):
        r = self.rng
        x = r.random()
        if x < 0.5:
            return r.choice(OFFSETS)
        if x < 0.75:
            return r.randint(-95, 95) * 900
        if x < 0.87:
            return r.randint(-1439, 1439) * 60
        return r.randint(-86399, 86399)

    def zone(self):
        r = self.rng
        x = r.random()
        return r.choice(CORE_ZONES) if x < 0.72 else r.choice(midnight_zones()) if x < 0.78 else r.choice(all_zones())

    # ---- moments (ns since the epoch)
    def near_transition(self, key=None):
        """a moment near a transition of the timezone"""
        r = self.rng
        key = key or self.zone()
        ts = transitions(key)
        if not ts:
            return self.plain_moment()
        x = r.random()
        t, a, b = r.choice(x < 0.2 and at_midnight(key) or x > 0.8 and odd(key) or ts)
        gap = abs(b - a)
        x = r.random()
        if x < 0.45:
            s = t + r.choice([-1, 0, 0, 1])
        elif x < 0.75:
            s = t + r.choice([-gap - 1, -gap, -gap + 1, gap - 1, gap, gap + 1, gap // 2, -gap // 2, gap // 3, -gap // 3])
        elif x < 0.9:
            s = t + r.randint(-2 * gap - 10, 2 * gap + 10)
        else:
            s = t + r.choice([-86400, 86400, -43200, 43200, 3600, -3600, -7 * 86400, 28 * 86400]) + r.randint(-4000, 4000)
        ns = s * G
        y = r.random()
        if y < 0.4:
            return ns
        if y < 0.6:
            return ns - 1
        if y < 0.7:
            return ns + 1
        return ns + self.nanos()

    def plain_moment(self):
        r = self.rng
        f = self.fields()
        o = dt.date(*f[:3]).toordinal()
        return (o - EPOCH_ORD) * DAYNS + (f[3] * 3600 + f[4] * 60 + f[5]) * G + f[6]

    def edge_moment(self):
        r = self.rng
        k = r.choice([0, 0, 1, 59, 60, 3600, 43200, 50400, 86399, 86400, 172800, 86400 * 30, r.randint(0, 100000)])
        d = k * G + r.choice([0, 0, 1, 999_999_999, self.nanos()])
        return MIN_NS + d if r.random() < 0.5 else MAX_NS - d

    def epoch_moment(self):
        r = self.rng
        return r.choice([0, 1, -1, 999, -999, 1000, -1000, 10**6, -10**6, G, -G, G - 1, -G + 1, -G - 1,
                         r.randint(-2 * G, 2 * G), r.randint(-10**13, 10**13)])

    def moment(self, key=None):
        r = self.rng
        x = r.random()
        if x < 0.5:
            return self.near_transition(key)
        if x < 0.85:
            return self.plain_moment()
        if x < 0.95:
            return self.edge_moment()
        return self.epoch_moment()

    # ---- durations
    def dur_ns(self):
        """nanoseconds of an exact duration"""
        r = self.rng
        x = r.random()
        s = r.choice([1, -1])
        if x < 0.2:
            return s * r.choice([0, 1, 999, 1000, 999_999_999, G, G + 1, 3600 * G, 3600 * G - 1, DAYNS, DAYNS - 1, DAYNS + 1,
                                 1800 * G, 60 * G, 23 * 3600 * G, 25 * 3600 * G, 365 * DAYNS, 36524 * DAYNS])
        if x < 0.6:
            return s * (r.randint(0, 50) * 3600 * G + r.randint(0, 3600) * G * r.choice([0, 1]) + r.choice([0, self.nanos()]))
        if x < 0.8:
            return s * r.randrange(10 ** r.randint(1, 20))
        if x < 0.9:
            return s * r.randint(0, 9999 * 366) * DAYNS + r.choice([0, 1, -1, self.nanos()])
        return s * (TD_MAX - r.choice([0, 0, 1, G, DAYNS, r.randrange(TD_MAX)]))

    def time_units(self, ns=None):
        """a duration as units"""
        r = self.rng
        ns = self.dur_ns() if ns is None else ns
        u = {}
        rest = ns
        for k, n in (("hours", 3600 * G), ("minutes", 60 * G), ("seconds", G), ("milliseconds", 10**6), ("microseconds", 1000)):
            if r.random() < 0.5:
                q = int(rest / n) if abs(rest) < 2**50 else (abs(rest) // n) * (1 if rest > 0 else -1)
                if r.random() < 0.15:
                    q += r.randint(-3, 3)
                u[k] = q
                rest -= q * n
        if rest or r.random() < 0.3:
            u["nanoseconds"] = rest
        return u

    def months(self):
        r = self.rng
        x = r.random()
        if x < 0.6:
            return r.choice([0, 1, 2, 6, 11, 12, 13, 24, 23, 25, 36, 48, 120, 1200, 4800]) * r.choice([1, -1])
        if x < 0.95:
            return r.randint(-1500, 1500)
        return r.choice([119988, -119988, 119987, 119976, -119976, r.randint(-119988, 119988)])

    def days(self):
        r = self.rng
        x = r.random()
        if x < 0.6:
            return r.choice([0, 1, 1, 2, 6, 7, 27, 28, 29, 30, 31, 59, 365, 366, 1461, 36524, 146097]) * r.choice([1, -1])
        if x < 0.95:
            return r.randint(-2000, 2000)
        return r.choice([3652058, -3652058, 3659634, -3659634, r.randint(-3659634, 3659634)])

    def date_units(self):
        r = self.rng
        u = {}
        m = self.months()
        if r.random() < 0.5:
            u["years"] = int(m / 12) + r.choice([0, 0, 0, 1, -1])
            m -= u["years"] * 12
        if m or r.random() < 0.2:
            u["months"] = m
        d = self.days()
        if r.random() < 0.4:
            u["weeks"] = int(d / 7) + r.choice([0, 0, 1, -1])
            d -= u["weeks"] * 7
        if d or r.random() < 0.2:
            u["days"] = d
        k = r.random()
        if k < 0.25:
            u.pop("days", None)
            u.pop("weeks", None)
        elif k < 0.5:
            u.pop("months", None)
            u.pop("years", None)
        return u

    # ---- objects (None where the library refused)
    def try_(self, f):
        try:
            return f()
        except Exception:
            return None

    def td(self, ns=None):
        ns = self.dur_ns() if ns is None else ns
        return self.try_(lambda: W.TimeDelta(nanoseconds=ns))

    def dd(self):
        r = self.rng
        s = r.choice([1, -1])
        m, d = abs(self.months()) * s, abs(self.days()) * s
        x = r.random()
        if x < 0.15:
            m = 0
        elif x < 0.3:
            d = 0
        return self.try_(lambda: W.DateDelta(months=m, days=d))

    def dtd(self):
        r = self.rng
        s = r.choice([1, -1])
        m, d, n = abs(self.months()) * s, abs(self.days()) * s, abs(self.dur_ns()) * s
        x = r.random()
        if x < 0.15:
            m = 0
        elif x < 0.3:
            d = 0
        elif x < 0.4:
            n = 0
        elif x < 0.5:
            m = d = 0
        return self.try_(lambda: W.DateTimeDelta(months=m, days=d, nanoseconds=n))

    def delta(self):
        return self.rng.choice([self.td, self.dd, self.dtd])()

    def date(self):
        return W.Date(*self.ymd())

    def time(self):
        h, m, s, n = self.clock()
        return W.Time(h, m, s, nanosecond=n)

    def ym(self):
        return W.YearMonth(*self.ymd()[:2])

    def md(self):
        y, m, d = self.ymd()
        return self.try_(lambda: W.MonthDay(m, d))

    def local(self, key=None):
        """a local time; near a transition of the zone in its local terms, perhaps skipped"""
        r = self.rng
        f = self.local_fields(key)
        return self.try_(lambda: W.LocalDateTime(*f[:6], nanosecond=f[6]))

    def local_fields(self, key=None):
        r = self.rng
        x = r.random()
        if x < 0.55:
            key = key or self.zone()
            ts = transitions(key)
            if ts:
                t, a, b = r.choice(ts)
                lo, hi = min(a, b), max(a, b)
                base = r.choice([t + a, t + b])
                k = r.random()
                if k < 0.5:
                    ns = base * G + r.choice([0, 0, -1, 1, G, -G, self.nanos()])
                elif k < 0.85:
                    ns = (t + lo) * G + r.randrange((hi - lo) * G)
                else:
                    ns = base * G + r.randint(-2 * 86400, 2 * 86400) * G + self.nanos()
                f = fields_of(ns)
                if f:
                    return f
        if x < 0.62:
            return fields_of(self.edge_moment())
        return self.fields()

    def instant(self, ns=None):
        ns = self.moment() if ns is None else ns
        return self.try_(lambda: W.Instant.from_timestamp_nanos(ns))

    def offset_dt(self, ns=None, off=None):
        ns = self.moment() if ns is None else ns
        off = self.offset() if off is None else off
        return self.try_(lambda: W.OffsetDateTime.from_timestamp_nanos(ns, offset=W.TimeDelta(seconds=off), ignore_dst=True))

    def zoned(self, ns=None, tz=None):
        tz = tz or self.zone()
        ns = self.moment(tz) if ns is None else ns
        return self.try_(lambda: W.ZonedDateTime.from_timestamp_nanos(ns, tz=tz))

    def system(self, ns=None):
        ns = self.moment(self.ops.R.sys) if ns is None else ns
        return self.try_(lambda: W.SystemDateTime.from_timestamp_nanos(ns))

    def exact(self, ns=None):
        return self.rng.choice([self.instant, self.offset_dt, self.zoned, self.zoned, self.system])(ns)

    def siblings(self, ns=None, z1=None, off=None):
        """values of all exact types (and two zones) for one moment"""
        z1 = z1 or self.zone()
        ns = self.moment(z1) if ns is None else ns
        z = self.zoned(ns, z1)
        # an offset that the timezone has as well
        o2 = int(z.offset.in_seconds()) if z is not None and self.rng.random() < 0.5 else None
        out = [self.instant(ns), z, self.zoned(ns, self.zone()), self.offset_dt(ns, off), self.offset_dt(ns, o2), self.system(ns)]
        self.rng.shuffle(out)
        return [x for x in out if x is not None]

    def value(self):
        """a value of any type"""
        r = self.rng
        return r.choice([self.date, self.time, self.ym, self.md, self.local, self.instant, self.offset_dt, self.zoned,
                         self.system, self.td, self.dd, self.dtd])()

    def rerouted(self, x):
        """the same value, made in another way"""
        r = self.rng
        if x is None:
            return None
        k = r.randint(0, 9)
        if k < 2 and r.random() < 0.3:
            zoneinfo.ZoneInfo.clear_cache()     # another object for the zone
        try:
            if k == 4 and isinstance(x, W.ZonedDateTime):
                # in the same zone, by another object
                z = W.ZonedDateTime.from_py_datetime(x.py_datetime().replace(tzinfo=zoneinfo.ZoneInfo.no_cache(x.tz)))
                return z + W.nanoseconds(x.nanosecond % 1000)
            if k == 0:
                return pickle.loads(pickle.dumps(x))
            if k == 1:
                return type(x).parse_common_iso(x.format_common_iso())
            if k == 2:
                return copy.deepcopy(x)
            if k == 3 and isinstance(x, W.OffsetDateTime):
                # a standard library value whose fold is set
                if x.nanosecond % 1000 == 0:
                    return W.OffsetDateTime.from_py_datetime(x.py_datetime().replace(fold=1))
            if k == 3 and isinstance(x, W.Time) and x.nanosecond % 1000 == 0:
                return W.Time.from_py_time(x.py_time().replace(fold=1))
            if k == 3 and isinstance(x, W.LocalDateTime) and x.nanosecond % 1000 == 0:
                return W.LocalDateTime.from_py_datetime(x.py_datetime().replace(fold=1))
        except Exception:
            pass
        return x


def fields_of(ns):
    o, rest = divmod(ns, DAYNS)
    o += EPOCH_ORD
    if not 1 <= o <= 3652059:
        return None
    d = dt.date.fromordinal(o)
    s, n = divmod(rest, G)
    return [d.year, d.month, d.day, s // 3600, s // 60 % 60, s % 60, n]
