"""What each check makes the library do.  A generator makes calls until the
recorder is full; part k of n makes its own share."""
import copy
import datetime as dt
import random
import pickle
import whenever as W
from . import misuse
from . import pools, tzif
from .enc import EPOCH_ORD, enc, rec, sym
from .ops import CLS, UNITS_DATE, UNITS_TIME, Echo, B, I, tname
from .pools import DAYNS, G, MAX_NS, MIN_NS, CORE_ZONES, SYS_ZONES, TD_MAX, fields_of

DIS = ["compatible", "earlier", "later", "raise"]
MODES = ["ceil", "floor", "half_ceil", "half_floor", "half_even"]
ROUND_UNITS = ["hour", "minute", "second", "millisecond", "microsecond", "nanosecond"]


class Ctx:
    def __init__(self, R, part=0, parts=1, tier="quick"):
        self.R = R
        self.rng = R.rng
        self.O = Echo(R)
        self.O.zones, self.O.sysz = CORE_ZONES, SYS_ZONES
        self.P = pools.Pools(R.rng, self.O)
        self.part, self.parts, self.tier = part, parts, tier

    def misuse(self, make, p=0.02):
        """now and then a call that must be refused"""
        if self.rng.random() < p:
            m = make(self.rng, self.P)
            if m is not None:
                self.O.misuse("invalid", *m)

    def maybe_sys(self, p=0.02):
        if self.rng.random() < p:
            self.R.set_sys(self.rng.choice(SYS_ZONES))

    def loop(self, body, misuse=None):
        """run body until full; system timezone changed and calls repeated now and then"""
        n = 0
        self.R.set_sys(self.rng.choice(SYS_ZONES))
        while not self.R.full():
            n += 1
            self.maybe_sys()
            body()
            if misuse is not None:
                self.misuse(misuse)
            if len(self.R.kept) > 150:
                self.R.again()
            if n > 50 * self.R.limit:
                break
        self.R.again()

    def mine(self, seq):
        """this part's share of a systematic sequence"""
        return [x for i, x in enumerate(seq) if i % self.parts == self.part]

    def each_zone(self):
        """a value in each of the timezones that are this part's share"""
        for key in self.mine(pools.all_zones()):
            x = self.P.zoned(self.P.near_transition(key), key)
            if x is not None:
                yield x


def ns_of_value(x):
    return x.timestamp_nanos()


# ---------------------------------------------------------------- C01
def c01(c):
    P, O, rng = c.P, c.O, c.rng

    def body():
        z = P.zone()
        ns = P.moment(z)
        tgt = P.near_transition(z) if rng.random() < 0.5 else P.moment(z)
        if rng.random() < 0.25:
            # a short way, possibly over a transition
            ns = P.near_transition(z)
            tgt = ns + rng.choice([-1, 1]) * rng.choice([1, 10**6, G, 2 * G, rng.randint(0, 60) * G, rng.randint(0, 90) * 60 * G, rng.randint(0, 60 * G),
                                                      rng.randint(0, 15) * 3600 * G])
        # pairs in the same timezone or at the same offset
        same = (z, P.offset()) if rng.random() < 0.7 else ()
        xs = P.siblings(ns, *same)
        d = (tgt - ns) if rng.random() < 0.5 else P.dur_ns()
        u = P.time_units(d)
        td = P.td(d)
        for x in xs:
            x = P.rerouted(x)
            op = rng.choice(["add", "sub"])
            y = O.shift(op, x, u)
            if y is not None:
                O.shift("sub" if op == "add" else "add", y, u)
            if td is not None:
                t = tname(x)
                if t == "Offset":
                    y = O.shiftd(rng.choice(["addd", "subd"]), x, td)
                elif t == "Instant":
                    y = O.binop(rng.choice(["plus", "minus"]), x, td)
                else:
                    y = rng.choice([lambda: O.binop("plus", x, td), lambda: O.binop("minus", x, td),
                                    lambda: O.shiftd("addd", x, td), lambda: O.shiftd("subd", x, td),
                                    lambda: O.shiftd("addd", x, td, rng.choice(DIS))])()
                if t == "Zoned" and y is not None and rng.random() < 0.5:
                    dtd = P.try_(lambda: W.DateTimeDelta(nanoseconds=d))
                    if dtd is not None:
                        O.binop(rng.choice(["plus", "minus"]), x, dtd)
        ys = P.siblings(tgt, *same)
        zs = [x for v in (xs, ys) for x in v if tname(x) == "Zoned" and x.tz == z]
        for x, y in [(x, y) for x in xs[:3] for y in ys[:4]] + ([rng.sample(zs, 2)] if same and len(zs) > 1 else []):
            if rng.random() < 0.5:
                dl = O.binop("minus", x, y)
            else:
                dl = O.difference(x, y)
            if dl is not None and rng.random() < 0.3:
                # y + (x - y)
                if tname(y) == "Offset":
                    O.shiftd("addd", y, dl)
                else:
                    O.binop("plus", y, dl)
    c.loop(body)


# ---------------------------------------------------------------- C02
def c02(c):
    P, O, rng = c.P, c.O, c.rng
    D = [0, 0, 0, 1, -1, 999, -999, 1000, -1000, 10**6, G, -G, 3600 * G, -3600 * G]

    def near_local(f):
        g = list(f)
        k = rng.randrange(7)
        if rng.random() < 0.5:
            k = 6
        g[k] += rng.choice([1, -1])
        return g

    def mk(t, f):
        if t == "Local":
            return W.LocalDateTime(*f[:6], nanosecond=f[6])
        if t == "Time":
            return W.Time(*f[3:6], nanosecond=f[6])
        if t == "Date":
            return W.Date(*f[:3])
        if t == "YearMonth":
            return W.YearMonth(*f[:2])
        if t == "MonthDay":
            return W.MonthDay(*f[1:3])

    def body():
        k = rng.random()
        if k < 0.6:
            z = P.zone() if rng.random() < 0.75 else rng.choice(pools.midnight_zones())
            ns = P.near_transition(z) if rng.random() < 0.6 else P.moment(z)
            xs = P.siblings(ns)
            other = ns + rng.choice(D) if rng.random() < 0.7 else P.moment(z)
            ys = P.siblings(other)
            # both sides of one transition, by up to its size
            side = [ns + s * d * G for s, d in ((1, rng.choice([1, 900, 1800, 2700, 3600, 5400])), (-1, rng.choice([1, 900, 1800, 2700, 3600])))]
            near = [v for v in (P.zoned(m, z) for m in [ns] + side) if v is not None]
            for a in near:
                for b in near:
                    O.cmp(a, b)
            same_z = [v for v in (P.zoned(ns, z), P.zoned(other, z), P.zoned(ns + 3600 * G, z), P.zoned(ns - 1800 * G, z)) if v is not None]
            allv = [P.rerouted(v) for v in xs + ys + same_z]
            for _ in range(14 if allv else 0):
                a, b = rng.choice(allv), rng.choice(allv)
                O.cmp(a, b)
            for a in allv:
                for b in allv:
                    if type(a) is type(b) and rng.random() < 0.12:
                        O.exact_eq(a, b)
            for a in rng.sample(allv, min(2, len(allv))):
                b = P.rerouted(a)
                O.exact_eq(a, b)
                O.cmp(a, b)
            # offsets that show the same local time
            f = P.fields()
            a = P.try_(lambda: W.OffsetDateTime(*f[:6], nanosecond=f[6], offset=W.seconds(P.offset())))
            b = P.try_(lambda: W.OffsetDateTime(*f[:6], nanosecond=f[6], offset=W.seconds(P.offset())))
            if a is not None and b is not None:
                O.cmp(a, b)
                O.exact_eq(a, b)
        elif k < 0.85:
            f = P.fields()
            for t in ("Local", "Time", "Date", "YearMonth", "MonthDay"):
                a = P.try_(lambda: mk(t, f))
                b = P.try_(lambda: mk(t, near_local(f)))
                d = P.try_(lambda: mk(t, P.fields()))
                e = P.rerouted(P.try_(lambda: mk(t, f)))
                for u, v in ((a, b), (b, a), (a, e), (a, d)):
                    if u is not None and v is not None:
                        O.cmp(u, v)
        elif k < 0.97:
            n = P.dur_ns()
            a, b, d = P.td(n), P.td(n + rng.choice([0, 1, -1, 1000, G])), P.td()
            if a is not None and b is not None and d is not None:
                O.cmp(a, b)
                O.cmp(a, d)
                O.cmp(d, b)
            x, y = P.dd(), P.dd()
            if x is not None and y is not None:
                O.cmp(x, y)
                O.cmp(x, P.rerouted(x))
                m, d2 = x.in_months_days()
                v = P.try_(lambda: W.DateDelta(months=m, days=d2 + rng.choice([1, -1])))
                if v is not None:
                    O.cmp(x, v)
            x, y = P.dtd(), P.dtd()
            if x is not None and y is not None:
                O.cmp(x, y)
                O.cmp(x, P.rerouted(x))
                m, d2, s, n2 = x.in_months_days_secs_nanos()
                v = P.try_(lambda: W.DateTimeDelta(months=m, days=d2, seconds=s, nanoseconds=n2 + rng.choice([1, -1, 1000])))
                if v is not None:
                    O.cmp(x, v)
        else:
            a, b = P.value(), P.value()
            if a is not None and b is not None:
                O.cmp(a, b)
    c.loop(body)


# ---------------------------------------------------------------- C03
def convert_step(c, x):
    P, O, rng = c.P, c.O, c.rng
    t = tname(x)
    k = rng.randint(0, 9)
    if k <= 3:
        return O.to_tz(x, P.zone())
    if k == 4 and t != "Instant":
        return O.get("instant", x)
    if k == 5:
        return O.to_fixed(x)
    if k == 6:
        return O.to_fixed(x, rng.choice([rng.randint(-23, 23), W.seconds(P.offset()), W.seconds(P.offset())]))
    if k == 7:
        return O.to_system(x)
    if t == "Instant":
        return O.to_tz(x, P.zone())
    if k == 8:
        O.get(rng.choice(["local", "date", "time", "offset"]), x)
        return x
    return O.get("instant", x)


def c03(c):
    P, O, rng = c.P, c.O, c.rng

    for x in c.each_zone():
        O.to_tz(O.get("instant", x), x.tz)
        O.to_fixed(x)

    def body():
        z = P.zone()
        ns = P.moment(z)
        for x in P.siblings(ns):
            start = x
            O.to_tz(x, z)
            x = P.rerouted(x)
            for _ in range(4):
                y = convert_step(c, x)
                if y is None or tname(y) == "?":
                    break
                x = y
            # and back again
            t = tname(start)
            if t == "Zoned":
                O.to_tz(x, start.tz)
                O.get("tz", start)
            elif t == "Offset":
                O.to_fixed(x, start.offset)
            elif t == "System":
                O.to_system(x)
        if rng.random() < 0.05:
            x = P.exact()
            if x is not None:
                O.to_tz(x, rng.choice(["Nope", "Europe/Amsterdamn", "", "europe/amsterdam", "Europe", "../x", "/etc/passwd"]))
                O.to_fixed(x, rng.choice([24, -24, 25, 1000, W.hours(24), W.hours(-24), W.seconds(86400),
                                          W.nanoseconds(1), W.milliseconds(500), W.seconds(3600) + W.nanoseconds(1)]))
        if rng.random() < 0.2:
            # from the local time and offset, to the same
            f = P.local_fields()
            off = P.offset()
            x = O.new("Offset", f, offset=W.seconds(off))
            if x is not None:
                O.to_fixed(x)
                O.get("instant", x)
                O.to_tz(x, P.zone())
    c.loop(body)


# ---------------------------------------------------------------- C04
def resolve_points(t, a, b, rng):
    """local moments (ns) around the transition at second t from offset a to b"""
    lo, hi = sorted((t + a, t + b))
    mid = (lo + hi) // 2
    pts = [lo * G - 1, lo * G, lo * G + 1, mid * G + rng.randrange(G), (hi - 1) * G + 999_999_999, hi * G, hi * G + 1,
           (lo + rng.randrange(max(1, hi - lo))) * G]
    return pts


def c04(c):
    P, O, rng = c.P, c.O, c.rng
    # every transition of every timezone: the share of this run
    todo = []
    for key in c.mine(pools.all_zones()):
        for t in pools.transitions(key):
            todo.append((key, t))
    rng.shuffle(todo)
    it = iter(todo)

    def one(key, ns):
        f = fields_of(ns)
        if f is None:
            return
        k = rng.randint(0, 2)
        loc = None
        if k:
            loc = P.try_(lambda: W.LocalDateTime(*f[:6], nanosecond=f[6]))
        for dis in DIS + ([None] if rng.random() < 0.3 else []):
            if k == 0 or loc is None:
                O.new("Zoned", f, tz=key, dis=dis)
            else:
                O.assume_tz(loc, key, dis)
            if c.R.sys == key or rng.random() < 0.1:
                if loc is None:
                    O.new("System", f, dis=dis)
                else:
                    O.assume_system(loc, dis)

    def body():
        k = rng.random()
        if k < 0.75:
            nxt = next(it, None)
            if nxt is not None:
                key, (t, a, b) = nxt
                pts = resolve_points(t, a, b, rng)
                if rng.random() < 0.08 and pools.system_has(key):
                    c.R.set_sys(key)
                for ns in rng.sample(pts, 3):
                    one(key, ns)
                return
        key = P.zone()
        if k < 0.9:
            key = c.R.sys
        f = P.local_fields(key)
        if f:
            o = dt.date(*f[:3]).toordinal() - EPOCH_ORD
            one(key, o * DAYNS + (f[3] * 3600 + f[4] * 60 + f[5]) * G + f[6])
    c.loop(body, misuse.options)


# ---------------------------------------------------------------- C05
def c05(c):
    P, O, rng = c.P, c.O, c.rng

    def body():
        key = P.zone() if rng.random() < 0.75 else c.R.sys
        f = P.local_fields(key)          # the local time to land on
        if f is None:
            return
        u = P.date_units()
        sg = rng.choice([1, -1])
        # start: the target minus the units (about)
        try:
            tgt = W.Date(*f[:3])
            start = tgt.subtract(**u) if sg > 0 else tgt.add(**u)
        except Exception:
            start = P.date()
        dis0 = rng.choice(["earlier", "later", "compatible"])
        try:
            loc = start.at(W.Time(*f[3:6], nanosecond=f[6]))
            xs = [loc.assume_tz(key, dis0)]
            if key == c.R.sys or rng.random() < 0.15:
                xs.append(loc.assume_system_tz(dis0))
        except Exception:
            return
        for x in xs:
            x = P.rerouted(x) if tname(x) == "Zoned" else x
            for dis in rng.sample(["", ""] + DIS, 3):
                uu = dict(u)
                if rng.random() < 0.35:
                    uu.update(P.time_units(P.dur_ns() if rng.random() < 0.3 else rng.randint(-5 * 3600, 5 * 3600) * G + rng.choice([0, 1, -1])))
                O.shift("add" if sg > 0 else "sub", x, uu, dis)
            dd = P.try_(lambda: W.DateDelta(**u)) or P.dd()
            if dd is not None:
                O.binop("plus" if sg > 0 else "minus", x, dd)
                if rng.random() < 0.4:
                    O.shiftd("addd" if sg > 0 else "subd", x, dd, rng.choice([""] + DIS))
            if rng.random() < 0.5:
                s = rng.choice([1, -1])
                dtd = P.try_(lambda: W.DateTimeDelta(**u, nanoseconds=s * rng.choice([1, 3600 * G, 1800 * G, 86400 * G, 7 * G + 5]))) or P.dtd()
                if dtd is not None:
                    O.binop("plus" if sg > 0 else "minus", x, dtd)
                    O.shiftd("addd" if sg > 0 else "subd", x, dtd, rng.choice([""] + DIS))
            if rng.random() < 0.2:
                # the exact units take back what the calendar units gave
                k = rng.choice([1, 1, 2, -1, -2, 7, 30, -31])
                back = {"hours": -24 * k + rng.choice([0, 0, 1, -1, 2, -2])}
                if rng.random() < 0.6:
                    back.update(rng.choice([{"minutes": rng.choice([-1, 1]) * rng.choice([1, 20, 30, 59, 60])},
                                            {"seconds": rng.choice([1, -1, 30, 3599])}, {"nanoseconds": rng.choice([1, -1, G - 1])}]))
                cal = rng.choice([{"days": k}, {"days": k}, {"months": 1, "days": k - 30}, {"weeks": 1, "days": k - 7}])
                O.shift("add" if sg > 0 else "sub", x, {**cal, **back}, rng.choice(["", ""] + DIS))
            if rng.random() < 0.15:
                O.shift(rng.choice(["add", "sub"]), x, rng.choice([{"days": 0}, {"months": 0, "days": 0}, {"years": 1, "months": -12},
                                                                   {"weeks": 1, "days": -7}, {}]), rng.choice(["", "raise", "later"]))
    c.loop(body, misuse.options)


# ---------------------------------------------------------------- C06
def c06(c):
    P, O, rng = c.P, c.O, c.rng

    def body():
        a = O.new("Date", P.ymd())
        if a is None:
            return
        a = P.rerouted(a)
        u = P.date_units()
        op = rng.choice(["add", "sub"])
        b = O.shift(op, a, u)
        if rng.random() < 0.1:
            # shifts that land on the first or the last day, or just beyond
            e = rng.choice([W.Date(1, 1, 1), W.Date(9999, 12, 31)])
            far = P.try_(lambda: e.subtract(**u)) if op == "add" else P.try_(lambda: e.add(**u))
            if far is not None:
                for q in (far, far.replace(day=rng.choice([1, 2, 15, 27, 28]))):
                    O.shift(op, q, u)
                    O.binop("minus", q, e)
                    O.binop("minus", e, q)
                    q2 = P.try_(lambda: W.DateDelta(**u))
                    if q2 is not None:
                        O.binop("plus" if op == "add" else "minus", q, q2)
                        O.shiftd("addd" if op == "add" else "subd", q, q2)
        dd = P.dd()
        if dd is not None:
            O.binop(rng.choice(["plus", "minus"]), a, dd)
            O.shiftd(rng.choice(["addd", "subd"]), a, dd)
        if b is None or rng.random() < 0.5:
            b = P.date()
        if rng.random() < 0.3:
            b = P.try_(lambda: a.add(months=rng.randint(-30, 30)).add(days=rng.randint(-2, 2))) or b
        d = O.binop("minus", a, b)
        if d is not None and tname(d) == "DD":
            O.binop("plus", b, d)
            O.shiftd("subd", a, d)
        O.binop("minus", b, a)
        O.days("days_since", a, b)
        O.days("days_until", a, b)
        O.get("day_of_week", a)
        if rng.random() < 0.2:
            # same day, end of months
            y = P.year()
            e = W.Date(y, rng.randint(1, 12), 28)
            O.binop("minus", e.replace(day=pools.dim(y, e.month)), a)
            O.binop("minus", a, e.replace(day=pools.dim(y, e.month)))
    c.loop(body)


# ---------------------------------------------------------------- C07
def c07(c):
    P, O, rng = c.P, c.O, c.rng
    inrange = ["in_nanoseconds", "hmsn", "bool", "neg", "pos", "abs"]
    fl = ["days_of_24h", "hours", "minutes", "seconds", "milliseconds", "microseconds"]

    def float_units():
        # floats which stand for whole nanoseconds
        u = {}
        k = rng.choice(["hours", "minutes", "seconds", "milliseconds", "microseconds"])
        v = rng.choice([0.5, 1.5, 0.25, 2.0, -0.5, 1e3, -3.75, 0.125, 12.0, rng.randint(-10**6, 10**6) / 4,
                        rng.randint(-10**5, 10**5) / 8])
        if k == "microseconds":
            v = float(int(v))
        from .ops import NS_PER
        a, b = v.as_integer_ratio()
        if a * NS_PER[k] % b:
            v = float(int(v))
        u[k] = v
        if rng.random() < 0.5:
            k2 = rng.choice(["hours", "seconds", "nanoseconds"])
            if k2 != k:
                u[k2] = rng.randint(-10**6, 10**6)
        return u

    def body():
        u = P.time_units()
        if rng.random() < 0.2:
            u = float_units()
        if rng.random() < 0.1:
            u[rng.choice(list(UNITS_TIME))] = rng.choice([1, -1]) * rng.choice([10**9, 10**12, 10**15, 10**18, 10**20, 10**24, 87831216, 87831217])
        a = O.new_delta("TD", u)
        if a is None:
            a = P.td()
        if a is None:
            return
        a = P.rerouted(a)
        O.get(rng.choice(inrange), a)
        O.get(rng.choice(inrange), a)
        O.get(rng.choice(["hmsn", "in_nanoseconds"]), a)
        O.in_unit(rng.choice(fl), a)
        b = P.td()
        if b is None:
            return
        if rng.random() < 0.4:
            b = P.td(rng.choice([1, -1]) * rng.choice([1, 2, 3, 7, 999, 1000, G, 60 * G, 3600 * G, DAYNS, rng.randint(1, 10**6), rng.randint(1, 10**15)]))
        O.binop("plus", a, b)
        O.binop("minus", a, b)
        O.cmp(a, b)
        O.floordiv(a, b)
        O.mod(a, b)
        O.truediv(a, b)
        k = rng.choice([0, 1, -1, 2, -2, 3, 7, 10, 1000, -24, rng.randint(-10**6, 10**6), rng.randint(-10**20, 10**20)])
        O.mul(a, k)
        O.truediv(a, k)
        if rng.random() < 0.3:
            z = rng.choice([0.5, -0.5, 1.5, 2.0, 0.1, 1e-3, 3.3333, -2.25, 1e10, rng.uniform(-10, 10)])
            O.mulfloat(a, z)
            O.truediv(a, z)
        if rng.random() < 0.05:
            zero = W.TimeDelta()
            O.floordiv(a, zero)
            O.mod(a, zero)
            O.truediv(a, zero)
        # numbers with the same quotient but different signs
        n, m = a.in_nanoseconds(), b.in_nanoseconds()
        if abs(n) < TD_MAX // 3 and rng.random() < 0.3:
            e = P.td(n * rng.choice([1, -1, 2, -2, 3]))
            if e is not None:
                O.floordiv(e, a) if n else None
                O.mod(e, a) if n else None
                O.binop("plus", e, a)
    c.loop(body)


# ---------------------------------------------------------------- C08
def c08(c):
    P, O, rng = c.P, c.O, c.rng

    def big_units(t):
        u = {}
        for k in UNITS_DATE:
            if rng.random() < 0.45:
                u[k] = rng.choice([0, 1, 2, 5, 11, 12, 13, 30, 100]) * rng.choice([1, 1, 1, -1])
        if t == "DTD" and rng.random() < 0.7:
            u.update(P.time_units(rng.choice([P.dur_ns(), rng.choice([1, -1]) * rng.randint(0, 10**12)])))
        if rng.random() < 0.15:
            k = rng.choice(list(u) or ["years"])
            u[k] = rng.choice([1, -1]) * rng.choice([9999, 10000, 119988, 119989, 3659634, 3659635, 522804, 522805, 522806, 10**7, 10**9, 2**31, 2**63, 10**20])
        if rng.random() < 0.6:
            # of one sign
            s = rng.choice([1, -1])
            u = {k: s * abs(v) for k, v in u.items()}
        return u

    def val():
        return P.rerouted(rng.choice([P.td, P.dd, P.dd, P.dtd, P.dtd])())

    def body():
        t = rng.choice(["DD", "DTD"])
        x = O.new_delta(t, big_units(t))
        vs = [v for v in (x, val(), val()) if v is not None]
        for v in vs:
            names = ["bool", "neg", "pos", "abs"]
            tv = tname(v)
            if tv == "DD":
                names += ["in_months_days", "in_years_months_days"]
            elif tv == "DTD":
                names += ["date_part", "time_part", "in_months_days_secs_nanos"]
            for n in rng.sample(names, 3):
                O.get(n, v)
            if tv != "TD":
                O.mul(v, rng.choice([0, 1, -1, 2, 3, -3, 12, 100, 10000, -10**6, 10**12, rng.randint(-20, 20)]))
        for _ in range(4 if vs else 0):
            a, b = rng.choice(vs), rng.choice(vs)
            if tname(a) == tname(b) == "TD":
                continue
            O.binop(rng.choice(["plus", "minus"]), a, b)
            O.cmp(a, b)
        if x is not None and rng.random() < 0.4:
            # opposite signs of about the same size
            y = P.try_(lambda: -x)
            if y is not None:
                O.binop("plus", x, y)
                O.binop("minus", y, x)
                if tname(x) == "DD":
                    m, d = x.in_months_days()
                    z = P.try_(lambda: W.DateDelta(months=-m + rng.choice([0, 1, -1])))
                    z2 = P.try_(lambda: W.DateDelta(days=-d + rng.choice([0, 1, -1])))
                    for w in (z, z2):
                        if w is not None:
                            O.binop("plus", x, w)
                            O.binop("minus", x, P.try_(lambda: -w))
                else:
                    tp = x.time_part()
                    O.binop("minus", x, tp)
                    O.binop("plus", x, P.td(-tp.in_nanoseconds() + rng.choice([0, 1, -1])) or tp)
                    O.binop("minus", x, x.date_part())
    c.loop(body)


# ---------------------------------------------------------------- C09
def any_value(c):
    P, rng = c.P, c.rng
    k = rng.random()
    if k < 0.3:
        return P.zoned()
    return P.value()


def c09(c):
    P, O, rng = c.P, c.O, c.rng

    for x in c.each_zone():
        s = O.get("iso", x)
        if isinstance(s, str):
            O.parse("Zoned", s)

    def body():
        x = any_value(c)
        if x is None:
            return
        x = P.rerouted(x)
        if rng.random() < 0.1:
            O.get("repr", x)
        s = O.get(rng.choice(["iso", "iso", "str"]), x)
        if isinstance(s, str):
            O.parse(tname(x), s)
        if rng.random() < 0.25:
            # siblings of equal hash but different text
            for y in P.siblings():
                s = O.get("iso", y)
                if isinstance(s, str):
                    O.parse(tname(y), s)
        if rng.random() < 0.15:
            td = P.td(rng.choice([1, -1]) * rng.choice([1, 10, 100, 10**8, 5 * 10**8, 59 * G, 60 * G, 61 * G, 3599 * G, 3600 * G, 3660 * G, 3601 * G, 90061 * G + 1, 10**9 + 10**6]))
            s = O.get("iso", td)
            if isinstance(s, str):
                O.parse("TD", s)
    c.loop(body)


# ---------------------------------------------------------------- C10
DIGITS = ["0٠०０", "1١१１", "2٢२２", "3٣३３", "4٤४４", "5٥५５", "6٦६６", "7٧७７", "8٨८８", "9٩९９"]
ODD = ["٠", "१", "２", " ", "\n", "\0", "é", "−", "'", "/", "²", "\t", "‎"]
ALPHA = "0123456789-+:.,TtZzPpYyMmWwDdHhSs[]_ /eE"


def mutate(rng, s):
    k = rng.randint(0, 14)
    if not s:
        return rng.choice(ALPHA)
    i = rng.randrange(len(s))
    if k == 14:
        # a digit of another script
        ds = [j for j, ch in enumerate(s) if ch in "0123456789"]
        if ds:
            j = rng.choice(ds)
            return s[:j] + rng.choice(DIGITS[int(s[j])][1:]) + s[j + 1:]
    if k == 0:
        return s[:i] + s[i + 1:]
    if k == 1:
        return s[:i] + rng.choice(ALPHA) + s[i:]
    if k == 2:
        return s[:i] + rng.choice(ALPHA) + s[i + 1:]
    if k == 3:
        return s[:i] + rng.choice(ODD) + s[i + 1:]
    if k == 4:
        return s[:i] + rng.choice(ODD) + s[i:]
    if k == 5:
        return s + rng.choice(["Z", " ", "\n", "0", "T", "S", ".", "+00:00", "[UTC]", "]"])
    if k == 6:
        return rng.choice([" ", "+", "-", "0", "\n", "P"]) + s
    if k == 7:
        j = rng.randrange(len(s))
        i, j = min(i, j), max(i, j)
        return s[:i] + s[j:]
    if k == 8:
        j = rng.randrange(len(s))
        i, j = min(i, j), max(i, j)
        return s[:j] + s[i:j] + s[j:]
    if k == 9:
        return s.lower() if rng.random() < 0.5 else s.replace("T", rng.choice([" ", "t", "_"]))
    if k == 10 and i + 1 < len(s):
        return s[:i] + s[i + 1] + s[i] + s[i + 2:]
    if k in (11, 12):
        # change a two-digit group to one near its limits
        import re
        gs = [m for m in re.finditer(r"\d\d", s)]
        if gs:
            m = rng.choice(gs)
            return s[:m.start()] + rng.choice(["00", "12", "13", "23", "24", "28", "29", "30", "31", "32", "59", "60", "61", "99"]) + s[m.end():]
    return s[:i]


KEYS_BAD = ["Nope/Zone", "Europe", "europe/amsterdam", "Europe/Amsterdam ", "../Europe/Paris", "", "UTC]", "Europe//Paris",
            "A" * 256, "A" * 255, "[UTC", "/UTC", "Étc", ".", "..", "a/../UTC"]


def td_text(c, exact=True):
    rng, P = c.rng, c.P
    s = rng.choice(["", "", "+", "-"]) + "P"

    def num(big=False):
        return str(rng.choice([0, 1, 2, 9, 10, 59, 60, 99, 100, 1000, 9999, 10000, 99999999, rng.randint(0, 10**6)])).zfill(rng.choice([1, 1, 1, 2, 3, 9]))
    if rng.random() < 0.15:
        # units in any order, and repeated
        du = [rng.choice("YMWD") for _ in range(rng.choice([0, 1, 2, 2, 3]))]
        tu = [rng.choice("HMS") for _ in range(rng.choice([0, 1, 2, 2, 3]))]
        return s + "".join(num() + u for u in du) + ("T" if tu or rng.random() < 0.1 else "") + "".join(num() + u for u in tu)
    for u in "YMWD":
        if rng.random() < 0.4:
            s += num() + u
    if rng.random() < 0.7:
        s += "T"
        for u in "HMS":
            if rng.random() < 0.5:
                s += num()
                if rng.random() < (0.5 if u == "S" else 0.05):
                    s += rng.choice([".", ".", ".", ","]) + str(rng.randrange(10 ** rng.randint(1, 9))).zfill(rng.choice([1, 3, 6, 9, 10]))
                s += u
    return s


def text_for(c, t):
    """a text near the format of type t"""
    P, O, rng = c.P, c.O, c.rng
    if t in ("TD", "DD", "DTD") and rng.random() < 0.6:
        s = td_text(c)
        if t == "TD" and rng.random() < 0.8:
            import re
            s = re.sub(r"P[^T]*", "P", s)
        if t == "DD" and rng.random() < 0.8:
            s = s.split("T")[0]
        return s
    f = P.fields()
    if rng.random() < 0.5:
        f = fields_of(P.edge_moment()) or f
    frac = rng.choice(["", "", ".", "."])
    if frac:
        frac = "." + str(rng.randrange(10 ** 9)).zfill(9)[:rng.choice([1, 2, 3, 6, 8, 9])] + ("0" if rng.random() < 0.1 else "")
    d = "%04d-%02d-%02d" % tuple(f[:3])
    tm = "%02d:%02d:%02d" % tuple(f[3:6]) + frac
    if t == "Date":
        return d
    if t == "YearMonth":
        return d[:7]
    if t == "MonthDay":
        return "-" + d[4:]
    if t == "Time":
        return tm
    sep = rng.choice(["T"] * 8 + [" ", "t", "_"])
    if t == "Local":
        return d + sep + tm
    if t == "Instant":
        return d + sep + tm + rng.choice(["Z"] * 6 + ["+00:00", "z", "-00:00", "+00:00:00", "+01:00", ""])
    off = P.offset()
    if rng.random() < 0.15:
        off = rng.choice([86399, -86399, 0, 86340])
    a = abs(off)
    ot = rng.choice("+-") if off == 0 and rng.random() < 0.2 else ("-" if off < 0 else "+")
    ot += "%02d:%02d" % (a // 3600, a // 60 % 60)
    if a % 60 or rng.random() < 0.1:
        ot += ":%02d" % (a % 60)
    if rng.random() < 0.08:
        ot = rng.choice(["Z", "+24:00", "-24:00", "+23:60", "+23:59:60", "+0100", "+01", "+1:00", "z", "+01:00:0", "+01:00:00.5"])
    if t in ("Offset", "System"):
        return d + sep + tm + ot
    # zoned
    k = rng.random()
    if k < 0.75:
        z = P.zoned()
        if z is None:
            return d
        s = str(z)
        if rng.random() < 0.35:
            # another offset: that of the other side of a transition, or close
            i = s.index("[")
            j = max(s.rfind("+", 0, i), s.rfind("-", 0, i))
            tr = pools.transitions(z.tz)
            o = rng.choice(list(rng.choice(tr)[1:]) if tr else [0]) + rng.choice([0, 0, 0, 1, -1, 60, 3600])
            a = abs(o)
            s = s[:j] + ("-" if o < 0 else "+") + "%02d:%02d" % (a // 3600 % 24, a // 60 % 60) + (":%02d" % (a % 60) if a % 60 else "") + s[i:]
        elif rng.random() < 0.2:
            # a local time in a gap
            f = P.local_fields(z.tz)
            tr = pools.transitions(z.tz)
            if f and tr:
                o = rng.choice(list(rng.choice(tr)[1:]))
                a = abs(o)
                s = "%04d-%02d-%02dT%02d:%02d:%02d" % tuple(f[:6]) + ("-" if o < 0 else "+") + "%02d:%02d" % (a // 3600, a // 60 % 60) + (":%02d" % (a % 60) if a % 60 else "") + "[" + z.tz + "]"
        return s
    key = P.zone() if k < 0.9 else rng.choice(KEYS_BAD)
    return d + sep + tm + ot + "[" + key + "]"


def gap_text(c):
    """text of a local time around a transition with one of its offsets"""
    P, rng = c.P, c.rng
    key = P.zone()
    tr = pools.transitions(key)
    if not tr:
        return None
    t, a, b = rng.choice(tr)
    f = fields_of(rng.choice(resolve_points(t, a, b, rng)))
    if not f:
        return None
    o = rng.choice([a, b])
    x = abs(o)
    fr = (".%09d" % f[6]) if f[6] else ""
    return ("%04d-%02d-%02dT%02d:%02d:%02d" % tuple(f[:6]) + fr + ("-" if o < 0 else "+") + "%02d:%02d" % (x // 3600, x // 60 % 60)
            + (":%02d" % (x % 60) if x % 60 else "") + "[" + key + "]")


def rng_shuffled(seq, seed):
    seq = list(seq)
    random.Random(seed).shuffle(seq)
    return seq


def one_edit(s):
    """every text one character away from s, and a few more"""
    for i in range(len(s) + 1):
        for ch in ALPHA + "".join(ODD):
            yield s[:i] + ch + s[i:]
        if i < len(s):
            yield s[:i] + s[i + 1:]
            yield s[:i] + s[i + 1:i + 2] + s[i] + s[i + 2:]
            yield s[:i]
            yield s[i:]
            for ch in ALPHA + "".join(ODD) + (DIGITS[int(s[i])][1:] if s[i] in "0123456789" else ""):
                if ch != s[i]:
                    yield s[:i] + ch + s[i + 1:]


CANON = [("Date", "2024-02-29"), ("Date", "0999-12-01"), ("YearMonth", "2024-10"), ("MonthDay", "--02-29"), ("Time", "23:59:06"), ("Time", "00:10:20.05"),
         ("Time", "12:34:56.123456789"), ("Local", "2023-01-31T01:02:03"), ("Local", "1900-12-30T23:00:59.9"), ("Instant", "2020-08-15T12:08:30Z"),
         ("Instant", "1969-12-31T23:59:59.000001Z"), ("Offset", "2020-08-15T12:08:30+05:30"), ("Offset", "2020-08-15T12:08:30.6-00:44:30"),
         ("System", "2020-08-15T12:08:30-04:00"), ("Zoned", "2020-08-15T12:08:30+02:00[Europe/Paris]"), ("Zoned", "1880-01-01T00:00:00+00:19:32[Europe/Amsterdam]"),
         ("TD", "PT1H2M3.004S"), ("TD", "-PT90S"), ("TD", "PT0S"), ("TD", "+PT12H"), ("DD", "P1Y2M3W4D"), ("DD", "-P30D"), ("DD", "P0D"), ("DD", "+P11M"),
         ("DTD", "P1Y2M3W4DT5H6M7.008S"), ("DTD", "-P1DT1S"), ("DTD", "P2W"), ("DTD", "PT5M"), ("DTD", "-PT0.1S")]


def c10(c):
    P, O, rng = c.P, c.O, c.rng
    for t, s in c.mine(CANON if c.tier == "thorough" else rng_shuffled(CANON, 10)):
        if c.tier == "thorough" or len(s) < 40:
            for v in one_edit(s):
                O.parse(t, v)
                if t in ("TD", "DD") and c.tier == "thorough":
                    O.parse("DTD", v)
    types = ["Date", "YearMonth", "MonthDay", "Time", "Local", "Instant", "Offset", "Zoned", "Zoned", "System", "TD", "DD", "DTD", "TD", "DTD"]

    for x in c.each_zone():
        O.parse("Zoned", str(x))
        O.parse("Zoned", mutate(rng, str(x)))

    def body():
        t = rng.choice(types)
        k = rng.random()
        if k < 0.5:
            s = text_for(c, t)
        elif k < 0.6:
            s = gap_text(c)
            t = "Zoned"
            if s is None:
                return
        elif k < 0.97:
            x = {"Date": P.date, "YearMonth": P.ym, "MonthDay": P.md, "Time": P.time, "Local": P.local, "Instant": P.instant,
                 "Offset": P.offset_dt, "Zoned": P.zoned, "System": P.system, "TD": P.td, "DD": P.dd, "DTD": P.dtd}[t]()
            if x is None:
                return
            s = x.format_common_iso()
        else:
            s = "".join(rng.choice(ALPHA) for _ in range(rng.randint(0, 20)))
        O.parse(t, s)
        for _ in range(rng.choice([1, 2, 3])):
            s = mutate(rng, s)
            O.parse(t, s)
            if rng.random() < 0.05:
                O.parse(rng.choice(types), s)
    c.loop(body, misuse.texts)


# ---------------------------------------------------------------- C11
MON = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
DOW = "Mon Tue Wed Thu Fri Sat Sun".split()


def text2822(c):
    P, rng = c.P, c.rng
    f = P.fields()
    s = ""
    if rng.random() < 0.7:
        s = DOW[dt.date(*f[:3]).weekday()] + ", "
    s += rng.choice(["%02d", "%d"]) % f[2] + " " + MON[f[1] - 1] + " %04d " % f[0]
    s += "%02d:%02d:%02d " % tuple(f[3:6])
    k = rng.random()
    if k < 0.35:
        s += rng.choice(["GMT", "UTC", "UT", "+0000", "-0000"])
    else:
        s += rng.choice("+-") + "%02d%02d" % (rng.choice([0, 1, 2, 5, 12, 23, 24]), rng.choice([0, 0, 30, 45, 59, 60]))
    return s


def c11(c):
    P, O, rng = c.P, c.O, c.rng

    def body():
        x = rng.choice([P.instant, P.offset_dt])()
        if rng.random() < 0.5:
            x = P.offset_dt(None, rng.randint(-23 * 60 - 59, 23 * 60 + 59) * 60)
        if x is None:
            return
        x = P.rerouted(x)
        t = tname(x)
        s = O.get("rfc3339", x)
        if isinstance(s, str):
            O.parse3339(t, s)
            if rng.random() < 0.7:
                v = s
                for _ in range(rng.choice([1, 2])):
                    v = mutate(rng, v)
                O.parse3339(t, v)
            if rng.random() < 0.5:
                O.parse3339(t, s.replace(" ", rng.choice(["T", "t", "_", " ", ""]), 1).replace("Z", rng.choice(["Z", "z", "+00:00", "-00:00"])))
        s = O.get("rfc2822", x)
        if isinstance(s, str):
            O.parse2822(t, s)
            if rng.random() < 0.2:
                O.parse2822(t, mutate(rng, s))
        if rng.random() < 0.5:
            O.parse2822(rng.choice(["Instant", "Offset"]), text2822(c))
        if rng.random() < 0.3:
            O.parse3339(rng.choice(["Instant", "Offset"]), text_for(c, rng.choice(["Instant", "Offset"])))
    c.loop(body)


# ---------------------------------------------------------------- C12
def le(n, k, signed=False):
    return n.to_bytes(k, "little", signed=signed)


def payload(x):
    """(name of the loader, arguments) of a pickle made by an earlier release"""
    t = tname(x)
    if t == "Date":
        return "_unpkl_date", (le(x.year, 2) + bytes([x.month, x.day]),)
    if t == "YearMonth":
        return "_unpkl_ym", (le(x.year, 2) + bytes([x.month]),)
    if t == "MonthDay":
        return "_unpkl_md", (bytes([x.month, x.day]),)
    if t == "Time":
        return "_unpkl_time", (bytes([x.hour, x.minute, x.second]) + le(x.nanosecond, 4),)
    if t == "Instant":
        s, n = divmod(x.timestamp_nanos(), G)
        return "_unpkl_utc", (le(s + EPOCH_ORD * 86400, 8, True) + le(n, 4),)
    if t == "TD":
        s, n = divmod(x.in_nanoseconds(), G)
        return "_unpkl_tdelta", (le(s, 8, True) + le(n, 4),)
    if t == "DD":
        return "_unpkl_ddelta", x.in_months_days()
    if t == "DTD":
        m, d, s, n = x.in_months_days_secs_nanos()
        return "_unpkl_dtdelta", (m, d, s, n)
    b = le(x.year, 2) + bytes([x.month, x.day, x.hour, x.minute, x.second]) + le(x.nanosecond, 4)
    if t == "Local":
        return "_unpkl_local", (b,)
    o = x.offset.in_nanoseconds() // G
    b += le(o, 4, True)
    if t == "Zoned":
        return "_unpkl_zoned", (b, x.tz)
    return {"Offset": "_unpkl_offset", "System": "_unpkl_system"}[t], (b,)


def c12(c):
    P, O, rng = c.P, c.O, c.rng

    def old_pickle(name, args, proto):
        # GLOBAL whenever.name, the arguments, TUPLE, REDUCE
        body = pickle.dumps(args, proto)
        body = body[2:-1] if proto >= 2 else body[:-1]
        if proto >= 4:
            body = body[9:] if body[:1] == b"\x95" else body    # without the frame
        return (b"\x80" + bytes([max(2, proto)]) if proto >= 2 else b"") + b"cwhenever\n" + name.encode() + b"\n" + body + b"R."

    for x in c.each_zone():
        O.pickled(x, rng.choice([3, 4, 5]))
        O.same(x, lambda x=x: copy.deepcopy([x])[0])

    def outdated():
        """the pickle of a ZonedDateTime from a time when its timezone had other rules"""
        key = P.zone()
        tr = pools.transitions(key)
        if tr:
            t, a, b = rng.choice(rng.random() < 0.3 and pools.odd(key) or tr)
            f = fields_of(rng.choice(resolve_points(t, a, b, rng)))
            o = rng.choice([a, b, a, b, a + rng.choice([1, -60, 3600]), P.offset()])
        else:
            f, o = P.fields(), rng.choice([0, P.offset()])
        if not f:
            return
        if rng.random() < 0.15:
            key = rng.choice([P.zone(), "Europe/Atlantis"])
        b = le(f[0], 2) + bytes(f[1:6]) + le(f[6], 4) + le(o, 4, True)
        data = old_pickle("_unpkl_zoned", (b, key), rng.choice([3, 4, 5]))
        O.R.zones.add(key)
        O.R.call("unpickle", [sym("Zoned"), rec("Bytes", list(b)), sym(key)], lambda: pickle.loads(data))

    def body():
        if rng.random() < 0.2:
            return outdated()
        x = any_value(c)
        if x is None:
            return
        x = P.rerouted(x)
        t = tname(x)
        if t == "System" and rng.random() < 0.3:
            c.maybe_sys(1)
        y = O.pickled(x, rng.randint(0, pickle.HIGHEST_PROTOCOL))
        if y is not None and rng.random() < 0.3 and type(y) is type(x):
            O.cmp(x, y)
            O.get("iso", y)
        if rng.random() < 0.3:
            O.same(x, lambda: copy.copy(x))
            O.same(x, lambda: copy.deepcopy(x))
            O.same(x, lambda: copy.deepcopy([x])[0])
        name, args = payload(x)
        data = old_pickle(name, args, rng.choice([0, 2, 3, 4, 5]) if t in ("DD", "DTD") else rng.choice([3, 4, 5]))
        blob = [a for a in args if isinstance(a, bytes)]
        e = [sym(t), rec("Bytes", list(blob[0]) if blob else []), sym(x.tz if t == "Zoned" else "")]
        e += [I(a) for a in args if isinstance(a, int)]
        O.R.call("unpickle", e, lambda: pickle.loads(data))
        if rng.random() < 0.2:
            for y in P.siblings():
                O.pickled(y, pickle.HIGHEST_PROTOCOL)
    c.loop(body)


# ---------------------------------------------------------------- C13
INCS = {"hour": [1, 2, 3, 4, 6, 8, 12, 24], "minute": [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60],
        "second": [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60],
        "millisecond": [1, 2, 4, 5, 8, 10, 20, 25, 40, 50, 100, 125, 200, 250, 500, 1000]}
INCS["microsecond"] = INCS["nanosecond"] = INCS["millisecond"]
UNIT_NS = {"hour": 3600 * G, "minute": 60 * G, "second": G, "millisecond": 10**6, "microsecond": 1000, "nanosecond": 1}


def midnight_gaps(P):
    """days that begin within a gap that starts before midnight and ends after it (or next to such days)"""
    return [x for z in ("America/Toronto", "America/Montreal", "America/Nipigon", "America/Thunder_Bay", "Canada/Eastern")
            for d in (29, 30, 31) for h in (6, 12, 18)
            for x in [P.try_(lambda: W.ZonedDateTime(1919, 3, d, h, tz=z))] if x is not None]


def c13(c):
    P, O, rng = c.P, c.O, c.rng

    def bad_args():
        return rng.choice([("second", 0, None), ("second", -1, None), ("second", 7, None), ("hour", 5, None), ("minute", 7, None),
                           ("day", 2, None), ("day", 0, None), ("millisecond", 3, None), ("nanosecond", 1001, None), ("week", 1, None),
                           ("second", 1, "half"), ("second", 1, "half_up"), ("", 1, None), ("days", 1, None), ("hour", 48, None),
                           ("second", 120, None), ("microsecond", 2000, None), ("hour", 1000, None), ("hour", 1001, None),
                           ("minute", 1440, None), ("second", 1.5, None), ("minute", 7.5, None), ("millisecond", 12.5, None), ("hour", 0.5, None), ("hour", 1.5, None),
                           ("microsecond", 62.5, None), ("day", 1.5, None), ("day", 1, "nearest"), ("hour", 25, None), ("second", 1, "HALF_EVEN")])

    def day_ns(unit, inc):
        """a time of day near a multiple or a tie"""
        step = UNIT_NS[unit] * inc
        k = rng.randrange(max(1, DAYNS // step))
        if rng.random() < 0.3:
            k = rng.choice([0, 1, DAYNS // step - 1])
        base = k * step + (step // 2 if rng.random() < 0.6 else 0)
        return (base + rng.choice([0, 0, 0, 1, -1, 2, -2, 499, -500, 1000, rng.randrange(-step, step + 1)])) % DAYNS

    for x in c.mine(midnight_gaps(P)):
        for m in MODES:
            O.round(x, "day", None, m)

    def body():
        unit = rng.choice(ROUND_UNITS)
        inc = rng.choice(INCS[unit])
        mode = rng.choice(MODES)
        day = rng.random() < 0.25
        tod = day_ns(unit, inc)
        if day:
            tod = (rng.choice([0, DAYNS // 2, DAYNS // 2, 11 * 3600 * G, 23 * 1800 * G, 25 * 1800 * G, 13 * 3600 * G, DAYNS - 1])
                   + rng.choice([0, 0, 1, -1, 15 * 60 * G, -15 * 60 * G, 30 * 60 * G])) % DAYNS
        k = rng.random()
        z = P.zone() if rng.random() < 0.8 else c.R.sys
        tr = pools.transitions(z)
        if k < 0.6 and tr:
            t, a, b = rng.choice(tr)
            # the day of the transition
            d = (t + rng.choice([a, b])) // 86400 + rng.choice([0, 0, 0, 0, 1, -1])
            if rng.random() < 0.3:
                # within an increment of the transition
                step = UNIT_NS[unit] * inc
                lt = (t + rng.choice([a, b])) * G + rng.randint(-step, step)
                d, tod = divmod(lt, DAYNS)
        else:
            y = P.ymd()
            d = dt.date(*y).toordinal() - EPOCH_ORD
        if rng.random() < 0.05:
            d = rng.choice([3652059, 1, 2, 3652058]) - EPOCH_ORD
        f = fields_of(d * DAYNS + tod)
        if f is None:
            return
        loc = P.try_(lambda: W.LocalDateTime(*f[:6], nanosecond=f[6]))
        if loc is None:
            return
        vals = [loc, P.try_(lambda: loc.assume_tz(z, rng.choice(["earlier", "later"]))),
                P.try_(lambda: loc.assume_fixed_offset(W.seconds(P.offset())))]
        if z == c.R.sys or rng.random() < 0.2:
            vals.append(P.try_(lambda: loc.assume_system_tz(rng.choice(["earlier", "later"]))))
        if not day or rng.random() < 0.1:
            vals.append(P.try_(lambda: loc.assume_utc()))
        if not day:
            vals.append(P.try_(lambda: loc.time()))
            s = rng.choice([1, -1])
            n = s * (tod + rng.choice([0, 0, DAYNS, 365 * DAYNS]))
            vals.append(P.td(n))
        for x in vals:
            if x is None:
                continue
            x = P.rerouted(x) if tname(x) != "System" else x
            modes = MODES if rng.random() < 0.3 else [mode]
            for m in modes:
                if day:
                    O.round(x, "day", rng.choice([None, 1]), m)
                else:
                    O.round(x, unit if (unit != "second" or rng.random() < 0.7) else None, inc if (inc != 1 or rng.random() < 0.5) else None,
                            m if (m != "half_even" or rng.random() < 0.5) else None)
        if rng.random() < 0.15:
            u, i, m = bad_args()
            for x in vals:
                if x is not None:
                    O.round(x, u, i, m)
        if rng.random() < 0.2:
            td = P.td()
            if td is not None:
                u = rng.choice(ROUND_UNITS)
                O.round(td, u, rng.choice(INCS[u] + ([5, 7, 36, 100, 168, 1000, 25] if u == "hour" else [])), mode)
            # ends of the range of a duration
            e = P.td(rng.choice([1, -1]) * (TD_MAX - rng.choice([0, 1, 10**6, 3600 * G])))
            if e is not None:
                u = rng.choice(ROUND_UNITS)
                O.round(e, u, rng.choice(INCS[u] + ([5, 7, 36] if u == "hour" else [])), mode)
    c.loop(body)


# ---------------------------------------------------------------- C14
def c14(c):
    P, O, rng = c.P, c.O, c.rng

    def edge():
        return P.edge_moment()

    def small_ns():
        return rng.choice([1, -1]) * rng.choice([0, 1, 999, 1000, G, 60 * G, 3600 * G, 14 * 3600 * G, DAYNS, DAYNS - 1, DAYNS + 1, 2 * DAYNS, 40 * DAYNS,
                                                 rng.randrange(3 * DAYNS)])

    def bad_fields():
        f = P.fields()
        k = rng.randrange(7)
        f[k] = [rng.choice([0, -1, 10000, 10001, 2**31, -2**31, 2**63, 10**20, 1, 9999]),
                rng.choice([0, 13, -1, 2**31, 12, 1]), rng.choice([0, 29, 30, 31, 32, -1, 2**40]),
                rng.choice([24, -1, 23, 2**31]), rng.choice([60, -1, 59, 10**10]), rng.choice([60, 61, -1, 59]),
                rng.choice([10**9, -1, 999_999_999, 2**32, 10**9 + 1, 10**10])][k]
        return f

    def exactly():
        """shifts that reach the very end of the range, or one step more"""
        s = rng.choice([1, -1])
        end = MAX_NS if s > 0 else MIN_NS
        delta = abs(rng.choice([small_ns(), P.dur_ns(), rng.randrange(MAX_NS - MIN_NS)]))
        for x in P.siblings(end - s * delta):
            n = s * (delta + rng.choice([0, 0, 0, 1, -1, 1000, G]))
            if tname(x) == "Offset":
                O.shiftd("addd", x, P.td(n))
                O.shift("sub", x, P.time_units(-n))
            else:
                O.shift("add", x, P.time_units(n))
                O.binop("minus", x, P.td(-n))
        d = P.date()
        e = W.Date(9999, 12, 31) if s > 0 else W.Date(1, 1, 1)
        n = e.days_since(d) + rng.choice([0, 0, 1, -1])
        O.shift("add", d, {"days": n})
        O.shift("sub", d, {"days": -n})
        m = (e.year - d.year) * 12 + e.month - d.month + rng.choice([0, 0, 1, -1])
        O.shift("add", d, {"months": m})
        t = P.time()
        O.shift("add", d.at(t), {"days": n})
        O.shift("add", d.at(t), {"days": n - s, "hours": s * rng.choice([0, 1, 23, 24]), "nanoseconds": rng.choice([0, s])})

    def body():
        k = rng.random()
        if rng.random() < 0.07:
            exactly()
        if k < 0.3:
            ns = edge()
            xs = P.siblings(ns)
            for x in xs:
                t = tname(x)
                j = rng.randint(0, 6)
                if j == 0:
                    O.shift(rng.choice(["add", "sub"]), x, P.time_units(small_ns()))
                elif j == 1 and t != "Instant":
                    O.shift(rng.choice(["add", "sub"]), x, {rng.choice(["days", "months", "years", "weeks"]): rng.choice([1, -1, 2, 12, -12, 9998, -9998, 1, -1])})
                elif j == 2:
                    O.to_fixed(x, W.seconds(P.offset()))
                elif j == 3:
                    O.to_tz(x, P.zone())
                elif j == 4:
                    u = rng.choice(ROUND_UNITS)
                    O.round(x, u, rng.choice(INCS[u]), rng.choice(MODES))
                    if t != "Instant":
                        O.round(x, "day", 1, rng.choice(MODES))
                elif j == 5:
                    O.to_system(x)
                    td = P.td(small_ns())
                    if t != "Offset":
                        O.binop(rng.choice(["plus", "minus"]), x, td)
                    else:
                        O.shiftd(rng.choice(["addd", "subd"]), x, td)
                elif t != "Instant":
                    g = fields_of(edge())
                    kw = dict(zip(("year", "month", "day", "hour", "minute", "second", "nanosecond"), g))
                    kw = {a: b for a, b in kw.items() if rng.random() < 0.8}
                    O.replace(x, kw)
                    O.replace_part("replace_time", x, P.time())
                    O.replace_part("replace_date", x, W.Date(*g[:3]))
        elif k < 0.5:
            f = bad_fields() if rng.random() < 0.6 else fields_of(edge())
            if f is None:
                return
            t = rng.choice(["Date", "Time", "Local", "Instant", "Offset", "Zoned", "System", "YearMonth", "MonthDay"])
            if t == "Date":
                O.new(t, f[:3])
            elif t == "Time":
                O.new(t, f[3:])
            elif t == "YearMonth":
                O.new(t, f[:2])
            elif t == "MonthDay":
                O.new(t, f[1:3])
            elif t == "Offset":
                O.new(t, f, offset=rng.choice([W.seconds(P.offset()), rng.choice([0, 23, -23, 24, -24, 100, -14])]))
            elif t == "Zoned":
                O.new(t, f, tz=P.zone(), dis=rng.choice(DIS))
            else:
                O.new(t, f)
            loc = P.try_(lambda: W.LocalDateTime(*f[:6], nanosecond=f[6]))
            if loc is not None:
                O.assume_fixed(loc, rng.choice([W.seconds(P.offset()), 24, -24, 23, -23, W.hours(24), W.nanoseconds(1)]))
                O.assume_tz(loc, P.zone(), rng.choice(DIS))
                O.assume_utc(loc)
                O.assume_system(loc)
        elif k < 0.6:
            f = fields_of(edge())
            loc = W.LocalDateTime(*f[:6], nanosecond=f[6])
            O.shift(rng.choice(["add", "sub"]), loc, P.time_units(small_ns()))
            O.shift(rng.choice(["add", "sub"]), loc, {rng.choice(["days", "months", "years", "weeks"]): rng.choice([1, -1, 2, 12, 9998])})
            O.round(loc, rng.choice(["day", "hour", "minute"]), 1, rng.choice(MODES))
            d = loc.date()
            O.shift(rng.choice(["add", "sub"]), d, {rng.choice(["days", "months", "years", "weeks"]): rng.choice([1, -1, 2, 12, 31, 365, 366, 9998, 9999, 10**9, 2**31, 10**18])})
            O.binop(rng.choice(["plus", "minus"]), d, P.dd() or W.days(1))
            if f[0] in (1, 9999):
                x = P.offset_dt(None, P.offset())
                if x is not None:
                    O.replace_part("replace_date", x, d)
        elif k < 0.75:
            t = rng.choice(["TD", "DD", "DTD"])
            u = {}
            if t != "TD":
                u.update(rng.choice([{"years": 9999}, {"months": 119988}, {"days": 3659634}, {"weeks": 522804}, {"months": 119989}, {"days": 3659635},
                                     {"years": 10000}, {"years": 9999, "months": 1}, {"weeks": 522804, "days": 6}, {"weeks": 522805}, {"years": 10**18}, {"days": -10**12}]))
            if t != "DD":
                u.update(rng.choice([{"hours": 87831216}, {"hours": 87831217}, {"hours": 87831216, "nanoseconds": 1}, {"minutes": 10**12},
                                     {"seconds": 316192377600}, {"seconds": 316192377601}, {"nanoseconds": 316192377600 * G}, {"nanoseconds": 316192377600 * G + 1},
                                     {"microseconds": 10**18}, {"milliseconds": 316192377600000}, {"hours": 10**20}]))
            if rng.random() < 0.4:
                u = {a: -b for a, b in u.items()}
            x = O.new_delta(t, u)
            if x is not None:
                O.get(rng.choice(["neg", "abs"]), x)
                O.binop(rng.choice(["plus", "minus"]), x, P.delta() or x)
                O.mul(x, rng.choice([1, 2, -1, 10**6]))
                if t != "DD":
                    O.get("iso", x)
        elif k < 0.8:
            # values at and near the limits of the deltas
            e = P.td(rng.choice([1, -1]) * (TD_MAX - rng.choice([0, 0, 1, 999, 10**6, G, 3600 * G, DAYNS, rng.randrange(10**15)])))
            o = P.td(rng.choice([1, -1]) * rng.choice([0, 1, 999, 10**6, G, 3600 * G, DAYNS, TD_MAX, TD_MAX // 2, rng.randrange(10**15)]))
            j = rng.randint(0, 4)
            if j == 0:
                for mode in rng.sample(MODES, 2):
                    u = rng.choice(ROUND_UNITS)
                    O.round(e, u, rng.choice(INCS[u] + ([5, 7, 36, 100, 168, 1000, 25] if u == "hour" else [])), mode)
            elif j == 1:
                O.binop(rng.choice(["plus", "minus"]), e, o)
                O.binop("minus", o, e)
                O.floordiv(e, o)
                O.mod(e, o)
                O.mod(o, e)
                O.cmp(e, o)
            elif j == 2:
                t = O.get("iso", e)
                if isinstance(t, str):
                    O.parse("TD", t)
                h = rng.choice([87831216, 87831217, 87831215, 10**10, 0])
                m = rng.choice([0, 0, 1, 59, 60, 5269872960, 5269872961])
                q = rng.choice(["0", "0", "0.000000001", "59.999999999", "60", "316192377600", "316192377600.000000001", "316192377601"])
                x = rng.choice(["", "-", "+"]) + "PT" + "%dH" % h * (h > 0) + "%dM" % m * (m > 0) + q + "S"
                O.parse("TD", x)
                O.parse("DTD", x)
            elif j == 3:
                O.get(rng.choice(["hmsn", "in_nanoseconds", "neg", "abs", "py", "repr"]), e)
                O.mul(e, rng.choice([1, -1, 2, 0, 10**30]))
                O.truediv(e, rng.choice([1, -1, 2, 10**9]))
                py = P.try_(lambda: dt.timedelta(days=rng.choice([1, -1]) * rng.choice([3659634, 3659634, 3659635, 999999999]),
                                                 microseconds=rng.choice([0, 0, 1, -1])))
                if py is not None:
                    O.from_py("TD", py)
            else:
                m, d = rng.choice([0, 119988, 119987]), rng.choice([0, 3659634, 3659633])
                s = rng.choice([1, -1])
                dd = W.DateDelta(months=s * m, days=s * d)
                od = W.DateDelta(months=rng.choice([1, -1, 0]), days=0) if rng.random() < 0.5 else W.DateDelta(days=rng.choice([1, -1, 0, 7]))
                O.binop(rng.choice(["plus", "minus"]), dd, od)
                O.mul(dd, rng.choice([1, -1, 2, 0]))
                O.get(rng.choice(["neg", "abs", "in_years_months_days", "in_months_days"]), dd)
                t = O.get("iso", dd)
                if isinstance(t, str):
                    O.parse(rng.choice(["DD", "DTD"]), t)
                dtd = P.try_(lambda: dd + W.TimeDelta(nanoseconds=s * abs(e.in_nanoseconds())))
                if dtd is not None:
                    O.binop(rng.choice(["plus", "minus"]), dtd, rng.choice([od, o, dtd]))
                    O.mul(dtd, rng.choice([1, -1, 2, 0]))
                    O.get(rng.choice(["neg", "abs", "iso", "in_months_days_secs_nanos"]), dtd)
        elif k < 0.87:
            n = rng.choice([MIN_NS, MAX_NS]) + rng.choice([0, 1, -1, G, -G, DAYNS, -DAYNS, 10**25, -10**25])
            u = rng.choice(["s", "ms", "ns"])
            n //= {"s": G, "ms": 10**6, "ns": 1}[u]
            t = rng.choice(["Instant", "Offset", "Zoned", "System"])
            O.from_timestamp(u, t, n, tz=P.zone(), offset=W.seconds(P.offset()))
        elif k < 0.95:
            f = fields_of(edge())
            off = P.offset()
            a = abs(off)
            s = "%04d-%02d-%02dT%02d:%02d:%02d" % tuple(f[:6]) + (".%09d" % f[6] if f[6] else "")
            ot = ("-" if off < 0 else "+") + "%02d:%02d" % (a // 3600, a // 60 % 60)
            os_ = ot + (":%02d" % (a % 60) if a % 60 else "")
            O.parse(rng.choice(["Offset", "System"]), s + os_)
            O.parse3339("Offset", s + ot)
            z = P.zone()
            O.parse("Zoned", s + os_ + "[" + z + "]")
            O.parse2822("Offset", "%d %s %04d %02d:%02d:%02d " % (f[2], MON[f[1] - 1], f[0], f[3], f[4], f[5]) + ot.replace(":", ""))
            if f[6] % 1000 == 0:
                O.from_py("Offset", dt.datetime(*f[:6], f[6] // 1000, tzinfo=dt.timezone(dt.timedelta(seconds=off))))
                O.from_py("Instant", dt.datetime(*f[:6], f[6] // 1000, tzinfo=dt.timezone(dt.timedelta(seconds=off))))
        else:
            for n in ("Instant.MIN", "Instant.MAX", "LocalDateTime.MIN", "LocalDateTime.MAX", "Date.MIN", "Date.MAX", "YearMonth.MIN",
                      "YearMonth.MAX", "MonthDay.MIN", "MonthDay.MAX", "Time.MIDNIGHT", "Time.NOON", "Time.MAX", "TimeDelta.ZERO",
                      "TimeDelta.MAX", "TimeDelta.MIN", "DateDelta.ZERO", "DateTimeDelta.ZERO"):
                O.const(n)
            ym, md = P.ym(), P.md()
            O.on_day(ym, rng.choice([0, 1, 28, 29, 30, 31, 32, -1]))
            O.in_year(md, rng.choice([0, 1, 9999, 10000, -1, 2023, 2024, 1900]))
            x = rng.choice([P.zoned, P.system])(edge())
            if x is not None:
                O.day("start_of_day", x)
                O.day("day_length", x)
                O.day("is_ambiguous", x)
    c.loop(body, misuse.ranges)


# ---------------------------------------------------------------- C15
BINOPS = [("==", lambda a, b: a == b)]


def c15(c):
    P, O, rng = c.P, c.O, c.rng
    mk = {"Date": P.date, "Time": P.time, "YearMonth": P.ym, "MonthDay": P.md, "Local": P.local, "Instant": P.instant, "Offset": P.offset_dt,
          "Zoned": P.zoned, "System": P.system, "TD": P.td, "DD": P.dd, "DTD": P.dtd}
    exact = {"Instant", "Offset", "Zoned", "System"}

    def body():
        k = rng.random()
        if k < 0.45:
            ta, tb = rng.choice(list(mk)), rng.choice(list(mk))
            a, b = mk[ta](), mk[tb]()
            if a is None or b is None:
                return
            if rng.random() < 0.5:
                # the same fields
                f = P.fields()
                loc = W.LocalDateTime(*f[:6], nanosecond=f[6])
                same = [loc, P.try_(loc.assume_utc), P.try_(lambda: loc.assume_tz("UTC")), P.try_(lambda: loc.assume_fixed_offset(0)),
                        loc.date(), loc.time()]
                same = [v for v in same if v is not None]
                a, b = rng.choice(same), rng.choice(same)
            O.cmp(a, b)
            O.binop("plus", a, b)
            O.binop("minus", a, b)
        elif k < 0.7:
            x = P.offset_dt() if rng.random() < 0.5 else P.local()
            if x is None:
                return
            ign = rng.random() < 0.5
            u = {}
            if rng.random() < 0.5:
                u.update(P.date_units())
            if rng.random() < 0.5:
                u.update(P.time_units(rng.choice([0, 1, -1, 3600 * G, G, 10**6, 1000, 60 * G])))
            O.shift(rng.choice(["add", "sub"]), x, u, ign=ign)
            d = P.delta()
            if d is not None:
                O.shiftd(rng.choice(["addd", "subd"]), x, d, ign=ign)
            if tname(x) == "Offset":
                # also where nothing would change
                own = dict(zip(("year", "month", "day", "hour", "minute", "second", "nanosecond"),
                               (x.year, x.month, x.day, x.hour, x.minute, x.second, x.nanosecond)))
                O.replace(x, {"hour": 3}, ign=ign)
                O.replace(x, {k: own[k] for k in rng.sample(list(own), rng.choice([1, 1, 2, 7]))}, ign=ign)
                O.replace(x, {"nanosecond": 0}, ign=ign)
                O.replace_part("replace_date", x, rng.choice([P.date, x.date])(), ign=ign)
                O.replace_part("replace_time", x, rng.choice([P.time, x.time])(), ign=ign)
                y = rng.choice([x, x, P.try_(lambda: x.replace(second=0, nanosecond=0, ignore_dst=True)),
                                P.try_(lambda: x.replace_time(W.Time(), ignore_dst=True))])
                O.round(y or x, rng.choice(ROUND_UNITS + ["day"]), 1, rng.choice(MODES), ign=ign)
                O.shift(rng.choice(["add", "sub"]), x, {rng.choice(list(UNITS_DATE) + list(UNITS_TIME)): 0}, ign=ign)
                O.from_timestamp(rng.choice(["s", "ms", "ns"]), "Offset", rng.choice([0, rng.randint(-10**9, 10**9)]),
                                 offset=W.hours(rng.choice([0, rng.randint(-12, 12)])), ign=ign)
            else:
                y = rng.choice([x, P.local()])
                if y is not None:
                    O.difference(x, y, ign)
                    O.binop("minus", x, y)
        elif k < 0.8:
            y = P.local()
            x = P.local()
            if x is None or y is None:
                return
            O.difference(x, y, rng.random() < 0.5)
            O.binop("minus", x, y)
        else:
            # calls that take no such value
            ta = rng.choice(list(mk))
            a = mk[ta]()
            loc, ex = P.local(), P.exact()
            if a is None or loc is None or ex is None:
                return
            tests = []
            if ta in exact:
                tests += [("difference local", lambda: a.difference(loc)), ("exact_eq local", lambda: a.exact_eq(loc)),
                          ("difference date", lambda: a.difference(P.date()))]
            if ta == "Local":
                tests += [("difference exact", lambda: a.difference(ex, ignore_dst=True)), ("to_tz", lambda: a.to_tz("UTC")),
                          ("instant", lambda: a.instant()), ("timestamp", lambda: a.timestamp()), ("to_fixed", lambda: a.to_fixed_offset(0)),
                          ("to_system", lambda: a.to_system_tz())]
            if ta == "Instant":
                tests += [("add days", lambda: a.add(days=1)), ("add months", lambda: a.add(months=1)), ("year", lambda: a.year), ("hour", lambda: a.hour),
                          ("replace", lambda: a.replace(hour=1)), ("local", lambda: a.local()), ("date", lambda: a.date())]
            if ta == "Date":
                tests += [("add hours", lambda: a.add(hours=1)), ("since", lambda: a.days_since(loc)), ("at", lambda: a.at(loc))]
            tests += [("offset without offset", lambda: W.OffsetDateTime(2020, 1, 1)), ("zoned without tz", lambda: W.ZonedDateTime(2020, 1, 1)),
                      ("instant()", lambda: W.Instant(2020, 1, 1)), ("instant", lambda: W.Instant()),
                      ("offset now", lambda: W.OffsetDateTime.now(1)), ("zoned now", lambda: W.ZonedDateTime.now()),
                      ("lt", lambda: loc < ex), ("gt", lambda: ex > loc), ("le", lambda: loc <= ex), ("ge", lambda: ex >= loc),
                      ("sub", lambda: loc - ex), ("sub", lambda: ex - loc), ("add", lambda: loc + ex), ("add", lambda: ex + ex)]
            for what, f in rng.sample(tests, min(5, len(tests))):
                try:
                    r = f()
                except TypeError:
                    res = rec("Err", [], "Type")
                except AttributeError:
                    res = rec("Err", [], "Type")
                except Exception as e:
                    from .enc import enc_err
                    res = enc_err(e)
                else:
                    res = enc(r)
                O.R.log("refused", [sym(what + " " + ta), enc(a)], res)
    c.loop(body, misuse.mixing)


# ---------------------------------------------------------------- C16
class DTSub(dt.datetime):
    pass


class TimeSub(dt.time):
    pass


class TDSub(dt.timedelta):
    pass


class ZISub(__import__("zoneinfo").ZoneInfo):
    pass


class Fixed(dt.tzinfo):
    def __init__(self, o):
        self.o = o

    def utcoffset(self, d):
        return None if self.o is None else dt.timedelta(seconds=self.o)

    def tzname(self, d):
        return "x"

    def dst(self, d):
        return None


def c16(c):
    from zoneinfo import ZoneInfo
    P, O, rng = c.P, c.O, c.rng

    def std(key):
        f = P.local_fields(key)
        if f is None:
            return None
        k = rng.random()
        us = f[6] // 1000
        cls = DTSub if rng.random() < 0.15 else dt.datetime
        fold = rng.choice([0, 0, 1])
        if k < 0.25:
            tz = None
        elif k < 0.5:
            tz = dt.timezone(dt.timedelta(seconds=P.offset(), microseconds=rng.choice([0, 0, 0, 0, 1, 500000])))
        elif k < 0.55:
            tz = dt.timezone.utc
        elif k < 0.78:
            tz = ZoneInfo(key)
        elif k < 0.84:
            tz = ZoneInfo.no_cache(key)
        elif k < 0.9:
            # the same rules, with a name or without
            with open(tzif.find(key), "rb") as file:
                tz = ZoneInfo.from_file(file, key=rng.choice([key, None]))
        elif k < 0.95:
            tz = Fixed(rng.choice([None, P.offset()]))
        else:
            tz = ZISub(key)
        try:
            return cls(*f[:6], us, tzinfo=tz, fold=fold)
        except Exception:
            return None

    def inrange(p):
        # the standard library can't represent the moment near the ends of the range
        return True

    for x in c.each_zone():
        O.from_py("Zoned", x.py_datetime())
        O.get("py", x)

    def body():
        k = rng.random()
        if k < 0.5:
            x = rng.choice([P.instant, P.offset_dt, P.zoned, P.zoned, P.system, P.local, P.date, P.time, P.td])()
            if x is None:
                return
            if rng.random() < 0.6:
                # whole microseconds
                x2 = P.try_(lambda: x.replace(nanosecond=x.nanosecond // 1000 * 1000) if tname(x) in ("Zoned", "System", "Local", "Time") else x)
                x = x2 or x
            x = P.rerouted(x)
            p = O.get("py", x)
            if p is not None:
                O.from_py(tname(x), p)
                if tname(x) in ("Zoned", "System", "Offset", "Instant"):
                    O.from_py(rng.choice(["Instant", "Offset"]), p)
        elif k < 0.85:
            key = P.zone()
            p = std(key)
            if p is None:
                return
            try:
                e = enc(p)
                if p.tzinfo is not None and p.utcoffset() is not None:
                    o = p.utcoffset()
                    m = p.replace(tzinfo=None) - dt.datetime(1, 1, 1) - o
                    # sub-second or edge moments: the standard library fails on its own
            except Exception:
                return
            c.R.zones.add(key)
            for t in rng.sample(["Local", "Instant", "Offset", "Zoned", "System"], 3):
                if t == "Zoned" and type(p.tzinfo) is ZISub:
                    pass
                O.from_py(t, p)
        elif k < 0.92:
            f = P.fields()
            cls = TimeSub if rng.random() < 0.3 else dt.time
            O.from_py("Time", cls(*f[3:6], f[6] // 1000, fold=rng.choice([0, 1]), tzinfo=rng.choice([None, None, None, dt.timezone.utc])))
            O.from_py("Date", dt.date(*f[:3]))
            O.from_py("Date", dt.datetime(*f[:6], f[6] // 1000))
        else:
            lim = 3659634
            d = rng.choice([0, 1, -1, lim, -lim, lim + 1, -lim - 1, 999999999, -999999999, rng.randint(-lim, lim)])
            cls = TDSub if rng.random() < 0.3 else dt.timedelta
            O.from_py("TD", cls(days=d, seconds=rng.choice([0, 1, 86399, rng.randrange(86400)]), microseconds=rng.choice([0, 1, 999999, rng.randrange(10**6)])))
    c.loop(body, misuse.standard)


# ---------------------------------------------------------------- C18
def c18(c):
    P, O, rng = c.P, c.O, c.rng
    todo = []
    for key in c.mine(pools.all_zones()):
        for t in pools.transitions(key):
            todo.append((key, t))
    rng.shuffle(todo)
    it = iter(todo)

    def three(x):
        for op in rng.sample(["start_of_day", "day_length", "is_ambiguous"], 3 if rng.random() < 0.6 else 2):
            O.day(op, x)

    for x in c.mine(midnight_gaps(P)):
        three(x)

    def body():
        nxt = next(it, None) if rng.random() < 0.8 else None
        if nxt is None:
            x = rng.choice([P.zoned, P.system])()
            if x is not None:
                three(x)
            return
        key, (t, a, b) = nxt
        if rng.random() < 0.1 and pools.system_has(key):
            c.R.set_sys(key)
        for s in rng.sample([t * G - 1, t * G, t * G + G // 2, (t + a - b) * G, (t + b - a) * G, (t - abs(a - b)) * G - 1,
                             (t + abs(a - b)) * G, (t + 43200) * G, (t - 43200) * G], 4):
            x = P.zoned(s, key)
            if x is not None:
                three(x)
            if key == c.R.sys:
                x = P.system(s)
                if x is not None:
                    three(x)
    c.loop(body)


# ---------------------------------------------------------------- C19
def c19(c):
    P, O, rng = c.P, c.O, c.rng

    def body():
        f = P.fields() if rng.random() < 0.85 else fields_of(P.edge_moment())
        k = rng.random()
        if k < 0.5:
            x = O.new("Local", f)
        else:
            x = O.new("Offset", f, offset=rng.choice([W.seconds(P.offset()), rng.randint(-23, 23)]))
        if x is None:
            return
        x = P.rerouted(x)
        u = {}
        if rng.random() < 0.6:
            u.update(P.date_units())
        if rng.random() < 0.7 or not u:
            u.update(P.time_units())
        op = rng.choice(["add", "sub"])
        y = O.shift(op, x, u, ign=True)
        if y is not None and not any(a in u for a in UNITS_DATE):
            O.shift("sub" if op == "add" else "add", y, u, ign=True)
        if rng.random() < 0.1:
            # shifts that land on the first or the last moment, or just beyond
            e = rng.choice([W.LocalDateTime.MIN, W.LocalDateTime.MAX])
            back = "sub" if op == "add" else "add"
            far = P.try_(lambda: getattr(e, {"add": "add", "sub": "subtract"}[back])(**u, ignore_dst=True))
            if far is not None:
                for n in (0, rng.choice([1, -1, 999, G, -G, DAYNS, -DAYNS])):
                    q = P.try_(lambda: far.add(nanoseconds=n, ignore_dst=True))
                    if q is not None:
                        O.shift(op, q, u, ign=True)
                        O.difference(q, e, True)
                        O.difference(e, q, True)
                        q2 = P.try_(lambda: W.DateTimeDelta(**u))
                        if q2 is not None:
                            O.shiftd("addd" if op == "add" else "subd", q, q2, ign=True)
        d = P.delta()
        if d is not None:
            O.shiftd(rng.choice(["addd", "subd"]), x, d, ign=True)
        if tname(x) == "Local":
            dd = P.dd()
            if dd is not None:
                O.binop(rng.choice(["plus", "minus"]), x, dd)
            z = P.local()
            if rng.random() < 0.5:
                # some fields in common
                keep = rng.sample(range(7), rng.randint(1, 7))
                g = P.fields()
                z = P.try_(lambda: W.LocalDateTime(*[(f if k in keep else g)[k] for k in range(6)], nanosecond=(f if 6 in keep else g)[6]))
            if z is not None:
                O.difference(x, z, True)
                dl = P.try_(lambda: x.difference(z, ignore_dst=True))
                if dl is not None:
                    O.shiftd("addd", z, dl, ign=True)
            O.replace_part("replace_date", x, P.date())
            O.replace_part("replace_time", x, P.time())
        else:
            O.replace_part("replace_date", x, P.date())
            O.replace_part("replace_time", x, P.time())
            O.get("local", x)
        a = O.get("date", x)
        b = O.get("time", x)
        if a is not None and b is not None and tname(a) == "Date" and tname(b) == "Time":
            O.at(a, b)
            O.on(P.time(), a)
    c.loop(body)


# ---------------------------------------------------------------- C20
def c20(c):
    P, O, rng = c.P, c.O, c.rng
    sys_md = [(m, d) for m in range(0, 14) for d in range(0, 33)]
    for m, d in c.mine(sys_md):
        x = O.new("MonthDay", [m, d])
        if x is not None:
            O.get("is_leap", x)
            O.in_year(x, P.year())
            O.in_year(x, rng.choice([1900, 2000, 2023, 2024, 4, 100, 400]))
            O.get("iso", x)
    for m in range(0, 14):
        for y in c.mine([0, 1, 4, 100, 400, 1900, 2000, 2023, 2024, 9999, 10000, -1]):
            x = O.new("YearMonth", [y, m])
            if x is not None:
                for d in (0, 1, 28, 29, 30, 31, 32):
                    O.on_day(x, d)

    def body():
        y, m, d = P.ymd()
        a = O.new("YearMonth", [y, m])
        b = O.new("MonthDay", [m, d])
        dd = P.date()
        x, z = O.get("year_month", dd), O.get("month_day", dd)
        if x is None or z is None or a is None or b is None:
            return
        if tname(x) != "YearMonth" or tname(z) != "MonthDay":
            return
        O.on_day(x, dd.day)
        O.in_year(z, dd.year)
        O.on_day(a, rng.choice([0, 1, 28, 29, 30, 31, 32, -1, 10**6]))
        O.in_year(b, rng.choice([P.year(), 0, 10000, -1]))
        O.cmp(a, x)
        O.cmp(b, z)
        O.cmp(a, b)
        e = P.try_(lambda: W.YearMonth(y + rng.choice([-1, 0, 1]), min(12, max(1, m + rng.choice([-1, 0, 1])))))
        if e is not None:
            O.cmp(a, e)
        O.replace(a, rng.choice([{"year": P.year()}, {"month": rng.randint(0, 13)}, {"year": P.year(), "month": rng.randint(1, 12)}, {"year": 0}, {"year": 10000}]))
        O.replace(b, rng.choice([{"month": rng.randint(0, 13)}, {"day": rng.randint(0, 32)}, {"month": rng.randint(1, 12), "day": rng.randint(1, 31)}]))
        O.get("is_leap", b)
        for v in (a, b):
            s = O.get("iso", v)
            if isinstance(s, str):
                O.parse(tname(v), s)
            O.pickled(v, 4)
    c.loop(body)


# ---------------------------------------------------------------- C23
def c23(c):
    P, O, rng = c.P, c.O, c.rng
    names = ("year", "month", "day", "hour", "minute", "second", "nanosecond")

    def subset(f, p=0.35):
        return {n: v for n, v in zip(names, f) if rng.random() < p}

    def body():
        k = rng.random()
        if k < 0.6:
            key = P.zone() if rng.random() < 0.8 else c.R.sys
            tgt = P.local_fields(key)
            if tgt is None:
                return
            # start from a value that differs in some of the fields
            start = list(tgt)
            for i in range(7):
                if rng.random() < 0.3:
                    start[i] = P.fields()[i]
            start[2] = min(start[2], pools.dim(start[0], start[1]))
            loc = P.try_(lambda: W.LocalDateTime(*start[:6], nanosecond=start[6]))
            if loc is None:
                return
            xs = [P.try_(lambda: loc.assume_tz(key, rng.choice(["earlier", "later"])))]
            if key == c.R.sys or rng.random() < 0.1:
                xs.append(P.try_(lambda: loc.assume_system_tz(rng.choice(["earlier", "later"]))))
            for x in xs:
                if x is None:
                    continue
                if tname(x) == "Zoned":
                    x = P.rerouted(x)
                kw = {n: v for n, v, s in zip(names, tgt, start) if v != s or rng.random() < 0.1}
                for dis in rng.sample(["", ""] + DIS, 3):
                    O.replace(x, kw, dis=dis or None)
                O.replace_part("replace_date", x, W.Date(*tgt[:3]), rng.choice(["", "", rng.choice(DIS)]) or None)
                O.replace_part("replace_time", x, W.Time(*tgt[3:6], nanosecond=tgt[6]), rng.choice(["", rng.choice(DIS)]) or None)
                if rng.random() < 0.3:
                    cur = dict(zip(names, [x.year, x.month, x.day, x.hour, x.minute, x.second, x.nanosecond]))
                    O.replace(x, {n: v for n, v in cur.items() if rng.random() < 0.5})
                    O.replace(x, {})
                if tname(x) == "Zoned" and rng.random() < 0.5:
                    z2 = rng.choice([P.zone(), x.tz])
                    O.replace(x, kw if rng.random() < 0.5 else {}, tz=z2, dis=rng.choice([None, None] + DIS))
                if rng.random() < 0.1:
                    O.replace(x, {rng.choice(names): rng.choice([-1, 10**9, 60, 24, 13, 32, 0, 10000])})
        elif k < 0.9:
            x = rng.choice([P.local, P.offset_dt, P.date, P.time, P.ym, P.md])()
            if x is None:
                return
            x = P.rerouted(x)
            t = tname(x)
            ns = {"Date": names[:3], "Time": names[3:], "YearMonth": names[:2], "MonthDay": names[1:3]}.get(t, names)
            f = P.fields() if rng.random() < 0.8 else [rng.choice([0, 1, 9999, 10000]), rng.choice([0, 1, 12, 13]), rng.choice([0, 31, 32, 29]),
                                                       rng.choice([-1, 24]), rng.choice([-1, 60]), rng.choice([-1, 60]), rng.choice([-1, 10**9])]
            kw = {n: v for n, v in subset(f).items() if n in ns}
            if t == "Offset":
                O.replace(x, kw, offset=rng.choice([None, None, W.seconds(P.offset()), rng.randint(-25, 25)]), ign=rng.random() < 0.9)
                O.replace_part("replace_date", x, P.date())
                O.replace_part("replace_time", x, P.time())
            else:
                O.replace(x, kw)
                if t == "Local":
                    O.replace_part("replace_date", x, P.date())
                    O.replace_part("replace_time", x, P.time())
        else:
            x = P.value()
            if x is None or not hasattr(x, "replace"):
                return
            kw = rng.choice([{"foo": 1}, {"tzinfo": None}, {"fold": 1}, {"microsecond": 3}, {"years": 1}])
            if tname(x) == "Offset":
                kw["ignore_dst"] = True
            O.misuse("invalid", "replace %s %s" % (tname(x), sorted(kw)), lambda x=x, kw=kw: x.replace(**kw))
            if tname(x) != "Time" and tname(x) != "MonthDay":
                kw = {"tzinfo": dt.timezone.utc}
                if tname(x) == "Offset":
                    kw["ignore_dst"] = True
                O.misuse("invalid", "replace tzinfo " + tname(x), lambda x=x, kw=kw: x.replace(**kw))
    c.loop(body, misuse.fields)


# ---------------------------------------------------------------- C24
def c24(c):
    P, O, rng = c.P, c.O, c.rng

    def flt():
        k = rng.random()
        if k < 0.3:
            return rng.choice([0.0, -0.0, 0.5, -0.5, 1e-9, -1e-9, 1e-7, -1e-7, 0.999999999, -0.999999999, 1.5, -1.5, 1e9, -1e9, 0.1, -0.1, 1e-12, -1e-20, 5e-324])
        if k < 0.4:
            return rng.choice([float("nan"), float("inf"), float("-inf"), 1e12, -1e12, 253402300799.0, 253402300800.0, -62135596800.0, -62135596800.5, 1e300, 253402300799.9999])
        if k < 0.7:
            return rng.uniform(-10**10, 10**10)
        return rng.randint(-10**9, 10**9) + rng.random()

    def body():
        z = P.zone()
        ns = P.moment(z)
        if rng.random() < 0.3:
            ns = P.epoch_moment()
        for x in P.siblings(ns):
            x = P.rerouted(x)
            for u in ("s", "ms", "ns"):
                if rng.random() < 0.6:
                    n = O.timestamp(u, x)
                    if isinstance(n, int) and rng.random() < 0.3:
                        O.from_timestamp(u, tname(x), n, tz=z, offset=W.seconds(P.offset()))
        n = ns + rng.choice([0, 1, -1])
        for t in rng.sample(["Instant", "Offset", "Zoned", "System"], 3):
            u = rng.choice(["s", "ms", "ns"])
            m = n // {"s": G, "ms": 10**6, "ns": 1}[u]
            O.from_timestamp(u, t, m, tz=z, offset=W.seconds(P.offset()))
        if rng.random() < 0.4:
            t = rng.choice(["Instant", "Instant", "System", "Zoned", "Offset"])
            O.from_timestamp("s", t, flt(), tz=z, offset=rng.randint(-23, 23))
        if rng.random() < 0.08:
            t = rng.choice(["Instant", "Offset", "Zoned", "System"])
            u = rng.choice(["s", "ms", "ns"])
            O.from_timestamp(u, t, rng.choice([1, -1]) * rng.choice([10**11, 10**12, 10**15, 10**18, 10**21, 10**30, 2**63, 2**64, 2**31]), tz=z, offset=0)
            O.from_timestamp(rng.choice(["ms", "ns"]), t, 1.5, tz=z, offset=0)
            O.from_timestamp("s", "Zoned", 0, tz="Nope/Nope")
            O.from_timestamp("s", "Offset", 0, offset=rng.choice([24, -24, W.nanoseconds(3)]))
    c.loop(body)


# ---------------------------------------------------------------- C25
def c25(c):
    P, O, rng = c.P, c.O, c.rng
    fmts = ["%Y-%m-%d %H:%M:%S", "%Y/%m/%d %H:%M:%S.%f", "%d.%m.%Y %I:%M %p", "%Y-%jT%H:%M", "%y%m%d %H%M%S", "%Y-%m-%dT%H:%M:%S.%f%z",
            "%Y-%m-%d %H:%M%z", "%z %Y-%m-%d", "%H:%M:%S %d %b %Y", "%A %d %B %Y", "%c", "%x %X", "%G-W%V-%u", "%Y %U %w", "%s", "%Z %Y-%m-%d %H:%M:%S",
            "%Y-%m-%d", "%H", "%f", "%Y-%m-%d %H:%M:%S%z%%", ""]

    def body():
        f = P.fields()
        fmt = rng.choice(fmts)
        off = P.offset()
        tz = rng.choice([None, dt.timezone(dt.timedelta(seconds=off)), dt.timezone(dt.timedelta(seconds=off, microseconds=rng.choice([0, 0, 1, 500000])))])
        try:
            s = dt.datetime(*f[:6], f[6] // 1000, tzinfo=tz).strftime(fmt).replace("%s", "0")
        except Exception:
            return
        if f[0] < 1000 and "%Y" in fmt:
            s = s.replace(str(f[0]), "%04d" % f[0], 1)
        for t in ("Local", "Offset"):
            O.strptime(t, s, fmt)
            if rng.random() < 0.4:
                O.strptime(t, mutate(rng, s), fmt)
        if "%z" in fmt and rng.random() < 0.5:
            o = rng.choice(["Z", "+0100", "-01:00", "+01:00:30", "+01:00:30.5", "+01:00:30.000001", "+23:59:59.999999", "-23:59", "+24:00", "-0000", "+1", "+13:5959"])
            s2 = fmt.replace("%z", o).replace("%Y", "%04d" % f[0]).replace("%m", "%02d" % f[1]).replace("%d", "%02d" % f[2]).replace("%H", "%02d" % f[3]) \
                .replace("%M", "%02d" % f[4]).replace("%S", "%02d" % f[5]).replace("%f", "%06d" % (f[6] // 1000)).replace("%%", "%")
            O.strptime(rng.choice(["Offset", "Offset", "Local"]), s2, fmt)
        if rng.random() < 0.2:
            y = rng.choice([1, 9999])
            s2 = ("0001-01-01" if y == 1 else "9999-12-31") + " %02d:%02d" % tuple(f[3:5]) + ("-" if off < 0 else "+") + "%02d%02d" % (abs(off) // 3600, abs(off) // 60 % 60)
            O.strptime("Offset", s2, "%Y-%m-%d %H:%M%z")
    c.loop(body)


GENS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10,
        "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C18": c18, "C19": c19, "C20": c20, "C23": c23,
        "C24": c24, "C25": c25}
