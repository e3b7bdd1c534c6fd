"""Histories: scripts made by TLC out of the specification (Gen.tla) are
carried out with the library, and everything seen is recorded for
History.tla."""
import copy
import datetime as dt
import json
import os
import pickle
import random
import subprocess
import tempfile
import time
import whenever as W
from . import pools, replay, tzif
from .enc import EPOCH_ORD, NONE, enc, enc_err, enc_str, kw_rec, limbs, rec, sym
from .ops import Ops
from .rec import Recorder, in_threads

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
G = 1_000_000_000


def now_span():
    s, n = divmod(time.time_ns(), G)
    return [s // 86400 + EPOCH_ORD, s % 86400, n]


def presentation(x):
    """what else a value shows: its hash and texts"""
    try:
        s = "%d|%s|%r" % (hash(x), x, x)
    except Exception as e:
        s = "!" + type(e).__name__
    return [ord(c) for c in s]


MIDNIGHT_GAP = ("America/Toronto", "America/Montreal", "America/Nipigon", "America/Thunder_Bay", "Canada/Eastern")
POKES = ("year", "month", "hour", "nanosecond", "offset", "tz", "foo", "MIN")


class Leave(Exception):
    pass


class LeaveHard(BaseException):
    pass


# (contextlib treats some of them in ways of their own)
LEAVES = (Leave, LeaveHard, ValueError, StopIteration, StopAsyncIteration, GeneratorExit, KeyboardInterrupt, SystemExit, RuntimeError)
NO_MOMENTS = (None, 5, W.LocalDateTime(2020, 1, 1), W.Date(2020, 1, 1), dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc))


def another(rng, x):
    """the same value, by another way"""
    k = rng.randrange(5)
    if k == 0:
        return pickle.loads(pickle.dumps(x, rng.randrange(2, pickle.HIGHEST_PROTOCOL + 1)))
    if k == 1:
        return copy.copy(x)
    if k == 2:
        return copy.deepcopy([x])[0]
    if k == 3:
        return type(x).parse_common_iso(x.format_common_iso())
    return x


class NoScripts(Exception):
    """(the fault of this machinery, not of the library)"""


class Runner:
    """carries out scripts"""

    def __init__(self, rng, limit):
        self.rng, self.limit = rng, limit
        self.events = []
        self.zones = {"UTC"}
        self.ops, self.info = {}, {}
        self.dups = 0
        self.sys = None
        self.past = []            # calls to be made again in several threads

    def out(self, **e):
        if e["act"] == "call":
            self.ops[e["op"]] = self.ops.get(e["op"], 0) + 1
        else:
            self.ops["(" + e["act"] + ")"] = self.ops.get("(" + e["act"] + ")", 0) + 1
        self.events.append(json.dumps(e, separators=(",", ":")))

    def note(self, v):
        if v["t"] in ("Zoned", "Sym", "PyDT") and v["z"]:
            self.zones.add(v["z"])

    def set_sys(self, z):
        os.environ["TZ"] = z
        time.tzset()
        self.sys = z
        self.zones.add(z)
        self.out(act="tz", z=z)

    # ---- values
    def look(self, i):
        j, x = self.heap[i]
        v = enc(x)
        self.note(v)
        self.out(act="look", i=j, v=v, x=presentation(x))

    def keep(self, i, x):
        """the entry's number in the recorded heap"""
        if i not in self.heap:
            self.count += 1
            j = self.count
        else:
            j = self.heap[i][0]
        self.heap[i] = (j, x)
        return j

    def do_value(self, s):
        x = replay.dec(s["v"])
        v = enc(x)
        self.note(v)
        j = self.keep(s["i"], x)
        self.out(act="call", op="same", h=[0], a=[s["v"]], r=v, i=j, x=presentation(x))

    def do_call(self, s):
        hs, op = s["h"], s["op"]
        if any(h and h not in self.heap for h in hs):
            self.heap.pop(s["i"], None)
            return
        xs = [self.heap[h][1] if h else None for h in hs]
        a = [enc(x) if h else lit for h, x, lit in zip(hs, xs, s["a"])]
        for v in a:
            self.note(v)
        val = lambda i: xs[i] if hs[i] else replay.dec(a[i])
        x = None
        fn = None
        try:
            if op == "cmp":
                r = rec("Cmp", replay.cmp_vector(xs[0], xs[1]))
            else:
                fn = replay.call(op, a, val, self.rng)
                if op == "same" and hs[0]:
                    fn = lambda x=xs[0], r=random.Random(self.rng.random()): another(r, x)
                if op == "plus" and self.rng.random() < 0.3:
                    def fn():
                        y = val(0)
                        y += val(1)
                        return y
                x = fn()
                r = enc(x)
        except Exception as e:
            r = enc_err(e)
        self.note(r)
        used = {h for h in hs if h}
        h = [self.heap[h][0] if h else 0 for h in hs]
        keep = s["i"] and x is not None and r["t"] != "Malformed"
        if keep:
            # the old value under that name is looked at before it's dropped
            if s["i"] in self.heap:
                self.look(s["i"])
                used.discard(s["i"])
            e = dict(act="call", op=op, h=h, a=a, r=r, i=self.keep(s["i"], x), x=presentation(x))
        else:
            e = dict(act="call", op=op, h=h, a=a, r=r, i=0, x=[])
        self.out(**e)
        if fn is not None:
            self.done.append((len(self.events), fn, self.sys))
        for h in used:
            self.look(h)
        if not keep:
            self.heap.pop(s["i"], None)
        if self.heap and self.rng.random() < 0.3:
            self.look(self.rng.choice(list(self.heap)))
        if self.rng.random() < 0.08 and self.done:
            self.again()
        if self.heap and self.rng.random() < 0.05:
            self.poke()

    def again(self):
        """make an earlier call again: the same result"""
        k, fn, sys = self.rng.choice(self.done)
        if sys != self.sys:
            return
        try:
            r = enc(fn())
        except Exception as e:
            r = enc_err(e)
        self.out(act="again", of=k, r=r)

    def together(self):
        """make earlier calls again, from several threads at once"""
        names = sorted({sys for _, _, sys in self.past})
        name = max(names, key=lambda n: sum(sys == n for _, _, sys in self.past))
        if name != self.sys:
            self.set_sys(name)
        todo = [(k, 0, fn) for k, fn, sys in self.past if sys == name]
        self.past = []
        seen = set()
        out = in_threads(self.rng, todo)
        for k, _, x in out:
            r = x if type(x) is dict else enc(x)
            key = (k, json.dumps(r))
            if key not in seen:
                seen.add(key)
                self.out(act="again", of=k, r=r)
        self.info["calls_made_in_threads"] = self.info.get("calls_made_in_threads", 0) + len(out)

    def poke(self):
        """attributes cannot be set or deleted"""
        i = self.rng.choice(list(self.heap))
        x = self.heap[i][1]
        name = self.rng.choice(POKES)
        try:
            if self.rng.random() < 0.5:
                setattr(x, name, self.rng.choice([1, None, x]))
            else:
                delattr(x, name)
            r = NONE
        except Exception as e:
            r = enc_err(e)
        self.out(act="call", op="immutable", h=[0], a=[sym(name)], r=r, i=0, x=[])
        self.look(i)

    # ---- the clock
    def do_now(self, s):
        t, z = s["t"], s["z"]
        if t == "Zoned":
            self.zones.add(z["z"])
        lo = now_span()
        try:
            if t == "Instant":
                x = W.Instant.now()
            elif t == "Offset":
                x = W.OffsetDateTime.now(replay.dec(z), ignore_dst=True)
            elif t == "Zoned":
                x = W.ZonedDateTime.now(z["z"])
            elif t == "Date":
                x = W.Date.today_in_system_tz()
            else:
                x = W.SystemDateTime.now()
            r = enc(x)
        except Exception as e:
            r = enc_err(e)
        hi = now_span()
        self.out(act="now", t=t, z=z, r=r, lo=lo, hi=hi)

    def do_shift(self, s):
        n, op, a = s["n"], s["op"], s["a"]
        if n == 0:
            if not self.ended:
                return
            patch, pin = self.rng.choice(self.ended[-6:])
        else:
            if n > len(self.pins):
                return
            patch, pin = self.patches[n - 1], self.pins[n - 1]
        if patch is None:
            return
        f = replay.flags(pin, a[1]["z"], True)
        if op == "addd":
            args = [replay.dec(a[0])]
        else:
            args = []
            f.update(replay.kwargs(a[0]))
        lo = now_span()
        try:
            patch.shift(*args, **f)
            r = NONE
        except Exception as e:
            r = enc_err(e)
        hi = now_span()
        self.out(act="shift", n=n, op=op, a=a, r=r, lo=lo, hi=hi)
        if n < len(self.pins) or n == 0:
            self.do_now({"t": "Instant", "z": NONE})

    def do_fail(self):
        """a patch that can't be entered"""
        lo = now_span()
        try:
            with W.patch_current_time(self.rng.choice(NO_MOMENTS), keep_ticking=self.rng.random() < 0.5):
                pass
        except Exception:
            pass
        self.out(act="fail", lo=lo, hi=now_span())

    def do_enter(self, s, steps):
        """enter a patch and carry out the steps within it"""
        v = s["v"]
        self.note(v)
        x = replay.dec(v)
        ticking = s["mode"] == "ticking"
        self.pins.append(x)
        self.patches.append(None)
        left = []
        end = [now_span()]

        def body(patch):
            hi = now_span()
            self.patches[-1] = patch
            self.out(act="enter", mode=s["mode"], v=v, lo=lo, hi=hi, ok=True)
            how = self.steps(steps, patch)
            left.append(how)
            end[0] = now_span()
            if how == "exception":
                raise leave()

        got = None
        leave = self.rng.choice(LEAVES)
        lo = now_span()
        try:
            if s["how"] == "decorator":
                # a decorated function may be called again (or within itself)
                key = json.dumps([v, ticking])
                if key not in self.decorated:
                    @W.patch_current_time(x, keep_ticking=ticking)
                    def f(body):
                        body(None)
                    self.decorated[key] = f
                self.decorated[key](body)
            else:
                with W.patch_current_time(x, keep_ticking=ticking) as p:
                    body(p)
        except LEAVES as e:
            got = "exception" if type(e) is leave else type(e).__name__
        except Exception as e:
            got = type(e).__name__
        self.pins.pop()
        patch = self.patches.pop()
        if patch is not None:
            self.ended.append((patch, x))
        if not left:        # it wasn't entered
            self.out(act="enter", mode=s["mode"], v=v, lo=lo, hi=now_span(), ok=False)
        ok = left == ["exception"] and got == "exception" or left in (["normal"], ["end"]) and got is None
        self.out(act="leave", ok=ok, lo=end[0], hi=now_span())

    def steps(self, steps, patch):
        for s in steps:
            act = s["act"]
            if act == "leave":
                if patch is False:
                    continue
                return s["how"]
            if act == "call":
                self.do_call(s)
            elif act == "value":
                self.do_value(s)
            elif act == "tz":
                self.set_sys(s["z"])
            elif act == "now":
                self.do_now(s)
            elif act == "enter":
                self.do_enter(s, steps)
                self.do_now({"t": "Instant", "z": NONE})
            elif act == "shift":
                self.do_shift(s)
            elif act == "fail":
                self.do_fail()
                self.do_now({"t": "Instant", "z": NONE})
            elif act == "sleep":
                time.sleep(0.001 + self.rng.random() * 0.002)
        return "end"

    def run(self, script):
        self.heap, self.count, self.done, self.pins, self.patches, self.ended, self.decorated = {}, 0, [], [], [], [], {}
        self.out(act="reset")
        self.set_sys("UTC")
        self.steps(iter(script), False)
        self.past += self.done
        if len(self.past) > 400:
            self.together()
        for i in list(self.heap):
            self.look(i)
        self.info["scripts"] = self.info.get("scripts", 0) + 1

    def full(self):
        return len(self.events) >= self.limit

    write = Recorder.write


# ---------------------------------------------------------------- menus
def menu(rng, profile, depth):
    """what the specification can choose from"""
    R = Recorder(rng)
    R.set_sys("UTC")
    P = pools.Pools(rng, Ops(R))
    # (without the zones of the known finding midnight-gap: C18 and C13 look at those)
    ok = lambda zs: [z for z in zs if z not in MIDNIGHT_GAP]
    zones = rng.sample(ok(pools.CORE_ZONES), 7) + rng.sample(ok(pools.all_zones()), 3)
    sysz = rng.sample(ok(pools.SYS_ZONES), 6)

    def some(n, f):
        out = []
        while len(out) < n:
            x = P.try_(f)
            if x is not None and x is not NotImplemented:
                v = enc(x)
                if v["t"] != "Malformed":
                    out.append(v)
        return out

    def exact():
        z = rng.choice(zones + sysz)
        ns = P.near_transition(z) if rng.random() < 0.6 else P.moment(z)
        return rng.choice([lambda: P.instant(ns), lambda: P.offset_dt(ns), lambda: P.zoned(ns, rng.choice(zones)), lambda: P.zoned(ns, z) if z in zones else P.instant(ns)])()

    def system():
        return W.SystemDateTime.parse_common_iso(P.offset_dt(P.moment(rng.choice(zones))).format_common_iso())

    def mid():
        """noon of the middle of a month: nothing happens near it"""
        d = W.LocalDateTime(rng.randint(1950, 2090), rng.randint(1, 12), rng.randint(10, 18), 12, rng.randint(0, 59), rng.randint(0, 59), nanosecond=rng.randint(0, G - 1))
        return rng.choice([lambda: d.assume_utc(), lambda: d.assume_fixed_offset(rng.randint(-12, 12)), lambda: d.assume_tz(rng.choice(zones)), lambda: d.assume_tz(rng.choice(zones)),
                           lambda: W.SystemDateTime.from_py_datetime(d.assume_fixed_offset(rng.randint(-12, 12)).py_datetime())])()

    def local():
        return P.local(rng.choice(sysz))

    values = some(60, exact) + some(20, local) + some(25, P.td) + some(15, P.dd) + some(15, P.dtd)
    values += some(10, P.date) + some(10, P.time) + some(4, P.ym) + some(4, P.md)
    values += some(20, lambda: W.nanoseconds(rng.choice([-1, 1]) * rng.choice([1, 10**9, 3600 * 10**9, 86400 * 10**9, 999, 90 * 60 * 10**9])))
    small_td = lambda: rng.choice([{"hours": rng.randint(-30, 30)}, {"minutes": rng.randint(-99, 99)}, {"seconds": rng.randint(-9999, 9999)},
                                   {"milliseconds": rng.randint(-5000, 5000)}, {"microseconds": rng.randint(-3, 3)}, {"nanoseconds": rng.randint(-5, 5)},
                                   {"hours": rng.choice([-1, 1]), "nanoseconds": rng.randint(-1, 1)}, {}, P.time_units()])
    small_dd = lambda: rng.choice([{"days": rng.randint(-40, 40)}, {"months": rng.randint(-14, 14)}, {"years": rng.randint(-4, 4)}, {"weeks": rng.randint(-6, 6)},
                                   {"months": rng.choice([-1, 1]), "days": rng.randint(-31, 31)}, P.date_units()])

    def both():
        k = rng.random()
        return small_td() if k < 0.35 else small_dd() if k < 0.75 else {**small_dd(), **small_td()}

    def repl(names, p=0.35):
        hi = {"year": 9999, "month": 12, "day": 31, "hour": 23, "minute": 59, "second": 59, "nanosecond": G - 1}
        lo = {"year": 1, "month": 1, "day": 1}
        f = {}
        for k in names:
            if rng.random() < p:
                v = rng.randint(1990, 2040) if k == "year" and rng.random() < 0.8 else rng.randint(lo.get(k, 0), hi[k])
                f[k] = v
        return rec("KWR", [limbs(f[n]) if n in f else [] for n in replay.FIELD_NAMES])

    N = replay.FIELD_NAMES
    return {
        "depth": depth, "width": 10,
        "values": values, "locals": some(30, local), "zones": zones, "sys": sysz,
        "offsets": [rec("Int", limbs(rng.randint(-23, 23))) for _ in range(4)] + [enc(W.seconds(P.offset())) for _ in range(4)],
        "timekws": [kw_rec(small_td()) for _ in range(30)],
        "datekws": [kw_rec(small_dd()) for _ in range(30)],
        "kws": [kw_rec(both()) for _ in range(60)],
        "replace": [repl(N, 0.25) for _ in range(20)], "dreplace": [repl(N[:3], 0.5) for _ in range(12)],
        "treplace": [repl(N[3:], 0.5) for _ in range(12)],
        "deltas": some(8, P.td) + some(8, P.dd) + some(8, P.dtd) + some(8, lambda: W.TimeDelta(**small_td())) + some(8, lambda: W.DateDelta(**small_dd())),
        "pins": some(30, exact) + some(10, mid) + some(6, system), "midpins": some(30, mid),
    }


def scripts(rng, profile, number, depth, seed):
    """have TLC make scripts out of the specification"""
    with tempfile.TemporaryDirectory(prefix="gen") as d:
        m = menu(rng, profile, depth)
        with open(d + "/menu.json", "w") as f:
            json.dump(m, f)
        with open(d + "/zones.json", "w") as f:
            json.dump({k: tzif.read(k) for k in set(m["zones"]) | set(m["sys"]) | {"UTC"}}, f)
        env = dict(os.environ, WHENEVER_MENU=d + "/menu.json", WHENEVER_ZONES=d + "/zones.json",
                   WHENEVER_PROFILE=profile, WHENEVER_SCRIPTS=d + "/scripts.ndjson", TZ="UTC")
        p = subprocess.run(["java", "-XX:+UseSerialGC", "-Xmx2g", "-Xss16m", "-cp", JAR, "tlc2.TLC", "-workers", "1",
                            "-simulate", "num=%d" % number, "-depth", str(depth + 2), "-seed", str(seed), "-metadir", d + "/md",
                            "-noGenerateSpecTE", "-config", "Gen.cfg", "Gen.tla"],
                           cwd=SPEC, env=env, capture_output=True, text=True, timeout=600)
        try:
            lines = open(d + "/scripts.ndjson").read().splitlines()
        except OSError:
            lines = []
        if len(lines) < number or "Error:" in p.stdout:
            raise NoScripts("TLC made %d of %d scripts: %s" % (len(lines), number, p.stdout[-2500:] + p.stderr[-500:]))
        return [json.loads(x) for x in lines]


PROFILES = {"C17": ("clock", 40), "C21": ("heap", 60), "C22": ("system", 60)}
HIST = PROFILES
PER_SCRIPT = {"C17": 90, "C21": 175, "C22": 135}   # about how many events a script makes (C17: and it takes time)


def record(prop, R, seed, number):
    """carry out scripts until the recorder is full"""
    profile, depth = PROFILES[prop]
    for s in scripts(R.rng, profile, number, depth, seed):
        if R.full():
            break
        R.run(s)
