"""Recording what the library does: one event for each call."""
import json
import os
import sys
import threading
import time
import zoneinfo
from . import tzif, pools, twins
from .enc import enc, enc_err, NONE


def in_threads(rng, calls, rounds=6, threads=4):
    """Make the calls (a, b, fn) in several threads at once, each in an order of
    its own; gives (a, b, result)"""
    orders = [[k for _ in range(rounds) for k in rng.sample(calls, len(calls))] for _ in range(threads)]
    results = [[] for _ in orders]
    barrier = threading.Barrier(threads)

    def work(todo, out):
        barrier.wait()
        for a, b, fn in todo:
            try:
                out.append((a, b, fn()))
            except Exception as e:
                out.append((a, b, enc_err(e)))

    ts = [threading.Thread(target=work, args=x, daemon=True) for x in zip(orders, results)]
    before = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(before)
    return [x for out in results for x in out]


class Recorder:
    def __init__(self, rng, limit=10**9):
        self.rng = rng
        self.limit = limit
        self.events = []          # json texts
        self.notes = []           # how each event was made (for replays)
        self.zones = set()
        self.sys = "UTC"
        self.kept = []            # calls to be made again later
        self.ops = {}
        self.seen = set()
        self.dups = 0
        self.info = {}            # counts for the evidence
        self.twins = 0.08         # how often a call close to the one made follows it

    # -- system timezone
    def set_sys(self, key):
        os.environ["TZ"] = key
        time.tzset()
        self.sys = key

    def full(self):
        return len(self.events) >= self.limit

    # -- events
    def log(self, op, args, r):
        uses_sys = False
        for v in args:
            if v["t"] == "System" or v["z"] == "System":
                uses_sys = True
            if v["t"] == "Zoned" or v["t"] in ("Sym", "PyDT"):
                self.zones.add(v["z"])
        if r["t"] in ("Zoned", "PyDT"):
            self.zones.add(r["z"])
        if r["t"] == "System":
            uses_sys = True
        if op in ("to_system", "assume_system"):
            uses_sys = True
        s = self.sys if uses_sys else ""
        if s:
            self.zones.add(s)
        line = json.dumps({"op": op, "a": args, "r": r, "sys": s}, separators=(",", ":"))
        h = hash(line)
        if h in self.seen:
            self.dups += 1
            return
        self.seen.add(h)
        self.events.append(line)
        self.ops[op] = self.ops.get(op, 0) + 1

    def call(self, op, args, fn, keep=True):
        """Make the call fn(), log it as op(args), and give its result (or None)"""
        if self.rng.random() < 0.02:
            # from now on the standard library makes new objects for the same
            # zones; the values made before keep theirs
            zoneinfo.ZoneInfo.clear_cache()
        try:
            x = fn()
        except Exception as e:
            r = enc_err(e)
            x = None
        else:
            r = enc(x)
        self.log(op, args, r)
        if keep and self.rng.random() < 0.03:
            self.kept.append((op, args, fn, self.sys))
        if keep and self.twins and self.rng.random() < self.twins:
            t = twins.twin(op, args, self.rng, pools.CORE_ZONES)
            if t:
                self.call(op, t[0], t[1], keep=False)
                self.call(op, args, fn, keep=False)
        return x

    def again(self):
        """Make earlier calls again, in another order: same arguments, same results"""
        kept, self.kept = self.kept, []
        self.rng.shuffle(kept)
        if kept and self.rng.random() < 0.5:
            names = sorted({k[3] for k in kept})
            name = max(names, key=lambda n: sum(k[3] == n for k in kept))
            self.set_sys(name)
            return self.together([k for k in kept if k[3] == name])
        for op, args, fn, sys in kept:
            if sys != self.sys:
                self.set_sys(sys)
            self.call(op, args, fn, keep=False)

    def together(self, kept):
        """Make earlier calls again in several threads at once, each in an order of its own"""
        n = 0
        calls = [k[:3] for k in kept]
        for op, args, x in in_threads(self.rng, calls):
            self.log(op, args, x if type(x) is dict else enc(x))
            n += 1
        self.info["calls_made_in_threads"] = self.info.get("calls_made_in_threads", 0) + n

    # -- files for TLC
    def write(self, trace, zones):
        with open(trace, "w") as f:
            f.write("\n".join(self.events) + "\n")
        data = {}
        for k in sorted(self.zones):
            try:
                data[k] = tzif.read(k)
            except (KeyError, tzif.Unsupported, OSError, ValueError):
                pass
        data["UTC"] = tzif.read("UTC")
        with open(zones, "w") as f:
            json.dump(data, f)
