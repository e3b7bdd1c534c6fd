"""One share of a check, in its own process: make the library do things and
record them.  chunk.py PROP PART PARTS EVENTS SEED TIER DIR"""
import faulthandler
import json
import os
import random
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.environ.get("WHENEVER_REPO", "/repo"), "pysrc"))


class Hang(BaseException):
    pass


def main():
    prop, part, parts, events, seed, tier, d = sys.argv[1:8]
    part, parts, events = int(part), int(parts), int(events)
    os.makedirs(d, exist_ok=True)
    out = {"error": None}

    R = None
    seen = [None, 0]

    def on_alarm(*_):
        # nothing new recorded for three minutes: a call does not return
        now = R and (len(R.events), R.dups)
        seen[1] = seen[1] + 1 if now == seen[0] else 0
        seen[0] = now
        if seen[1] >= 6:
            raise Hang()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, 30, 30)
    class none(Exception):
        pass
    NoScripts = none
    try:
        from wh import rec, gens, hist
        NoScripts = hist.NoScripts
        rng = random.Random("%s/%s/%s/%s" % (prop, part, seed, tier))
        if prop in hist.HIST:
            R = hist.Runner(rng, events)
            hist.record(prop, R, rng.randrange(1, 10**9), max(20, events // hist.PER_SCRIPT[prop]))
        else:
            R = rec.Recorder(rng, events)
            gens.GENS[prop](gens.Ctx(R, part, parts, tier))
    except Hang:
        out["error"] = "a call did not return"
    except NoScripts as e:
        print(e, file=sys.stderr)
        sys.exit(3)
    except BaseException as e:
        out["error"] = "".join(traceback.format_exception(e))[-3000:]
    signal.setitimer(signal.ITIMER_REAL, 0)
    if R is not None:
        R.write(d + "/t.ndjson", d + "/z.json")
        out.update(events=len(R.events), dups=R.dups, ops=R.ops, info=R.info)
    with open(d + "/gen.json", "w") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main()
