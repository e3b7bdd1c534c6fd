"""dev: generate and judge one chunk: dev.py C01 [events] [seed]"""
import sys, random, os, subprocess, json, time, collections, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from wh import gens, rec
p, n, seed = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 5000, int(sys.argv[3]) if len(sys.argv) > 3 else 1
R = rec.Recorder(random.Random(seed), n)
t = time.time()
gens.GENS[p](gens.Ctx(R))
t1 = time.time()
d = "/tmp/w/dev%s_%d" % (p, seed)
os.makedirs(d, exist_ok=True)
R.write(d + "/t.ndjson", d + "/z.json")
out = subprocess.run(["java", "-XX:+UseParallelGC", "-Xmx3g", "-Xss16m", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC", "-workers", "1", "-config", "Trace.cfg", "Trace.tla", "-metadir", d + "/md"],
    cwd="/verif/spec", env=dict(os.environ, WHENEVER_ZONES=d + "/z.json", WHENEVER_TRACE=d + "/t.ndjson", TZ="UTC"), capture_output=True, text=True).stdout
open(d + "/out.txt", "w").write(out)
mm = re.findall(r'<<"MISMATCH", (\d+), "(.*?)">>', out)
print(p, "events", len(R.events), "dups", R.dups, "gen %.1f tlc %.1f" % (t1 - t, time.time() - t1), "mismatches", len(mm), dict(collections.Counter(k for _, k in mm)))
print(collections.Counter(R.ops).most_common())
print(collections.Counter(json.loads(e)["r"]["z"] for e in R.events if '"t":"Err"' in e).most_common(8))
if "Finished in" not in out or "Error" in out: print(out[-3000:])
bad = [l for l, k in mm if not k]
shown = collections.Counter()
for l in bad:
    e = json.loads(R.events[int(l) - 1])
    key = (e["op"], e["r"]["t"])
    shown[key] += 1
    if shown[key] <= 3:
        f = lambda v: v["t"] + ":" + (repr("".join(map(chr, v["n"]))) if v["t"] == "Str" else str(v["n"]).replace(" ", "")) + v["z"]
        print("  ", l, e["op"], " | ".join(map(f, e["a"])), "->", f(e["r"]), "sys=" + e["sys"])
