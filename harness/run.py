#!/usr/bin/env python3
"""Decide one property:  run.py PROP [--tier quick|thorough] [--replay FILE]

The specification (../spec) is checked with TLC on its own (the models of the
property), and what the library in /repo does is recorded and checked against
the specification, also with TLC.  Exit 0: all allowed.  Exit 1 with a line
VIOLATION: something isn't.  Exit 2: the check itself failed."""
import argparse
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
PY = "/opt/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = 8

# Recorded events per share, and shares
PLAN = {"quick": (60000, 16), "thorough": (80000, 60)}


class Machinery(Exception):
    pass


def tlc(module, cfg, metadir, env=(), opts=(), heap="2g", timeout=800):
    cmd = ["java", "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss16m", "-cp", JAR, "tlc2.TLC",
           "-workers", "1", "-metadir", metadir, "-noGenerateSpecTE", "-config", cfg, *opts, module]
    p = subprocess.run(cmd, cwd=SPEC, capture_output=True, text=True, timeout=timeout,
                       env=dict(os.environ, TZ="UTC", **dict(env)))
    return p.stdout + p.stderr


def load_known(prop):
    known = {}
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) (\S+) (.*?)(?: inputs=(.*))?$", line.strip())
            if m and m[1] == prop:
                known[m[2]] = (m[3], m[4].split(",") if m[4] else None)
    return known


def is_listed(known, kid, e):
    """is the deviation kid (as the specification named it) at event e a listed one?"""
    if kid not in known:
        return False
    inputs = known[kid][1]
    if inputs is None:
        return True
    x = e["a"][0]
    z = e.get("sys", "") if x["t"] == "System" else x["z"]
    return "%s:%04d-%02d-%02d" % (z, *x["n"][:3]) in inputs


def show(v):
    n = v["n"]
    if v["t"] == "Str":
        try:
            n = repr("".join(map(chr, n)))
        except (TypeError, ValueError):
            pass
    return "%s%s%s" % (v["t"], str(n).replace(" ", "") if n != [] else "", ("[" + v["z"] + "]") if v["z"] else "")


def describe(e):
    if "act" in e:
        return json.dumps(e, separators=(",", ":"))
    s = "%s(%s) -> %s" % (e["op"], ", ".join(map(show, e["a"])), show(e["r"]))
    return s + (" system timezone " + e["sys"] if e["sys"] else "")


def judge(d, module, n):
    """TLC's verdict over the trace in directory d: (mismatches, generated, distinct)"""
    mism, gen, dist = [], 0, 0
    lines = open(d + "/t.ndjson").read().splitlines()
    skipped = []
    for attempt in range(12):
        env = {"WHENEVER_TRACE": d + "/t.ndjson", "WHENEVER_ZONES": d + "/z.json"}
        out = tlc(module + ".tla", module + ".cfg", d + "/md", env)
        with open(d + "/tlc.txt", "w") as f:
            f.write(out)
        g = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        mism = [(int(a), b) for a, b in re.findall(r'<<"MISMATCH", (\d+), "(.*?)">>', out)]
        if g and "Error:" not in out and int(g[2]) == len(lines) + 1:
            return mism + skipped, int(g[1]), int(g[2])
        # which event could TLC not judge?
        ls = re.findall(r"^/\\ l = (\d+)$", out, re.M)
        if not ls or "Error:" not in out:
            raise Machinery(out[-3000:])
        l = int(ls[-1])
        skipped.append((l, "unjudgeable"))
        lines[l - 1] = SKIP[module]
        with open(d + "/t.ndjson", "w") as f:
            f.write("\n".join(lines) + "\n")
    if mism or skipped:
        return mism + skipped, 0, 0
    raise Machinery("too many events that cannot be judged\n" + out[-2000:])


HIST = {"C17", "C21", "C22"}     # judged as histories (History.tla)
SKIP = {"History": json.dumps({"act": "none"}),
        "Trace": json.dumps({"op": "same", "a": [{"t": "None", "n": [], "z": ""}], "r": {"t": "None", "n": [], "z": ""}, "sys": ""})}


def share(prop, part, parts, events, seed, tier, work):
    d = os.path.join(work, "%s.%d" % (prop, part))
    env = dict(os.environ, PYTHONHASHSEED="0", TZ="UTC", PYTHONDONTWRITEBYTECODE="1")
    try:
        p = subprocess.run([PY, os.path.join(HARNESS, "wh", "chunk.py"), prop, str(part), str(parts), str(events), str(seed), tier, d],
                           capture_output=True, text=True, timeout=700, env=env)
    except subprocess.TimeoutExpired:
        return {"part": part, "error": "the library did not return", "mism": [], "events": 0, "gen": 0, "dist": 0, "ops": {}, "dups": 0, "info": {}}
    try:
        res = json.load(open(d + "/gen.json"))
    except (OSError, ValueError):
        res = {"error": "recording ended with status %s\n%s" % (p.returncode, p.stderr[-2000:])}
    if p.returncode == 3:
        raise Machinery(p.stderr[-3000:])
    res["part"] = part
    res.setdefault("events", 0)
    for k in ("ops", "info"):
        res.setdefault(k, {})
    res.setdefault("dups", 0)
    res.update(mism=[], gen=0, dist=0, samples=[])
    if res["events"]:
        orig = open(d + "/t.ndjson").read().splitlines()
        mism, res["gen"], res["dist"] = judge(d, "History" if prop in HIST else "Trace", res["events"])
        res["mism"] = [(l, k, json.loads(orig[l - 1])) for l, k in mism]
        step = max(1, len(orig) // 3)
        res["samples"] = [describe(json.loads(x)) for x in orig[step // 2::step][:2]]
    shutil.rmtree(d, ignore_errors=True)
    return res


def run_model(name, laws, work, tier):
    """a model of the specification by itself: its laws must hold"""
    env = {"WHENEVER_ZONES": os.path.join(SPEC, "models", "zones.json")}
    cfg = os.path.join(SPEC, "models", name + ".cfg")
    deep = os.path.join(SPEC, "models", name + ".thorough.cfg")
    text = open(deep if tier == "thorough" and os.path.exists(deep) else cfg).read()
    lines = []
    for line in text.splitlines():
        w = line.split()
        if w and w[0] in ("INVARIANTS", "PROPERTIES"):
            w = [w[0]] + [x for x in w[1:] if x in laws]
            line = " ".join(w) if len(w) > 1 else ""
        lines.append(line)
    d = os.path.join(work, name)
    os.makedirs(d)
    with open(d + "/m.cfg", "w") as f:
        f.write("\n".join(lines) + "\n")
    out = tlc(name + ".tla", d + "/m.cfg", d + "/md", env)
    g = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if not g or "Error:" in out or "No error has been found" not in out:
        raise Machinery("model %s: %s" % (name, out[-3000:]))
    return {"model": name, "laws": laws, "generated": int(g[1]), "distinct": int(g[2])}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--events", type=int)
    ap.add_argument("--shares", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop, tier, seed = a.prop, a.tier, a.seed
    events, shares = PLAN[tier]
    only = None
    if a.replay:
        r = json.load(open(a.replay))
        tier, seed, events, shares, only = r["tier"], r["seed"], r["events"], r["shares"], r["part"]
    events, shares = a.events or events, a.shares or shares
    t0 = time.time()
    known = load_known(prop)
    sys.path.insert(0, HARNESS)
    from models import MODELS
    os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + ".", dir=os.path.join(VERIF, "out"))
    try:
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            fm = [ex.submit(run_model, m, laws, work, tier) for m, laws in MODELS.get(prop, {}).items() if not a.replay]
            fs = [ex.submit(share, prop, i, shares, events, seed, tier, work) for i in range(shares) if only in (None, i)]
            models = [f.result() for f in fm]
            res = [f.result() for f in fs]
    finally:
        shutil.rmtree(work, ignore_errors=True)
    viol, listed = [], {}
    for r in res:
        if r["error"]:
            viol.append((r["part"], 0, r["error"].strip().splitlines()[-1], r["error"]))
        for l, kid, e in r["mism"]:
            if kid and is_listed(known, kid, e):
                listed[kid] = listed.get(kid, 0) + 1
            else:
                viol.append((r["part"], l, describe(e), e))
    n = sum(r["events"] for r in res)
    if not n and not viol:
        raise Machinery("nothing recorded")
    rdir = os.path.join(VERIF, "out", "replay")
    os.makedirs(rdir, exist_ok=True)
    for i, (part, line, text, e) in enumerate(viol[:5]):
        path = os.path.join(rdir, "%s-%d.json" % (prop, i))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "events": events, "shares": shares, "part": part,
                       "line": line, "text": text, "event": e,
                       "how": "harness/run.py %s --replay %s records the same calls again and judges them" % (prop, path)}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  not allowed by the specification: " + text[:600])
    if len(viol) > 5:
        print("  ... %d in all" % len(viol))
    for kid, (what, _) in known.items():
        print("KNOWN-FINDING: property=%s %s %s (met %d times)" % (prop, kid, what, listed.get(kid, 0)))
    ops, info = {}, {}
    for r in res:
        for k, v in r["ops"].items():
            ops[k] = ops.get(k, 0) + v
        for k, v in r["info"].items():
            info[k] = info.get(k, 0) + v
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r["dist"] for r in res) + sum(m["distinct"] for m in models),
            "transitions": sum(r["gen"] for r in res) + sum(m["generated"] for m in models),
            "traces_validated_against_impl": sum(1 for r in res if r["events"]),
            "samples": [s for r in res for s in r.get("samples", [])][:8],
            "events_judged": n, "repeated_events_not_judged_again": sum(r["dups"] for r in res),
            "events_by_operation": ops, "histories": info, "models": models,
        },
        "assumptions": [
            "the timezone database files under /usr/share/zoneinfo are what zoneinfo reads; they are read by an independent parser",
            "TLC evaluates the specification correctly; the encoding of values (harness/wh/enc.py) uses only public accessors",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d events in %d traces, %d models, %d violations, %.1f s"
          % (prop, tier, n, len(res), len(models), len(viol), time.time() - t0))
    return 1 if viol else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Machinery as e:
        print("the check failed: %s" % e, file=sys.stderr)
        sys.exit(2)
