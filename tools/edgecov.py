"""Which operations of a check were never recorded with an argument, or a result, at the end of its type's range
(edgecov.py [PROP...]; a development tool, no check uses it)."""
import collections, json, os, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TDM = (3659634, 0, 0)


def edge(v):
    """the ends of the range at which v lies"""
    t, n = v["t"], v["n"]
    try:
        if t in ("Zoned", "Offset", "System", "Local"):
            f = tuple(n[:7])
            return (["MIN"] if f == (1, 1, 1, 0, 0, 0, 0) else ["MAX"] if f == (9999, 12, 31, 23, 59, 59, 999999999)
                    else ["first day"] if f[:3] == (1, 1, 1) else ["last day"] if f[:3] == (9999, 12, 31) else [])
        if t == "Date":
            return {(1, 1, 1): ["MIN"], (9999, 12, 31): ["MAX"]}.get(tuple(n), [])
        if t == "Time":
            return {(0, 0, 0, 0): ["MIN"], (23, 59, 59, 999999999): ["MAX"]}.get(tuple(n), [])
        if t == "YearMonth":
            return {(1, 1): ["MIN"], (9999, 12): ["MAX"]}.get(tuple(n), [])
        if t == "MonthDay":
            return {(1, 1): ["MIN"], (12, 31): ["MAX"], (2, 29): ["LEAP"]}.get(tuple(n), [])
        if t in ("TD", "DTD", "DD"):
            r = []
            if t != "TD":
                r += ["mMAX"] * (abs(n[0]) == 119988) + ["dMAX"] * (abs(n[1]) == 3659634)
            if t != "DD":
                k = tuple(n[-3:])
                r += ["+MAX"] * (k == TDM) + ["-MAX"] * (k == (-3659634, 0, 0)) + ["ZERO"] * (k == (0, 0, 0) and t == "TD")
            return r
        if t == "Instant":
            return ["MIN"] * (n == [0, 0, 0]) + ["first day"] * (n[0] in (0, 1)) + ["last day"] * (n[0] in (3652058, 3652059))
    except (IndexError, KeyError):
        pass
    return []


ALL = {"Zoned": ["first day", "last day"], "Offset": ["first day", "last day"], "System": ["first day", "last day"], "Local": ["MIN", "MAX"],
       "Date": ["MIN", "MAX"], "Time": ["MIN", "MAX"], "YearMonth": ["MIN", "MAX"], "MonthDay": ["MIN", "MAX", "LEAP"], "TD": ["+MAX", "-MAX", "ZERO"],
       "DD": ["mMAX", "dMAX"], "DTD": ["mMAX", "dMAX", "+MAX", "-MAX"], "Instant": ["first day", "last day"]}
props = sys.argv[1:] or ["C%02d" % i for i in range(1, 26) if i not in (17, 21, 22)]
for prop in props:
    n, seen = collections.Counter(), collections.Counter()
    for part in (2, 5):
        d = "/tmp/edge_%s_%d" % (prop, part)
        subprocess.run(["/opt/venv/bin/python", ROOT + "/harness/wh/chunk.py", prop, str(part), "16", "60000", "1", "quick", d],
                       env=dict(os.environ, PYTHONHASHSEED="0", TZ="UTC", PYTHONDONTWRITEBYTECODE="1"))
        for line in open(d + "/t.ndjson"):
            e = json.loads(line)
            if "op" not in e:
                continue
            op = e["op"] + ("." + e["a"][0]["z"] if e["op"] in ("get", "in_unit") else "")
            for i, v in list(enumerate(e["a"])) + [("r", e["r"])]:
                k = (op, i, v["t"])
                n[k] += 1
                for x in edge(v):
                    seen[k + (x,)] += 1
        shutil.rmtree(d)
    miss = collections.defaultdict(list)
    for k, c in sorted(n.items(), key=str):
        if c >= 100 and k[2] in ALL:
            m = [x for x in ALL[k[2]] if not seen[k + (x,)]]
            if m:
                miss[k[0]].append("%s:%s(%d) %s" % (k[1], k[2], c, "/".join(m)))
    for op, m in miss.items():
        print(prop, op, "; ".join(m))
