#!/usr/bin/env python3
"""Write spec/models/zones.json: the small made-up zones for the models."""
import json, os
D = 730000        # an ordinal (1999-09-03)
H = 3600

def z(name, first, trans, rule=()):
    return {"codes": [ord(c) for c in name], "first": first, "trans": [list(t) for t in trans], "rule": list(rule)}

def utc(d, s):
    return (d + s // 86400, s % 86400)

Z = [
    z("UTC", 0, []),
    # an hour forward, an hour back
    z("E", H, [(*utc(D + 2, H), 2 * H), (*utc(D + 6, H), H)]),
    # back at one minute past midnight: the fold lies in two dates; then forward at midnight
    z("N", -12600, [(*utc(D + 2, 60 + 9000), -9000 - 3600), (*utc(D + 5, 12600 + 60), -16200), (*utc(D + 8, 16200), -12600)]),
    # a whole day skipped, then a day repeated
    z("L", -10 * H, [(*utc(D + 3, 10 * H), 14 * H), (*utc(D + 7, -14 * H + 86400 * 2), -10 * H)]),
    # half an hour, and odd local mean time at first
    z("H", 36292, [(*utc(D + 1, 5000), 37800), (*utc(D + 4, 55800), 39600), (*utc(D + 8, 54000), 37800)]),
    # a gap that contains midnight without starting at it
    z("G", -5 * H, [(*utc(D + 2, 4 * H + 1800), -4 * H), (*utc(D + 7, 4 * H), -5 * H)]),
    # changes two days apart, one of them changing nothing
    z("C", 2 * H, [(*utc(D + 2, 0), 2 * H), (*utc(D + 4, 0), 3 * H), (*utc(D + 6, 1), 4 * H), (*utc(D + 9, 0), 2 * H)]),
    # yearly rules, of the north and of the south (1999: the changes of October)
    z("R", H, [], (H, 2 * H, 3, 5, 0, 2 * H, 10, 5, 0, 3 * H)),
    z("S", 10 * H, [], (10 * H, 11 * H, 10, 1, 0, 2 * H, 4, 1, 0, 3 * H)),
]
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "models", "zones.json")
with open(path, "w") as f:
    json.dump({"".join(map(chr, x["codes"])): x for x in Z}, f, indent=0)
    f.write("\n")
