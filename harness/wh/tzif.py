"""An independent reader of TZif files (RFC 8536), giving the tables that the
specification's ZoneData constant is made of.  Deliberately does not use
`zoneinfo`, which the code under test uses."""
import os
import re
import struct
import datetime

TZPATHS = ["/usr/share/zoneinfo", "/usr/lib/zoneinfo", "/usr/share/lib/zoneinfo", "/etc/zoneinfo"]
EPOCH_ORD = datetime.date(1970, 1, 1).toordinal()
NEVER = 3652059 + 3


class Unsupported(Exception):
    pass


def find(key):
    if key.startswith("/") or os.path.normpath(key) != key:
        return None
    for p in TZPATHS:
        f = os.path.join(p, key)
        if os.path.isfile(f):
            return f
    try:
        import importlib.resources as r
        parts = key.split("/")
        f = r.files("tzdata.zoneinfo").joinpath(*parts)
        if f.is_file():
            return str(f)
    except Exception:
        pass
    return None


def _ordsec(t):
    return EPOCH_ORD + t // 86400, t % 86400


def read(key):
    path = find(key)
    if path is None:
        raise KeyError(key)
    data = open(path, "rb").read()
    if data[:4] != b"TZif":
        raise Unsupported(key)
    ver = data[4:5]

    def header(o):
        return struct.unpack(">6l", data[o + 20:o + 44])

    isutc, isstd, leap, timecnt, typecnt, charcnt = header(0)
    o = 44
    size = 4
    if ver >= b"2":
        o += timecnt * 4 + timecnt + typecnt * 6 + charcnt + leap * 8 + isstd + isutc
        isutc, isstd, leap, timecnt, typecnt, charcnt = header(o)
        o += 44
        size = 8
    fmt = ">%d%s" % (timecnt, "q" if size == 8 else "l")
    times = struct.unpack(fmt, data[o:o + timecnt * size])
    o += timecnt * size
    idx = data[o:o + timecnt]
    o += timecnt
    types = []
    for i in range(typecnt):
        types.append(struct.unpack(">lbB", data[o:o + 6]))
        o += 6
    o += charcnt + leap * (size + 4) + isstd + isutc
    footer = b""
    if ver >= b"2":
        footer = data[o + 1:data.index(b"\n", o + 1)]
    # before the first transition: the first standard-time type
    first = types[0][0] if types else 0
    if timecnt:
        used0 = [t for t in types if not t[1]]
        if types[0][1] and used0:
            first = used0[0][0]
    trans = []
    prev = first
    for t, i in zip(times, idx):
        off = types[i][0]
        d, s = _ordsec(t)
        if d < -1:
            first = prev = off      # 'since the big bang'
            continue
        if off != prev:
            trans.append([d, s, off])
            prev = off
    rule = []
    last_file = times[-1] if times else None
    if footer:
        rule = parse_rule(footer.decode())
        if len(rule) == 1:          # a fixed offset from the last transition on
            if (trans[-1][2] if trans else first) != rule[0]:
                if last_file is None:
                    first = rule[0]
                else:
                    raise Unsupported(f"{key}: footer disagrees with the table")
            rule = []
        elif trans:
            # the rule takes over from the last transition of the file, which
            # need not change the offset
            d, s = _ordsec(last_file)
            if [d, s] != trans[-1][:2]:
                trans.append([d, s, trans[-1][2]])
    return {"codes": [ord(c) for c in key], "first": first, "trans": trans, "rule": rule}


_NAME = r"(?:[A-Za-z]+|<[A-Za-z0-9+\-]+>)"
_OFF = r"([+-]?)(\d{1,3})(?::(\d\d))?(?::(\d\d))?"


def _off(m):
    sign, h, mi, s = m
    v = int(h) * 3600 + int(mi or 0) * 60 + int(s or 0)
    return -v if sign == "-" else v


def parse_rule(s):
    m = re.match(_NAME + _OFF, s)
    std = -_off(m.groups())
    rest = s[m.end():]
    if not rest:
        return [std]
    m = re.match(_NAME, rest)
    rest = rest[m.end():]
    dst = std + 3600
    if not rest.startswith(","):
        m = re.match(_OFF, rest)
        dst = -_off(m.groups())
        rest = rest[m.end():]
    parts = rest.split(",")[1:]
    out = [std, dst]
    for p in parts:
        m = re.fullmatch(r"M(\d+)\.(\d)\.(\d)(?:/" + _OFF + ")?", p)
        if not m:
            raise Unsupported(s)
        g = m.groups()
        t = 7200 if g[4] is None else _off(g[3:])
        out += [int(g[0]), int(g[1]), int(g[2]), t]
    return out


def all_keys():
    base = TZPATHS[0]
    keys = []
    for root, dirs, files in os.walk(base):
        rel = os.path.relpath(root, base)
        if rel.split("/")[0] in ("posix", "right"):
            continue
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                if fh.read(4) == b"TZif":
                    keys.append(f if rel == "." else rel + "/" + f)
    # the names that only the tzdata package has
    try:
        import importlib.resources as r
        keys += r.files("tzdata").joinpath("zones").read_text().split()
    except Exception:
        pass
    return sorted(set(keys))


if __name__ == "__main__":
    n = 0
    for k in all_keys():
        try:
            z = read(k)
            n += 1
        except Unsupported as e:
            print("unsupported", e)
    print(n)
