"""Simple faults made from any trace, depths and dip, and their measures."""
import copy
import math

import numpy as np

import common
from common import attempt, silent, number, sc, Cases

with common.imports():
    from mtoolkit.geo.simple_fault import SimpleFaultGeo

r = common.rng("p28")
stats = {"faults": 0, "refused": 0}
cases = Cases("FaultGeoTrace")
RADIUS = 6371.0
inf, nan = float("inf"), float("nan")


def token(x):
    x = float(x)
    if math.isnan(x):
        return {"k": "nan", "v": 0}
    if abs(x) >= 2.0e6:
        return {"k": "num", "v": int(math.copysign(2000000000, x))
                if abs(x) < inf else int(math.copysign(2100000000, x))}
    n = int(round(x * 1000))
    if n / 1000.0 == x:
        return {"k": "num", "v": n}
    n = int(math.floor(abs(x) * 1000)) + 1       # away from zero
    return {"k": "num", "v": n if x > 0 else -n}


def is_exact(x):
    x = float(x)
    return not math.isnan(x) and abs(x) < 1e6 and round(x * 1000) / 1000. == x


def angle(d):
    return sc(float(d) / RADIUS * 180 / math.pi, 1000000)


def make(trace, up, low, dip):
    def go():
        with silent():
            return SimpleFaultGeo(trace, up, low, dip)
    return attempt(go)


def measures(f):
    def go():
        with silent():
            return (float(f.get_length()), float(f.get_width()),
                    float(f.get_area()))
    return attempt(go)


def length(trace, up=0.0, low=10.0, dip=90.0):
    o, f = make(trace, up, low, dip)
    if o != "ok":
        return nan
    o, v = attempt(f.get_length)
    return float(v) if o == "ok" else nan


def fault(label, trace, up, low, dip):
    before = copy.deepcopy(trace)
    o, f = make(trace, up, low, dip)
    case = {"label": label, "out": o, "f": {
        "trace": [{"lon": token(p[0]), "lat": token(p[1]),
                   "exact": is_exact(p[0]) and is_exact(p[1])}
                  for p in trace],
        "up": token(up), "low": token(low), "dip": token(dip),
        "deeper": bool(low > up)}}
    stats["faults"] += 1
    if o != "ok":
        stats["refused"] += 1
    else:
        m, v = measures(f)
        if m != "ok":
            case["out"] = "measures " + m
            v = (nan, nan, nan)
        n = len(trace)
        others = [(0.0, 10.0, 90.0), (2.5, 20.0, 30.0), (0.0, 1.0, 1.0)]
        made = [length(list(trace), *x) for x in others]
        parts = [length([trace[i], trace[i + 1]]) for i in range(n - 1)]
        m2, v2 = measures(f)
        m3, g = make(copy.deepcopy(trace), up, low, dip)
        m4, v3 = measures(g) if m3 == "ok" else (m3, None)
        case.update({
            "len": angle(v[0]),
            "parts": [{"a": angle(d), "h": sc(
                math.sin(d / RADIUS / 2) ** 2 if math.isfinite(d) else d,
                100000000)} for d in parts],
            "rev": angle(length(list(trace)[::-1])),
            "again": bool(v2 == v and v3 == v),
            "alike": all(x == v[0] for x in made),
            "length": number(v[0]), "width": number(v[1]),
            "area": number(v[2]),
            "extent": {"k": "num", "m": 0, "e": 0},
            "finite": bool(low < 1e5),
            "bracket": True,
            "kept": repr(before) == repr(trace)})
        if case["finite"] and case["out"] == "ok":
            d = token(low)["v"] - token(up)["v"]
            whole = is_exact(low) and is_exact(up)
            case["extent"] = {"k": "num", "m": d, "e": -3} if whole \
                else number(low - up)
            # between the widths of the whole dips around
            lo, hi = math.floor(dip), math.ceil(dip)
            widths = []
            for x in (lo, hi):
                if 0 < x <= 90:
                    ok, h = make([(0, 0), (1, 1)], up, low, x)
                    widths.append(h.get_width() if ok == "ok" else nan)
                else:
                    widths.append(inf)
            case["bracket"] = bool(
                widths[1] <= v[1] * (1 + 1e-12)
                and v[1] <= widths[0] * (1 + 1e-12))
    cases.add(**case)


LONS = [-180, 180, 0, -180.0, 180.0, 179.999, -179.999, 0.001]
LATS = [-90, 90, 0, -90.0, 90.0, 89.999, -89.999, -0.0]
def beyond(x):
    """The next number away from zero, and some further."""
    y = math.nextafter(x, math.copysign(inf, x))
    return [y, x + math.copysign(1e-10, x), x + math.copysign(5e-8, x)]


BAD_LON = beyond(180.) + beyond(-180.) + [180.0000001, -180.0000001, 181, -181, 360, inf, -inf, nan, 1e300]
BAD_LAT = beyond(90.) + beyond(-90.) + [90.0000001, -90.0000001, 91, -91, 180, inf, -inf, nan, -1e9]
DEPTHS = [(0, 10), (0.0, 0.001), (5.0, 20.0), (12.5, 12.501), (0, 700),
          (1e-9, 1.0)]
BAD_DEPTHS = [(-0.001, 10), (10, 10), (10, 5), (0, 0), (0.0, -1.0), (nan, 10),
              (0, nan), (nan, nan), (-5, -1), (-1e-9, 10), (inf, inf),
              (-5e-324, 10), (10.0, math.nextafter(10., 0)),
              (5, 4.9999999), (-1, 0), (20.0, 0), (inf, 10), (-inf, 10)]
DIPS = [90, 90.0, 0.001, 1, 45.0, 30, 60, 89.999, 1e-6]
BAD_DIPS = beyond(90.) + [0, 0.0, -1, -1e-9, 90.0000001, 91, 180, 120.0, nan, inf, -inf,
            -45]


def kinds(x):
    """The number in some type."""
    t = r.randrange(4)
    if t == 0 and isinstance(x, float) and x == x and abs(x) < 1e6 \
            and x == int(x):
        return int(x)
    if t == 1:
        return np.float64(x)
    return x


def lon():
    t = r.randrange(4)
    if t == 0:
        return r.choice(LONS)
    if t == 1:
        return float(r.randint(-180, 180))
    if t == 2:
        return r.randint(-180000, 180000) / 1000.0
    return r.uniform(-180, 180)


def lat():
    t = r.randrange(4)
    if t == 0:
        return r.choice(LATS)
    if t == 1:
        return float(r.randint(-90, 90))
    if t == 2:
        return r.randint(-90000, 90000) / 1000.0
    return r.uniform(-90, 90)


def trace(n):
    kind = r.randrange(6)
    if kind == 0:
        t = [(float(r.randint(-180, 180)), float(r.randint(-90, 90)))
             for _ in range(n)]
    elif kind == 1:         # a meridian
        x = lon()
        t = [(x, r.randint(-90000, 90000) / 1000.) for _ in range(n)]
    elif kind == 2:         # the equator
        t = [(r.randint(-180000, 180000) / 1000., 0.0) for _ in range(n)]
    elif kind == 3:         # small, around one place
        x, y = r.randint(-179, 179), r.randint(-89, 89)
        t = [(x + r.randint(-500, 500) / 1000.,
              y + r.randint(-500, 500) / 1000.) for _ in range(n)]
    elif kind == 4:         # across the date line
        y = r.randint(-80, 80)
        t = [(r.choice([-180, 180]) * 1.0 if r.random() < .3 else
              r.choice([-1, 1]) * r.randint(179500, 180000) / 1000.,
              float(y) + r.choice([0, 0, 0.25])) for _ in range(n)]
    else:
        t = [(lon(), lat()) for _ in range(n)]
    if n > 1 and r.random() < 0.25:
        i = r.randrange(n - 1)
        t[i + 1] = t[i]                     # a point twice
    if n > 2 and r.random() < 0.2:
        t[-1] = t[0]                        # closed
    if r.random() < 0.3:
        t = [tuple(map(kinds, p)) for p in t]
    if r.random() < 0.2:
        t = [list(p) for p in t]
    return t


def depths():
    if r.random() < 0.5:
        return r.choice(DEPTHS)
    a = r.randint(0, 50000)
    return a / 1000., (a + r.randint(1, 60000)) / 1000.


def dip():
    return r.choice([r.choice(DIPS), r.randint(1, 90),
                     float(r.randint(1, 90)), r.randint(1, 89999) / 1000.])


base = [(10.0, 45.0), (10.5, 45.25)]
# every limit by itself
for i, (a, b) in enumerate(DEPTHS + BAD_DEPTHS):
    fault("depths-%d" % i, base, a, b, 45.0)
for i, d in enumerate(DIPS + BAD_DIPS):
    fault("dip-%d" % i, base, 0.0, 10.0, d)
for i, x in enumerate(LONS + BAD_LON):
    for n in (2, 3):
        for j in range(n):
            t = [(10.0 + k, 45.0) for k in range(n)]
            t[j] = (x, 45.0)
            fault("lon-%d-%d-%d" % (i, n, j), t, 0.0, 10.0, 45.0)
for i, x in enumerate(LATS + BAD_LAT):
    for n in (2, 3):
        for j in range(n):
            t = [(10.0 + k, 45.0) for k in range(n)]
            t[j] = (10.0, x)
            fault("lat-%d-%d-%d" % (i, n, j), t, 0.0, 10.0, 45.0)
fault("no-point", [], 0.0, 10.0, 45.0)
fault("one-point", [(10.0, 45.0)], 0.0, 10.0, 45.0)
for d in range(1, 91):
    fault("whole-dip-%d" % d, base, 2.0, 17.0, d if d % 2 else float(d))
# half circles
fault("half-circle", [(0, -90), (0, 90)], 0, 1, 90)
fault("antipodes", [(-180, 0), (0, 0), (180, 0)], 0, 1, 90)
for i in range(common.pick(150, 1500)):
    x, y = r.randint(-180000, 0), r.randint(-90000, 90000)
    t = [(x / 1000., y / 1000.), ((x + 180000) / 1000., -y / 1000.)]
    if r.random() < 0.3:
        t.append((t[0][0], t[0][1] / 2))
    fault("antipodes-%d" % i, t, 0, 10, 60)
fault("zero-length", [(1.0, 2.0), (1.0, 2.0)], 0, 10, 60)

for i in range(common.pick(400, 6000)):
    n = r.choice([2, 2, 3, 3, 4, 5, 8])
    t = trace(n)
    if r.random() < 0.1:
        t = trace(r.choice([20, 40]))
        t = [(float(p[0]) / 40, float(p[1]) / 40) for p in t]
    (a, b), d = depths(), dip()
    wrong = r.random()
    if wrong < 0.3:
        what = r.randrange(5)
        j = r.randrange(len(t))
        if what == 0:
            t[j] = (r.choice(BAD_LON), t[j][1])
        elif what == 1:
            t[j] = (t[j][0], r.choice(BAD_LAT))
        elif what == 2:
            a, b = r.choice(BAD_DEPTHS)
        elif what == 3:
            d = r.choice(BAD_DIPS)
        else:
            t = t[:r.randrange(2)]
    fault("fault-%d" % i, t, kinds(a), kinds(b), kinds(d))
cases.close()
common.coverage(**stats)
