"""Decimal years, Julian dates and distances of scalars and vectors."""
import math

import numpy as np

import common
from common import attempt, silent, Cases, sc

with common.imports():
    from mtoolkit.scientific.catalogue_utilities import (
        decimal_year, haversine, greg2julian)

r = common.rng("p13")
stats = {"dates": 0, "distances": 0}
cal = Cases("CalendarTrace")
MD = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def leap(y):
    return (y % 4 == 0 and y % 100 != 0) or y % 400 == 0


def dates(label, kind, days, dtype=float, scalar=False):
    """days: (y, m, d, seconds of the day in 1/10000)."""
    cols = [np.array([x[i] for x in days], dtype=dtype) for i in range(3)]
    t = [x[3] for x in days]
    hh = [x // 36000000 for x in t]
    mm = [x // 600000 % 60 for x in t]
    ss = [x % 600000 / 10000.0 for x in t]
    cols += [np.array(hh, dtype=dtype), np.array(mm, dtype=dtype),
             np.array(ss, dtype=float)]
    if kind == "decimal":
        cols = cols[:3]
    before = [c.copy() for c in cols]
    args = [c[0] for c in cols] if scalar else cols
    func = decimal_year if kind == "decimal" else greg2julian

    def go():
        with silent():
            return func(*args)
    o, v = attempt(go)
    case = {"label": label, "kind": kind, "out": o, "got": [],
            "shape": False,
            "days": [dict(zip("ymdt", x)) for x in days],
            "kept": all(np.array_equal(a, b) for a, b in zip(before, cols))}
    if o == "ok":
        v = np.asarray(v, dtype=float)
        case["shape"] = v.shape == (() if scalar else (len(days),))
        if case["shape"]:
            for x, g in zip(days, np.atleast_1d(v)):
                if kind == "decimal":
                    case["got"].append({"n": sc((g - x[0]) * 365, 1000),
                                        "f": 0})
                elif math.isfinite(g) and abs(g) < 1e9:
                    n = int(math.floor(g + 0.5 + 1e-9))
                    case["got"].append(
                        {"n": n, "f": sc(g + 0.5 - n, 864000000)})
                else:
                    case["got"].append({"n": common.NAN, "f": 0})
    stats["dates"] += len(days)
    cal.add(**case)


def some_time():
    return r.choice([0, 0, 863999990, 432000000, 36000000, 600000, 10000,
                     r.randrange(864000000), r.randrange(864000000)])


for y in [2000, 1999, -4000, 4000, 0, 1, -1] + common.pick(
        [], list(range(-4000, 4001, 37))):
    dates("year-%d" % y, "decimal",
          [(y, m, d, 0) for m in range(1, 13)
           for d in range(1, MD[m - 1] + 1)])
for y in [1583, 1600, 1700, 1900, 1999, 2000, 2004, 2100, 2400] + \
        common.pick([], list(range(1583, 2401, 3))):
    dates("days-of-%d" % y, "julian",
          [(y, m, d, some_time()) for m in range(1, 13)
           for d in range(1, MD[m - 1] + 1 + (m == 2 and leap(y)))])
for i in range(common.pick(60, 600)):
    n = r.choice([1, 2, 5, 30])
    days = []
    for _ in range(n):
        m = r.randint(1, 12)
        days.append((r.randint(-4000, 4000), m, r.randint(1, MD[m - 1]), 0))
    dates("random-decimal-%d" % i, "decimal", days,
          r.choice([float, float, int]))
    days = []
    for _ in range(n):
        y, m = r.randint(1583, 2400), r.randint(1, 12)
        d = r.randint(1, MD[m - 1] + (m == 2 and leap(y)))
        if r.random() < 0.3:
            m, d = r.choice([(1, 1), (12, 31), (2, 28), (3, 1),
                             (2, 29 if leap(y) else 28)])
        days.append((y, m, d, some_time()))
    dates("random-julian-%d" % i, "julian", days, r.choice([float, int]),
          scalar=n == 1 and r.random() < 0.5)
cal.close()

# ------------------------------------------------------------- distances
sph = Cases("SphereTrace")
EARTH = 6371.227


def angle(d, radius):
    v = float(d) / radius * 180.0 / math.pi
    return sc(v, 1000000)


def measure(p, q, radius=None, radians=False, scalar=(), whole=False):
    """Distances of the points (thousandths of a degree); None or matrix."""
    f = (lambda x: math.radians(x / 1000.0)) if radians \
        else (lambda x: x / 1000.0)
    cols = [np.array([f(x[0]) for x in p]), np.array([f(x[1]) for x in p]),
            np.array([f(x[0]) for x in q]), np.array([f(x[1]) for x in q])]
    if whole:
        cols = [c.astype(int) for c in cols]
    before = [c.copy() for c in cols]
    args = list(cols)
    if 0 in scalar:
        args[0], args[1] = args[0][0], args[1][0]
    if 1 in scalar:
        args[2], args[3] = args[2][0], args[3][0]
    kw = {}
    if radius is not None:
        kw["earth_rad"] = radius
    if radians:
        kw["radians"] = True

    def go():
        with silent():
            return haversine(*args, **kw)
    o, v = attempt(go)
    kept = all(np.array_equal(a, b) for a, b in zip(before, cols))
    stats["distances"] += len(p) * len(q)
    if o == "ok":
        v = np.asarray(v, dtype=float)
        if v.shape != (len(p), len(q)):
            return o, None, kept
        return o, v / (radius or EARTH), kept
    return o, None, kept


def units(v):
    return [[sc(x * 180 / math.pi, 1000000) for x in row] for row in v]


def wrong(p, q):
    return [[common.NAN] * len(q) for _ in p]


def distance(label, p, q, variants=True, scalar=()):
    radius = r.choice([None, None, 6371.0, 1.0])
    whole = r.random() < 0.5 and all(x % 1000 == 0 for a in p + q for x in a)
    o, v, kept = measure(p, q, radius, scalar=scalar, whole=whole)
    case = {"label": label, "out": o, "kept": kept, "shape": v is not None,
            "p": [dict(zip(("lon", "lat"), x)) for x in p],
            "q": [dict(zip(("lon", "lat"), x)) for x in q],
            "got": [], "same": []}
    if v is not None:
        case["got"] = [[{"a": sc(x * 180 / math.pi, 1000000),
                         "h": sc(math.sin(x / 2) ** 2
                                 if math.isfinite(x) else x, 100000000)}
                        for x in row] for row in v]
    if v is not None and variants:
        s = r.randint(-90000, 90000)
        forms = {
            "symmetry": (q, p, {}),
            "common shift": ([(a + s, b) for a, b in p],
                             [(a + s, b) for a, b in q], {}),
            "reflected latitudes": ([(a, -b) for a, b in p],
                                    [(a, -b) for a, b in q], {}),
            "reflected longitudes": ([(-a, b) for a, b in p],
                                     [(-a, b) for a, b in q], {}),
            "whole turns": (p, [(a + r.choice([-1, 1]) * 360000, b)
                                for a, b in q], {}),
            "radians": (p, q, {"radians": True}),
            "another sphere": (p, q, {"radius": r.choice([1.0, 100.0,
                                                          3389.5, 6371.0])}),
            "same call again": (p, q, {"radius": radius}),
        }
        for name, (a, b, kw) in forms.items():
            o2, w, _ = measure(a, b, **kw)
            if o2 == "ok" and w is not None:
                w = units(w.T if name == "symmetry" else w)
            else:
                w = wrong(p, q)
            case["same"].append({"name": name, "got": w})
        one = [[measure([a], [b], scalar=(0, 1))[1] for b in q] for a in p]
        case["same"].append({"name": "one pair at a time", "got": [
            [common.NAN if x is None else
             sc(x[0][0] * 180 / math.pi, 1000000) for x in row]
            for row in one]})
    sph.add(**case)


def grid_point():
    return (1000 * r.randint(-180, 180), 1000 * r.choice(
        [r.randint(-90, 90), 0, 90, -90, 45]))


def free_point():
    return (r.randint(-180000, 180000), r.randint(-90000, 90000))


def near(p, span):
    return (p[0] + r.randint(-span, span),
            max(-90000, min(90000, p[1] + r.randint(-span, span))))


for lat in range(-90, 91, common.pick(15, 5)):
    distance("grid-%d" % lat, [(0, lat * 1000), (-180000, lat * 1000)],
             [(x * 1000, y * 1000) for x in range(-180, 181, 30)
              for y in range(-90, 91, 30)], variants=False)
# points and their antipodes
for i in range(common.pick(24, 200)):
    p = [free_point() for _ in range(12)]
    distance("antipodes-%d" % i, p, [(a + r.choice([-180000, 180000]), -b)
                                     for a, b in p], variants=False)
for i in range(common.pick(120, 3000)):
    a, b = r.choice([(1, 1), (1, 4), (4, 1), (2, 3), (3, 3), (1, 8)])
    kind = r.randrange(8)
    if kind == 0:
        p = [grid_point() for _ in range(a)]
        q = [grid_point() for _ in range(b)]
    elif kind == 1:
        p = [free_point() for _ in range(a)]
        q = [free_point() for _ in range(b)]
    elif kind == 2:        # one meridian, both halves
        x = r.randint(-180000, 180000)
        p = [(x, r.randint(-90000, 90000)) for _ in range(a)]
        q = [(x + r.choice([0, 180000, -180000, 360000]),
              r.randint(-90000, 90000)) for _ in range(b)]
        if r.random() < 0.4:
            q[0] = (p[0][0] + 180000, -p[0][1])       # antipodes
    elif kind == 3:        # the equator
        p = [(r.randint(-180000, 180000), 0) for _ in range(a)]
        q = [(r.randint(-180000, 180000), 0) for _ in range(b)]
    elif kind == 4:        # a parallel, short distances
        lat = 1000 * r.randint(-89, 89)
        x = r.randint(-180000, 180000)
        p = [(x, lat)] * a
        q = [(x + r.randint(-1000, 1000), lat) for _ in range(b)]
    elif kind == 5:        # around one of the special points, or any
        c = r.choice([(0, 0), (0, 0), (180000, 0), (0, 90000), (0, -90000),
                      (90000, 0), (-180000, 45000)])
        w = r.choice([900, 3000, 40000])
        p = [near(c, w) for _ in range(a)]
        q = [near(c, w) for _ in range(b)]
    elif kind == 6:        # small whole numbers
        p = [(1000 * r.randint(-3, 3), 1000 * r.randint(-3, 3))
             for _ in range(a)]
        q = [(1000 * r.randint(-6, 6), 1000 * r.randint(-3, 3))
             for _ in range(b)]
    else:
        c = free_point()
        p = [near(c, 300) for _ in range(a)]
        q = [near(c, 300) for _ in range(b)]
    if r.random() < 0.3:
        q[-1] = p[0]
    scalar = tuple(j for j, n in ((0, a), (1, b))
                   if n == 1 and r.random() < 0.5)
    distance("pairs-%d" % i, p, q, scalar=scalar)
sph.close()
common.coverage(**stats)
