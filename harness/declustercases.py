"""Catalogues for declustering, and recorded runs of the real algorithms."""
import itertools
import math

import numpy as np

import common
from common import attempt, silent, Cases
import geo

with common.imports():
    from mtoolkit.scientific.declustering import (gardner_knopoff_decluster,
                                                  afteran_decluster)

WINDOWS = ["GardnerKnopoff", "Gruenthal", "Uhrhammer"]
MDAYS = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def date_of(n):
    """(year, month, day) of a day number."""
    y, d = divmod(n, 365)
    for m in range(12):
        if d < MDAYS[m]:
            return y, m + 1, d + 1
        d -= MDAYS[m]


def matrix(events, cols=7):
    """events: (year, month, day, lon, lat, hundredths of magnitude)."""
    return np.array([[float(y), float(mo), float(d), lon, lat, m / 100.0,
                      0.1 + 0.01 * (i % 7)][:cols]
                     for i, (y, mo, d, lon, lat, m) in enumerate(events)])


def as_ints(v):
    out = []
    for x in np.asarray(v).tolist():
        if isinstance(x, list) or float(x) != int(x):
            raise ValueError("not a vector of integers")
        out.append(int(x))
    return out


DEFAULTS = {"window_opt": "GardnerKnopoff", "fs_time_prop": 0,
            "time_window": 60.}
omit = common.rng("defaults")


def run(func, mat, kwargs):
    """Runs a declustering; returns the observation."""
    given = mat.copy()
    # what has its default value may be left out
    kwargs = {k: v for k, v in kwargs.items()
              if v != DEFAULTS[k] or omit.random() < 0.3}

    def go():
        with silent():
            first = func(mat, **kwargs)
            same = np.array_equal(mat, given)
            again = func(given.copy(), **kwargs)
            return first, again, same
    outcome, value = attempt(go, 60)
    if outcome != "ok":
        return {"out": outcome}
    try:
        (vcl, kept, flag), again, same = value
        obs = {"out": "ok", "vcl": as_ints(vcl), "flag": as_ints(flag),
               "kept": [" ".join(map(repr, row))
                        for row in np.asarray(kept).tolist()],
               "rows": [" ".join(map(repr, row)) for row in given.tolist()],
               "unchanged": bool(same),
               "again": all(np.array_equal(a, b)
                            for a, b in zip((vcl, kept, flag), again))}
    except Exception as e:
        return {"out": "malformed result %s" % type(e).__name__}
    return obs


def abstract(events):
    m = [e[5] for e in events]
    t = [geo.day_number(e[0], e[1], e[2]) for e in events]
    return m, t


def distances(events):
    """Matrix in whole metres, rounded down."""
    pts = [(e[3], e[4]) for e in events]
    n = len(pts)
    d = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            d[i][j] = d[j][i] = int(geo.metres(pts[i], pts[j]))
    return d


def clear(events, d, opt, pct, win=None):
    """No comparison of this catalogue is within rounding of its limit."""
    m, t = abstract(events)
    n = len(m)
    # differences of whole years and of the same day are exact
    exact = win is not None and (
        win == 0 or all(e[1:3] == (1, 1) for e in events))
    for i in range(n):
        thr = geo.space_km(opt, m[i] / 100.0) * 1000
        tw = geo.time_days(opt, m[i] / 100.0)
        for j in range(n):
            if i == j:
                continue
            if abs(d[i][j] - thr) < 3:
                return False
            dt = t[j] - t[i]
            if win is None:
                if abs(dt - tw) < 1e-3 or (
                        dt < 0 and abs(-dt - tw * pct / 100.0) < 1e-3):
                    return False
            elif not exact and abs(abs(dt) * 100 - win) < 1:
                return False
    return True


def orders(m, limit=48):
    """Every order of decreasing magnitude, or None when there are too many."""
    groups = {}
    for i, x in enumerate(m):
        groups.setdefault(x, []).append(i + 1)
    total = 1
    for g in groups.values():
        total *= math.factorial(len(g))
    if total > limit:
        return None
    res = [[]]
    for x in sorted(groups, reverse=True):
        res = [a + list(p) for a in res
               for p in itertools.permutations(groups[x])]
    return res


# ------------------------------------------------------------- catalogues

CENTRES = [(0.0, 0.0), (10.5, 44.25), (-70.3, -33.4), (179.95, 10.0),
           (-179.95, -15.0), (100.2, -2.5), (20.0, 89.6), (-45.0, -89.7),
           (-0.05, 51.5), (139.7, 35.6), (0.0, 0.05)]


def wrap(lon):
    while lon > 180:
        lon -= 360
    while lon < -180:
        lon += 360
    return lon


def random_catalogue(r, n, ties="few", mags=None, spread=None, span=None,
                     year=None):
    """n events around a few centres, in bursts."""
    opt_spread = spread or r.choice([0.02, 0.3, 0.8, 2.0])
    centres = [r.choice(CENTRES) for _ in range(r.randint(1, 3))]
    year = year if year is not None else r.choice(
        [1990, 2000, 2005, 1963, -200, 0, 1, -9000, 1899])
    span = span or r.choice([1, 10, 60, 400, 2000])
    lo, hi = mags or r.choice([(400, 800), (300, 500), (0, 900), (600, 700),
                               (450, 560), (640, 660)])
    events = []
    used = set()
    for _ in range(n):
        clon, clat = r.choice(centres)
        lon = wrap(round(clon + r.uniform(-1, 1) * opt_spread, 4))
        lat = round(max(-90, min(90, clat + r.uniform(-1, 1) * opt_spread)), 4)
        y, mo, d = date_of(year * 365 + int(r.triangular(0, span, 0)))
        if mo == 2 and d == 28 and r.random() < 0.3:
            d = 29
        while True:
            m = r.randint(lo, hi)
            if ties == "few" and m in used and hi - lo > 2 * n:
                continue
            break
        used.add(m)
        events.append((y, mo, d, lon, lat, m))
    if ties == "some" and n > 1:
        for _ in range(r.randint(1, 3)):
            i, j = r.randrange(n), r.randrange(n)
            events[i] = events[i][:5] + (events[j][5],)
    if r.random() < 0.3:
        events.sort()
    elif r.random() < 0.2:
        events.sort(key=lambda e: -e[5])
    return events


def small_catalogues(r, days, mags, places, n, limit):
    """All (or a sample of) small catalogues on a line of longitude."""
    base = 2000 * 365 + 100
    cells = list(itertools.product(mags, days, places))
    every = itertools.product(cells, repeat=n)
    total = len(cells) ** n
    keep = min(1.0, limit / float(total))
    for combo in every:
        if keep < 1 and r.random() > keep:
            continue
        yield [date_of(base + d) + (12.0, round(42.0 + p, 4), m)
               for m, d, p in combo]


def on_a_line(p):
    """The catalogue of a starting point of the models: events on a meridian,
    metres from the first one."""
    return [date_of(2000 * 365 + 100 + e["t"]) + (
        12.0, round(42.0 + math.degrees(x / 1000.0 / geo.R), 6), e["m"])
        for e, x in zip(p["cat"], p["at"])]
