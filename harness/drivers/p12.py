"""Declustering windows of whole vectors of magnitudes."""
import math

import numpy as np

import common
from common import attempt, silent, Cases, sc

with common.imports():
    from mtoolkit.scientific.declustering import time_dist_windows

r = common.rng("p12")
cases = Cases("WindowTrace")
stats = {"vectors": 0, "magnitudes": 0}
OPTS = ["GardnerKnopoff", "Gruenthal", "Uhrhammer"]


def abstract(m):
    h = int(math.floor(m * 100 + 1e-9))
    if abs(m - round(m * 100) / 100.0) < 1e-12:
        h = int(round(m * 100))
        # a float just below a boundary belongs to the lower formula
        if m == h / 100.0:
            return {"h": h, "off": False}
        if m < h / 100.0:
            return {"h": h - 1, "off": True}
        return {"h": h, "off": True}
    return {"h": h, "off": True}


def vector(label, opt, mags, dtype=float, order="C"):
    if opt not in time_dist_windows:
        cases.add(label=label, opt=opt, ms=[abstract(float(m)) for m in mags],
                  got=[], out="no such window", kept=True, shape=False)
        return
    a = np.array(mags, dtype=dtype)
    if order == "stride":
        b = np.zeros((len(mags), 3), dtype=dtype)
        b[:, 1] = a
        a = b[:, 1]
    before = a.copy()
    window = time_dist_windows[opt]

    def go():
        with silent():
            return window.calc(a)
    o, v = attempt(go)
    case = {"label": label, "opt": opt, "ms": [abstract(float(m))
                                               for m in before],
            "out": o, "got": [], "shape": False,
            "kept": bool(np.array_equal(a, before))}
    if o == "ok":
        try:
            s, t = (np.asarray(x, float) for x in v)
            case["shape"] = s.shape == a.shape and t.shape == a.shape
            if case["shape"]:
                case["got"] = [{"s": sc(x, 1000), "t": sc(y, 3650000)}
                               for x, y in zip(s, t)]
        except (TypeError, ValueError):
            pass
    stats["vectors"] += 1
    stats["magnitudes"] += len(mags)
    cases.add(**case)


GRID = [i / 100.0 for i in range(951)]
EDGE = [6.5, 6.49, 6.51, np.nextafter(6.5, 0), np.nextafter(6.5, 9),
        6.4999, 6.5001, 6.495, 6.505, 0.0, 9.5, 6.499999999]
for opt in OPTS:
    for i in range(0, 951, 50):
        vector("%s-grid-%d" % (opt, i), opt, GRID[i:i + 50])
    vector("%s-edges" % opt, opt, EDGE)
    vector("%s-descending" % opt, opt, GRID[::-1])
    vector("%s-integers" % opt, opt, list(range(10)), int)
    for i, m in enumerate(EDGE + [4.0, 7.0]):
        vector("%s-single-%d" % (opt, i), opt, [m])
    for i in range(common.pick(40, 1000)):
        n = r.choice([1, 2, 3, 5, 20])
        kind = r.randrange(4)
        if kind == 0:
            mags = [r.choice(GRID) for _ in range(n)]
        elif kind == 1:
            mags = [r.uniform(0, 9.5) for _ in range(n)]
        elif kind == 2:
            mags = [r.choice([6.49, 6.5, 6.51, 6.5]) for _ in range(n)]
        else:
            mags = [r.choice(EDGE + GRID[400:800]) for _ in range(n)]
        vector("%s-random-%d" % (opt, i), opt, mags, order=r.choice(
            ["C", "stride"]))
cases.close()
common.coverage(**stats)
