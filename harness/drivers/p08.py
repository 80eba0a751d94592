"""Selections by area on generated polygons and catalogues."""
import copy
import itertools
import math

import numpy as np

import common
from common import attempt, silent, Cases

with common.imports():
    from mtoolkit.catalog_filter import (CatalogFilter, NullCatalogFilter,
                                         SourceModelCatalogFilter)
    from mtoolkit.source_model import (AREA_BOUNDARY, POINT,
                                       default_area_source)

r = common.rng("p08")
out = Cases("FilterTrace")
stats = {"polygons": 0, "points": 0}


def source(poly, scale, i):
    s = default_area_source()
    s.name = r.choice(["zone", "zone %d" % i, u"z\u00f6ne", "50%", None])
    s.area_boundary = AREA_BOUNDARY("EPSG:4326", [
        POINT(x / scale, y / scale) for x, y in poly])
    return s


def case(label, polys, points, scale=1.0, mode="all"):
    """scale: units per degree."""
    points = list(points)
    cols = r.choice([5, 6, 7, 7, 7])
    # in order of time or not, with events which agree in everything
    kind = r.choice(["chronological", "shuffled", "shuffled", "one day"])
    year = list(range(1900, 1900 + len(points)))
    if kind == "shuffled":
        r.shuffle(year)
    rows = []
    for i, (x, y) in enumerate(points):
        when = [1950., 6., 15.] if kind == "one day" else [
            float(year[i]), 1. + i % 12, 1. + i % 28]
        what = [5., 0.1] if kind == "one day" else [4. + i % 7 / 2., 0.1]
        rows.append((when + [x / scale, y / scale] + what)[:cols])
        if i and r.random() < 0.05:
            j = r.randrange(i)
            rows[i] = list(rows[j])
            points[i] = points[j]
    ids = [rows.index(row) + 1 for row in rows]
    cat = np.array(rows).reshape((len(rows), cols))
    before = cat.copy()
    sources = [source(p, scale, i) for i, p in enumerate(polys)]
    tokens = [copy.deepcopy(s.area_boundary) for s in sources]
    attrs = [sorted((n, str(v)) for n, v in vars(s).items()) for s in sources]
    got, ended = [], "end"
    flt = {"null": CatalogFilter(), "null2": CatalogFilter(
        NullCatalogFilter())}.get(mode) or CatalogFilter(
            SourceModelCatalogFilter())
    kept, own = True, True
    held = []

    def index(row):
        row = [float(v) for v in row]
        return rows.index(row) + 1 if row in rows else 0

    def note(sm, want, eqs):
        res = [index(row) for row in eqs]
        got.append({"o": "ok", "idx": res, "src": sm is want})
        held.append((eqs, res))

    def go():
        with silent():
            if mode == "direct":
                one = SourceModelCatalogFilter()
                for s in sources:
                    try:
                        note(s, s, one.filter_eqs(s, cat))
                    except Exception as e:
                        got.append({"o": "raise:" + type(e).__name__})
                        break
                return
            it = iter(flt.filter_eqs(sources, cat))
            for n in range(len(sources) + 1):
                try:
                    sm, eqs = next(it)
                except StopIteration:
                    break
                except Exception as e:
                    got.append({"o": "raise:" + type(e).__name__})
                    break
                note(sm, sources[n] if n < len(sources) else None, eqs)
    o, _ = attempt(go)
    if o != "ok":
        ended = o
    # earlier selections are still what they were
    for eqs, res in held:
        if [index(row) for row in eqs] != res:
            own = False
    if not np.array_equal(cat, before) \
            or [s.area_boundary for s in sources] != tokens \
            or attrs != [sorted((n, str(v)) for n, v in vars(s).items())
                         for s in sources]:
        kept = False
    for eqs, _ in held:
        if isinstance(eqs, np.ndarray) and np.shares_memory(eqs, cat):
            own = False
    stats["polygons"] += len(polys)
    stats["points"] += len(points)
    out.add(label=label, null=mode.startswith("null"),
            polys=[[list(p) for p in q] for q in polys],
            points=[list(p) for p in points], ids=ids, got=got, ended=ended,
            kept=kept, own=own)


def star(n, radius, cx=0, cy=0):
    """A simple star shaped polygon with integer vertices."""
    a = sorted(r.random() * 2 * math.pi for _ in range(n))
    pts = []
    for t in a:
        d = radius * r.uniform(0.3, 1.0)
        pts.append((int(round(cx + d * math.cos(t))),
                    int(round(cy + d * math.sin(t)))))
    return pts


def decorate(p):
    """Same ring, written differently."""
    p = list(p)
    if r.random() < 0.5:
        p.reverse()
    i = r.randrange(len(p))
    p = p[i:] + p[:i]
    if r.random() < 0.4:
        p.append(p[0])
    if r.random() < 0.2:
        i = r.randrange(len(p))
        p.insert(i, p[i])
    return p


def probes(poly, n, spread):
    """Points of interest: vertices, points on edges, near edges, anywhere."""
    xs = [p[0] for p in poly]
    ys = [p[1] for p in poly]
    res = []
    for _ in range(n):
        k = r.random()
        i = r.randrange(len(poly))
        a, b = poly[i], poly[(i + 1) % len(poly)]
        if k < 0.15:
            q = a
        elif k < 0.35:
            q = ((a[0] + b[0]) // 2, (a[1] + b[1]) // 2)
        elif k < 0.5:
            g = math.gcd(b[0] - a[0], b[1] - a[1]) or 1
            t = r.randint(0, g)
            q = (a[0] + (b[0] - a[0]) // g * t, a[1] + (b[1] - a[1]) // g * t)
        elif k < 0.6:
            q = (a[0] + r.choice([-1, 0, 1]), b[1] + r.choice([-1, 0, 1]))
        else:
            q = (r.randint(min(xs) - spread, max(xs) + spread),
                 r.randint(min(ys) - spread, max(ys) + spread))
        res.append(q)
    return res


grid = list(itertools.product(range(-1, 5), range(-1, 5)))
# triangles and quadrilaterals on a small grid against every grid point
cells = list(itertools.product(range(4), range(4)))
for i in range(common.pick(220, 3000)):
    poly = [r.choice(cells) for _ in range(r.choice([3, 4, 4, 4, 5, 5, 6]))]
    case("grid-%d" % i, [decorate(poly)], grid,
         r.choice([1.0, 2.0, 4.0]), r.choice(["all", "direct"]))
shapes = {
    "square": [(0, 0), (8, 0), (8, 8), (0, 8)],
    "U": [(0, 0), (9, 0), (9, 9), (6, 9), (6, 3), (3, 3), (3, 9), (0, 9)],
    "spiral": [(0, 0), (10, 0), (10, 10), (2, 10), (2, 4), (6, 4), (6, 6),
               (4, 6), (4, 8), (8, 8), (8, 2), (0, 2)],
    "comb": [(0, 0), (12, 0), (12, 6), (10, 1), (8, 6), (6, 1), (4, 6),
             (2, 1), (0, 6)],
    "bow-tie": [(0, 0), (8, 8), (8, 0), (0, 8)],
    "spike": [(0, 0), (8, 0), (8, 8), (8, 12), (8, 8), (0, 8)],
    "touching": [(0, 0), (8, 0), (8, 8), (4, 0), (0, 8)],
    "figure-8": [(0, 0), (4, 4), (0, 8), (8, 8), (4, 4), (8, 0)],
    "line": [(0, 0), (4, 4), (8, 8)],
    "point": [(3, 3), (3, 3), (3, 3)],
    "back": [(0, 0), (8, 0), (0, 0), (8, 0)],
    "needle": [(0, 0), (12, 1), (12, 2)],
    "diamond": [(6, 0), (12, 6), (6, 12), (0, 6)],
}
fine = list(itertools.product(range(-1, 14), range(-1, 14)))
for name, poly in sorted(shapes.items()):
    # tiny ones
    case("tiny-%s" % name, [decorate(poly)], r.sample(fine, 120), 2.0 ** 30)
    for i in range(3):
        case("%s-%d" % (name, i), [decorate(poly)], fine, 4.0,
             ["all", "direct", "all"][i])
# larger ones, in turn, some of them invalid
for i in range(common.pick(150, 1500)):
    polys, points = [], []
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        p = star(r.choice([3, 4, 6, 9, 15]), r.choice([20, 200, 2000]),
                 r.randint(-500, 500), r.randint(-300, 300))
        if r.random() < 0.1:
            r.shuffle(p)
        points += probes(p, r.choice([5, 15, 40]), 20)
        polys.append(decorate(p))
    if r.random() < 0.3:
        polys.append(list(polys[0]))
    r.shuffle(points)
    points += points[:2]
    case("star-%d" % i, polys, points, 64.0,
         r.choice(["all", "all", "direct"]))
for i in range(common.pick(20, 100)):
    case("empty-%d" % i, [shapes["square"]] * r.randint(0, 2),
         probes(shapes["square"], r.choice([0, 0, 1]), 3), 2.0,
         r.choice(["all", "null"]))
for i in range(common.pick(40, 200)):
    polys = [r.choice(list(shapes.values())) for _ in range(r.randint(1, 4))]
    case("null-%d" % i, polys, probes(polys[0], r.choice([1, 5, 30]), 5),
         4.0, r.choice(["null", "null2"]))
# both hemispheres, up to the date line
for i, (x0, y0, x1, y1) in enumerate([
        (-180, -90, 180, 90), (-180, -10, -170, 10), (170, 80, 180, 90),
        (-1, -1, 1, 1), (0, 0, 180, 90), (-180, -90, 0, 0)]):
    p = [(x0 * 4, y0 * 4), (x1 * 4, y0 * 4), (x1 * 4, y1 * 4),
         (x0 * 4, y1 * 4)]
    case("globe-%d" % i, [p], probes(p, 120, 4), 4.0)
for n in common.pick([400], [400, 3000]):
    p = star(20, 2000)
    case("many-%d" % n, [p], probes(p, n, 50), 64.0)
out.close()
common.coverage(cases=out.n, **stats)
