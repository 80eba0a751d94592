"""Preparations for the Weichert algorithm."""
import numpy as np

import common
from common import attempt, silent, Cases

with common.imports():
    from mtoolkit.scientific.recurrence import weichert_prep

r = common.rng("p20")
cases = Cases("WeichertPrepTrace")
stats = {"preparations": 0, "events": 0, "replayed": 0}


def magnitude(lo, hi):
    while True:
        m = r.randint(lo, hi)
        if m % 10 != 5:               # which way these round is left open
            return m


def prepare(label, ev, tab, dm, dt, times=1):
    """ev, tab: lists of (half years, hundredths); dm, dt likewise."""
    years = np.tile([y / 2.0 for y, _ in ev], times)
    mags = np.tile([m / 100.0 for _, m in ev], times)
    ctime = np.array([y / 2.0 for y, _ in tab])
    cmag = np.array([m / 100.0 for _, m in tab])
    if r.random() < 0.2:              # as computed by Stepp
        cmag = cmag + np.array([r.choice([0, 1e-9, -1e-9]) for _ in tab])
    args = [years, mags, ctime, cmag]
    if r.random() < 0.3:
        args[0] = years.astype(int) if (years % 1 == 0).all() else years
    before = [a.copy() for a in args]
    with silent():
        o, got = attempt(lambda: weichert_prep(*(args + [dm / 100.0,
                                                         dt / 2.0])))
    cent, t, n = got if o == "ok" else ([], [], [])
    stats["preparations"] += 1
    stats["events"] += len(ev)
    cases.add(label=label,
              par={"ev": [{"y": y, "m": m} for y, m in ev],
                   "tab": [{"y": y, "m": m} for y, m in tab],
                   "dm": dm, "dt": dt, "times": times},
              out=o, cent=[common.sc(x, 1000) for x in cent],
              n=[common.exact(x, 1) for x in n],
              t=[common.exact(x, 4) for x in t],
              kept=all((a == b).all() for a, b in zip(args, before)))


def table(lo, hi, rows, y0, y1, grid):
    mags = sorted(r.choice(grid) if r.random() < 0.6 else r.randint(lo, hi)
                  for _ in range(rows))
    years = [2 * r.randint(y0, y1) + (r.random() < 0.1) for _ in range(rows)]
    if r.random() < 0.8:
        years.sort(reverse=True)
    return list(zip(years, mags))


def events(n, lo, hi, y0, y1, dm, ties):
    start = magnitude(lo, lo + 30)
    start = start // 10 * 10 if r.random() < 0.7 else start
    grid = [start // 10 * 10 + dm * i
            for i in range(max(1, (hi - start) // dm))]
    res = [(2 * r.randint(y0, y1), start)]
    for _ in range(n - 1):
        m = r.choice(grid) if r.random() < ties else magnitude(start, hi)
        res.append((2 * r.randint(y0, y1),
                    m if m % 10 != 5 else m + 1))
    r.shuffle(res)
    return res, grid


WIDTHS = [10, 20, 30, 50, 50, 100, 25, 15]
SPANS = [2, 2, 4, 10, 20, 1, 3, 5]
for i in range(common.pick(400, 6000)):
    dm, dt = r.choice(WIDTHS), r.choice(SPANS)
    y0 = r.randint(1900, 1990)
    y1 = y0 + r.choice([0, 1, 2, 5, 15, 40])
    lo = r.choice([200, 350, 400, 430])
    hi = lo + r.choice([40, 100, 250, 400])
    ev, grid = events(r.choice([1, 2, 3, 6, 15, 40]), lo, hi, y0, y1, dm,
                      r.choice([0, 0.5, 1]))
    kind = r.random()
    rows = r.choice([1, 1, 2, 3, 5])
    if kind < 0.2:                    # as without a completeness job
        tab = [(min(y for y, _ in ev), min(m for _, m in ev))]
    elif kind < 0.4:                  # as Stepp: from the smallest magnitude
        m0 = min(m for _, m in ev) // 10 * 10
        years = sorted((2 * r.randint(y0 - 5, y1 + 2) for _ in range(rows)),
                       reverse=True)
        tab = [(y, m0 + j * dm) for j, y in enumerate(years)]
    else:
        tab = table(lo - 20, hi + 20, rows, y0 - 5, y1 + 3, grid)
    prepare("random-%d" % i, ev, tab, dm, dt)

# many events in few years and bins, and in many
for i in range(common.pick(6, 40)):
    y0, span, width = 1950, *r.choice([(0, 30), (1, 30), (60, 400)])
    dm = r.choice([10, 50])
    ev, grid = events(r.choice([300, 700]), 400, 400 + width, y0, y0 + span,
                      dm, 0.8)
    prepare("many-%d" % i, ev, table(380, 400 + width, r.choice([1, 3]),
                                     y0 - 2, y0 + span, grid), dm, 2)
for times in (2, 130, 300, common.pick(35000, 100000)):
    ev, grid = events(3, 400, 450, 1950, 1955, 10, 0.8)
    prepare("times-%d" % times, ev, [(3890, 400), (3900, 430)], 10, 2, times)
# every magnitude of one decimal and every width in its own bin, complete
# from its own completeness magnitude on
for dm in (10, 20, 50):
    for start in r.sample(range(300, 600, 10), common.pick(6, 30)):
        ev = [(3900, start), (4000, start + 250)] + [
            (2 * r.randint(1951, 1999), start + d)
            for d in range(0, 250, 10)]
        for row in r.sample(range(0, 250, dm), common.pick(3, 6)):
            prepare("grid-%d-%d-%d" % (dm, start, row), ev,
                    [(3990, start - 10), (3904, start + row)], dm, 2)
            prepare("late-%d-%d-%d" % (dm, start, row), ev,
                    [(3910, start - 10), (3980, start + row)], dm, 2)
# the starting points of the model, all of them or a sample
for i, p in enumerate(common.generated("Gen_WeichertPrep", 500, 12000)):
    stats["replayed"] += 1
    ev = [(e["y"], e["m"]) for e in p["ev"]]
    tab = [(e["y"], e["m"]) for e in p["tab"]]
    if not any(m % 10 == 5 for _, m in ev):
        prepare("model-%d" % i, ev, tab, p["dm"], p["dt"])
cases.close()
common.coverage(**stats)
