"""Recurrence tables and maximum likelihood estimates."""
import numpy as np

import common
from common import attempt, silent, Cases, number

with common.imports():
    from mtoolkit.scientific.recurrence import (b_maxlike_time,
                                                recurrence_analysis,
                                                recurrence_table)

r = common.rng("p22")
stats = {"estimates": 0, "periods": 0, "tables": 0, "events": 0, "replayed": 0}
NAMES = ["b", "sigb", "a", "siga"]


def arrays(ev, times=1):
    order = [e for e in ev for _ in range(times)]
    if times > 1:
        r.shuffle(order)
    return (np.array([y / 2. for y, _ in order]),
            np.array([m / 100. for _, m in order]))


def same(a, b):
    return all((x == y).all() for x, y in zip(a, b))


def result(o, got):
    return {n: number(v) for n, v in zip(NAMES, got)} if o == "ok" else {}


def between(ev, tab, dm):
    """Whether a completeness magnitude is the centre of a bin up to
    rounding but not exactly."""
    for y in set(y for y, _ in tab):
        mc = min(m for z, m in tab if z == y)
        mags = [m for z, m in ev if z >= y and m >= mc]
        low = min(mags or [0]) // 10 * 10
        if mags and (2 * (mc - low) - dm) % (2 * dm) == 0 \
                and low / 100. + dm / 200. != mc / 100.:
            return True
    return False


def estimate(label, ev, tab, dm, ref, times=1):
    if between(ev, tab, dm):
        return
    args = list(arrays(ev, times)) + [np.array([y / 2. for y, _ in tab]),
                               np.array([m / 100. for _, m in tab])]
    whole = r.random() < 0.5

    def run(tab):
        given = args[:2] + [np.array([y / 2. for y, _ in tab]),
                            np.array([m / 100. for _, m in tab])]
        if not whole:
            given = [x.copy() for x in given]
        before = [x.copy() for x in given]

        def go():
            with silent():
                if whole:
                    return recurrence_analysis(
                        given[0], given[1],
                        np.column_stack([given[2], given[3]]), dm / 100.,
                        "MLE", ref / 100., 1.0)
                if ref == 0:
                    return b_maxlike_time(*(given + [dm / 100.]))
                return b_maxlike_time(*(given + [dm / 100., ref / 100.]))
        o, got = attempt(go)
        stats["estimates"] += 1
        return o, got, same(given, before)
    o, got, kept = run(tab)
    single = []
    for y in sorted(set(y for y, _ in tab)):
        rows = [(z, m) for z, m in tab if z == y]
        o1, got1, k1 = run(rows)
        kept = kept and k1
        single.append({"y": y, "out": o1, "res": result(o1, got1)})
        stats["periods"] += 1
    stats["events"] += len(ev)
    cases.add(label=label,
              par={"ev": [{"y": y, "m": m} for y, m in ev],
                   "tab": [{"y": y, "m": m} for y, m in tab],
                   "dm": dm, "ref": ref, "times": times},
              out=o, res=result(o, got), single=single, kept=kept)


def events(n, lo, y0, y1, grid):
    res = []
    for _ in range(n):
        m = lo + int(min(350, 100 * r.expovariate(2.3)))
        if grid:
            m = m // 10 * 10
        res.append((2 * r.randint(y0, y1), m))
    r.shuffle(res)
    return res


def table(rows, lo, y0, y1, dm):
    years = [2 * r.randint(y0 - 5, y1 + r.choice([0, 3]))
             for _ in range(rows)]
    if rows > 2 and r.random() < 0.4:
        years[-1] = years[0]
    if r.random() < 0.6:
        years.sort(reverse=True)
    mags = [lo + r.choice([-100, -10, 0, 0, 0, 3])]
    for _ in range(rows - 1):
        mags.append(mags[-1] + r.choice([0, dm, dm, 2 * dm, 17]))
    if r.random() < 0.2:
        r.shuffle(mags)
    return list(zip(years, mags))


cases = Cases("MLETrace")
WIDTHS = [10, 10, 20, 50, 50, 100, 30]
for i in range(common.pick(260, 4000)):
    dm = r.choice(WIDTHS)
    y0 = r.randint(1900, 1980)
    y1 = y0 + r.choice([0, 5, 20, 60])
    lo = r.choice([300, 400, 430, 452, 407])
    ev = events(r.choice([1, 2, 3, 8, 20, 60]), lo, y0, y1,
                r.random() < 0.5)
    if r.random() < 0.2:
        tab = [(min(y for y, _ in ev), min(m for _, m in ev))]
    else:
        tab = table(r.choice([1, 2, 3, 4]), lo, y0, y1, dm)
    mc = tab[0][1]
    estimate("random-%d" % i, ev, tab, dm,
             r.choice([mc, mc, 0, 300, 400, 500, 475]))
# completeness from the centre of the first bin on
for i in range(common.pick(16, 100)):
    mc = r.choice([305, 405, 415, 435, 455, 505, 625])
    y0, y1 = 1900, r.choice([1900, 1950])
    ev = events(r.choice([2, 5, 20]), mc, y0, y1, False)
    ev += [(2 * y0, mc + r.randint(0, 4)), (2 * y0, mc + 11)]
    estimate("centre-%d" % i, ev, [(2 * y0 - 4, mc)], 10,
             r.choice([mc, 0, 400]))
# many events, many in one bin
for i, times in enumerate([2, 150, common.pick(20000, 90000)]):
    ev = events(4, 400, 1990, 1995, True)
    estimate("times-%d" % times, ev, [(3980, 400), (3984, 410)][:i or 1], 10,
             r.choice([400, 0, 500]), times)
for i in range(common.pick(3, 12)):
    ev = [(2 * r.randint(1990, 1995), r.choice([400, 400, 400, 410, 420]))
          for _ in range(500)] + [(3990, 430)]
    estimate("dense-%d" % i, ev, table(2, 400, 1990, 1993, 10), 10,
             r.choice([400, 0, 500]))
for i in range(common.pick(4, 30)):
    dm = r.choice([10, 20, 50])
    y0, y1 = r.choice([(1990, 1991), (1900, 1990)])
    ev = events(r.choice([200, 400]), 400, y0, y1, True)
    tab = table(r.choice([1, 2]), 400, y0, y1, dm)
    estimate("many-%d" % i, ev, tab, dm, r.choice([400, 0, 500]))
# two periods, one of them with one event, many or none at all
for i, (n1, n2) in enumerate([(1, 5), (5, 1), (0, 4), (4, 0), (0, 0),
                              (2, 30), (30, 2)]):
    early = [(2 * r.randint(1900, 1949), 500 + 10 * r.randint(0, 9))
             for _ in range(n1)]
    late = [(2 * r.randint(1950, 1999), 400 + 10 * r.randint(0, 9))
            for _ in range(n2)]
    low = [(3700, 300), (3980, 310)]
    estimate("periods-%d-%d" % (n1, n2), early + late + low,
             [(3900, 400), (3800, 500)], 10, 400)
# the starting points of the model, all of them or a sample
for i, p in enumerate(common.generated("Gen_MLE", 120, 4000)):
    stats["replayed"] += 1
    estimate("model-%d" % i, [(e["y"], e["m"]) for e in p["ev"]],
             [(e["y"], e["m"]) for e in p["tab"]], p["dm"], p["ref"])
cases.close()

cases = Cases("RecTableTrace")


def rectable(label, ev, dm, times=1):
    years, mags = arrays(ev, times)
    before = [years.copy(), mags.copy()]

    def go():
        with silent():
            return recurrence_table(mags, dm / 100., years)
    o, got = attempt(go)
    rows = []
    if o == "ok":
        got = np.asarray(got)
        if got.ndim != 2 or got.shape[1] != 5:
            o, got = "shape", []
        rows = [{"c": common.sc(x[0], 1000), "n": common.exact(x[1], 1),
                 "cum": common.exact(x[2], 1), "an": number(x[3]),
                 "cn": number(x[4])} for x in got]
    stats["tables"] += 1
    cases.add(label=label, par={"ev": [{"y": y, "m": m} for y, m in ev],
                                "dm": dm, "times": times},
              out=o, rows=rows, kept=same([years, mags], before))


for i in range(common.pick(120, 1500)):
    y0 = r.randint(1900, 1990)
    ev = events(r.choice([1, 2, 5, 25]), r.choice([200, 400, 430, 452, 407]),
                y0, y0 + r.choice([0, 1, 9, 60]), r.random() < 0.6)
    rectable("random-%d" % i, ev, r.choice(WIDTHS + [25, 15]))
for times in (3, 130, 300, common.pick(35000, 100000)):
    rectable("times-%d" % times, events(3, 400, 1990, 1995, True), 10, times)
for dm in (10, 20, 50):
    for start in r.sample(range(300, 600, 10), common.pick(6, 30)):
        rectable("grid-%d-%d" % (dm, start),
                 [(2 * r.randint(1950, 1990), start + d)
                  for d in range(0, 200, 10)], dm)
cases.close()
common.coverage(**stats)
