"""Cumulative moment estimates."""
import numpy as np

import common
from common import attempt, silent, Cases

with common.imports():
    from mtoolkit.scientific.maximum_magnitude import (
        cumulative_moment, cum_mo_uncertainty, maximum_magnitude_analysis)

r = common.rng("p24")
stats = {"estimates": 0, "bootstraps": 0}
S8 = 1e8
cases = Cases("MomentTrace")


def units(v):
    return common.sc(v, S8) if abs(float(v)) < 21 else common.BIG


def even(events):
    """Whether the release is (nearly) even: the range is rounding alone."""
    first = min(y for y, _ in events)
    n = max(y for y, _ in events) - first + 1
    per = [0.] * n
    for y, m in events:
        per[y - first] += 10 ** (m * 0.015)
    total, c, dev = sum(per), 0., []
    for i, p in enumerate(per):
        c += p
        dev.append(c - total * (i + 1) / n)
    return max(dev) - min(dev) < 1e-4 * total


def call(kind, label, events, func, low=0, **more):
    """low (10^-2): what magnitudes of the case are counted from."""
    years = np.array([float(y) for y, _ in events])
    mags = np.array([(m + low) / 100. for _, m in events])
    if r.random() < 0.3:
        years = years.astype(int)
    before = years.copy(), mags.copy()
    stats["estimates"] += 1

    def go():
        with silent():
            got = func(years, mags)
        if kind == "single":
            return {"got": units(got - low / 100.)}
        return {"got": units(got[0] - low / 100.), "sd": units(got[1])}
    o, res = attempt(go)
    case = {"label": label, "kind": kind, "out": o, "got": -1, "sd": -1,
            "events": [{"y": y, "m": m} for y, m in events],
            "kept": bool((years == before[0]).all()
                         and (mags == before[1]).all())}
    case.update(res if o == "ok" else {})
    case.update(more)
    return case


def single(label, events, low=0):
    cases.add(**call("single", label, events, cumulative_moment, low))


def exact(label, events, low=0):
    zero = np.zeros(len(events))
    n = r.choice([2, 3, 10])
    if r.random() < 0.5:
        cases.add(**call("exact", label, events, lambda y, m:
                         cum_mo_uncertainty(y, m, zero, n,
                                            *r.choice([(), (0,), (3,), (None,)])), low))
    else:
        cases.add(**call("exact", label, events, lambda y, m:
                         maximum_magnitude_analysis(
                             y, m, zero, "Cumulative_Moment", 0.1, 10, 5, 51,
                             n), low))


def event_set(i):
    first = r.choice([1, 1000, 1900, 1999])
    span = r.choice([1, 2, 3, 8, 30])
    base = r.choice([300, 500, 700])
    spread = r.choice([0, 5, 67, 200])
    ev = [(first + r.randint(0, span), base + r.randint(0, spread))
          for _ in range(r.choice([2, 2, 3, 5, 8]))]
    if r.random() < 0.5:           # the largest first or last
        ev.append((r.choice([min, max])(y for y, _ in ev), base + spread + 20))
    if min(y for y, _ in ev) == max(y for y, _ in ev):
        ev.append((ev[0][0] + 1, ev[0][1] - 30))
    r.shuffle(ev)
    return ev


for i in range(common.pick(90, 1500)):
    ev = event_set(i)
    if even(ev):
        continue
    single("random-%d" % i, ev)
    if i % 3 == 0:
        exact("exact-%d" % i, ev)
        low = -r.choice([250, 400, 700, 1000])  # some or all below 0
        single("low-%d" % i, ev, low)
        exact("low-exact-%d" % i, ev, low)
    if i % 3 == 1:
        shift = r.choice([-700, 40, 1000])
        single("years-%d" % i, [(y + shift, m) for y, m in ev])
        up = r.choice([67, 100, 1])
        single("magnitudes-%d" % i, [(y, m + up) for y, m in ev])
        ev = ev[:]
        r.shuffle(ev)
        single("order-%d" % i, ev)
# many events, in one year or in many
for i in range(common.pick(4, 40)):
    n, span = r.choice([(60, 1), (200, 2), (200, 150)])
    ev = [(1800 + r.randint(0, span), 400 + r.randint(0, 150))
          for _ in range(n)] + [(1800, 300), (1800 + span, 400)]
    if not even(ev):
        single("many-%d" % i, ev)
# gaps, and the only release in the first or the last year
for n in (1, 2, 5, 40, 900):
    single("first-%d" % n, [(1100, 700), (1100 + n, 200)])
    single("last-%d" % n, [(1100, 200), (1100 + n, 700)])
    if n > 1:
        single("middle-%d" % n, [(1100, 200), (1100 + n // 2, 700),
                                 (1100 + n, 200)])

for i in range(common.pick(24, 200)):
    count = r.choice([1, 60])
    sigma = r.choice([20, 50, 100, 150])
    m = r.choice([500, 650])
    samples = r.choice([500, 2000])
    ev = [(1950, m)] * count + [(1951, 100)]
    if count == 1:                  # and others which do not count
        ev += [(1950 + r.randint(0, 1), 99) for _ in range(3)]
        sigma = r.choice([0, sigma])
    if r.random() < 0.5:
        ev.reverse()
    other = r.choice([0., 0.3])
    sig = np.array([sigma / 1000. if mm == m else other for y, mm in ev])
    seed = 0 if i % 4 == 0 else r.randint(1, 1000)
    base = call("single", "", ev, cumulative_moment)["got"]
    again = call("boot", "", ev, lambda y, mg:
                 cum_mo_uncertainty(y, mg, sig, samples, seed))
    cases.add(**call("boot", "boot-%d" % i, ev, lambda y, mg:
                     cum_mo_uncertainty(y, mg, sig, samples, seed),
                     base=base, again=[again["got"], again["sd"]],
                     sigma=sigma, count=count, samples=samples))
    stats["bootstraps"] += 1

for i in range(common.pick(4, 30)):
    m = r.choice([500, 600])
    ev = [(1950, m), (1950 + r.randint(0, 2), m - r.choice([20, 40])),
          (1953, 300)]
    r.shuffle(ev)
    if even(ev):
        continue
    u = ev.index(min(e for e in ev if e[1] not in (m, 300)))
    sigma, samples = r.choice([20, 40, 60]), 4000
    if 1950 in [ev[u][0]]:
        sigma = 60
    grid = []
    for j in range(-18, 19):
        e2 = list(ev)
        e2[u] = (ev[u][0], ev[u][1] + j * sigma // 4)
        grid.append(call("single", "", e2, cumulative_moment)["got"])
    if any(b < a for a, b in zip(grid, grid[1:])):
        continue
    sig = np.zeros(3)
    sig[u] = sigma / 100.
    cases.add(**call("quad", "quad-%d" % i, ev, lambda y, mg:
                     cum_mo_uncertainty(y, mg, sig, samples, i + 1), u=u + 1,
                     sigma=sigma, samples=samples, grid=grid))
    stats["bootstraps"] += 1

ev, calls = [(1950, 600), (1951, 100)], 3000
for sigma in (50, 200):
    sig = np.array([sigma / 1000., 0.])
    o, got = attempt(lambda: [
        float(cum_mo_uncertainty(np.array([1950., 1951.]),
                                 np.array([6., 1.]), sig, 2, s)[1]) ** 2
        for s in range(calls)])
    cases.add(label="few-%d" % sigma, kind="small", out=o, kept=True,
              sigma=sigma, calls=calls,
              mean=common.sc(sum(got) / calls, 1e6) if o == "ok" else -1)
    stats["bootstraps"] += calls
# two samples are known from their mean and deviation; the uncertain event
# counts alone
for i, (sigma, m) in enumerate([(100, 600), (r.choice([30, 300]), 550)]):
    sig = np.array([0., sigma / 1000.])
    years, mags = np.array([1951., 1950.]), np.array([1., m / 100.])
    with silent():
        o, base = attempt(lambda: float(cumulative_moment(years, mags)))
        dev = []

        def sample():
            for s in range(calls):
                a, b = [float(v) for v in cum_mo_uncertainty(
                    years, mags, sig, 2, 5000 * (i + 1) + s)]
                dev.extend((v - base) / (sigma / 1000.)
                           for v in (a - b / 2 ** .5, a + b / 2 ** .5))
        if o == "ok":
            o, _ = attempt(sample)
    cases.add(label="normal-%d" % i, kind="normal", out=o, kept=True,
              sigma=sigma, n=len(dev),
              up=sum(1 for v in dev if v > 0),
              beyond=[sum(1 for v in dev if abs(v) > k)
                      for k in (0.5, 1, 2, 2.5)])
    stats["bootstraps"] += calls
cases.close()
common.coverage(**stats)
