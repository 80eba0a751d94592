"""Completeness tables of many catalogues and parameters."""
import math

import numpy as np

import common
from common import attempt, silent, Cases, exact

with common.imports():
    from mtoolkit.scientific.completeness import stepp_analysis
    from mtoolkit.workflow import Context, PreprocessingBuilder

r = common.rng("p15")
cases = Cases("SteppTrace")
stats = {"tables": 0, "events": 0, "rows": 0, "replayed": 0}
# the documented defaults: tenths of magnitude, years, 0.2, locked
DEFAULTS = {"dm": 0.1, "dt": 1, "ttol": 0.2, "iloc": True}
STEPP = PreprocessingBuilder().map_job_callable["Stepp"]


def hundredths(v):
    v = float(v)
    n = int(round(v * 100)) if abs(v) < 1e6 else 0
    return n if abs(v - n / 100.0) < 1e-6 else common.NAN


def clean(events, dm):
    """Moves magnitudes off the inner edges of the bins, unless the edges are
    exact."""
    low = 10 * (min(m for _, m in events) // 10)
    if dm % 25 == 0 and low % 50 == 0:
        return events
    return [(y, m + 1 if (m - low) % dm == 0 and m != low else m)
            for y, m in events]


def table(label, events, dm, dt, tol, lock, job=False, noise=False):
    events = clean(events, dm)
    if max(y for y, _ in events) - min(y for y, _ in events) + 1 < dt:
        return
    year = np.array([float(y) for y, _ in events])
    mag = np.array([m / 100.0 + (r.uniform(-0.004, 0.004) if noise else 0)
                    for _, m in events])
    before = year.copy(), mag.copy()

    def go():
        with silent():
            if job:
                ctx = Context()
                ctx.working_catalog = np.zeros((len(events), 7))
                ctx.working_catalog[:, 0] = year
                ctx.working_catalog[:, 5] = mag
                ctx.config = {"Stepp": {
                    "magnitude_windows": dm / 100.0, "time_window": dt,
                    "sensitivity": tol / 1000.0, "increment_lock": lock}}
                STEPP(ctx)
                return ctx.completeness_table
            # what has its default value may be left out
            given = {"dm": dm / 100.0, "dt": dt, "ttol": tol / 1000.0,
                     "iloc": lock}
            for name, value in DEFAULTS.items():
                if given[name] == value and r.random() < 0.7:
                    del given[name]
            if len(given) == 4:
                return stepp_analysis(year, mag, dm / 100.0, dt,
                                      tol / 1000.0, lock)
            return stepp_analysis(year, mag, **given)
    o, v = attempt(go)
    got = []
    if o == "ok":
        v = np.asarray(v, float)
        if v.ndim != 2 or v.shape[1] != 2:
            o = "not a table of two columns"
        else:
            got = [{"y": exact(a, 1), "m": hundredths(b)} for a, b in v]
    stats["tables"] += 1
    stats["events"] += len(events)
    stats["rows"] += len(got)
    cases.add(label=label, out=o, got=got,
              par={"events": [{"y": y, "m": m} for y, m in events], "dm": dm,
                   "dt": dt, "tol": tol, "lock": lock},
              kept=np.array_equal(before[0], year) and
              np.array_equal(before[1], mag))


def catalogue(kind, n):
    end = r.choice([2000, 1990, 2011, 100, -300])
    span = r.choice([3, 10, 25, 60])
    low = r.choice([300, 350, 400, 450, 405, 417, 433])
    ev = []
    for _ in range(n):
        m = low + min(300, int(r.expovariate(0.02)))
        if kind == 0:
            y = end - r.randrange(span)
        elif kind == 1:      # incomplete in the past
            reach = min(span, 3 + (m - low) * span // 100)
            y = end - r.randrange(max(1, reach))
        elif kind == 2:      # few years
            y = end - r.choice([0, 1, 2, span - 1])
        else:                # larger ones only long ago
            y = end - (r.randrange(span) if m < low + 60
                       else span - 1 - r.randrange(2))
        ev.append((y, m))
    return ev


# boundaries of the time windows and of the bins, exhaustively small
i = 0
for lock in (True, False):
    for dm in (10, 20, 25, 50):
        for dt in (1, 2, 5):
            for tol in (50, 200, 1000):
                i += 1
                kind = i % 4
                table("family-%d" % i, catalogue(kind, 12), dm, dt, tol, lock)
# the starting points of the model, all of them or a sample
for i, p in enumerate(common.generated("Gen_Stepp", 300, 8000)):
    stats["replayed"] += 1
    table("model-%d" % i, [(1990 + e["y"], e["m"]) for e in p["events"]],
          p["dm"], p["dt"], p["tol"], p["lock"])
# catalogues on exact edges
for i in range(common.pick(24, 300)):
    low = r.choice([300, 400, 450])
    ev = [(2000 - r.randrange(12), low + r.choice([0, 25, 50, 75, 100]))
          for _ in range(r.randint(2, 12))] + [(2000, low), (1988, low + 50)]
    table("edges-%d" % i, ev, r.choice([25, 50]), r.choice([1, 2, 3]),
          r.choice([100, 300, 700]), r.random() < 0.5)
# many years
for i in range(common.pick(12, 120)):
    span = r.choice([101, 130, 180, 250])
    ev = [(2000 - r.randrange(span), 400 + r.choice([0, 20, 40, 110]))
          for _ in range(r.choice([3, 6, 12]))] + [
        (2000 - span, 401), (1999, 401), (2000 - span + r.choice([0, 9]), 403),
        (2000, 470)]
    table("span-%d" % i, ev, r.choice([50, 100]), r.choice([1, 2, 5, 10]),
          r.choice([2, 10, 50, 200]), r.random() < 0.5)
# many events
for i in range(common.pick(2, 20)):
    table("many-%d" % i, catalogue(2, 150),
          50, 5, r.choice([50, 200, 900]),
          r.random() < 0.5)
# one magnitude, one bin, one year
for i, ev in enumerate([[(2000, 400)], [(2000, 405)], [(2000, 455)] * 3,
                        [(2000, 405), (1999, 405)],
                        [(2000, 405), (1990, 407), (1995, 401)],
                        [(2000, 400), (1990, 400)],
                        [(2000, 411), (1970, 499)]]):
    table("small-%d" % i, ev, 10, 1, 200, True)
    table("small-lock-%d" % i, ev, 20, 1, 200, False)
for i in range(common.pick(90, 2500)):
    table("random-%d" % i, catalogue(r.randrange(4), r.choice(
        [1, 2, 4, 8, 15, 30])), r.choice([10, 20, 25, 30, 50, 100]),
        r.choice([1, 1, 2, 3, 5, 10]), r.choice([20, 100, 200, 500, 900,
                                                 2000, 5000]),
        r.random() < 0.5, job=r.random() < 0.5, noise=r.random() < 0.3)
cases.close()
common.coverage(**stats)
