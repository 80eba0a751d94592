"""Sequences of preprocessing jobs, observed after every job."""
import inspect

import numpy as np

import common
from common import attempt, silent, Cases, ranks, pairs
import runcases

with common.imports():
    from mtoolkit.workflow import Context, PreprocessingBuilder
    from mtoolkit import jobs

NAMES = {"GK": "GardnerKnopoff", "AF": "Afteran", "ST": "Stepp"}
ALGS = {"GK": "gardner_knopoff", "AF": "afteran", "ST": "stepp"}
WINDOWS = ["GardnerKnopoff", "Gruenthal", "Uhrhammer"]
r = common.rng("p17")
cases = Cases("PrepTrace")
stats = {"sequences": 0, "jobs": 0, "events": 0, "replayed": 0}
SELECT = PreprocessingBuilder().map_job_callable["Create_eq_vector"]


def text(v):
    try:
        return repr(float(v) + 0.0)
    except (TypeError, ValueError):
        return repr(v)


def row(values):
    return " ".join(text(v) for v in values)


def rows(matrix):
    m = np.asarray(matrix)
    if m.ndim != 2:
        return [] if m.size == 0 else ["not a matrix"]
    return [row(x) for x in m]


def param(v):
    return repr(v) if isinstance(v, (str, bool)) else text(v)


def clusters(n):
    return np.array([r.randint(0, 5) for _ in range(n)], dtype=int)


def spy(ctx, key, calls, stub, answers=None):
    real = ctx.map_sc[ALGS[key]]
    signature = inspect.signature(real)

    def given(*args, **kw):
        """The values in the order of the algorithm's signature."""
        bound = signature.bind(*args, **kw)
        bound.apply_defaults()
        return list(bound.arguments.values())

    def declusterer(*pos, **kw):
        full = given(*pos, **kw)
        catalog, args = full[0], full[1:]
        call = {"alg": key, "rows": rows(catalog), "years": [], "mags": [], "table": [],
                "params": [param(a) for a in args], "res": [], "vcl": []}
        calls.append(call)
        if answers:
            flags = np.array(answers.pop())
            n = len(flags)
            res = (clusters(n), catalog[flags == 0, :].copy(),
                   flags)
        elif stub:
            n = len(catalog)
            p = r.choice([0, 0.2, 0.5])
            flags = np.array([r.choice([1, -1]) if r.random() < p else 0
                              for _ in range(n)], dtype=int)
            if n and not (flags == 0).any() and r.random() < 0.9:
                flags[r.randrange(n)] = 0
            res = (clusters(n), catalog[flags == 0, :].copy(),
                   flags)
        else:
            res = real(*full)
        call["res"] = [int(x) for x in res[2]]
        call["vcl"] = [int(x) for x in res[0]]
        return res

    def completeness(*pos, **kw):
        full = given(*pos, **kw)
        years, mags, args = full[0], full[1], full[2:]
        call = {"alg": key, "rows": [], "years": [text(x) for x in years],
                "mags": [text(x) for x in mags], "table": [],
                "params": [param(a) for a in args], "res": [], "vcl": []}
        calls.append(call)
        if answers:
            res = np.array(answers.pop(), dtype=float)
        elif stub:
            res = np.array([[r.randint(1900, 2000), r.uniform(3, 6)]
                            for _ in range(r.randint(1, 4))])
        else:
            res = real(*full)
        call["res"] = rows(res)
        call["table"] = [[float(v) for v in x] for x in res]
        return res
    return completeness if key == "ST" else declusterer


def observe(ctx, job, out, calls):
    e = {"job": job, "out": out, "calls": list(calls), "matrix": [],
         "working": [], "flags": [], "table": [], "sel": [], "vcl": []}
    if out == "ok":
        if job == "SEL":
            e["sel"] = [int(i) + 1 for i in np.nonzero(
                np.asarray(ctx.selected_eq_vector) == 0)[0]]
        e["matrix"] = rows(ctx.catalog_matrix)
        e["working"] = rows(ctx.working_catalog)
        if job != "matrix":
            e["flags"] = [int(x) for x in np.asarray(ctx.flag_vector)]
            e["table"] = rows(ctx.completeness_table)
            e["vcl"] = [int(x) for x in np.ravel(getattr(ctx, "vcl", []))]
    return e


def sequence(label, events, keys, stub, answers=None):
    runcases.write_catalogue("cat.csv", events)
    cfg = runcases.base_config(
        source_model_file=None, apply_processing_jobs=False,
        GardnerKnopoff={"time_dist_windows": r.choice(WINDOWS),
                        "foreshock_time_window": round(r.uniform(0, 1), 3)},
        Afteran={"time_dist_windows": r.choice(WINDOWS),
                 "time_window": round(r.uniform(10, 400), 2)},
        Stepp={"time_window": r.choice([1, 2, 3]),
               "magnitude_windows": r.choice([0.1, 0.2, 0.5]),
               "sensitivity": round(r.uniform(0.01, 0.5), 3),
               "increment_lock": r.random() < 0.5})
    cfg["preprocessing_jobs"] = [NAMES[x] for x in keys if x != "SEL"]
    ctx = Context()
    ctx.config = cfg
    calls = []
    for key in NAMES:
        ctx.map_sc[ALGS[key]] = spy(ctx, key, calls, stub, answers)
    pipeline = PreprocessingBuilder().build(cfg).jobs
    # the selection of the run's end, and wherever else it is asked for
    for i, x in enumerate(keys):
        if x == "SEL":
            pipeline.insert(4 + i, SELECT)
    if not any(x == "SEL" for x in keys):
        pipeline.append(SELECT)
        keys = list(keys) + ["SEL"]
    names = ["read", "source", "matrix", "defaults"] + list(keys)
    log = []
    for name, job in zip(names, pipeline):
        del calls[:]

        def go():
            with silent():
                job(ctx)
        o, _ = attempt(go)
        stats["jobs"] += 1
        if name in ("read", "source"):
            if o != "ok":
                return            # the readers' properties judge this
            if name == "read":
                entries = [dict(e) for e in ctx.eq_catalog]
            continue
        log.append(observe(ctx, name, o, calls))
        if o != "ok":
            break
    if len(pipeline) != len(names):
        log.append({"job": "pipeline", "out": "length", "calls": [],
                    "matrix": [], "working": [], "flags": [], "table": [],
                    "sel": [], "vcl": []})
    want = [{"row": row([e["year"], e["month"], e["day"], e["longitude"],
                         e["latitude"], e["Mw"], e["sigmaMw"]]),
             "year": text(e["year"]), "mag": text(e["Mw"])} for e in entries]
    tables = [c["table"] for e in log for c in e["calls"]]
    ok = all(len(x) == 2 for t in tables for x in t)
    ty = ranks([e["year"] for e in entries],
               *[[x[0] for x in t] if ok else [] for t in tables])
    tm = ranks([e["Mw"] for e in entries],
               *[[x[1] for x in t] if ok else [] for t in tables])
    y, m = ty[0], tm[0]
    for c, a, b in zip([c for e in log for c in e["calls"]], ty[1:], tm[1:]):
        c["table"] = pairs(a, b)
    g, a, s = cfg["GardnerKnopoff"], cfg["Afteran"], cfg["Stepp"]
    stats["sequences"] += 1
    stats["events"] += len(entries)
    cases.add(
        label=label, want=want, cat=pairs(y, m), log=log,
        deftable=[row([min(e["year"] for e in entries),
                       min(e["Mw"] for e in entries)])],
        params={"GK": [param(g["time_dist_windows"]),
                       param(g["foreshock_time_window"])],
                "AF": [param(a["time_dist_windows"]),
                       param(a["time_window"])],
                "ST": [param(s["magnitude_windows"]),
                       param(s["time_window"]), param(s["sensitivity"]),
                       param(s["increment_lock"])]})


def events(n, spread):
    res = []
    for _ in range(n):
        m = 4.0 + min(3.5, r.expovariate(1.5))
        res.append({"y": r.randint(1950, 1990), "mo": r.randint(1, 12),
                    "d": r.randint(1, 28),
                    "lon": round(10 + r.uniform(0, spread), 3),
                    "lat": round(40 + r.uniform(0, spread), 3),
                    "mw": r.choice(["%.2f", "%.2f", "%.4f"]) % m, "sig": r.choice(["", "0.2", "0.15"])})
    if n > 2 and r.random() < 0.4:
        res[-1] = dict(res[0])
    res.append({"y": 1940, "lon": 0, "lat": 0, "mw": "4.4"})
    res.append({"y": 2000, "lon": 0, "lat": 0, "mw": "4.8"})
    r.shuffle(res)
    return res


# every short sequence of the specification
for i, hist in enumerate(common.generated("Gen_Preprocess", None, 6000)):
    n = 3
    evs = [{"y": 1990 + j, "lon": 1.0 + j, "lat": 2.0,
            "mw": "%.1f" % (4.0 + 0.1 * (n - j))} for j in range(1, n + 1)]
    keys, answers = [], []
    for step in hist:
        keys.append(r.choice(["GK", "AF"]) if step["job"] == "D"
                    else step["job"])
        if step["job"] == "D":
            answers.append(step["flags"])
        elif step["job"] == "ST":
            answers.append([[1990 + x["y"], float("%.1f" % (4.0 + 0.1 * x["m"]))]
                            for x in step["table"]])
    if not any(k != "SEL" for k in keys):
        continue
    stats["replayed"] += 1
    sequence("replay-%d" % i, evs, keys, True, answers[::-1])

KEYS = ["GK", "AF", "ST"]
seqs = [()] + [(a,) for a in KEYS] + [(a, b) for a in KEYS for b in KEYS] + [
    (a, b, c) for a in KEYS for b in KEYS for c in KEYS]
for i, keys in enumerate(seqs):
    for stub in (False, True):
        if not keys:
            keys = ("GK",)
        sequence("all-%d-%s-%s" % (i, "-".join(keys),
                                   "stub" if stub else "real"),
                 events(r.choice([3, 8, 20]), r.choice([0.3, 2])), keys, stub)
for i in range(common.pick(60, 1500)):
    keys = [r.choice(KEYS) for _ in range(r.randint(1, 6))]
    sequence("random-%d-%s" % (i, "-".join(keys)),
             events(r.choice([1, 2, 8, 30]), r.choice([0.1, 1, 5])), keys,
             r.random() < 0.6)
cases.close()
common.coverage(**stats)
