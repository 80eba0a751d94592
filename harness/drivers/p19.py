"""The estimation jobs on the sources of a model, observed after every job."""
import inspect
import json

import numpy as np

import common
from common import attempt, silent, Cases
import nrmlcases
import runcases

with common.imports():
    from mtoolkit.workflow import Context, ProcessingBuilder
    from mtoolkit import jobs

r = common.rng("p19")
cases = Cases("EstimateTrace")
stats = {"sequences": 0, "jobs": 0, "real": 0, "sources": 0, "replayed": 0}
NAMES = {"REC": "Recurrence", "MAX": "MaximumMagnitude"}
ALGS = {"REC": "recurrence", "MAX": "maximum_magnitude"}
ESTIMATES = [("a", "a"), ("b", "b"), ("mmin", "mmin"), ("mmax", "mmax")]


def text(v):
    try:
        return repr(float(v) + 0.0)
    except (TypeError, ValueError):
        return repr(v)


def param(v):
    return repr(v) if isinstance(v, (str, bool)) else text(v)


def state(sm):
    t = nrmlcases.object_token(sm)
    res = {k: t.pop(k) for k in ("a", "b", "mmin", "mmax")}
    res["rest"] = json.dumps(t, sort_keys=True)
    for key, name in (("siga", "recurrence_siga_m"),
                      ("sigb", "recurrence_sigb"),
                      ("sigm", "max_mag_sigma")):
        res[key] = text(getattr(sm, name)) if hasattr(sm, name) else "none"
    return res


def value(bad):
    if r.random() < bad:
        return r.choice([float("nan"), float("inf"), -float("inf")])
    return r.choice([round(r.uniform(-3, 9), 2), r.uniform(0, 9), 0.0, -1.5,
                     1e-12, 123456.75])


def spy(ctx, key, calls, stub, answers=None):
    real = ctx.map_sc[ALGS[key]]
    signature = inspect.signature(real)

    def algorithm(*pos, **kw):
        bound = signature.bind(*pos, **kw)
        bound.apply_defaults()
        full = list(bound.arguments.values())
        years, mags, third = full[:3]
        call = {"alg": key, "years": [text(x) for x in years],
                "mags": [text(x) for x in mags], "sigs": [], "table": [],
                "params": [param(a) for a in full[3:]]}
        if key == "REC":
            call["table"] = [[text(v) for v in row] for row in third]
        else:
            call["sigs"] = [text(v) for v in third]
        if answers:
            res = answers.pop()
        elif stub:
            bad = r.choice([0, 0, 0.4])
            if key == "REC":
                # only the values decide, the errors may be anything
                res = (value(bad), value(0.1), value(bad), value(0.1))
            else:
                res = (value(bad), value(0.1))
            if r.random() < 0.5:
                res = tuple(np.float64(x) for x in res)
        else:
            res = real(*full)
            stats["real"] += 1
        if key == "REC":
            call["est"] = {"b": text(res[0]), "sigb": text(res[1]),
                           "a": text(res[2]), "siga": text(res[3]),
                           "fin": bool(np.isfinite(res[0]) and
                                       np.isfinite(res[2]))}
        else:
            call["est"] = {"m": text(res[0]), "sigm": text(res[1]),
                           "fin": bool(np.isfinite(res[0]))}
        calls.append(call)
        return res
    return algorithm


def events(n):
    """Rows of the catalogue matrix."""
    res = []
    for _ in range(n):
        res.append([r.randint(1950, 2005), r.randint(1, 12),
                    r.randint(1, 28), r.uniform(-10, 10), r.uniform(-10, 10),
                    round(4.0 + min(3.3, r.expovariate(2)), 2),
                    round(r.uniform(0.05, 0.4), 2)])
    return np.array(res, dtype=float).reshape((n, 7))


def table():
    n = r.randint(1, 4)
    y = sorted((r.randint(1950, 1995) for _ in range(n)), reverse=True)
    m = sorted(r.choice([4.0, 4.5, 5.0, 5.5, 6.0]) for _ in range(n))
    return np.array(list(zip(y, m)), dtype=float)


def config():
    return runcases.base_config(
        processing_jobs=[],
        Recurrence={"magnitude_window": r.choice([0.5, 0.2, 1.0, 0.1]),
                    "recurrence_algorithm": r.choice(["Weichert", "MLE"]),
                    "reference_magnitude": r.choice([3.0, 4.25, 5, 0.0, 6.5]),
                    "time_window": r.choice([1.0, 2.0, 5.0])},
        MaximumMagnitude={
            "maxim_mag_algorithm": r.choice(["Kijko_Npg",
                                             "Cumulative_Moment"]),
            "iteration_tolerance": r.choice([0.01, 0.002]),
            "maximum_iterations": r.choice([20, 50]),
            "neq": r.choice([2, 5, 30]),
            "number_samples": r.choice([11, 21]),
            "number_bootstraps": r.choice([2, 5])})


def sequence(label, nsrc, turns, stub, answers=None):
    """turns: list of (source, number of events, jobs)"""
    with open("sm.xml", "w") as f:
        f.write(nrmlcases.model_xml(
            [nrmlcases.box(i, i, 0, i + 1, 1, **params())
             for i in range(nsrc)]))
    ctx = Context()
    cfg = ctx.config = config()
    with silent():
        o, _ = attempt(lambda: jobs.read_source_model(ctx))
    if o != "ok" or len(ctx.sm_definitions) != nsrc:
        return                    # the reader's property judges this
    calls = []
    for key in NAMES:
        ctx.map_sc[ALGS[key]] = spy(ctx, key, calls, stub, answers)
    src = [state(s) for s in ctx.sm_definitions]
    log, failed = [], False
    for i, n, keys in turns:
        cfg["processing_jobs"] = [NAMES[x] for x in keys]
        pipeline = ProcessingBuilder().build(cfg).jobs
        ev = events(n)
        ctx.cur_sm = ctx.sm_definitions[i]
        ctx.current_filtered_eq = ev.copy()
        ctx.completeness_table = table()
        given = [[text(v) for v in row] for row in ctx.completeness_table]
        for key, job in zip(keys, pipeline):
            del calls[:]

            def go():
                with silent():
                    job(ctx)
            o, _ = attempt(go, 60)
            stats["jobs"] += 1
            log.append({"job": key, "cur": i + 1,
                        "years": [text(x) for x in ev[:, 0]],
                        "mags": [text(x) for x in ev[:, 5]],
                        "sigs": [text(x) for x in ev[:, 6]],
                        "table": given, "calls": list(calls), "out": o,
                        "after": [state(s) for s in ctx.sm_definitions]
                        if o == "ok" else []})
            if o != "ok":
                failed = True
                break
        if failed:
            break
    stats["sequences"] += 1
    stats["sources"] += nsrc
    rc, mx = cfg["Recurrence"], cfg["MaximumMagnitude"]
    cases.add(label=label, src=src, ref=text(rc["reference_magnitude"]),
              log=log,
              recpar=[param(rc[x]) for x in (
                  "magnitude_window", "recurrence_algorithm",
                  "reference_magnitude", "time_window")],
              maxpar=[param(mx[x]) for x in (
                  "maxim_mag_algorithm", "iteration_tolerance",
                  "maximum_iterations", "neq", "number_samples",
                  "number_bootstraps")])


def params():
    if r.random() < 0.3:
        return {}
    return {"a": nrmlcases.number_text(r, 0, 5),
            "b": nrmlcases.number_text(r, 0.5, 1.5),
            "mmin": nrmlcases.number_text(r, 3, 5),
            "mmax": nrmlcases.number_text(r, 6, 9),
            "strike": nrmlcases.number_text(r, 0, 360),
            "name": r.choice(nrmlcases.NAMES)}


JOBS = [("REC",), ("MAX",), ("REC", "MAX"), ("MAX", "REC"), ("REC", "REC"),
        ("MAX", "REC", "MAX")]
for keys in JOBS:
    for n in (0, 1, 2, 25):
        for stub in (True, False):
            sequence("one-%s-%d-%s" % ("-".join(keys), n,
                                       "stub" if stub else "real"),
                     r.choice([1, 2, 3]), [(0, n, keys)], stub)
for i in range(common.pick(150, 3000)):
    nsrc = r.choice([1, 2, 3, 5])
    turns = [(r.randrange(nsrc), r.choice([0, 1, 3, 10, 40]),
              r.choice(JOBS)) for _ in range(r.randint(1, 5))]
    sequence("random-%d" % i, nsrc, turns, r.random() < 0.75)
# every short history of the specification
for i, hist in enumerate(common.generated("Gen_SourceEstimates", None,
                                          8000)):
    cur, events_here = 0, 0       # as SEInit: the first source, no events
    turns, answers = [], []
    num = {"v": 1.0 + i % 7, "nan": float("nan"), "inf": float("inf"), "": 0.0}
    for step in hist:
        if step["job"] == "TURN":
            cur = step["n"] - 1
            events_here = r.randint(1, 3) if step["v"] == "own" else 0
            continue
        turns.append((cur, events_here, (step["job"],)))
        if events_here:
            a, b = num[step["v"]], num[step["w"]]
            answers.append((b, b, a, a) if step["job"] == "REC" else (a, a))
    if turns:
        stats["replayed"] += 1
        sequence("replay-%d" % i, 2, turns, True, answers[::-1])
cases.close()
common.coverage(**stats)
