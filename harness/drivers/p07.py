"""The same sources in different company: alone, together, in any order, with
other events elsewhere, repeatedly."""
import json
import os
import subprocess
import sys

import common
from common import attempt, silent, Cases
import nrmlcases
import runcases
import numpy as np

r = common.rng("p07")


def events_in(zone, n, b=1.0, year0=1950):
    """n events well inside a zone (x0, y0, x1, y1)."""
    x0, y0, x1, y1 = zone
    res = []
    for _ in range(n):
        m = 4.0 + min(3.3, r.expovariate(b * 2.302585))
        res.append({"y": r.randint(year0, 2005), "mo": r.randint(1, 12),
                    "d": r.randint(1, 28),
                    "lon": round(r.uniform(x0 + .01, x1 - .01), 3),
                    "lat": round(r.uniform(y0 + .01, y1 - .01), 3),
                    "mw": "%.2f" % m, "sig": "%.2f" % r.uniform(0.05, 0.4)})
    return res


def inside(ev, zone):
    return zone[0] < ev["lon"] < zone[2] and zone[1] < ev["lat"] < zone[3]


def result(sm):
    t = nrmlcases.object_token(sm)
    keep = {k: t[k] for k in t if k not in ("id", "name")}
    for extra in ("recurrence_sigb", "recurrence_siga_m", "max_mag_sigma"):
        keep[extra] = nrmlcases.num(getattr(sm, extra)) \
            if hasattr(sm, extra) else "none"
    return json.dumps(keep, sort_keys=True)


TABLES = [[[1950, 4.0]], [[1980, 4.0], [1960, 5.0]],
          [[1990, 4.0], [1970, 4.5], [1950, 5.5]]]


def worlds():
    """(label, configuration, fixed table or None)."""
    for alg in ("Weichert", "MLE"):
        for procs in (["Recurrence"], ["Recurrence", "MaximumMagnitude"],
                      ["MaximumMagnitude"]):
            for pre in (None, ["GardnerKnopoff"], ["GardnerKnopoff", "Stepp"],
                        ["Afteran"]):
                if pre and r.random() < 0.5 and not common.THOROUGH:
                    continue
                yield "%s-%s-%s" % (alg, "+".join(procs), "+".join(pre or [])), \
                    runcases.base_config(
                        processing_jobs=procs, preprocessing_jobs=pre,
                        completeness_table_file=None if pre else "table.csv",
                        Recurrence={"recurrence_algorithm": alg})


def observe(label, config, zones, events, table, chosen, obs, params, num):
    """One run over the chosen zones (indices, repetitions allowed)."""
    sources = []
    for n, z in enumerate(chosen):
        kw = dict(params[z])
        if r.random() < 0.3:
            kw["name"] = "alike"
        sources.append(nrmlcases.box(n, *zones[z], **kw))
    with open("sm.xml", "w") as f:
        f.write(nrmlcases.model_xml(sources))
    runcases.write_catalogue("cat.csv", events)
    np.savetxt("table.csv", np.array(table, float), fmt="%10.5f",
               delimiter=",")
    before = {k: (dict(v) if isinstance(v, dict) else v)
              for k, v in config.items()}
    with silent():
        o, ctx = attempt(lambda: runcases.run(config), 60)
    whole = json.dumps(events, sort_keys=True)
    for n, z in enumerate(chosen):
        own = json.dumps([e for e in events if inside(e, zones[z])])
        known = whole if config["preprocessing_jobs"] else own
        key = json.dumps([zones[z], params[z], table, known], sort_keys=True)
        if o != "ok":
            res = "run failed: " + o
        elif len(ctx.sm_definitions) != len(chosen):
            res = "sources lost"
        else:
            res = result(ctx.sm_definitions[n])
        obs.append({"key": key, "result": res,
                    "run": "run %d source %d" % (num, n + 1)})


def cases(out):
    for w, (label, config) in enumerate(worlds()):
        for rep in range(common.pick(1, 6)):
            zones = []
            for i in range(r.randint(3, 4)):
                x, y = 12.0 * i, r.choice([0.0, 30.0, -20.0])
                zones.append((x, y, x + 8.0, y + 6.0))
            # an overlapping one and one with the same area again
            zones.append((4.0, -30.0, 14.0, 40.0))
            empty = (100.0, 0.0, 105.0, 5.0)
            zones.append(empty)
            params = [{"a": repr(r.choice([0.5, 2.5])),
                       "b": repr(r.choice([0.8, 1.1])),
                       "mmin": "3.5", "mmax": repr(r.choice([6.5, 7.5, 8.0]))}
                      for _ in zones]
            table = r.choice(TABLES)
            base = []
            for z in zones[:-2]:
                base += events_in(z, r.choice([0, 1, 2, 8, 20, 35]))
            base += events_in((60.0, 50.0, 80.0, 60.0), 10)
            r.shuffle(base)
            obs = []
            n = len(zones)
            order = list(range(n))
            plans = [[z] for z in order]
            plans += [list(order), order[::-1],
                      [order[-1]] + order[:-1]]
            for _ in range(common.pick(3, 10)):
                p = [r.choice(order) for _ in range(r.randint(2, n + 2))]
                plans.append(p)
            plans.append(list(order))
            for num, plan in enumerate(plans):
                events = base
                if not config["preprocessing_jobs"] and num >= n:
                    # other events elsewhere
                    away = [e for e in base
                            if any(inside(e, zones[z]) for z in plan)]
                    events = list(away)
                    for e in events_in((60.0, -60.0, 80.0, -50.0),
                                       r.randint(0, 12), 0.7, 1930):
                        events.insert(r.randint(0, len(events)), e)
                    if not events:
                        events = base
                observe(label, config, zones, events, table, plan, obs,
                        params, num)
            out.append({"label": "%s-%d" % (label, rep), "obs": obs})
    return out


if len(sys.argv) > 2 and sys.argv[2] == "child":
    res = cases([])
    with open(sys.argv[3], "w") as f:
        json.dump(res, f)
    sys.exit(0)

out = Cases("IsolationTrace")
# the same runs in another process, with another hash seed
env = dict(os.environ, PYTHONHASHSEED="4242")
os.makedirs("child")
p = subprocess.Popen([sys.executable, "-B", os.path.abspath(__file__),
                      common.OUT, "child", "result.json"], env=env,
                     cwd="child")
mine = cases([])
if p.wait() != 0:
    sys.exit(3)
with open("child/result.json") as f:
    theirs = json.load(f)
total = 0
for a, b in zip(mine, theirs):
    # keys are long: number them
    names = {}
    obs = a["obs"] + b["obs"]
    for o in obs:
        o["key"] = names.setdefault(o["key"], len(names) + 1)
    total += len(obs)
    out.add(label=a["label"], obs=obs)
out.close()
common.coverage(worlds=out.n, observations=total)
