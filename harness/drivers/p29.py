"""Histories of tectonic regions created by name or new."""
import copy
import math

import numpy as np

import common
from common import attempt, silent, Cases

with common.imports():
    from mtoolkit.geo.tectonic_region import TectonicRegionBuilder as Builder

r = common.rng("p29")
stats = {"creations": 0, "histories": 0}
cases = Cases("RegionsTrace")
NAMES = {"Active Shallow Crust": Builder.ACTIVE_SHALLOW_CRUST,
         "Subduction Interface": Builder.SUBDUCTION_INTERFACE,
         "Subduction Intraslab": Builder.SUBDUCTION_INTRASLAB,
         "Stable Continental": Builder.STABLE_CONTINENTAL,
         "Volcanic": Builder.VOLCANIC}
IDS = ["001", "002", "003", "004", "005"]
nan, inf = float("nan"), float("inf")


def weight(x):
    x = float(x)
    if math.isnan(x) or x < 0:
        return -1
    return int(round(min(x, 2.0) * 1000000000))


def value(x):
    return {"id": repr(float(x)), "pos": bool(float(x) > 0)}


def token(kind, d):
    if d is None:
        return {"of": [], "weight": []}
    if kind == "msr":
        return {"of": [str(x) for x in d["model"]],
                "weight": [weight(x) for x in d["weight"]]}
    return {"of": [value(x) for x in d["value"]],
            "weight": [weight(x) for x in d["weight"]]}


def first(f):
    o, v = attempt(f)
    try:
        return repr(float(v)) if o == "ok" else o
    except (TypeError, ValueError):
        return "no number"


def truth(f):
    o, v = attempt(f)
    return ("yes" if v else "no") if o == "ok" else o


def history(label, ops):
    """ops: (how, id or name, {"msr": .., "smod": .., "dlr": ..})."""
    made = []
    tokens, obs = [], []
    for how, name, given in ops:
        before = copy.deepcopy(given)
        tokens.append(dict(
            {k: token(k, given.get(k)) for k in ("msr", "smod", "dlr")},
            how=how, id=name, given=sorted(given)))

        def go():
            with silent():
                if how == "name":
                    return Builder.create_tect_region_by_name(
                        NAMES.get(name, name), **given)
                return Builder.create_new_tect_region(
                    name, given["msr"], given["smod"], given["dlr"])
        o, v = attempt(go)
        stats["creations"] += 1
        if o == "ok":
            made.append(v)
        obs.append({
            "out": o, "kept": repr(before) == repr(given),
            "firsts": [{"smod": first(lambda: x.shear_mod_first_value),
                        "dlr": first(lambda: x.disp_length_ratio_first_value)}
                       for x in made],
            "eq": [[truth(lambda: a == b) for b in made] for a in made],
            "ne": [[truth(lambda: a != b) for b in made] for a in made]})
    stats["histories"] += 1
    cases.add(label=label, ops=tokens, obs=obs)


MSR0 = {"model": ["WC1994"], "weight": [1.0]}
DEFAULTS = {"001": (30.0, 1.25e-5), "002": (49.0, 1.25e-5),
            "003": (49.0, 1.25e-5), "004": (29.0, 1e-4),
            "005": (29.0, 1.25e-5)}


def one(v):
    return {"value": [v], "weight": [1.0]}


WEIGHTS = [[1.0], [1], [0.5, 0.5], [0.7, 0.3], [0.2, 0.3, 0.5], [0.1] * 10,
           [0.25] * 4, [0.05] * 20, [0.3, 0.3, 0.4], [1.0, 0.0], [0.0, 1.0],
           [0.6, 0.3, 0.1], [0.8, 0.1, 0.1], [0.01] * 100,
           [np.float64(0.5), np.float64(0.5)], [0.999, 0.001],
           [0.123456, 0.876544]]
BAD_WEIGHTS = [[0.5], [0.9999999], [1.0000001], [1.0, 1.0], [2.0], [0.0],
               [0.5, 0.4], [0.5, 0.6], [nan], [0.5, nan], [0.3, 0.3, 0.3],
               [1.00000001], [0.99999999], [0, 0], [0.333, 0.333, 0.333],
               [1, 0.00001], [inf], [0.1] * 9, [0.1] * 11, [1.0, nan], [1.1],
               [0.999999995], [1.000000005]]
VALUES = [30.0, 29.0, 49.0, 1e-5, 1.25e-5, 1e-4, 0.001, 1, 30, 1e-9, 70.5, 2]
BAD_VALUES = [0, 0.0, -1, -30.0, -1e-9, nan, -inf, -0.0]
MODELS = ["WC1994", "Peer"]
BAD_MODELS = ["wc1994", "peer", "WC", "", "Hanks", "WC1994 ", "PeerWC1994"]


def weights(n=None):
    w = list(r.choice([x for x in WEIGHTS if n is None or len(x) == n]))
    if r.random() < 0.3:
        r.shuffle(w)
    return w


def good(kind):
    w = weights()
    if kind == "msr":
        return {"model": [r.choice(MODELS) for _ in w], "weight": w}
    return {"value": [r.choice(VALUES) for _ in w], "weight": w}


def bad(kind):
    key = "model" if kind == "msr" else "value"
    d = good(kind)
    what = r.randrange(6)
    n = len(d[key])
    if what == 0:
        d["weight"] = list(r.choice(BAD_WEIGHTS))
        d[key] = [r.choice(MODELS if kind == "msr" else VALUES)
                  for _ in d["weight"]]
    elif what in (1, 2):
        d[key][r.randrange(n)] = r.choice(
            BAD_MODELS if kind == "msr" else BAD_VALUES)
    elif what == 3:
        d[key] = d[key] + [d[key][0]]
    elif what == 4:
        d["weight"] = d["weight"] + [0.0]
    else:
        d = {key: [], "weight": []} if r.random() < .5 else {
            key: d[key][:-1], "weight": d["weight"]}
    return d


def arguments(p_bad):
    return lambda kind: bad(kind) if r.random() < p_bad else good(kind)


def default_dicts(i):
    s, d = DEFAULTS[i]
    return {"msr": {"model": ["WC1994"], "weight": [1.0]},
            "smod": one(s), "dlr": one(d)}


# the named regions against regions made from their documented values
for name, i in zip(["Active Shallow Crust", "Subduction Interface",
                    "Subduction Intraslab", "Stable Continental",
                    "Volcanic"], IDS):
    history("default-" + i, [("name", name, {}), ("new", i, default_dicts(i)),
                             ("name", name, {}), ("new", "006",
                                                  default_dicts(i))])
history("all-names", [("name", n, {}) for n in NAMES] * 2)
history("unknown-names", [("name", n, {}) for n in (
    "", "Volcano", "volcanic", "001", "Active shallow crust",
    "Subduction")])
for kind in ("msr", "smod", "dlr"):
    key = "model" if kind == "msr" else "value"
    for i, w in enumerate(WEIGHTS + BAD_WEIGHTS):
        d = {key: [MODELS[j % 2] if kind == "msr" else VALUES[j % 5]
                   for j in range(len(w))], "weight": w}
        g = default_dicts("005")
        g[kind] = d
        history("weights-%s-%d" % (kind, i), [
            ("name", "Volcanic", {}), ("name", "Volcanic", {kind: d}),
            ("new", "005", g), ("name", "Volcanic", {})])
    for i, x in enumerate((MODELS + BAD_MODELS) if kind == "msr"
                          else VALUES + BAD_VALUES):
        for n in (1, 2):
            for j in range(n):
                d = {key: [MODELS[0] if kind == "msr" else 5.0] * n,
                     "weight": [1.0 / n] * n}
                d[key][j] = x
                g = default_dicts("001")
                g[kind] = d
                history("value-%s-%d-%d-%d" % (kind, i, n, j), [
                    ("name", "Active Shallow Crust", {kind: d}),
                    ("new", "001", g), ("name", "Active Shallow Crust", {})])

for i in range(common.pick(300, 5000)):
    ops = []
    pool = {k: [] for k in ("msr", "smod", "dlr")}
    p_bad = r.choice([0, 0.1, 0.3])
    arg = arguments(p_bad)

    def some(kind):
        # sometimes an object used before
        if pool[kind] and r.random() < 0.4:
            d = r.choice(pool[kind])
            return d if r.random() < 0.7 else copy.deepcopy(d)
        d = arg(kind)
        pool[kind].append(d)
        return d
    for _ in range(r.choice([1, 2, 3, 5, 8])):
        if r.random() < 0.55:
            given = {k: some(k) for k in ("msr", "smod", "dlr")
                     if r.random() < 0.4}
            name = r.choice(list(NAMES)) if r.random() < 0.95 else "Other"
            ops.append(("name", name, given))
        else:
            ident = r.choice(IDS + ["006", "007"])
            given = default_dicts(r.choice(IDS)) if r.random() < 0.3 else {}
            for k in ("msr", "smod", "dlr"):
                if k not in given or r.random() < 0.2:
                    given[k] = some(k)
            ops.append(("new", ident, given))
    history("history-%d" % i, ops)
# short histories of the model
replayed = 0


def concrete(kind, d):
    w = [x / 1e9 if x >= 0 else -1.0 for x in d["weight"]]
    if kind == "msr":
        return {"model": list(d["of"]), "weight": w}
    return {"value": [float(x["id"]) for x in d["of"]], "weight": w}


for i, hist in enumerate(common.generated("Gen_Regions", 400, 8000)):
    replayed += 1
    history("model-%d" % i, [
        (o["how"], o["id"], {k: concrete(k, o[k]) for k in o["has"]})
        for o in hist])
cases.close()
stats["replayed"] = replayed
common.coverage(**stats)
