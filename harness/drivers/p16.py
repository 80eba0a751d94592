"""Completeness tables stored and retrieved by the jobs; default tables."""
import os
from fractions import Fraction

import numpy as np

import common
from common import attempt, silent, Cases, ranks, pairs
import runcases

with common.imports():
    from mtoolkit.workflow import Context, PreprocessingBuilder
    from mtoolkit import jobs

JOBS = PreprocessingBuilder().map_job_callable
r = common.rng("p16")
cases = Cases("TableTrace")
stats = {"stores": 0, "retrievals": 0, "defaults": 0, "replayed": 0}


def fixed(v):
    """A value as hundred thousandths and remainder."""
    q = Fraction(float(v)) * 100000
    n = q.numerator // q.denominator
    rest = q - n
    if rest == 0:
        return {"n": n, "r": "zero"}
    near = Fraction(1, 10 ** 9)
    if abs(rest - Fraction(1, 2)) < near:
        return {"n": n, "r": "half"}
    # binary images of decimals: the nearest decimal counts
    if rest < Fraction(1, 2):
        return {"n": n, "r": "less"}
    return {"n": n, "r": "more"}


def fixed_table(t):
    return [{"y": fixed(a), "m": fixed(b)} for a, b in t]


def observed(v):
    v = float(v)
    if v != v or abs(v) > 20000:
        return common.NAN
    n = int(round(v * 100000))
    return n if float("%.5f" % v) == v and n / 100000.0 == v else common.NAN


def table():
    n = r.choice([1, 1, 2, 3, 5, 12, 40])
    kind = r.randrange(5)
    t = []
    for i in range(n):
        if kind == 0:
            t.append((2005 - 5 * i, 4.0 + 0.1 * i))
        elif kind == 1:
            t.append((r.randint(-9999, 2012), round(r.uniform(-1, 9), 2)))
        elif kind == 2:
            t.append((r.uniform(-9999, 2012), r.uniform(-1, 9)))
        elif kind == 3:
            t.append((r.choice([-9999.0, 0.0, -0.5, 2012.0, 1999.99999]),
                      r.choice([0.0, -0.00001, 4.099999999999999, 9.999999,
                                5.123456, 0.000004, 0.000006, 10.0])))
        else:
            t.append((1990.0, 4.5))
    return t


def do_store(ctx):
    before = np.array(ctx.completeness_table)

    def go():
        with silent():
            JOBS["Store_completeness_table"](ctx)
    o, _ = attempt(go)
    stats["stores"] += 1
    return {"op": "store", "out": o,
            "kept": np.array_equal(before, ctx.completeness_table)}


def do_retrieve(ctx):
    def go():
        with silent():
            JOBS["Retrieve_completeness_table"](ctx)
    o, _ = attempt(go)
    stats["retrievals"] += 1
    op = {"op": "retrieve", "out": o, "shape": False, "table": []}
    if o == "ok":
        t = np.asarray(ctx.completeness_table)
        op["shape"] = t.ndim == 2 and t.shape[1] == 2
        if op["shape"]:
            op["table"] = [{"y": observed(a), "m": observed(b)}
                           for a, b in t]
    return op


def history(label, path, steps):
    ctx = Context()
    ctx.config = {"completeness_table_file": path}
    ops = []
    have = stored = False
    for _ in range(steps):
        roll = r.random()
        if not have or roll < 0.35:
            t = table()
            ctx.completeness_table = np.array(t, dtype=float)
            if r.random() < 0.2:
                ctx.completeness_table = np.asfortranarray(
                    ctx.completeness_table)
            ops.append({"op": "have", "table": fixed_table(t)})
            have = True
        elif not stored or roll < 0.6:
            ops.append(do_store(ctx))
            stored = True
        else:
            if r.random() < 0.3:          # another context, another run
                cfg = ctx.config
                ctx = Context()
                ctx.config = cfg
            ops.append(do_retrieve(ctx))
            if ops[-1]["out"] != "ok" or not ops[-1]["shape"]:
                break
    return ops


home = os.path.abspath("tables")
os.makedirs(home)
for i in range(common.pick(200, 3000)):
    path = os.path.join(home, "t%d.csv" % (i % 7))
    if os.path.exists(path):
        os.remove(path)
    if r.random() < 0.3:
        with open(path, "w") as f:
            f.write("1990.0,4.0\n" * 60)
    path = path if r.random() < 0.8 else os.path.relpath(path)
    cases.add(label="history-%d" % i, kind="file",
              ops=history("h", path, r.randint(3, 10)))

# every short history of the specification
PART = {"zero": 0.0, "less": 3e-6, "half": 5e-6, "more": 8e-6}


def concrete(v):
    return v["n"] / 1e5 + PART[v["r"]]


for i, hist in enumerate(common.generated("Gen_CompletenessStore", None,
                                          8000)):
    path = os.path.join(home, "replay.csv")
    if os.path.exists(path):
        os.remove(path)
    ctx = Context()
    ctx.config = {"completeness_table_file": path}
    ops = []
    for step in hist:
        if step["op"] == "have":
            t = [(concrete(x["y"]), concrete(x["m"])) for x in step["table"]]
            ctx.completeness_table = np.array(t, dtype=float)
            ops.append({"op": "have", "table": fixed_table(t)})
        elif step["op"] == "store":
            ops.append(do_store(ctx))
        else:
            ops.append(do_retrieve(ctx))
            if ops[-1]["out"] != "ok" or not ops[-1]["shape"]:
                break
    stats["replayed"] += 1
    cases.add(label="replay-%d" % i, kind="file", ops=ops)

# the pipeline of a run without preprocessing jobs retrieves the stored table
for i in range(common.pick(15, 150)):
    t = table()
    ctx = Context()
    path = os.path.join(home, "run.csv")
    ctx.config = {"completeness_table_file": path}
    ctx.completeness_table = np.array(t, float)
    ops = [{"op": "have", "table": fixed_table(t)}]

    def store():
        with silent():
            JOBS["Store_completeness_table"](ctx)
    o, _ = attempt(store)
    ops.append({"op": "store", "out": o, "kept": True})
    runcases.write_catalogue("cat.csv", [
        {"y": 1960 + j, "lon": 1.0, "lat": 2.0, "mw": "%.1f" % (4 + j * .1)}
        for j in range(r.randint(1, 5))])
    cfg = runcases.base_config(source_model_file=None,
                               completeness_table_file=path,
                               apply_processing_jobs=False)

    def go():
        with silent():
            return runcases.run(cfg)
    o, c2 = attempt(go)
    op = {"op": "retrieve", "out": o, "shape": False, "table": []}
    if o == "ok":
        got = np.asarray(c2.completeness_table)
        op["shape"] = got.ndim == 2 and got.shape[1] == 2
        if op["shape"]:
            op["table"] = [{"y": observed(a), "m": observed(b)}
                           for a, b in got]
    ops.append(op)
    cases.add(label="run-%d" % i, kind="file", ops=ops)

# default tables
for i in range(common.pick(60, 600)):
    n = r.choice([1, 2, 3, 8, 30])
    style = r.randrange(3)
    events = [{"y": r.randint(-9999, 2010) if style else r.randint(1990, 1993),
               "lon": r.uniform(-180, 180), "lat": r.uniform(-90, 90),
               "mw": repr(r.choice([r.uniform(-1, 9), 4.5, 5.0]))}
              for _ in range(n)]
    if style == 2:
        events.sort(key=lambda e: -e["y"])
    runcases.write_catalogue("cat.csv", events)
    pre = r.choice([None, ["GardnerKnopoff"]])
    cfg = runcases.base_config(source_model_file=None,
                               preprocessing_jobs=pre,
                               apply_processing_jobs=False)

    def go3():
        with silent():
            c = runcases.run(cfg)
            flags = np.zeros(n)
            c.flag_vector = flags
            JOBS["Create_eq_vector"](c)
            return c
    o, c = attempt(go3)
    stats["defaults"] += 1
    case = dict(label="default-%d" % i, kind="default", out=o, all=False,
                cat=[], table=[])
    if o == "ok":
        t = np.asarray(c.completeness_table, float)
        t = t.tolist() if t.ndim == 2 and t.shape[1] == 2 else []
        ey, ty = ranks([e["y"] for e in events], [x[0] for x in t])
        em, tm = ranks([float(e["mw"]) for e in events], [x[1] for x in t])
        case.update(cat=pairs(ey, em), table=pairs(ty, tm),
                    all=bool(np.all(np.asarray(c.selected_eq_vector) == 0)))
    cases.add(**case)
cases.close()
common.coverage(**stats)
