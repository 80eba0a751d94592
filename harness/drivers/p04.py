"""Histories of writes and reads of catalogue files."""
import copy
import csv
import os

import common
from common import attempt, silent, Cases
import catalog
from catalog import FIELDS
from readercases import valid_row, read_job
import io

with common.imports():
    from mtoolkit.eqcatalog import EqEntryReader, EqEntryWriter
    from mtoolkit.workflow import Context

r = common.rng("p04")
cases = Cases("StoreTrace")
stats = {"writes": 0, "reads": 0, "entries": 0, "replayed": 0}

TEXTS = ["AAA", "", "a,b", 'q"q', '"', '""', "'", ",", "l1\nl2", "\n", "a\n",
         " lead", "trail ", " ", "\u00e9\u00e8\u4e2d", "0", "1.50", "None",
         "nan", ";", "\t", "a\tb", "#x", "a\\b", "\\", '"a","b"', "x\n\ny",
         "=1+1", "eventID", "a" * 300]
FLOATS = [0.1, 0.1 + 0.2, 1e-7, 5.55, 1 / 3.0, 1e-300, 2.5e-5, 59.99999999,
          123456.789012345, 0.0, 4.4999999999999996]


def entry():
    """An entry as the reader delivers it (or could)."""
    text, _ = catalog.render([valid_row(r)])
    e = list(EqEntryReader(io.StringIO(text)).read())[0]
    e = dict(e)
    if r.random() < 0.5:
        e["Agency"] = r.choice(TEXTS)
    if r.random() < 0.4:
        e["depth"] = r.choice(FLOATS[:8]) or 1.0
        e["Mw"] = r.choice(FLOATS)
        e["longitude"] = r.uniform(-180, 180)
        e["latitude"] = r.uniform(-90, 90)
    if r.random() < 0.3:
        for f in ("Ms", "mb", "ML", "timeError"):
            e[f] = r.choice(["", r.uniform(-1, 9), -0.0, 7.0])
    if r.random() < 0.2:
        for f in ("sigmaMw", "sigmaMs", "sigmamb", "sigmaML", "depthError"):
            e[f] = r.choice([0.0, 1e-5, r.random()])
    if r.random() < 0.2:
        e["Identifier"] = r.choice([1, 10 ** 20, 20000102034913])
        e["eventID"] = r.choice([1, 2 ** 31, 10 ** 19])
    return e


def reordered(e):
    keys = list(e)
    r.shuffle(keys)
    return {key: e[key] for key in keys}


def rows(entries):
    return [catalog.out_row(e) for e in entries]


def do_write(path, entries):
    before = rows(entries)
    keep = copy.deepcopy(entries)

    def go():
        with silent():
            EqEntryWriter(path).write_rows(entries)
    o, v = attempt(go)
    if o.startswith("raise:") and isinstance(v, IOError):
        o = "raise:OSError"
    stats["writes"] += 1
    stats["entries"] += len(entries)
    return {"op": "write", "p": path, "entries": before, "out": o,
            "kept": keep == entries and rows(entries) == before}


def do_read(path):
    def go():
        with silent():
            if r.random() < 0.5:
                ctx = Context()
                ctx.config["eq_catalog_file"] = path
                read_job(ctx)
                return ctx.eq_catalog
            with open(path) as f:
                return EqEntryReader(f).read_eq_catalog()
    o, v = attempt(go)
    stats["reads"] += 1
    return {"op": "read", "p": path, "out": o,
            "rows": rows(v) if o == "ok" else []}


def do_raw(path):
    try:
        with open(path, newline="", encoding="utf-8") as f:
            recs = [x for x in csv.reader(f) if x]
        return {"op": "raw", "p": path, "header": recs[0] if recs else [],
                "n": len(recs) - 1}
    except Exception as e:
        return {"op": "raw", "p": path, "header": [type(e).__name__], "n": -1}


SIZES = [0, 1, 2, 3, 6, 12]
n = [0]


def history(label, length, sizes, dirs, missing=(), start=None):
    n[0] += 1
    home = os.path.abspath("h%d" % n[0])
    os.makedirs(home)
    os.makedirs(os.path.join(home, "sub dir"))
    paths = [os.path.join(home, d) for d in dirs]
    paths[0] = "rel%d.csv" % n[0]            # relative, no directory
    bad = [os.path.join(home, d) for d in missing]
    ops = []
    if start is not None:
        for p in paths:
            with open(p, "w") as f:
                f.write(start)
    written = {}
    for _ in range(length):
        p = r.choice(paths + bad)
        if p in written and r.random() < 0.5:
            ops.append(do_read(p) if r.random() < 0.7 else do_raw(p))
            continue
        if written and r.random() < 0.3:
            es = list(r.choice(list(written.values())))
            r.shuffle(es)
        else:
            es = [entry() for _ in range(r.choice(sizes))]
            if len(es) > 2:
                es[-1] = dict(es[0])
            if r.random() < 0.3:
                es = [reordered(e) for e in es]
        op = do_write(p, es)
        ops.append(op)
        if p not in bad and op["out"] == "ok":
            written[p] = es
    for p in written:
        ops.append(do_raw(p))
        ops.append(do_read(p))
        # what was read is written and read again
        if r.random() < 0.5 and ops[-1]["out"] == "ok":
            with open(p) as f:
                o, es = attempt(lambda: EqEntryReader(f).read_eq_catalog())
            if o == "ok":
                ops.append(do_write(p, es))
                ops.append(do_read(p))
    for p in bad:
        if os.path.exists(p):
            ops.append({"op": "write", "p": p, "entries": [], "kept": False,
                        "out": "created"})
    cases.add(label=label, paths=paths + bad, dirs=paths, ops=ops)
    for p in paths[:1]:
        if os.path.exists(p):
            os.remove(p)


# every text and number alone
for i, t in enumerate(TEXTS):
    p = "text%d.csv" % i
    es = [entry(), dict(entry(), Agency=t), entry()]
    ops = [do_write(p, es), do_raw(p), do_read(p)]
    cases.add(label="text-%d" % i, paths=[p], dirs=[p], ops=ops)
for i in range(common.pick(60, 600)):
    history("history-%d" % i, r.randint(1, 8), SIZES, ["", "b.csv",
            "sub dir/c.csv"], ["none/d.csv", "sub dir/x/e.csv"],
            start=r.choice([None, None, "old content\n" * 400, "\n", "x"]))
for m in common.pick([150], [150, 1000, 4000]):
    history("long-%d" % m, 3, [m], ["", "b.csv"])
# every short history of the specification
pool = [entry(), entry()]
while pool[0] == pool[1]:
    pool[1] = entry()
os.makedirs("replay")
names = {"a": "replay.csv", "b": os.path.abspath("replay/b.csv"),
         "x": os.path.abspath("replay/none/x.csv")}
for i, hist in enumerate(common.generated("Gen_CatalogueStore", 1200, 6000)):
    ops = []
    for op in hist:
        p = names[op["p"]]
        if op["op"] == "write":
            ops.append(do_write(p, [pool[e - 1] for e in op["e"]]))
            if op["p"] == "x" and os.path.exists(p):
                ops[-1]["out"] = "created"
        else:
            ops.append(do_read(p))
    for p in (names["a"], names["b"]):
        if os.path.exists(p):
            ops += [do_raw(p), do_read(p)]
            os.remove(p)
    stats["replayed"] += 1
    cases.add(label="replay-%d" % i, paths=sorted(names.values()),
              dirs=[names["a"], names["b"]], ops=ops)
cases.close()
common.coverage(**stats)
