"""Selections by the function, by the jobs, and the catalogue they store."""
import copy
import csv
import io
import os

import numpy as np

import common
from common import attempt, silent, Cases, ranks, pairs
import catalog
from readercases import valid_row

with common.imports():
    from mtoolkit.eqcatalog import EqEntryReader
    from mtoolkit.workflow import Context, PreprocessingBuilder
    from mtoolkit.scientific.completeness import selected_eq_flag_vector
    from mtoolkit import jobs

r = common.rng("p14")
cases = Cases("SelectTrace")
stats = {"selections": 0, "events": 0, "stored": 0}


def numbers(vector, n):
    v = np.asarray(vector)
    if v.shape != (n,):
        return [0]
    return [int(i) + 1 for i in np.nonzero(v == 0)[0]]


def emit(label, year, mag, cy, cm, flags, out, sel, kept, stored=(),
         entries=()):
    ey, ty = ranks(year, cy)
    em, tm = ranks(mag, cm)
    stats["selections"] += 1
    stats["events"] += len(year)
    cases.add(label=label, cat=pairs(ey, em), table=pairs(ty, tm),
              flags=[int(f) for f in flags], out=out, sel=sel, kept=kept,
              stored=list(stored), entries=list(entries))


def function(label, year, mag, cy, cm, flags):
    a = [np.array(x, float) for x in (year, mag, cy, cm)]
    f = np.array(flags)
    before = copy.deepcopy(a + [f])
    o, v = attempt(lambda: selected_eq_flag_vector(a[0], a[1], a[2], a[3], f))
    kept = all(np.array_equal(x, y) for x, y in zip(before, a + [f]))
    emit(label, year, mag, cy, cm, flags, o,
         numbers(v, len(year)) if o == "ok" else [], kept)


def year_of(style):
    return r.randint(1980, 1986) if style else r.randint(-9999, 2010)


def mag_of(style):
    if style == 0:
        return r.choice([4.0, 4.1, 4.2, 4.5, 5.0, 5.5])
    if style == 1:
        return round(r.uniform(3, 8), 2)
    return r.uniform(0, 9)


def near(x):
    """A value just on either side of x, at all scales."""
    return x + r.choice([0, 0, 0, 1e-12, 1e-9, 1e-6, 1e-4, 0.004, 0.04, -1e-12,
                         -1e-9, -1e-6, -1e-4, -0.004, -0.04])


# all small situations: every event of a 3 by 3 grid against all tables of up
# to two rows on the same grid, in both orders, with all flags
grid = [(y, m) for y in (1, 2, 3) for m in (1, 2, 3)]
ev_y = [2000 + y for y, m in grid for _ in range(3)]
ev_m = [4 + m * 0.1 for y, m in grid for _ in range(3)]
fl = [f for _ in grid for f in (0, 1, -1)]
tables = [[]] + [[a] for a in grid] + [[a, b] for a in grid for b in grid]
for i, t in enumerate(tables):
    function("grid-%d" % i, ev_y, ev_m, [2000 + y for y, _ in t],
             [4 + m * 0.1 for _, m in t], fl)
# random
for i in range(common.pick(150, 3000)):
    n = r.choice([1, 2, 5, 10, 40])
    t = r.choice([0, 1, 2, 3, 6, 15])
    ys, ms = r.random() < 0.7, r.randrange(3)
    year = [year_of(ys) for _ in range(n)]
    mag = [mag_of(ms) for _ in range(n)]
    cy = [near(r.choice(year)) if r.random() < 0.4 else year_of(ys) +
          r.choice([0, 0, 0.5]) for _ in range(t)]
    cm = [near(r.choice(mag)) if r.random() < 0.4 else mag_of(ms)
          for _ in range(t)]
    if r.random() < 0.3:
        cy.sort(reverse=True)
        cm.sort()
    p = r.choice([0, 0.3, 0.7, 1])
    flags = [r.choice([-1, 1]) if r.random() < p else 0 for _ in range(n)]
    if r.random() < 0.3:
        flags = [float(f) for f in flags]
    function("random-%d" % i, year, mag, cy, cm, flags)
# many events
for i in range(common.pick(3, 20)):
    n = 400
    year = [year_of(True) for _ in range(n)]
    mag = [mag_of(1) for _ in range(n)]
    rows = r.choice([1, 7, 300])
    function("many-%d" % i, year, mag, [year_of(True) for _ in range(rows)],
             [mag_of(1) for _ in range(rows)],
             [r.choice([0, 0, 0, 1, -1]) for _ in range(n)])


# by the jobs, from a catalogue to the stored file
def stored_rows(path):
    with open(path, newline="", encoding="utf-8") as f:
        recs = [x for x in csv.reader(f) if x]
    if not recs or recs[0] != catalog.FIELDS:
        return [["header"]]
    rows = []
    for rec in recs[1:]:
        if len(rec) != 25:
            rows.append(["columns"])
        else:
            rows.append([catalog.raw_token(f, v)
                         for f, v in zip(catalog.FIELDS, rec)])
    return rows


SELECT = PreprocessingBuilder().map_job_callable
for i in range(common.pick(80, 800)):
    n = r.choice([1, 2, 3, 6, 12, 30])
    ms = r.randrange(3)
    rows = []
    for j in range(n):
        row = valid_row(r)
        row[catalog.POS["year"]] = str(year_of(r.random() < 0.8))
        row[catalog.POS["Mw"]] = repr(mag_of(ms))
        rows.append(row)
    if n > 3:
        rows[-1] = list(rows[0])
    text, _ = catalog.render(rows)
    o, entries = attempt(
        lambda: EqEntryReader(io.StringIO(text)).read_eq_catalog())
    if o != "ok":
        continue                       # judged by the reader's properties
    year = [e["year"] for e in entries]
    mag = [e["Mw"] for e in entries]
    t = r.choice([1, 1, 2, 4, 8])
    cy = [near(r.choice(year)) if r.random() < 0.5 else year_of(True)
          for _ in range(t)]
    cm = [near(r.choice(mag)) if r.random() < 0.4 else mag_of(ms)
          for _ in range(t)]
    p = r.choice([0, 0.3, 0.7, 1])
    flags = [r.choice([-1, 1]) if r.random() < p else 0 for _ in range(n)]
    ctx = Context()
    ctx.eq_catalog = entries
    path = os.path.abspath("out%d.csv" % (i % 3))   # overwrites old results
    ctx.config = {"pprocessing_result_file": path}
    tokens = [catalog.out_row(e) for e in entries]
    box = {}

    def go():
        with silent():
            jobs.create_catalog_matrix(ctx)
            ctx.completeness_table = np.array(list(zip(cy, cm)), float)
            ctx.flag_vector = np.array(flags)
            box["before"] = (ctx.catalog_matrix.copy(),
                             ctx.completeness_table.copy(),
                             ctx.flag_vector.copy())
            SELECT["Create_eq_vector"](ctx)
    o, _ = attempt(go)
    stored = {"out": "not run", "rows": []}
    sel = []
    if o == "ok":
        sel = numbers(ctx.selected_eq_vector, n)

        def store():
            with silent():
                SELECT["Store_eq_catalog"](ctx)
        so, _ = attempt(store)
        stored["out"] = so
        if so == "ok":
            stored["rows"] = stored_rows(path)
            stats["stored"] += 1
    kept = o == "ok" and all(
        np.array_equal(a, b) for a, b in zip(box["before"], (
            ctx.catalog_matrix, ctx.completeness_table, ctx.flag_vector))
    ) and [catalog.out_row(e) for e in entries] == tokens
    # blanks come back as blanks, numbers as the same numbers
    emit("job-%d" % i, year, mag, cy, cm, flags, o, sel, kept, [stored],
         tokens)
cases.close()
common.coverage(**stats)
