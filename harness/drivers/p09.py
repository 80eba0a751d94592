"""Structure of every declustering result, on small and large catalogues."""
import csv
import os

from declustercases import *

r = common.rng("p09")
out = Cases("PartitionTrace")
sizes = {}


def add(label, events, cols=7):
    m, t = abstract(events)
    mat = matrix(events, cols)
    opt = r.choice(WINDOWS)
    for alg, func, kw in (
            ("gk", gardner_knopoff_decluster,
             {"window_opt": opt,
              "fs_time_prop": r.choice([0, 0.0, 0.25, 0.5, 1.0, 1.5])}),
            ("af", afteran_decluster,
             {"window_opt": opt,
              "time_window": r.choice([1.5, 20.5, 60., 60, 150.8, 400.5])})):
        obs = run(func, mat.copy(), kw)
        out.add(label="%s-%s" % (label, alg), alg=alg, m=m, t=t,
                options=str(kw), **obs)
    sizes[len(events)] = sizes.get(len(events), 0) + 1


for n in (1, 2, 3):
    for i, ev in enumerate(small_catalogues(
            r, [0, 0, 15, 60], [400, 500, 650], [0, 0.2, 1.0], n,
            common.pick(150, 2000))):
        add("small-%d-%d" % (n, i), ev)
for i in range(common.pick(150, 2000)):
    n = r.choice([2, 4, 6, 10, 15, 30, 60])
    add("random-%d" % i, random_catalogue(
        r, n, ties=r.choice(["few", "some", "any"])), r.choice([6, 7]))
for i in range(common.pick(4, 30)):
    n = r.choice([150, 300, 500])
    add("large-%d" % i, random_catalogue(
        r, n, ties="any", mags=r.choice([(400, 800), (450, 470)]),
        spread=r.choice([2.0, 5.0]), span=r.choice([400, 4000, 20000])))
# all events alike
add("alike", [(2000, 1, 1, 5.0, 5.0, 500)] * 12)
add("alike-days", [(2000, 1, 1 + i, 5.0, 5.0, 500) for i in range(12)])
# many clusters
for n in common.pick([290], [140, 290, 700]):
    ev = [(1900 + (i % 100), 5, 5 + j, (i % 17) * 20 - 160., (i // 17) * 4 - 70.,
           500 - j * 50 - i % 9) for i in range(n) for j in (0, 1)]
    r.shuffle(ev)
    add("clusters-%d" % n, ev)
# the catalogues that come with the project
for name in sorted(os.listdir(os.path.join(common.TREE, "tests/data"))):
    if not name.endswith(".csv"):
        continue
    with open(os.path.join(common.TREE, "tests/data", name)) as f:
        rows = list(csv.DictReader(f))
    try:
        ev = [(int(x["year"]), int(x["month"]), int(x["day"]),
               float(x["longitude"]), float(x["latitude"]),
               int(round(float(x["Mw"]) * 100)))
              for x in rows if x.get("Mw")]
    except (KeyError, ValueError, TypeError):
        continue
    if ev:
        add(name, ev[:common.pick(400, 3000)])
out.close()
common.coverage(catalogues=out.n, sizes=sizes)
