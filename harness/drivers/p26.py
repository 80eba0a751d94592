"""Histories of writes of source model files."""
import copy
import os

import numpy as np

import common
from common import attempt, silent, Cases
from nrmlcases import random_source, model_xml, object_token, REGIONS
from xmltokens import tokens

with common.imports():
    from mtoolkit.jobs import NRML_SCHEMA_PATH
    from mtoolkit.source_model import (AREA_BOUNDARY, POINT, MAGNITUDE,
                                       TRUNCATED_GUTEN_RICHTER,
                                       RUPTURE_RATE_MODEL,
                                       RUPTURE_DEPTH_DISTRIB)
    from nrml.reader import NRMLReader
    from nrml.writer import AreaSourceWriter

r = common.rng("p26")
out = Cases("NrmlFilesTrace")
stats = {"writes": 0, "sources": 0, "looks": 0, "writers": 0, "replayed": 0}
n = [0]

HARD = [0.1, 0.1 + 0.2, 1 / 3.0, 5e-324, 1e-300, 1.7976931348623157e308,
        1e16, 123456789.123456789, 1e22, 2.5e-5, 0.0, 1e-5, 9007199254740993.0,
        100.0, 3, 7, 1e5, 359.99999999999994]
TEXTS = ["name", "A & B", "<x>", "]]>", "a\nb", "a\tb", "a\rb", " lead",
         "trail ", "\u00e9\u4e2d\U0001f30d", "'\"", "&#65;", "<!-- c -->",
         "x" * 500, "None", "0", "\u00a0", "%s {0}", "\u2028", "a  b",
         "&amp;", "\\n", " ", "\n"]


def hard(lo=None, hi=None):
    """A finite number."""
    v = r.choice(HARD) if r.random() < 0.5 else r.choice([
        r.uniform(-10, 10), r.random() * 10 ** r.randint(-20, 20)])
    if r.random() < 0.3:
        v = -v
    if lo is not None and v < lo:
        v = lo if lo < 0 else abs(v)
    if hi is not None and v > hi:
        v = r.choice([hi, r.uniform(lo, hi)])
    k = r.random()
    if k < 0.15:
        v = np.float64(v)
    return v


def vary(s):
    """The source with other values, as the jobs might give them."""
    t = s.rupture_rate_model.truncated_gutenberg_richter
    if r.random() < 0.5:
        s.name = r.choice(TEXTS + [None])
    if r.random() < 0.5:
        t = t._replace(a_value=hard(), b_value=hard(0.0),
                       min_magnitude=hard(), max_magnitude=hard())
    if r.random() < 0.3:
        t = t._replace(type_tgr=r.choice(["ML", "Mw", None]))
    m = s.rupture_rate_model._replace(truncated_gutenberg_richter=t)
    if r.random() < 0.4:
        m = m._replace(strike=hard(0.0, 360.0), dip=hard(0.0, 90.0),
                       rake=hard(-180.0, 180.0))
    s.rupture_rate_model = m
    if r.random() < 0.4:
        s.rupture_depth_dist = RUPTURE_DEPTH_DISTRIB(
            MAGNITUDE(r.choice(["ML", "Mw", None]),
                      [hard() for _ in range(r.choice([1, 2, 5]))]),
            [hard(0.0) for _ in range(r.choice([1, 2, 5]))])
    if r.random() < 0.4:
        s.area_boundary = AREA_BOUNDARY(
            r.choice(["x", "urn:a:b", "", None, s.area_boundary.srs_name]),
            [POINT(hard(), hard()) for _ in range(r.choice([1, 3, 4, 60]))])
    if r.random() < 0.4:
        s.hypocentral_depth = hard(0.0)
    if r.random() < 0.3:
        s.tectonic_region = r.choice(REGIONS)
    return s


def read_all(path):
    with silent():
        return list(NRMLReader(path, NRML_SCHEMA_PATH).read())


def some_sources(k):
    """Sources as the reader delivers them, some with other values."""
    n[0] += 1
    path = os.path.join(common.OUT, "in%d.xml" % n[0])
    ids = r.choice([("n1", "sm1"), ("a.b-c", "_1"), (u"\u00e9", "m"),
                    ("other", "s")])
    text = model_xml([random_source(r, j) for j in range(k)], *ids)
    with open(path, "wb") as f:
        f.write(text.encode("utf-8"))
    ss = read_all(path)
    os.remove(path)
    return [vary(s) if r.random() < 0.6 else s for s in ss]


def see(o):
    k, v = attempt(lambda: object_token(o))
    return v if k == "ok" else {"?": k}


def look_at(ops, p):
    data = b""
    if os.path.exists(p):
        with open(p, "rb") as f:
            data = f.read()
    o, v = attempt(lambda: [see(s) for s in read_all(p)]) \
        if data else ("nothing", [])
    stats["looks"] += 1
    ops.append({"op": "look", "p": p, "tokens": tokens(data) if data else [],
                "out": o, "back": v if o == "ok" else []})


def history(label, length, sizes, start=None):
    n[0] += 1
    home = os.path.abspath("w%d" % n[0])
    os.makedirs(os.path.join(home, "sub dir"))
    paths = ["rel%d.xml" % n[0], os.path.join(home, "out.xml"),
             os.path.join(home, "sub dir", u"r\u00e9s.xml"),
             os.path.join("w%d" % n[0], "also.xml")]
    bad = [os.path.join(home, "none", "out.xml"),
           os.path.join(home, "out", "deep", "x.xml")]
    ops, pens, written = [], [], []
    if start is not None:
        for p in paths:
            with open(p, "wb") as f:
                f.write(start)

    def look(p):
        if start is None or p in written:
            look_at(ops, p)

    models = []
    for _ in range(length):
        if not pens or r.random() < 0.3:
            p = r.choice(paths + bad)
            o, v = attempt(lambda: AreaSourceWriter(p))
            if o.startswith("raise:") and isinstance(v, IOError):
                o = "raise:OSError"
            stats["writers"] += 1
            ops.append({"op": "make", "p": p, "out": o})
            if o == "ok" and p not in bad:
                pens.append((v, p))
            for q in bad:
                look(q)
            continue
        w = r.randrange(len(pens))
        if models and r.random() < 0.3:
            ss = list(r.choice(models))
            r.shuffle(ss)
            ss = ss[:r.randint(1, len(ss))]
        else:
            ss = some_sources(r.choice(sizes))
        models.append(ss)
        if r.random() < 0.3:
            ss = tuple(ss)
        before = [see(s) for s in ss]
        keep = copy.deepcopy(list(ss))
        names = [sorted(vars(s)) for s in ss]

        def go():
            with silent():
                pens[w][0].serialize(ss)
        o, _ = attempt(go)
        stats["writes"] += 1
        stats["sources"] += len(ss)
        ops.append({"op": "use", "w": w + 1, "sources": before, "out": o,
                    "kept": before == [see(s) for s in ss]
                    and keep == list(ss)
                    and names == [sorted(vars(s)) for s in ss]})
        written.append(pens[w][1])
        for p in set(written) if r.random() < 0.4 else [pens[w][1]]:
            look(p)
    for p in paths:
        look(p)
    out.add(label=label, paths=paths + bad, dirs=paths, ops=ops)


for i in range(common.pick(40, 600)):
    history("history-%d" % i, r.choice([2, 4, 8, 12]), [1, 1, 2, 3, 5])
for i in range(common.pick(8, 80)):
    history("large-%d" % i, 4, [20, 40])
for i in range(common.pick(10, 80)):
    history("replaced-%d" % i, 5, [1, 2],
            start=r.choice([b"", b"some older content\n" * 3,
                            b"<nrml>" * 20000, b"x" * 9]))


# every short history of the specification
def replay(label, hist, models):
    n[0] += 1
    home = os.path.abspath("g%d" % n[0])
    os.makedirs(home)
    names = {"a": "g%d.xml" % n[0], "b": os.path.join(home, "b.xml"),
             "x": os.path.join(home, "none", "x.xml")}
    ops, pens, places = [], [], []
    for step in hist:
        if step["op"] == "make":
            p = names[step["p"]]
            o, v = attempt(lambda: AreaSourceWriter(p))
            if o.startswith("raise:") and isinstance(v, IOError):
                o = "raise:OSError"
            stats["writers"] += 1
            ops.append({"op": "make", "p": p, "out": o})
            if o == "ok":
                pens.append(v)
                places.append(p)
            elif step["p"] != "x":
                break
            continue
        if step["w"] > len(pens):
            break
        ss = models[step["m"] - 1]
        before = [see(s) for s in ss]

        def go():
            with silent():
                pens[step["w"] - 1].serialize(ss)
        o, _ = attempt(go)
        stats["writes"] += 1
        ops.append({"op": "use", "w": step["w"], "sources": before, "out": o,
                    "kept": before == [see(s) for s in ss]})
        p = places[step["w"] - 1]
        look_at(ops, p)
    for p in (names["a"], names["b"]):
        look_at(ops, p)
    stats["replayed"] += 1
    out.add(label=label, paths=sorted(names.values()),
            dirs=[names["a"], names["b"]], ops=ops)
    del pens[:]
    for p in (names["a"], names["b"]):
        if os.path.exists(p):
            os.remove(p)


three = [some_sources(1), some_sources(2), some_sources(1)]
for i, hist in enumerate(common.generated("Gen_NrmlFiles", 300, 4000)):
    replay("replay-%d" % i, hist, three)
out.close()
common.coverage(cases=out.n, **stats)
