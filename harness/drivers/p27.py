"""Whole runs of the program on files, several in the same directory. (With
zero errors of the magnitudes Cumulative_Moment does not depend on chance.)"""
import concurrent.futures
import csv
import os
import subprocess
import sys

import numpy as np
from shapely.geometry import Point, Polygon

import common
from common import silent, Cases, number
import catalog
import nrmlcases
import runcases
from nrmlcases import num
from xmltokens import tokens

with common.imports():
    import yaml
    from mtoolkit.workflow import Context

r = common.rng("p27")
out = Cases("ProgramTrace")
stats = {"histories": 0, "runs": 0, "completed": 0, "failed": 0,
         "preprocessed read again": 0, "tables read again": 0,
         "results read again": 0, "estimates": 0, "empty sources": 0}
UNIT = 0.25             # the grid of the coordinates, in degrees
JOB = {"GardnerKnopoff": "gardner_knopoff", "Afteran": "afteran",
       "Stepp": "stepp", "Recurrence": "recurrence",
       "MaximumMagnitude": "maximum_magnitude"}
ALGORITHM = Context().map_sc


def units(x):
    return int(round(float(x) / UNIT))


ESTIMATED = ("n:aValueCumulative", "n:bValue", "n:minMagnitude",
             "n:maxMagnitude")


class Failed(Exception):
    pass


# ------------------------------------------------------------- the files

def read_rows(path, rows):
    """Numbers of the events in a catalogue file, 0: not a known event."""
    with open(path, newline="", encoding="utf-8") as f:
        table = list(csv.reader(f))
    if not table or table[0] != catalog.FIELDS:
        return [0]
    res = []
    for row in table[1:]:
        if len(row) != len(catalog.FIELDS):
            res.append(0)
            continue
        e = {f: t for f, t in zip(catalog.FIELDS, row)}
        i = int(e["eventID"]) if e["eventID"].isdigit() else 0
        same = 0 < i <= len(rows) and all(
            catalog.raw_token(f, e[f]) == catalog.raw_token(f, t)
            for f, t in zip(catalog.FIELDS, rows[i - 1]))
        res.append(i if same else 0)
    return res


def five(v):
    return float("%.5f" % v)


def read_table(path):
    with open(path, encoding="utf-8") as f:
        lines = [x for x in f.read().split("\n") if x.strip()]
    return [tuple(float(w) for w in x.split(",")) for x in lines]


# -------------------------------------------------- outcomes of algorithms

class Reference(object):
    """Follows a run to know the inputs of the algorithms; what becomes of
    their outcomes is for the specification to say."""

    def __init__(self, home, config, events, sources):
        self.home, self.config = home, config
        self.events, self.sources = events, sources
        self.alg = []
        self.seen = set()

    def call(self, job, ev, table, *args):
        key = (job, tuple(ev), tuple(table) if job == "recurrence" else ())
        try:
            with silent():
                res = ALGORITHM[job](*args)
                if job in ("gardner_knopoff", "afteran"):
                    _, w, f = res
                    res = [int(x) for x in f]
                elif job == "stepp":
                    res = [(float(y), float(m)) for y, m in res]
                elif job == "recurrence":
                    b, sb, a, sa = res
                    res = {"fin": bool(np.isfinite(b) and np.isfinite(a)),
                           "a": num(a), "b": num(b), "siga": num(sa),
                           "sigb": num(sb), "m": "", "sigm": ""}
                else:
                    m, sm = res
                    res = {"fin": bool(np.isfinite(m)), "m": num(m),
                           "sigm": num(sm), "a": "", "b": "", "siga": "",
                           "sigb": ""}
            res = [res]
        except Exception:
            res = []
        if key not in self.seen:
            self.seen.add(key)
            self.alg.append({"f": job, "ev": list(ev),
                             "table": list(table), "res": res})
        if not res:
            raise Failed()
        return res[0]

    def matrix(self, ids):
        return np.array([[e["y"], e["mo"], e["d"], e["lon"], e["lat"],
                          float(e["mw"]), float(e["sig"])]
                         for e in (self.events[i - 1] for i in ids)])

    def go(self, cat, table):
        """cat: numbers of the catalogue, None: not readable; table: of the
        table file, None likewise. Stops where the run has to."""
        c = self.config
        if not cat or (c["source_model_file"] and self.sources is None):
            return
        try:
            self.pre(cat, table)
        except (Failed, IndexError):
            pass

    def pre(self, cat, table):
        c = self.config
        flags = {i: 0 for i in range(len(cat))}
        work = list(range(len(cat)))
        ev = [self.events[i - 1] for i in cat]
        t = [(float(min(e["y"] for e in ev)),
              min(float(e["mw"]) for e in ev))]
        for name in c["preprocessing_jobs"] or []:
            job = JOB[name]
            ids = [cat[i] for i in work]
            m = self.matrix(ids)
            p = c[name]
            if job == "stepp":
                t = self.call(job, ids, [], m[:, 0], m[:, 5],
                              p["magnitude_windows"], p["time_window"],
                              p["sensitivity"], p["increment_lock"])
            else:
                last = p["foreshock_time_window"] \
                    if job == "gardner_knopoff" else p["time_window"]
                res = self.call(job, ids, [], m, p["time_dist_windows"],
                                last)
                for i, f in zip(work, res):
                    flags[i] = f
                work = [i for i in range(len(cat)) if flags[i] == 0]
        if not c["preprocessing_jobs"] and c["completeness_table_file"]:
            if table is None:
                return
            t = table
        if c["apply_processing_jobs"] not in (True, "yes"):
            return
        ids = [cat[i] for i in work]
        for s in (self.sources if c["source_model_file"] else [None]):
            own = ids
            if s is not None:
                p = Polygon(s)
                if not p.is_valid:
                    return
                own = [i for i in ids if p.contains(
                    Point(self.events[i - 1]["lon"],
                          self.events[i - 1]["lat"]))]
            if not own:
                stats["empty sources"] += 1
                continue
            self.proc(own, t)

    def proc(self, own, t):
        c = self.config
        m = self.matrix(own)
        for name in c["processing_jobs"] or []:
            p = c[name]
            stats["estimates"] += 1
            if name == "Recurrence":
                self.call("recurrence", own, t, m[:, 0], m[:, 5],
                          np.array(t, float).reshape(-1, 2),
                          p["magnitude_window"],
                          p["recurrence_algorithm"], p["reference_magnitude"],
                          p["time_window"])
            else:
                self.call("maximum_magnitude", own, [], m[:, 0], m[:, 5],
                          m[:, 6], p["maxim_mag_algorithm"],
                          p["iteration_tolerance"], p["maximum_iterations"],
                          p["neq"], p["number_samples"],
                          p["number_bootstraps"])


# ------------------------------------------------------------- the worlds

def some_events(boxes, n):
    res = []
    places = r.choice([2, 2, 1, 4, 7])
    for _ in range(n):
        x0, y0, x1, y1 = r.choice(boxes)
        lon = UNIT * r.randint(units(x0) - 1, units(x1) + 1)
        lat = UNIT * r.randint(units(y0) - 1, units(y1) + 1)
        e = {"y": r.randint(1950, 2005), "mo": r.randint(1, 12),
             "d": r.randint(1, 28), "lon": lon, "lat": lat,
             "mw": "%.*f" % (places,
                             4.0 + min(3.3, r.expovariate(1.2))),
             "sig": "%.2f" % r.uniform(0.05, 0.4)}
        if res and r.random() < 0.25:      # an aftershock
            o = r.choice(res)
            e.update(y=o["y"], mo=o["mo"], lon=o["lon"], lat=o["lat"],
                     d=min(28, o["d"] + r.randint(0, 4)))
        res.append(e)
    return res


def shape(b):
    """A polygon for the box, sometimes no rectangle."""
    x0, y0, x1, y1 = b
    k = r.random()
    c = UNIT * round((x0 + x1) / 2 / UNIT)
    d = UNIT * round((y0 + y1) / 2 / UNIT)
    if k < 0.5:
        p = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
    elif k < 0.7:
        p = [(x0, y0), (x1, y0), (c, y1)]
    elif k < 0.85:
        p = [(x0, y0), (x1, y0), (x1, y1), (c, d), (x0, y1)]
    else:
        p = [(c, y0), (x1, d), (c, y1), (x0, d)]
    if r.random() < 0.5:
        p = p[::-1]
    if r.random() < 0.4:
        p = p + p[:1]
    return p


def some_model(boxes, bent=False):
    """(texts of the sources, their polygons)."""
    res = []
    for i, b in enumerate(boxes):
        s = nrmlcases.random_source(r, i)
        p = shape(b)
        if bent and i == len(boxes) // 2:
            x0, y0, x1, y1 = b
            p = [(x0, y0), (x1, y1), (x1, y0), (x0, y1)]
        s["pos"] = [(repr(float(x)), repr(float(y))) for x, y in p]
        res.append(s)
    return res, [s["pos"] for s in res]


def settings(c, zero):
    """Parameters of the algorithms."""
    c["GardnerKnopoff"] = {
        "time_dist_windows": r.choice(["GardnerKnopoff", "Uhrhammer",
                                       "Gruenthal"]),
        "foreshock_time_window": r.choice([0, 0.25, 0.5, 1.0])}
    c["Afteran"] = {"time_dist_windows": r.choice(
        ["GardnerKnopoff", "Uhrhammer", "Gruenthal"]),
        "time_window": r.choice([10.0, 60.0, 200])}
    c["Stepp"] = {"time_window": r.choice([2, 5]),
                  "magnitude_windows": r.choice([0.2, 0.5, 1.0]),
                  "sensitivity": r.choice([0.05, 0.1, 0.3]),
                  "increment_lock": r.random() < 0.5}
    c["Recurrence"] = {
        "magnitude_window": r.choice([0.2, 0.5, 1.0]),
        "recurrence_algorithm": r.choice(["Weichert", "MLE", "Weichert",
                                          "MLE", "Weichert", "Other"]),
        "reference_magnitude": r.choice([4.0, 4.5, 1.1, 5]),
        "time_window": r.choice([1.0, 0.5])}
    c["MaximumMagnitude"] = {
        "maxim_mag_algorithm": "Cumulative_Moment"
        if zero and r.random() < 0.6 else "Kijko_Npg",
        "iteration_tolerance": 1e-3, "maximum_iterations": 100,
        "neq": r.choice([10, 30]), "number_samples": 21,
        "number_bootstraps": r.choice([1, 3])}


PRE = [None, [], ["GardnerKnopoff"], ["Afteran"], ["Stepp"],
       ["GardnerKnopoff", "Stepp"], ["Stepp", "GardnerKnopoff"],
       ["Afteran", "Stepp"], ["GardnerKnopoff", "Afteran"],
       ["GardnerKnopoff", "Afteran", "Stepp"],
       ["Afteran", "GardnerKnopoff", "Stepp", "Stepp"]]
PROC = [None, [], ["Recurrence"], ["MaximumMagnitude"],
        ["Recurrence", "MaximumMagnitude"],
        ["MaximumMagnitude", "Recurrence"],
        ["Recurrence", "MaximumMagnitude"]]
UNKNOWN = ["Other", "gardner_knopoff", "recurrence", "Reasenberg", "", "stepp"]


def dump(c):
    """The configuration as text, in one of several layouts."""
    style = r.random()
    plain = {k: v for k, v in c.items() if not isinstance(v, dict)}
    drop = []
    text = yaml.safe_dump({k: v for k, v in c.items() if k not in drop},
                          default_flow_style=style < 0.3,
                          sort_keys=r.random() < 0.5)
    if style > 0.7:
        text = "# a configuration\n" + "\n".join(
            yaml.safe_dump({k: v}) for k, v in c.items())
    return text.replace("null", r.choice(["null", "~", ""])) \
        if style > 0.3 and "null" in text else text


def launch(home, name, detailed):
    args = ["-i", name]
    if detailed:
        args = r.choice([["-i", name, "-d"], ["-d", "-i", name],
                         ["--detailed", "--input-file", name]])
    elif r.random() < 0.3:
        args = ["--input-file", name]
    main = os.path.join(common.TREE, "main.py")
    env = dict(os.environ)
    env["PYTHONPATH"] = common.TREE
    seconds = common.patience(60)
    if not seconds:
        return False
    try:
        p = subprocess.run([sys.executable, "-B", "-W", "ignore", main]
                           + args, cwd=home, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=seconds)
        return p.returncode == 0
    except subprocess.TimeoutExpired:
        common.hung()
        return False


PATHS = ["cat.csv", "short.csv", "bad.csv", "sm.xml", "bent.xml", "bad.xml",
         "gone.csv", "table.csv",
         "prep.csv", "prep2.csv", "tab.csv", "tab2.csv",
         "res.xml", "sub/res.xml", "none/res.xml", "none/x.csv"]
DIRS = [p for p in PATHS if not p.startswith("none/")]


class World(object):

    def __init__(self, home, size):
        self.home = home
        os.makedirs(os.path.join(home, "sub"))
        zero = r.random() < 0.4
        boxes = []
        for i in range(r.choice([1, 2, 3, 4])):
            x, y = 3.0 * i, r.choice([0.0, 1.0, -20.0, 50.0])
            boxes.append((x, y, x + r.choice([1.0, 2.0, 4.0]),
                          y + r.choice([1.0, 2.0, 3.0])))
        if r.random() < 0.5:
            boxes.append((100.0, 0.0, 101.0, 1.0))
        self.zero = zero
        self.events = some_events(boxes, size)
        if zero:
            for e in self.events:
                e["sig"] = "0.0"
        self.rows = [runcases.row_of(e, i) for i, e in enumerate(self.events)]
        n = len(self.rows)
        some = sorted(r.sample(range(1, n + 1), max(1, n // 3)))
        self.disk = {p: {"k": "none"} for p in PATHS}
        self.put_cat("cat.csv", list(range(1, n + 1)))
        self.put_cat("short.csv", some)
        bad = [list(x) for x in self.rows]
        bad[r.randrange(n)][catalog.POS[r.choice(["year", "longitude",
                                                  "Mw"])]] = "x"
        self.write("bad.csv", catalog.render(bad)[0])
        self.disk["bad.csv"] = {"k": "bad"}
        self.polygons = {}
        for p, bent in (("sm.xml", False), ("bent.xml", True)):
            model, pos = some_model(boxes, bent)
            text = nrmlcases.model_xml(model, style=r.randint(0, 6))
            self.write(p, text)
            self.disk[p] = {"k": "model", "tokens": tokens(text.encode())}
            self.polygons[p] = pos
        text = text.replace("<config/>", "<config/><konfig/>")
        self.write("bad.xml", text)
        self.disk["bad.xml"] = {"k": "model",
                                "tokens": tokens(text.encode())}
        t = [(float(r.randint(1950, 1990)), round(r.uniform(4, 5), 5))
             for _ in range(r.choice([1, 2, 3]))]
        self.write("table.csv", "".join("%10.5f,%10.5f\n" % x for x in t))
        self.disk["table.csv"] = {"k": "table", "v": t}
        if r.random() < 0.4:
            # leftovers of earlier times
            self.put_cat("prep.csv", some[:1])
            text = nrmlcases.model_xml(some_model(boxes)[0])
            self.write("res.xml", text)
            self.disk["res.xml"] = {"k": "model",
                                    "tokens": tokens(text.encode())}
        self.first = dict(self.disk)
        self.cats = {"cat.csv": list(range(1, n + 1)), "short.csv": some}
        self.tabs = {"table.csv": t}
        self.detailed = False
        self.runs = []
        self.close = []
        self.given = {"0.0"} | {w["s"] for f in self.disk.values()
                                for t in f.get("tokens", [])
                                for w in t.get("nums", [])}

    def write(self, p, text):
        with open(os.path.join(self.home, p), "w", encoding="utf-8",
                  newline="") as f:
            f.write(text)

    def put_cat(self, p, ids):
        text, _ = catalog.render([self.rows[i - 1] for i in ids])
        self.write(p, text)
        self.disk[p] = {"k": "cat", "v": ids}

    def bytes(self, p):
        try:
            with open(os.path.join(self.home, p), "rb") as f:
                return f.read()
        except IOError:
            return None

    def choose(self):
        """A configuration; the outputs of earlier runs are liked inputs."""
        c = runcases.base_config()
        settings(c, self.zero)
        cats = ["cat.csv"] * 3 + ["short.csv"] + \
            3 * [p for p in self.cats if p.startswith("prep")]
        tabs = ["table.csv"] + 3 * [p for p in self.tabs if p != "table.csv"]
        models = ["sm.xml"] * 4 + [None] + \
            2 * [p for p in self.polygons if p.endswith("res.xml")]
        c["eq_catalog_file"] = r.choice(cats)
        c["source_model_file"] = r.choice(models)
        c["preprocessing_jobs"] = r.choice(PRE)
        if len(self.tabs) > 1 and r.random() < 0.35:
            c["preprocessing_jobs"] = r.choice([None, []])
        c["processing_jobs"] = r.choice(PROC)
        c["apply_processing_jobs"] = r.random() < 0.85
        blank = r.choice([None, ""])
        c["pprocessing_result_file"] = c["completeness_table_file"] = blank
        if r.random() < 0.6:
            c["pprocessing_result_file"] = r.choice(["prep.csv", "prep2.csv"])
            c["completeness_table_file"] = r.choice(["tab.csv", "tab2.csv"])
        if not c["preprocessing_jobs"]:
            c["completeness_table_file"] = r.choice(tabs + [blank])
            if r.random() < 0.5 and c["completeness_table_file"]:
                c["pprocessing_result_file"] = "prep.csv"
        c["result_file"] = r.choice(["res.xml", "sub/res.xml"])
        k = r.random()
        if k < 0.02:
            c["eq_catalog_file"] = r.choice(["bad.csv", "gone.csv"])
        elif k < 0.04:
            c["source_model_file"] = "bad.xml"
        elif k < 0.07:
            c["source_model_file"] = "bent.xml"
        elif k < 0.1:
            c["result_file"] = "none/res.xml"
        elif k < 0.12 and c["pprocessing_result_file"]:
            c["pprocessing_result_file"] = "none/x.csv"
        elif k < 0.14:
            c["completeness_table_file"] = "none/x.csv" \
                if c["preprocessing_jobs"] else \
                r.choice(["gone.csv", "none/x.csv"])
        elif k < 0.17:
            f = r.choice(["preprocessing_jobs", "processing_jobs"])
            j = list(c[f] or []) + [r.choice(UNKNOWN)]
            r.shuffle(j)
            c[f] = j
        ins = [c["eq_catalog_file"], c["source_model_file"]]
        outs = [c["pprocessing_result_file"], c["result_file"]]
        if set(x for x in ins if x) & set(x for x in outs if x):
            return self.choose()
        return c

    def run(self):
        c = self.choose()
        name = "cfg%d.yml" % len(self.runs)
        self.write(name, dump(c))
        detailed = r.random() < 0.2
        self.detailed = self.detailed or detailed
        before = {p: self.bytes(p) for p in PATHS}
        others = self.others() | {name}
        ref = Reference(self.home, c, self.events, [
            [(float(x), float(y)) for x, y in pos] for pos in
            self.polygons[c["source_model_file"]]]
            if c["source_model_file"] in self.polygons else None)
        names = (c["preprocessing_jobs"] or []) + (c["processing_jobs"] or [])
        if all(j in JOB for j in names):
            ref.go(self.cats.get(c["eq_catalog_file"]),
                   self.tabs.get(c["completeness_table_file"]))
        ok = launch(self.home, name, detailed)
        stats["runs"] += 1
        stats["completed" if ok else "failed"] += 1
        kind = c["eq_catalog_file"].startswith("prep")
        stats["preprocessed read again"] += bool(kind)
        stats["results read again"] += bool(
            c["source_model_file"] and "res" in c["source_model_file"])
        stats["tables read again"] += bool(
            not c["preprocessing_jobs"] and
            (c["completeness_table_file"] or "")[:4] in ("tab.", "tab2"))
        self.close += [float(e[f]) for a in ref.alg if a["res"]
                       for e in a["res"] if isinstance(e, dict)
                       for f in ("a", "b", "m") if e["fin"] and e[f] != ""]
        files = {}
        for p in PATHS:
            files[p] = self.see(p, before[p])
        e = {"cfg": {"cat": c["eq_catalog_file"],
                     "sm": c["source_model_file"] or "",
                     "prep": c["pprocessing_result_file"] or "",
                     "tab": c["completeness_table_file"] or "",
                     "res": c["result_file"],
                     "pre": c["preprocessing_jobs"] or [],
                     "proc": c["processing_jobs"] or [],
                     "apply": c["apply_processing_jobs"] is True},
             "d": detailed, "alg": ref.alg, "ok": ok,
             "ref": num(c["Recurrence"]["reference_magnitude"]),
             "log": os.path.exists(os.path.join(self.home, "debug.log")),
             "extra": sorted(self.others() - others - {"debug.log"}),
             "files": files}
        self.runs.append(e)
        self.after(c, ok)
        return ok

    def others(self):
        res = set()
        for d, _, fs in os.walk(self.home):
            for f in fs:
                res.add(os.path.relpath(os.path.join(d, f), self.home))
        return res - set(PATHS)

    def see(self, p, before):
        data = self.bytes(p)
        e = {"same": data == before, "k": "none", "v": [], "tokens": []}
        path = os.path.join(self.home, p)
        if data is None:
            return e
        try:
            if p.startswith("prep"):
                e.update(k="cat", v=read_rows(path, self.rows))
            elif p.startswith("tab"):
                e.update(k="table", v=read_table(path))
            elif p.endswith("res.xml"):
                e.update(k="model", tokens=self.calm(tokens(data)))
            else:
                e.update(k="other")
        except Exception as x:
            e.update(k="unreadable %s" % type(x).__name__)
        return e

    def calm(self, ts):
        """Estimates within the accuracy of the arithmetic become equal."""
        for t in ts:
            if t.get("t") not in ESTIMATED:
                continue
            for w in t.get("nums", []):
                x = float(w["s"])
                if w["s"] in self.given or x in self.close:
                    continue
                for v in self.close:
                    if abs(x - v) <= 1e-9 * max(1.0, abs(v)):
                        w["s"] = num(v)
                        break
        return ts

    def after(self, c, ok):
        """What later runs can read."""
        f = self.runs[-1]["files"]
        for p in ("prep.csv", "prep2.csv"):
            if f[p]["k"] == "cat" and 0 not in f[p]["v"]:
                self.cats[p] = f[p]["v"]
        for p in ("tab.csv", "tab2.csv"):
            if f[p]["k"] == "table" and f[p]["v"]:
                self.tabs[p] = f[p]["v"]
        p = c["result_file"]
        if ok and p in f and f[p]["k"] == "model":
            sm = c["source_model_file"]
            self.polygons.pop(p, None)
            ts = f[p]["tokens"]
            fine = all(float(w["s"]) >= 0 for t in ts if t["k"] == "close"
                       and t["t"] == "n:bValue" for w in t["nums"])
            if sm and fine:
                self.polygons[p] = self.polygons.get(sm, [])

    def case(self, label):
        values = set()
        for e in self.events:
            values.add(float(e["y"]))
            values.add(float(e["mw"]))
        for t in [self.tabs["table.csv"]]:
            values.update(v for x in t for v in x)
        for e in self.runs:
            for a in e["alg"]:
                values.update(v for x in a["table"] for v in x)
                if a["f"] == "stepp" and a["res"]:
                    values.update(v for x in a["res"][0] for v in x)
            for f in e["files"].values():
                if f["k"] == "table":
                    values.update(v for x in f["v"] for v in x)
        values = {v for v in values if v == v}
        values |= {five(v) for v in values}
        order = sorted(values)
        rank = {v: i + 1 for i, v in enumerate(order)}

        def tab(t):
            return [{"y": rank.get(y, 0), "m": rank.get(m, 0)} for y, m in t]
        first = {}
        for p, f in self.first.items():
            first[p] = {"k": f["k"], "v": f.get("v", []),
                        "tokens": f.get("tokens", [])}
            if f["k"] == "table":
                first[p]["v"] = tab(f["v"])
        for e in self.runs:
            for a in e["alg"]:
                a["table"] = tab(a["table"])
                if a["f"] == "stepp":
                    a["res"] = [tab(t) for t in a["res"]]
            for f in e["files"].values():
                if f["k"] == "table":
                    f["v"] = tab(f["v"])
        coord = {}
        for f in list(self.first.values()):
            for t in f.get("tokens", []):
                if t["k"] == "close" and t["t"] == "g:posList":
                    for w in t["nums"]:
                        coord[w["s"]] = units(w["s"])
        coord["0.0"] = 0
        return {"label": label, "dirs": DIRS, "disk": first,
                "world": {
                    "entry": [{"y": rank[float(e["y"])],
                               "m": rank[float(e["mw"])],
                               "p": [units(e["lon"]), units(e["lat"])]}
                              for e in self.events],
                    "coord": coord,
                    "round": [rank[five(v)] for v in order]},
                "runs": self.runs}


def history(i):
    home = os.path.abspath("h%d" % i)
    w = World(home, r.choice([1, 3, 12, 30, 45]))
    return w, "history-%d" % i


# one generator per history, so that they may run side by side
def job(i):
    p = subprocess.run([sys.executable, "-B", "-W", "ignore",
                        os.path.abspath(__file__), common.OUT, "child",
                        str(i)], stdout=subprocess.PIPE)
    return p.returncode, p.stdout


if len(sys.argv) > 2 and sys.argv[2] == "child":
    import json
    import random
    first, last = (int(x) for x in sys.argv[3].split("-"))
    found = []
    for i in range(first, last):
        r = random.Random("%s/p27/%d" % (common.SEED, i))
        w, label = history(i)
        for _ in range(r.choice([1, 2, 3, 3, 4])):
            w.run()
        found.append(w.case(label))
    with open(os.path.join(common.OUT, "part-%s" % sys.argv[3]), "w") as f:
        json.dump([found, stats], f)
    sys.exit(0)

N = common.pick(72, 640)
STEP = common.pick(9, 20)
parts = ["%d-%d" % (i, min(N, i + STEP)) for i in range(0, N, STEP)]
with concurrent.futures.ThreadPoolExecutor(8) as pool:
    res = list(pool.map(job, parts))
import json  # noqa: E402
for name, (rc, text) in zip(parts, res):
    if rc != 0:
        print(text.decode("utf-8", "replace"))
        sys.exit(3)
    path = os.path.join(common.OUT, "part-" + name)
    with open(path) as f:
        found, more = json.load(f)
    os.remove(path)
    for c in found:
        out.add(**c)
        stats["histories"] += 1
    for key in more:
        if key != "histories":
            stats[key] += more[key]
out.close()
common.coverage(cases=out.n, **stats)
