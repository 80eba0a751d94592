"""Runs of the real reader, recorded as the events ReaderTrace decides."""
import datetime
import io
import os
import re

import common
from common import attempt, silent, Cases
import catalog
from catalog import FIELDS, INT, REAL, COMPULSORY, POS, default_row, render

with common.imports():
    from mtoolkit.eqcatalog import (EqEntryReader, EqEntryValidationError,
                                    MalformedCatalogError)
    from mtoolkit.jobs import read_eq_catalog as read_job
    from mtoolkit.workflow import Context

NOW = datetime.datetime.now().year


def error_event(exc):
    if isinstance(exc, MalformedCatalogError):
        return {"e": "malformed"}
    if isinstance(exc, EqEntryValidationError):
        args = [a for a in getattr(exc, "args", ()) if isinstance(a, str)]
        field = args[0] if args else ""
        text = " ".join(args[1:]) or str(exc)
        m = re.search(r"line[^0-9]*([0-9]+)", text)
        return {"e": "error", "field": field,
                "line": int(m.group(1)) if m else -1,
                "named": bool(m) and field in text}
    return {"e": "raise:" + type(exc).__name__}


class Steps(object):
    """A reader observed one entry at a time."""

    def __init__(self, source, events):
        self.events = events
        self.done = False
        self.gen = None
        try:
            self.gen = EqEntryReader(source).read()
        except Exception as e:
            self.fail(e)

    def fail(self, exc):
        self.events.append(error_event(exc))
        self.done = True

    def step(self):
        if self.done:
            return
        try:
            entry = next(self.gen)
        except StopIteration:
            self.events.append({"e": "end"})
            self.done = True
        except Exception as e:
            self.fail(e)
        else:
            self.events.append({"e": "row", "row": catalog.out_row(entry)})


def run_stream(text, kind):
    events = []
    src = source(text, kind)

    def go():
        with silent():
            s = Steps(src, events)
            while not s.done:
                s.step()
    outcome, _ = attempt(go)
    if outcome != "ok":
        events.append({"e": outcome})
    return events


def run_interleaved(texts):
    """Several readers advanced in turn."""
    logs = [[] for _ in texts]

    def go():
        with silent():
            steps = [Steps(source(t, "memory"), ev)
                     for t, ev in zip(texts, logs)]
            while not all(s.done for s in steps):
                for s in steps:
                    s.step()
    outcome, _ = attempt(go)
    if outcome != "ok":
        for ev in logs:
            ev.append({"e": outcome})
    return logs


def rows_events(entries):
    return [{"e": "row", "row": catalog.out_row(e)} for e in entries] + [
        {"e": "end"}]


def run_list(text, kind):
    def go():
        with silent():
            if kind == "job":
                ctx = Context()
                with open("job.csv", "w", newline="") as f:
                    f.write(text)
                ctx.config["eq_catalog_file"] = os.path.abspath("job.csv")
                read_job(ctx)
                return ctx.eq_catalog
            return EqEntryReader(source(text, kind)).read_eq_catalog()
    outcome, value = attempt(go)
    if outcome == "ok":
        return rows_events(value)
    if outcome == "timeout":
        return [{"e": "timeout"}]
    return [error_event(value)]


def source(text, kind):
    if kind == "memory":
        return io.StringIO(text)
    with open("cat.csv", "w", newline="") as f:
        f.write(text)
    return open("cat.csv")


def tokens(rows):
    return [[catalog.raw_token(f, row[i] if i < len(row) else "")
             for i, f in enumerate(FIELDS)] for row in rows]


def names(header):
    line = header.split("\n")[0]
    return [x.strip() for x in line.split(",")]


class Recorder(object):
    def __init__(self):
        self.cases = Cases("ReaderTrace")
        self.rows = 0

    def add(self, label, rows, mode="stream", kind="memory", header=None,
            text=None, **kw):
        if text is None:
            text, lines = render(rows, header=header, **kw)
        else:
            lines = kw["lines"]
        events = (run_stream(text, kind) if mode == "stream"
                  else run_list(text, kind))
        self.emit(label, rows, lines, mode, events, header)

    def emit(self, label, rows, lines, mode, events, header=None):
        self.rows += len(rows)
        self.cases.add(
            label=label, mode=mode, events=events, rows=tokens(rows),
            lines=lines, now=NOW,
            header=FIELDS if header is None else names(header))

    def interleaved(self, label, files):
        rendered = [render(rows) for rows in files]
        logs = run_interleaved([t for t, _ in rendered])
        for i, (rows, (_, lines), ev) in enumerate(
                zip(files, rendered, logs)):
            self.emit("%s/%d" % (label, i), rows, lines, "stream", ev)

    def close(self):
        self.cases.close()
        common.coverage(reader_runs=self.cases.n, rows=self.rows)


# ---------------------------------------------------------------- values

AGENCIES = ["AAA", "ISC", "", "a b", "x,y", 'q"q', " NEIC", "NEIC ", "0",
            "12", "-1", "\u00e9\u00e8", "None", "nan", ";", "'"]


def valid_value(r, field, edge=0.3):
    """The text of a value the documentation allows for field."""
    edges = {
        "eventID": ["1", "0001", "2147483648", "99999999999999999999", "+7"],
        "Identifier": ["1", "20000102034913", "999999999999999999999"],
        "year": ["-10000", "-9999", "-1", "0", "1", "999", "1000", "1582",
                 "1752", "1899", "1900", "1970", "1999", "2000", str(NOW),
                 str(NOW - 1), "-500", "33"],
        "month": ["1", "2", "11", "12", "09", "3"],
        "day": ["1", "28", "29", "01", "15"],
        "hour": ["0", "00", "23", "12"],
        "minute": ["0", "59", "00", "30"],
        "second": ["0", "0.0", "59", "59.999", "59.5", "1e1", "30.25", "5"],
        "timeError": ["0", "0.02", "-1.5", "1000", "1e3", "0.0"],
        "longitude": ["-180", "180", "0", "-180.0", "180.0", "179.999",
                      "-179.999", "-0.0", "1e2", "90.5", "-0.001", ".5"],
        "latitude": ["-90", "90", "0", "-90.0", "89.999", "-89.999", "-0.0",
                     "45.", "1e1"],
        "SemiMajor90": ["5", "5.0", "1000"], "SemiMinor90": ["0", "5", "0.0"],
        "ErrorStrike": ["0", "360", "0.0", "360.0", "180.5"],
        "depth": ["0.001", "1e-9", "700", "6371", "10.0", "1000.5"],
        "depthError": ["0", "0.0", "12.5"],
        "Mw": ["0", "0.0", "-1.5", "9.5", "10", "4.55", "5.000", "1e0",
               "-0.3", "12"],
        "sigmaMw": ["0", "0.0", "0.001", "5", "0.25"],
        "Ms": ["0", "-2", "9.9", "6.25"], "sigmaMs": ["0", "0.3", "2"],
        "mb": ["0", "-2", "9.9", "6.25"], "sigmamb": ["0", "0.3", "2"],
        "ML": ["0", "-2", "9.9", "6.25"], "sigmaML": ["0", "0.3", "2"],
    }
    if field == "Agency":
        return r.choice(AGENCIES)
    if r.random() < edge:
        return r.choice(edges[field])
    ranges = {"eventID": (1, 10 ** 6), "Identifier": (1, 10 ** 14),
              "year": (-10000, NOW), "month": (1, 12), "day": (1, 28),
              "hour": (0, 23), "minute": (0, 59)}
    if field in INT:
        return str(r.randint(*ranges[field]))
    lo, hi = {"longitude": (-180, 180), "latitude": (-90, 90),
              "second": (0, 59.4), "timeError": (-5, 60),
              "SemiMajor90": (5, 90), "SemiMinor90": (0, 5),
              "ErrorStrike": (0, 360), "depth": (1, 700),
              "depthError": (0, 50), "Mw": (-2, 9.9), "Ms": (-2, 9.9),
              "mb": (-2, 9.9), "ML": (-2, 9.9)}.get(field, (0, 2))
    return repr(round(r.uniform(lo, hi), r.choice([0, 1, 2, 3])))


def valid_row(r, blank_optional=0.2):
    row = []
    for f in FIELDS:
        if f in COMPULSORY or f == "Agency" or r.random() >= blank_optional:
            v = valid_value(r, f)
        else:
            v = ""
        row.append(v)
    m = int(row[POS["month"]])
    if r.random() < 0.3:
        row[POS["day"]] = "29" if m == 2 else r.choice(["30", "31"])
    # an ellipse is either complete or absent here
    e = [POS[f] for f in ("SemiMajor90", "SemiMinor90", "ErrorStrike")]
    if any(row[i] == "" for i in e):
        for i in e:
            row[i] = ""
    return row


def bad_values(field):
    """Texts which are not usable for a compulsory field."""
    common_ = ["", " ", "abc", "--1", "1,5", "12a", "?"]
    own = {
        "eventID": ["0", "-1", "1.5", "1e3"], "Identifier": ["0", "-5", "2.0"],
        "year": ["-10001", str(NOW + 1), "99999", "-20000", "2000.5",
                 str(NOW + 100)],
        "month": ["0", "13", "-1", "1.0", "100"],
        "day": ["0", "32", "-1", "1.0", "99", "40"],
        "hour": ["-1", "24", "25", "1.0"],
        "minute": ["-1", "60", "61", "0.5"],
        "longitude": ["-180.001", "180.001", "-181", "181", "360", "1e3",
                      "-200.5", "nan", "NaN", "inf", "-inf"],
        "latitude": ["-90.001", "90.001", "91", "-91", "180", "1e2",
                     "nan", "-nan", "inf", "-Infinity"],
        "depth": ["0", "0.0", "-1", "-0.001", "-0.0", "nan", "-inf"],
        "Mw": [],
    }
    return common_ + own[field]


def odd_optional(field):
    """Texts for an optional field, usable or not."""
    texts = ["", " ", "abc", "-", "0", "0.0", "-0.0", "-0.001", "-1", "0.001",
             "1", "59", "59.001", "59.9", "59.999", "60", "60.0", "60.001",
             "61", "100", "359.999", "360", "360.001", "361", "1e2", "1.5.2",
             "-1e-5", "1,5", "12 a", "1000000"]
    return texts
