"""Runs of the workflow with recording jobs, sources and failures."""
import numpy as np

import common
from common import attempt, silent, Cases

with common.imports():
    from mtoolkit.workflow import PipeLine, Workflow, Context
    from mtoolkit.catalog_filter import (CatalogFilter,
                                         SourceModelCatalogFilter)
    from mtoolkit.source_model import (AREA_BOUNDARY, POINT,
                                       default_area_source)

r = common.rng("p06")
out = Cases("WorkflowTrace")
NEV = 6


class Failure(Exception):
    pass


ERRORS = [Failure, ValueError, KeyError, IndexError, RuntimeError,
          AttributeError, IOError, TypeError, ZeroDivisionError,
          AssertionError, NotImplementedError, EOFError]


def matrix(ids):
    """Event e stands at longitude e, latitude 0.5."""
    rows = [[2000., 1., 1., float(e), 0.5, 4.0 + e / 100., 0.1] for e in ids]
    return np.array(rows).reshape((-1, 7))


def ids(rows):
    return [int(row[3]) for row in rows]


def source(lo, hi, name, valid=True):
    """An area source with events lo..hi."""
    s = default_area_source()
    s.name = name
    a, b = lo - 0.5, hi + 0.5
    pts = [(a, 0), (b, 0), (b, 1), (a, 1)]
    if not valid:
        pts = [(a, 0), (b, 1), (b, 0), (a, 1)]
    s.area_boundary = AREA_BOUNDARY("x", [POINT(float(x), float(y))
                                         for x, y in pts])
    return s


class OwnFilter(object):
    """A filter of the driver's own."""

    def __init__(self, boxes, bad=None, error=None):
        self.boxes = boxes
        self.bad = bad
        self.error = error

    def filter_eqs(self, sm, eqs):
        lo, hi = self.boxes[id(sm)]
        if id(sm) == self.bad:
            raise self.error
        return np.array([row for row in eqs if lo <= row[3] <= hi]
                        ).reshape((-1, 7))


class Repeated(object):
    """A job which does the next one of several at every call (for every
    source again)."""

    def __init__(self, jobs):
        self.jobs = jobs
        self.reset()

    def reset(self):
        self.calls, self.total, self.source = 0, 0, None

    def __call__(self, context):
        cur = getattr(context, "cur_sm", None)
        if cur is not self.source:
            self.calls, self.source = 0, cur
        self.calls += 1
        self.total += 1
        if self.total > 300:
            raise Failure("endless")
        self.jobs[min(self.calls, len(self.jobs)) - 1](context)


class Run(object):
    """One workflow, run one or more times."""

    def __init__(self, label, npre, nproc, nsrc, flt, shape, script=None):
        self.label = label
        self.npre, self.nproc, self.nsrc = npre, nproc, nsrc
        self.flt = flt
        self.boxes = []
        for _ in range(nsrc):
            lo = r.randint(0, NEV)
            hi = r.randint(lo, NEV + 1)
            self.boxes.append((lo, hi))
        if shape == "same":
            self.boxes = [(1, NEV)] * nsrc
        self.effect = []
        self.first = list(range(1, NEV + 1))
        if script:
            # zones and effects given, of two events
            self.first = [1, 2]
            self.boxes = [{(): (5, 5), (1,): (1, 1), (2,): (2, 2),
                           (1, 2): (1, 2)}[tuple(z)] for z in script[0]]
            self.effect = script[1]
        cur = self.first
        for _ in range(0 if script else npre):
            if r.random() < 0.5:
                cur = [e for e in cur if r.random() < 0.8]
                if r.random() < 0.2:
                    cur = list(reversed(cur))
            self.effect.append(cur)
        self.repeated = []
        self.pre = self.share([self.make_pre(j + 1) for j in range(npre)])
        self.proc = self.share([self.make_proc(j + 1) for j in range(nproc)])
        if npre and r.random() < 0.4:
            # made empty and filled, while another one is filled too
            p, q = PipeLine(), PipeLine()
            for f in range(max(npre, nproc)):
                if f < npre:
                    p.add_job(self.pre[f])
                if f < nproc:
                    q.add_job(self.proc[f])
            self.workflow = Workflow(p, q)
        else:
            self.workflow = Workflow(PipeLine(list(self.pre)),
                                     PipeLine(list(self.proc)))

    def share(self, jobs):
        """Sometimes the same job stands at several places."""
        if len(jobs) < 2 or r.random() < 0.6:
            return jobs
        places = sorted(r.sample(range(len(jobs)), r.randint(2, len(jobs))))
        job = Repeated([jobs[i] for i in places])
        self.repeated.append(job)
        return [job if i in places else jobs[i] for i in range(len(jobs))]

    def make_pre(self, j):
        def job(context):
            self.events.append({"e": "pre", "j": j,
                                "cat": self.seen(context.working_catalog)})
            if self.fail == ("pre", 0, j):
                raise self.error
            context.working_catalog = matrix(self.effect[j - 1])
            if j == self.define:
                context.sm_definitions = self.sources
                context.config["apply_processing_jobs"] = self.apply
        return job

    def seen(self, cat):
        return ids(cat) if cat is not None else list(self.first)

    def make_proc(self, j):
        def job(context):
            num = [i + 1 for i, s in enumerate(self.sources)
                   if s is context.cur_sm]
            self.events.append({
                "e": "proc", "j": j, "s": num[0] if len(num) == 1 else 0,
                "eq": ids(context.current_filtered_eq),
                "cat": ids(context.working_catalog)})
            if self.fail == ("proc", num[0], j):
                raise self.error
            if self.vandal and j == self.nproc:
                # what the last job of a source does to its own view does not
                # concern the next source
                if len(context.current_filtered_eq):
                    context.current_filtered_eq[:, 3] = 1.0
                context.current_filtered_eq = matrix([1])
                context.cur_sm.name = "changed"
        return job

    def go(self, fail, apply, num, generator=False):
        self.events = []
        for job in self.repeated:
            job.reset()
        self.fail = fail
        self.apply = apply
        self.vandal = r.random() < 0.3
        self.error = r.choice(ERRORS)("injected")
        self.define = r.randint(1, self.npre) if self.npre else 0
        self.sources = [source(lo, hi, "s%d" % i, not (
            self.flt == "area" and fail == ("filter", i + 1, 0)))
            for i, (lo, hi) in enumerate(self.boxes)]
        if r.random() < 0.3:
            for s in self.sources:
                s.name = s.area_source_id = "alike"
        context = Context()
        context.config = {"apply_processing_jobs": apply}
        if self.define:
            context.config["apply_processing_jobs"] = not apply
        else:
            context.sm_definitions = self.sources
        context.working_catalog = matrix(self.first)
        boxes = self.boxes
        if self.flt == "null":
            f = CatalogFilter()
            boxes = [(0, NEV + 1)] * self.nsrc
        elif self.flt == "area":
            f = CatalogFilter(SourceModelCatalogFilter())
        else:
            bad = id(self.sources[fail[1] - 1]) if fail[0] == "filter" \
                else None
            f = CatalogFilter(OwnFilter(
                {id(s): b for s, b in zip(self.sources, self.boxes)}, bad,
                self.error))
        with silent():
            o, e = attempt(lambda: self.workflow.start(context, f))
        if o == "ok":
            self.events.append({"e": "end"})
        else:
            same = e is self.error
            if self.flt == "area" and fail[0] == "filter":
                same = isinstance(e, RuntimeError)
            self.events.append({"e": "raised", "same": same, "type": o})
        out.add(label="%s-%d" % (self.label, num), npre=self.npre,
                nproc=self.nproc, nsrc=self.nsrc, apply=apply,
                effect=self.effect,
                zone=[[e for e in self.first if lo <= e <= hi]
                      for lo, hi in boxes],
                fail={"p": fail[0], "s": fail[1], "j": fail[2]},
                first=self.first, events=self.events)


NONE = ("none", 0, 0)


def fails(run):
    yield NONE
    for j in range(run.npre):
        yield ("pre", 0, j + 1)
    for s in range(run.nsrc):
        if run.flt != "null":
            yield ("filter", s + 1, 0)
        for j in range(run.nproc):
            yield ("proc", s + 1, j + 1)


n = 0
for npre in range(0, 4):
    for nproc in range(0, 4):
        for nsrc in range(0, 4):
            for flt in ("null", "area", "own"):
                if (npre + nproc + nsrc) > 6 and not common.THOROUGH:
                    continue
                n += 1
                run = Run("run-%d" % n, npre, nproc, nsrc, flt,
                          r.choice(["any", "any", "same"]))
                num = 0
                for fail in fails(run):
                    if fail != NONE and r.random() > common.pick(0.5, 1):
                        continue
                    apply = fail[0] in ("filter", "proc") or \
                        r.random() < 0.6
                    num += 1
                    run.go(fail, apply, num)
                # and once more after failures
                run.go(NONE, True, num + 1)
                run.go(NONE, False, num + 2)
for i in range(common.pick(25, 200)):
    run = Run("big-%d" % i, r.randint(0, 8), r.randint(0, 6),
              r.randint(0, 12), r.choice(["null", "area", "own"]), "any")
    for num in range(3):
        run.go(r.choice(list(fails(run))), True, num)
# runs of the model
replayed = 0
for i, p in enumerate(common.generated("Gen_Workflow", 600, 12000)):
    replayed += 1
    run = Run("model-%d" % i, p["npre"], p["nproc"], p["nsrc"],
              r.choice(["area", "own"]), "any", (p["zone"], p["effect"]))
    run.go(tuple(p["fail"]), p["apply"], 1)
    if r.random() < 0.3:
        run.go(NONE, p["apply"], 2)
out.close()
common.coverage(runs=out.n, replayed=replayed)
