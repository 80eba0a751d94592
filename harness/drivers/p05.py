"""Pipelines built from generated configurations."""
import copy
import itertools

import common
from common import attempt, silent, Cases

with common.imports():
    from mtoolkit import jobs as J
    from mtoolkit.workflow import (PreprocessingBuilder, ProcessingBuilder,
                                   PipeLine)

r = common.rng("p05")
out = Cases("AssemblyTrace")
JOBS = ["read_eq_catalog", "read_source_model", "create_default_source_model",
        "create_catalog_matrix", "create_default_values", "gardner_knopoff",
        "afteran", "stepp", "create_selected_eq_vector",
        "store_preprocessed_catalog", "store_completeness_table",
        "retrieve_completeness_table", "recurrence", "maximum_magnitude"]
NAMES = ["GardnerKnopoff", "Afteran", "Stepp", "Recurrence",
         "MaximumMagnitude", "Create_eq_vector", "Store_eq_catalog",
         "Store_completeness_table", "Retrieve_completeness_table"]
WRONG = ["", "Nonsense", "gardnerknopoff", "GardnerKnopoff ", "stepp",
         "Reasenberg", "gardner_knopoff", "Stepp2", "Weichert"]


def name_of(job):
    for n in JOBS:
        if getattr(J, n, None) is job:
            return n
    return "other"


def config(c, style):
    """The configuration as the yaml file would give it."""
    empty = {0: None, 1: [], 2: None}[style]
    return {
        "pre": None, "eq_catalog_file": "catalogue.csv",
        "source_model_file": "sm.xml" if c["sm"] else
        {0: None, 1: "", 2: None}[style],
        "pprocessing_result_file": "out.csv" if c["result"] else
        {0: None, 1: "", 2: False}[style],
        "completeness_table_file": "table.csv" if c["table"] else
        {0: None, 1: "", 2: None}[style],
        "result_file": "out.xml", "apply_processing_jobs": style != 2,
        "preprocessing_jobs": list(c["pre"]) if c["pre"] else empty,
        "processing_jobs": list(c["proc"]) if c["proc"] else empty,
    }


builders = {"pre": PreprocessingBuilder(), "proc": ProcessingBuilder()}
earlier = {"pre": [], "proc": []}


def build(label, kind, c, fresh=False, tamper=False):
    b = builders[kind]
    if fresh:
        b = (PreprocessingBuilder if kind == "pre" else ProcessingBuilder)()
    conf = config(c, r.randrange(3))
    before = copy.deepcopy(conf)
    with silent():
        o, p = attempt(lambda: b.build(conf))
    jobs = [name_of(j) for j in p.jobs] if o == "ok" else []
    own = True
    if o == "ok":
        for q in earlier[kind]:
            if q.jobs is p.jobs or q is p:
                own = False
        if conf.get("preprocessing_jobs") is p.jobs \
                or conf.get("processing_jobs") is p.jobs:
            own = False
        earlier[kind] = (earlier[kind] + [p])[-40:]
        if tamper:
            p.add_job(J.stepp)
    out.add(label=label, kind=kind, cfg=c, jobs=jobs, out=o,
            untouched=conf == before, own=own)


def conf(pre, proc, sm, result, table):
    return {"pre": list(pre), "proc": list(proc), "sm": sm, "result": result,
            "table": table}


B = [True, False]
lists = [()] + [(n,) for n in NAMES + WRONG]
lists += [p for p in itertools.product(NAMES[:5], repeat=2)]
for i, (pre, sm, res, tab) in enumerate(itertools.product(lists, B, B, B)):
    build("pre-%d" % i, "pre", conf(pre, r.choice(lists), sm, res, tab))
for i, proc in enumerate(lists):
    build("proc-%d" % i, "proc", conf(r.choice(lists), proc, r.choice(B),
                                      r.choice(B), r.choice(B)))
for i in range(common.pick(400, 5000)):
    n = r.choice([1, 2, 3, 4, 6, 9])
    names = [r.choice(NAMES) for _ in range(n)]
    if r.random() < 0.3:
        names.insert(r.randint(0, n), r.choice(WRONG))
    other = [r.choice(NAMES) for _ in range(r.choice([0, 1, 3]))]
    kind = r.choice(["pre", "proc"])
    pre, proc = (names, other) if kind == "pre" else (other, names)
    build("long-%d" % i, kind, conf(pre, proc, r.choice(B), r.choice(B),
                                    r.choice(B)),
          fresh=r.random() < 0.3, tamper=r.random() < 0.5)
out.close()
common.coverage(builds=out.n)
