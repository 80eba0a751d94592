"""Whole runs: catalogue and source model files, configurations, pipelines."""
import io
import os

import numpy as np

import common
from common import attempt, silent
import catalog
import nrmlcases

with common.imports():
    from mtoolkit.workflow import (Context, PreprocessingBuilder,
                                   ProcessingBuilder, Workflow)
    from mtoolkit.catalog_filter import (CatalogFilter,
                                         SourceModelCatalogFilter)


def row_of(ev, i):
    """ev: dict with y, mo, d, lon, lat, mw (texts or numbers)."""
    kw = {"eventID": str(i + 1), "year": str(ev["y"]),
          "month": str(ev.get("mo", 1)), "day": str(ev.get("d", 1)),
          "longitude": repr(float(ev["lon"])),
          "latitude": repr(float(ev["lat"])), "Mw": ev["mw"],
          "sigmaMw": ev.get("sig", "0.1")}
    return catalog.default_row(**kw)


def write_catalogue(path, events):
    text, _ = catalog.render([row_of(e, i) for i, e in enumerate(events)])
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)


def base_config(**kw):
    c = {"eq_catalog_file": "cat.csv", "source_model_file": "sm.xml",
         "pprocessing_result_file": None, "completeness_table_file": None,
         "result_file": "result.xml", "apply_processing_jobs": True,
         "preprocessing_jobs": None, "processing_jobs": ["Recurrence"],
         "GardnerKnopoff": {"time_dist_windows": "GardnerKnopoff",
                            "foreshock_time_window": 0.5},
         "Afteran": {"time_dist_windows": "Uhrhammer", "time_window": 60.0},
         "Stepp": {"time_window": 5, "magnitude_windows": 0.2,
                   "sensitivity": 0.1, "increment_lock": True},
         "Recurrence": {"magnitude_window": 0.5,
                        "recurrence_algorithm": "Weichert",
                        "reference_magnitude": 4.0, "time_window": 1.0},
         "MaximumMagnitude": {"maxim_mag_algorithm": "Kijko_Npg",
                              "iteration_tolerance": 1e-3,
                              "maximum_iterations": 100, "neq": 30,
                              "number_samples": 21,
                              "number_bootstraps": 20}}
    for k, v in kw.items():
        if isinstance(v, dict):
            c[k] = dict(c[k], **v)
        else:
            c[k] = v
    return c


def run(config):
    """The run main.py makes, without its files; gives the context."""
    context = Context()
    context.config = config
    pre = PreprocessingBuilder().build(config)
    proc = ProcessingBuilder().build(config)
    flt = CatalogFilter(SourceModelCatalogFilter()) \
        if config["source_model_file"] else CatalogFilter()
    Workflow(pre, proc).start(context, flt)
    return context
