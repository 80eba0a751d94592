"""Properties, as data; writes properties.jsonl and MANIFEST.json.

A property listed in harness/props.py is claimed; the others need a reason in
NOT_APPLICABLE."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "harness"))
import props  # noqa: E402

E = "mtoolkit/eqcatalog.py"
J = "mtoolkit/jobs.py"
W = "mtoolkit/workflow.py"
D = "mtoolkit/scientific/declustering.py"
C = "mtoolkit/scientific/completeness.py"
U = "mtoolkit/scientific/catalogue_utilities.py"
R = "mtoolkit/scientific/recurrence.py"
M = "mtoolkit/scientific/maximum_magnitude.py"
F = "mtoolkit/catalog_filter.py"
S = "mtoolkit/source_model.py"
NR = "nrml/reader.py"
NW = "nrml/writer.py"
FC = "mtoolkit/scientific/fault_calculator.py"
SF = "mtoolkit/geo/simple_fault.py"
TR = "mtoolkit/geo/tectonic_region.py"
CO = "mtoolkit/console.py"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, **kw):
    assert len(title) <= 80, title
    q = {"over": over, "text": text}
    a = {"files": files,
         "mechanism": [{"name": mechanism, "where": ", ".join(files)}]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": q, "why_tests_cant": why, "anchors": a})


prop("P01", "Every valid catalogue row is read, once, in order and unchanged",
     "Reading a catalogue whose header names the documented fields delivers "
     "one entry per data row, in file order, with exactly the values of that "
     "row converted to the type of their field (blank optional values stay "
     "blank, quoted text and blank lines are handled as csv does). "
     "A file whose header differs from the documented one is rejected as "
     "malformed before any entry is delivered. Reading several catalogues, "
     "also at the same time, gives each of them the same result as alone.",
     ["inputs", "histories"],
     "all catalogues of valid rows (any values in the documented ranges, any "
     "number of rows, blank lines, quoting, line ends), all headers, any "
     "interleaving of readers",
     "the tests read a handful of files and compare some of the fields",
     [E, J], "csv DictReader, field conversion and the row generator; read job")
prop("P02", "An invalid compulsory value stops the reading and is located",
     "Reading a catalogue fails with the validation error as soon as a row "
     "has a compulsory value that is missing, not convertible to its type or "
     "outside its documented range (days 1 to 29 in February, 1 to 31 in "
     "any other month), and never because of anything else. The error names "
     "one of the offending fields of the first invalid row and the line of the "
     "file where that row stands; the rows before it are delivered, it and "
     "those after it are not.",
     ["inputs"],
     "all catalogues, with any number of invalid rows at any position and "
     "any combination of invalid fields, boundary values included",
     "the tests try one bad value for some of the fields in one-row files",
     [E], "conversion and check rules of the compulsory fields, line counter")
prop("P03", "An invalid optional value is blanked, and nothing else changes",
     "An optional value that is not convertible to its type or outside its "
     "documented range (each bound of the range respected, relations between "
     "fields included) is delivered blank instead of failing the reading. "
     "Every other value of that row and of the other rows is delivered as if "
     "the invalid one had been blank in the file.",
     ["inputs"],
     "all rows, all combinations of invalid optional values, boundary values",
     "the tests blank a few sampled values of few fields",
     [E], "conversion and check rules of the optional fields")
prop("P04", "A stored catalogue reads back as the same entries",
     "Writing entries to a catalogue file and reading that file gives the "
     "same entries, in the same order, with every value equal, whatever was "
     "in the file before. The written file starts with the documented header "
     "and has one row per entry; writing to a directory that does not exist "
     "raises IOError and entries are not modified by being written.",
     ["inputs", "histories"],
     "all sequences of readable entries (text with separators, quotes, line "
     "ends and non ASCII letters included), all file paths, repeated writes",
     "one test writes one small catalogue and compares text",
     [E, J], "EqEntryWriter, csv dialect, field order")
prop("P05", "The configuration determines exactly which jobs are assembled",
     "The preprocessing pipeline built from a configuration is: read the "
     "catalogue, read the source model (or create the default one when no "
     "file is configured), create the catalogue matrix, create the default "
     "values, then the configured preprocessing jobs in the configured order, "
     "then selection and both stores when a result file is configured; "
     "without preprocessing jobs it is the first four, followed by the "
     "retrieval of the completeness table when its file is configured. The "
     "processing pipeline is the configured processing jobs in order, and an "
     "unknown job name raises RuntimeError in both.",
     ["configurations", "histories"],
     "all configurations (any job lists, repeated and empty ones, any "
     "presence of files), any number of builds by the same builder",
     "the tests build a few pipelines",
     [W], "PreprocessingBuilder, ProcessingBuilder, map_job_callable")
prop("P06", "Jobs run once each, in order, and processing runs per source",
     "Starting a workflow runs every preprocessing job exactly once in "
     "pipeline order and then, only if the configuration asks for processing, "
     "every processing job once per source model in source order, with the "
     "current source and the events selected for that source, when its turn "
     "comes, from the preprocessed catalogue at hand. A job that fails ends the run at that "
     "point with its error: no later job runs. Pipelines, contexts and "
     "workflows do not share state with one another.",
     ["schedules", "fault_sequences", "configurations"],
     "all pipelines, numbers of sources, and positions of a failing job; "
     "repeated runs of the same objects",
     "the tests run one fixed sequence and only count calls of some jobs",
     [W, F], "PipeLine.run, Workflow.start, Context")
prop("P07", "The parameters of a source depend on its own events only",
     "After a run every source model holds what the configured jobs give for "
     "its own area and the preprocessed catalogue alone: running the other "
     "sources, in any order, before or after it or not at all, does not "
     "change its result. The same inputs give the same result in every run "
     "(bootstrapped magnitudes aside).",
     ["schedules", "histories"],
     "all sets and orders of source models, overlapping ones included, and "
     "repeated runs",
     "the tests process a single source",
     [W, J, F, S], "cur_sm, current_filtered_eq, replacement of the "
     "rupture rate model")
prop("P08", "An area source gets exactly the events inside its area",
     "The events selected for an area source are exactly the catalogue rows "
     "whose epicentre (longitude, latitude) is strictly inside its boundary "
     "polygon, complete, unchanged and in catalogue order, for every source "
     "in turn; an invalid boundary polygon raises RuntimeError. Without "
     "source geometry every event is selected. Neither the catalogue nor the "
     "sources are modified.",
     ["inputs"],
     "all simple and invalid polygons (concave, any orientation, closed or "
     "not), all catalogues including points on edges and vertices",
     "the tests use a rectangle and a few points",
     [F], "polygon extraction and validity, strict containment")
prop("P09", "Declustering partitions the catalogue consistently",
     "For both declustering algorithms the result has one cluster number and "
     "one flag per event of the catalogue in its order; every cluster has at "
     "least two events of which exactly one is unflagged, and that one is a "
     "largest of the cluster; unclustered events are unflagged; clusters are "
     "numbered from one without gaps. The returned catalogue is exactly the "
     "unflagged rows, unchanged and in order; foreshock flags only mark "
     "events before the mainshock and aftershock flags events not before it. "
     "The input catalogue is not modified and a repeated call gives the same "
     "result.",
     ["inputs"],
     "all catalogues (any size, order, ties of time and magnitude, "
     "coincident epicentres) and all parameters",
     "the tests use two small catalogues",
     [D, J], "gardner_knopoff_decluster, afteran_decluster")
prop("P10", "Gardner-Knopoff clusters are those of the windowing rule",
     "Taking the events from the largest down, an event not yet in a cluster "
     "becomes the mainshock of all later considered events not yet in a "
     "cluster which lie inside its space window and its time window (after "
     "it, or before it within the foreshock proportion of the window, limits "
     "included), and the result has exactly these clusters, flagged -1 when "
     "before the mainshock and 1 otherwise. No event is ever moved from one "
     "cluster to another.",
     ["inputs", "histories"],
     "all catalogues, the three window definitions and all foreshock "
     "proportions; ties of magnitude may be considered in any order",
     "the tests check flags on two catalogues",
     [D, U], "main loop of gardner_knopoff_decluster")
prop("P11", "Afteran clusters are those of the moving window rule",
     "Taking the events from the largest down, an event not yet in a cluster "
     "becomes the mainshock of the events not yet in a cluster which lie "
     "inside its space window and are reached by the moving time window: "
     "candidates are tried in decreasing magnitude, forwards from the "
     "mainshock first (each accepted one restarts the window), then the "
     "remaining ones backwards. The result has exactly these clusters, "
     "flagged 1 and -1.",
     ["inputs", "histories"],
     "all catalogues, window definitions and window lengths; ties of "
     "magnitude may be considered in any order",
     "the tests check flags on two catalogues",
     [D, U], "afteran_decluster, _find_aftershocks, _find_foreshocks")
prop("P12", "Declustering windows follow the published formulas",
     "For every magnitude the space window (km) and time window (decimal "
     "years) are those of the chosen published relation (Gardner-Knopoff, "
     "Gruenthal, Uhrhammer), with the change of formula at magnitude 6.5 "
     "where there is one. The windows of an event depend only on its own "
     "magnitude, whatever the other events and their order, and the "
     "magnitudes are not modified.",
     ["inputs"],
     "all magnitudes 0 to 9.5, all vectors of magnitudes",
     "doctests sample three magnitudes per window",
     [D], "Window.calc of the three classes, time_dist_windows")
prop("P13", "Dates and distances are calendar and spherical ones",
     "Every day of a 365 day year has its own decimal year, (day of year - "
     "1)/365 after the start of the year; the Julian date of every Gregorian "
     "date and time is the number of days from the Julian epoch. Distances "
     "are great circle distances on the given sphere (degrees or radians): "
     "exact along meridians and the equator, symmetric, zero only between "
     "equal points, unaffected by a common longitude shift, reflection or "
     "whole turns, and every pair of points of the two sets gets its own. "
     "The arguments are not modified.",
     ["inputs"],
     "all dates (years -4000 to 4000 for decimal years, Gregorian dates from "
     "1583 to 2400 for Julian dates), all coordinates, scalars and vectors",
     "the tests sample few dates and one distance matrix",
     [U], "decimal_year, greg2julian, haversine")
prop("P14", "The preprocessed catalogue holds exactly the selected events",
     "An event is selected exactly when declustering has not flagged it and "
     "there is no completeness row whose year is later than the year of the "
     "event and whose magnitude is larger than its magnitude. The stored "
     "preprocessed catalogue contains exactly the selected entries, with all "
     "their fields, in catalogue order. Nothing else is modified.",
     ["inputs"],
     "all catalogues, flags and completeness tables (any order and number of "
     "rows, ties)",
     "one expected file is compared",
     [C, J], "selected_eq_flag_vector, create_selected_eq_vector, "
     "store_preprocessed_catalog")
prop("P15", "The Stepp table follows from the counts of each magnitude bin",
     "The completeness table has one row per magnitude bin in increasing "
     "magnitude, the first starting at the smallest magnitude rounded down "
     "to a tenth and the last counting everything above its start. The year "
     "of a row is the last year minus the period after which the change of "
     "slope of the log standard deviation of the bin's rate exceeds the "
     "sensitivity for the last time; a bin without such a change keeps the "
     "period of the bin below (the shortest period for the first). With the "
     "increment lock the period never decreases from a bin to the next. The "
     "catalogue is not modified.",
     ["inputs", "configurations"],
     "all catalogues spanning at least one time window, all magnitude "
     "windows, time windows, sensitivities and locks",
     "the tests compare three tables of one catalogue",
     [C], "stepp_analysis")
prop("P16", "The completeness table survives storing and retrieving",
     "A stored completeness table is retrieved with the same rows in the "
     "same order, every value to five decimals, whatever its number of rows. "
     "Without any completeness job the table is the single row of the first "
     "year and the smallest magnitude of the catalogue, which excludes no "
     "event. Storing does not modify the table.",
     ["inputs", "histories"],
     "all tables with at least one row; all catalogues",
     "the tests store and retrieve one table",
     [J, W], "store_completeness_table, retrieve_completeness_table, "
     "create_default_values")
prop("P17", "Chained preprocessing keeps catalogue, flags and table consistent",
     "Before and after every preprocessing job, in any sequence of jobs, the "
     "catalogue matrix has one row per entry with its year, month, day, "
     "longitude, latitude, Mw and sigmaMw and never changes, there is one "
     "flag per entry, and the working catalogue is exactly the unflagged "
     "rows. Each declustering works on the working catalogue left by the one "
     "before with its own configured parameters, Stepp uses the years and "
     "magnitudes of the working catalogue of its turn, and an event once "
     "flagged stays flagged. The cluster numbers are those of the last "
     "declustering; the selection takes the unflagged events which the "
     "table of its turn keeps.",
     ["histories", "configurations"],
     "all sequences of preprocessing jobs, all catalogues and parameters",
     "each test runs at most one declustering job",
     [J, W], "gardner_knopoff, afteran and stepp jobs, create_catalog_matrix")
prop("P19", "Recurrence and magnitude jobs update only what they estimate",
     "The recurrence job gives its algorithm the years and magnitudes of the "
     "events of the current source, the completeness table and the "
     "configured parameters, and stores the a value, b value and reference "
     "magnitude (as minimum magnitude) with their errors; the maximum "
     "magnitude job likewise stores the maximum magnitude and its error. "
     "Every other parameter of the source and all other sources stay as they "
     "were. When there are no events or no finite estimate, the source is "
     "left unchanged.",
     ["inputs", "histories"],
     "all sources, catalogues, algorithm results (NaN and infinite included) "
     "and job sequences",
     "the tests check one stored result per job",
     [J, S], "recurrence and maximum_magnitude jobs")
prop("P20", "Weichert preparation counts every complete event exactly once",
     "The Weichert preparation yields consecutive magnitude bins of the "
     "configured width from the smallest (rounded) magnitude up to where the "
     "last bin ends at least half and less than one and a half bins above "
     "the largest magnitude, the number of events of each bin except those "
     "in time bins that start before the completeness year of a table row "
     "whose magnitude is above the start of the bin, and per bin the years "
     "from the year of the last row whose magnitude is not above its start "
     "to the last event, end years included. The arguments are not "
     "modified.",
     ["inputs"],
     "all catalogues, completeness tables and bin widths",
     "the tests compare one catalogue's table",
     [R], "weichert_prep")
prop("P21", "The Weichert estimate solves its maximum likelihood equation",
     "The Weichert b value is the root of the likelihood equation for the "
     "given periods, magnitudes and counts, whatever the order of magnitude "
     "of counts and periods; counts exactly on a Gutenberg-Richter relation "
     "give exactly its b value and its rate above the reference magnitude (a "
     "reference of 0 is the lower edge of the first bin). The error of b "
     "follows the curvature of the likelihood and that of a is a over the "
     "square root of the number of events. The estimation always ends: "
     "without a solution every result is NaN.",
     ["inputs"],
     "all periods, magnitudes and counts, and reference magnitudes",
     "the tests compare one catalogue's parameters",
     [R], "weichert")
prop("P22", "Maximum likelihood recurrence follows from its counts",
     "The recurrence table counts every event once in its magnitude bin, "
     "cumulates upwards and divides by the years spanned. The b value of a "
     "period, from the bins whose centre is not below its completeness "
     "magnitude, is log10(e) over mean minus smallest bin magnitude plus "
     "half a bin, its error 2.3 b^2 times the standard error of the mean "
     "magnitude, the rate that of its events at the reference magnitude, "
     "the error of the rate the factor ten to the distance of (b + its "
     "error) times the reference magnitude from b times the completeness "
     "magnitude, and the result is the average of the periods of the completeness "
     "table weighted by their numbers of events; periods without events do "
     "not contribute.",
     ["inputs"],
     "all catalogues and completeness tables",
     "the tests compare one catalogue's parameters",
     [R], "recurrence_table, b_max_likelihood, b_maxlike_time")
prop("P23", "Kijko maximum magnitude is a consistent estimate",
     "The estimated maximum magnitude is never below the largest observed "
     "one, exceeds it by the integral at convergence, and its uncertainty is "
     "the root of the summed squares of that increment and of the "
     "uncertainty of the largest event. It depends only on the configured "
     "number of largest events, not on their order, and the estimation ends "
     "within the maximum number of iterations. The integral is that of the "
     "Gaussian kernel estimate with Silverman's width over exponentially "
     "spaced magnitudes (for a width of zero nothing is claimed).",
     ["inputs"],
     "all magnitude vectors and parameters",
     "one catalogue is compared",
     [M], "kijko_nonparametric_gauss and its helpers")
prop("P24", "Cumulative moment magnitude comes from the yearly moment balance",
     "The cumulative moment estimate is the magnitude of the range between "
     "the largest positive and negative deviations of the cumulated yearly "
     "moments from their average accumulation, every year of the span "
     "counting including years without events. It is independent of the "
     "order of the events, shifts with the years not at all and with the "
     "magnitudes one to one. The bootstrapped estimate is the mean and the "
     "(n - 1) standard deviation of the estimates with every magnitude "
     "changed independently by a normal deviate of its own uncertainty, repeatable with the "
     "same seed: without uncertainty it equals the estimate with zero "
     "error.",
     ["inputs"],
     "all catalogues of two or more years",
     "one catalogue is compared",
     [M], "cumulative_moment, cum_mo_uncertainty")
prop("P25", "Every area source of a model is read, in order and faithfully",
     "Reading a source model file that conforms to the schema delivers one "
     "source per area source element, in document order, with exactly the "
     "identifiers, texts and numbers of its own element and of the model it "
     "belongs to; its boundary is the exterior ring of its polygon (interior "
     "rings are not represented and change nothing). A file that does not "
     "conform to the schema raises an error and is never read to its end as "
     "if it were correct; reading files at the same time does not mix them.",
     ["inputs", "histories"],
     "all schema conforming documents with area sources, all invalid ones",
     "the tests read a few fixed files",
     [NR, J], "NRMLReader.read and the _parse functions")
prop("P26", "A written source model conforms to the schema and reads back",
     "Writing sources that were read gives a schema conforming document "
     "which reads back as the same sources in the same order with the same "
     "identifiers, texts and exactly the same numbers. The sources are not "
     "modified, previous content of the file is replaced, and a missing "
     "directory raises IOError.",
     ["inputs", "histories"],
     "all sequences of sources (any finite numbers, any text), repeated "
     "writes",
     "one source is written and its text compared",
     [NW, NR, S], "AreaSourceWriter.serialize")
prop("P27", "A run of the program writes the source model it computed",
     "Running the program on a configuration reads the configured catalogue "
     "and source model, applies the configured jobs and writes the result "
     "file with the sources of the model (the default source, if no model "
     "is configured) in order, each with the values its jobs estimated and everything else as read. The preprocessed catalogue "
     "and completeness table files are written exactly when the "
     "configuration asks for them, and the input files are never changed.",
     ["configurations", "inputs"],
     "all configurations, catalogues and source models",
     "no test runs the program",
     ["main.py", W, J, CO], "main script, assembly of context, pipelines, "
     "filter and writer")
prop("P28", "Fault geometry is validated and additive",
     "A simple fault is accepted exactly when it has two or more trace "
     "points with longitudes in [-180, 180] and latitudes in [-90, 90], 0 "
     "<= upper depth < lower depth and 0 < dip <= 90; anything else, NaN "
     "included, raises ValueError. Its length is the sum of the great "
     "circle distances (on a sphere of radius 6371 km) between consecutive"
     " points, the same whichever way the trace is walked, its width the "
     "depth extent over the sine of the dip, and its area their product; "
     "asking for them changes nothing.",
     ["inputs"],
     "all traces, depths and dips, boundary values included",
     "the tests sample few values",
     [SF], "SimpleFaultGeo")
prop("P29", "Tectonic regions are validated and have their own defaults",
     "A tectonic region is accepted exactly when every model and value has"
     " a weight, the scaling models are supported (Peer, WC1994), the "
     "values are positive and each set of weights sums to one (to within a"
     " billionth); anything else, and an unknown region name, raises "
     "ValueError. The named regions have their documented identifiers and "
     "defaults, replaced by whatever is given for that region only; "
     "regions are equal exactly when identifier, models, values and "
     "weights are, and no creation influences another region or modifies "
     "its arguments.",
     ["inputs", "histories"],
     "all models, values and weights; all sequences of creations",
     "the tests sample few regions",
     [TR], "TectonicRegion checks, TectonicRegionBuilder")
prop("P30", "Fault activity rates balance the slip in every magnitude bin",
     "For a slip above zero and an aseismic part in [0, 1) (anything else "
     "raises an error), the rates of a fault are one per magnitude bin, in"
     " steps of the width from the minimum magnitude on while a bin begins"
     " below the maximum magnitude, each the difference of the cumulative "
     "rates half a bin below and above; for b below the second moment "
     "coefficient all are positive and fall by the same factor 10^(-b w) "
     "from a bin of width w to the next. They are proportional to the slip"
     " rate and to its seismic part and depend on the fault width and the "
     "region's first shear modulus and displacement ratio as the "
     "Anderson-Luco relation (type one) says; a missing maximum magnitude "
     "is the one the scaling relation gives for the fault's area and the "
     "given rake.",
     ["inputs"],
     "all slips, coefficients, b values, magnitudes, bin widths, geometries "
     "and regions",
     "the tests compare three distributions (their library is not installed "
     "here)",
     [FC, SF, TR], "get_mfd, _cumulative_value")
prop("P31", "The command line is accepted exactly when its input file exists",
     "The command line gives the arguments exactly when an existing input "
     "file is named by the input option (long or short, the value apart or"
     " attached, options in any order, the last one named counts) and "
     "nothing unknown is on it; without arguments or with a missing or non"
     " existent file it prints the usage and gives nothing, and what is "
     "not an option is refused. The detailed option selects the debug "
     "level; messages from the level on are shown, a log file with the "
     "same messages (after those of earlier runs) is written at the debug level and only then, and a "
     "command line that is not accepted leaves no file.",
     ["inputs", "configurations"],
     "all argument lists",
     "no test covers the command line",
     [CO, "main.py"], "build_cmd_parser, cmd_line, build_logger")
prop("P32", "Sources, pipelines and regions compare by value",
     "Two area sources are equal exactly when all their values are (every "
     "text, the boundary with its points, the rates, the magnitudes and "
     "depths), two pipelines when they have the same jobs in the same order, "
     "two tectonic regions when their identifiers, models, values and "
     "weights are the same; being different is the opposite. A new default "
     "source or an empty pipeline does not share anything with the others: "
     "what is done to one is never seen in another.",
     ["inputs", "histories"],
     "all values and histories of changes",
     "the tests compare a few objects which are equal, or have a different "
     "name",
     [S, W, TR], "AreaSource, default_area_source, PipeLine, "
     "TectonicRegion")

NOT_APPLICABLE = {
}

TECH = ("TLA+ specification checked with TLC; runs of the real code are "
        "recorded and TLC decides whether the specification explains them")


def main():
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    na = []
    for p in P:
        i = p["id"]
        if i in props.PROPS:
            checks.append({
                "property": i,
                "quick_cmd": "bin/check %s" % i,
                "thorough_cmd": "VERIF_TIER=thorough bin/check %s" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": TECH,
                "level": "model_checking",
                "level_note": props.PROPS[i].get("note", (
                    "Exhaustive on the specification within the constants of "
                    "its MC model; on the code, for every recorded run "
                    "(generated inputs, see DESIGN.md). Trusts TLC, lib2to3 "
                    "and the projection of values into tokens.")),
            })
        else:
            na.append({"property": i, "reason": NOT_APPLICABLE.get(
                i, "its check is not built yet")})
    manifest = {"version": 1, "setup_cmd": "bin/setup", "checks": checks,
                "not_applicable": na,
                "notes": "No hooks in /repo: the public API exposes the "
                "abstract state. Known findings and repaired defects are in "
                "known-findings.txt."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
