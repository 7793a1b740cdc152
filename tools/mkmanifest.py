"""Writes MANIFEST.json and harness/rules.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

DATA = ("jittered lattice data (distinct points) at several coordinate scales and offsets, six built-in and four custom "
        "variograms, parameter forms, anisotropy scalings/angles, targets off, near and on the data")
NJ = "cases whose reference error bound exceeds 1e-4 of the natural scale are not judged (counted separately)"

R = {
"C01": (DATA + "; non-trivial: judged with at least two targets' worth of different information (grid tests: more than one node)",
        ["explicit variogram parameters", NJ], "differential against an independent kriging solver with error bounds"),
"C02": (DATA + "; non-trivial: judged (grid tests: more than one node)", ["explicit variogram parameters", NJ],
        "differential against an independent kriging solver with error bounds"),
"C03": (DATA + ", every combination of the five drift kinds; non-trivial: judged (grid tests: more than one node)",
        [NJ, "drift combinations that are linearly dependent on the data are not judged"],
        "differential against an independent universal kriging solver with error bounds"),
"C04": (DATA + ", every combination of the three drift kinds; non-trivial: judged (grid tests: more than one node)",
        [NJ, "drift combinations that are linearly dependent on the data are not judged"],
        "differential against an independent universal kriging solver with error bounds"),
"C05": (DATA + ", all classes, backends, windows, pseudo-inverses; non-trivial: positive nugget and (filtered tests) a target on a data point",
        [NJ, "targets count as on a data point when their coordinates are equal"], "invariant and differential checks over generated kriging cases"),
"C06": (DATA + ", styles, masks, windows, integer parameters, fitted models, requests a backend does not support; non-trivial: at least two backends compared",
        [NJ, "differences within twice the error bound of the reference are rounding"], "differential testing of the backends against each other"),
"C07": (DATA + ", axes of 1-6 nodes in any order with repeats, masks, transposed masks and drift arrays, subsets; non-trivial: more than one node",
        [NJ], "metamorphic relations between execution styles"),
"C08": (DATA + ", windows of 2 to n+3 points; non-trivial: window smaller than the data set",
        [NJ, "targets with ties at the window's edge (relative 1e-7) are left out"], "differential against the reference solver on brute-force nearest neighbours"),
"C09": (DATA + ", constant data, data made of drift functions; non-trivial: constant not 0 / some drift coefficient not 0", [NJ],
        "invariant and metamorphic relations over generated kriging cases"),
"C10": (DATA + ", drifts in three or four equivalent forms, external grids with permuted/transposed/refined axes, points outside; non-trivial: judged",
        [NJ], "metamorphic relations between drift forms; rejection of generated out-of-domain requests"),
"C11": (DATA + ", eight symmetry operations; non-trivial: data not constant", [NJ], "metamorphic relations (symmetries)"),
"C12": ("parameter sets and distances over 15 decades, 2-3 point kriging in all backends, equivalent parameter forms; non-trivial: some distance and sill/slope positive",
        [NJ], "differential against independently written formulas, directly and through kriging"),
"C13": ("data sets with duplicates, ties, outliers, 1-12 lags, all classes and coordinate types, fitted models; non-trivial: at least two occupied lags",
        ["data sets whose distances touch a bin boundary (relative 1e-9) are compared by set of admissible binnings only"],
        "differential against brute-force binning; optimality conditions of the fit"),
"C14": ("data sets with duplicates, models, anisotropies, updates; non-trivial: at least three residuals", [NJ],
        "differential against sequential reference kriging"),
"C15": ("pairs on the sphere (random, near, antipodal, poles, date line, wraps) and geographic data sets with shifts; non-trivial: distinct points",
        [NJ], "differential against a vector formula in extended precision; metamorphic longitude relations"),
"C16": ("sequences of 2-8 operations (updates of every kind, refused updates, executions in every style/backend, accessors) on all classes; non-trivial: at least two effective updates",
        [NJ], "stateful (model-based) testing against freshly built objects"),
"C17": (DATA + ", groups of 2-3 coincident points; non-trivial: at least one group", [NJ],
        "metamorphic relation with merged data"),
"C18": ("GSTools models (classes, parameters, dimensions, anisotropy, latlon, nugget); non-trivial: judged", [NJ],
        "differential against explicit custom variograms, the reference solver and GSTools kriging"),
"C19": ("grids 2-9 x 2-9, coordinates over 10 decades, values over 12 decades, masks, no-data values, both header styles; non-trivial: not constant",
        ["ascending coordinates, at least two nodes per axis"], "round-trip testing"),
"C20": ("grids 2-13 x 2-13, coordinates over 10 decades, values over 12 decades, masks, NaN, no-data values, names; non-trivial: not constant",
        ["ascending coordinates, at least two nodes per axis"], "round-trip testing"),
"C21": ("file texts from a header/body grammar with known content; truncations and edits that damage them; non-trivial: all", [],
        "grammar-based generation against the known content; fault injection into file texts"),
"C22": ("methods, options, data sets, fit/refit/clone/set_params sequences; non-trivial: at least one non-default option", [NJ],
        "differential against the kriging classes"),
"C23": ("regressors, predictors, coordinates (2D, 3D), kriging options; non-trivial: residuals not all zero", [NJ],
        "differential against an independently composed regression-kriging"),
"C24": ("label sets (2-5 classes; ints, strings, negative), classifiers, kriging options; compositions of 2-6 parts; non-trivial: at least two predicted labels possible",
        [NJ], "differential against an independently composed classification-kriging; algebraic laws of the transforms"),
"C25": ("one generated defect per otherwise valid request of each class; non-trivial: all", [],
        "rejection testing with generated single defects and valid twins"),
"C26": (DATA + ", representations (list, tuple, int, column, strided, Fortran, read-only, float32-exact), later mutation; non-trivial: not the default representation",
        [NJ], "metamorphic relations between representations; invariant on arguments"),
"C27": ("classes, models, options, accessor calls and updates; non-trivial: all", [], "invariants over generated option settings and call sequences"),
"C28": ("objects of all classes (also GSTools models, custom functions, drifts of every kind), ways of copying, updates of either; 2-3 jobs on 1-3 objects under a generated schedule of source lines; non-trivial: copies all, threads with at least one switch",
        [NJ, "threads are switched between source lines of pykrige, not inside numpy, scipy or the compiled loop"],
        "differential against separate objects used one after another; deterministic generated thread schedules"),
"C29": ("the four kriging classes (constructor, update, execute), the three wrappers and the grid writers and readers with generated options, of which some are brought back to their defaults, and a generated number of arguments passed by position; non-trivial: all",
        [NJ], "metamorphic relations between ways of passing the same arguments, against a table of the documented order and defaults"),
}

LEVEL_NOTE = ("Seeded Hypothesis search over generated cases in 8 parallel shards against an explicit oracle; failures are "
              "shrunk to a replay file. Evidence counts generated, non-trivial and unjudged cases.")

rules, checks = {}, []
for k in sorted(R):
    rule, assume, tech = R[k]
    rules[k] = dict(rule=rule, assumptions=assume)
    if os.path.exists(os.path.join(ROOT, "harness", "props", k.lower() + ".py")):
        checks.append(dict(
            property=k, quick_cmd="./check.sh %s" % k, thorough_cmd="VERIF_TIER=thorough ./check.sh %s" % k,
            evidence_file="evidence/%s.json" % k, technique="property-based testing: " + tech,
            level="exploration", level_note=LEVEL_NOTE))
json.dump(rules, open(os.path.join(ROOT, "harness", "rules.json"), "w"), indent=1, sort_keys=True)
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[])
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
