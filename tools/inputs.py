"""parameter tables for all models"""
import json, os

POINTS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "points.json")))
MODELS = sorted(POINTS)
CXSM_LEGEND = "\tv\tvs\tva\tmsq\tlambda\tdelta2\tb2\td2\tReb1\tImb1\tRea1\tIma1"
# columns (0-based, index column included where the table has one) that may be varied without leaving the model
VARY = {"cxsm": {5: 0.02, 6: 0.2, 8: 0.05}, "r2hdm": {1: 0.05, 3: 0.05, 6: 0.1}, "c2hdm": {1: 0.05, 3: 0.05, 7: 0.05},
        "n2hdm": {1: 0.05, 3: 0.05, 11: 0.05}, "cpinthedark": {16: 0.02, 17: 0.02, 18: 0.02}, "sm": {0: 0.01, 1: 0.02}}


def legend(model):
    return POINTS[model]["legend"]


def base_row(model):
    return POINTS[model]["rows"][0]


def split(row):
    return row.split("\t") if "\t" in row else row.split()


def vary(rng, model, strength=1.0):
    sep = "\t"
    f = split(base_row(model))
    for c, s in VARY[model].items():
        if rng.random() < 0.7:
            f[c] = repr(float(f[c]) * (1 + strength * s * (2 * rng.random() - 1)))
    if model == "sm":
        sep = "    "
    return sep.join(f)


def toy_cxsm(variant, shift=0.0, index=0, indexed=True):
    """a row for the toy phase structures; shift in [0,1) moves the scale by 10 GeV"""
    f = ["246.21965079413738", "0", "0", "-15650", "0.52", repr(0.5 + shift / 10), "-8859", repr(0.5 + variant / 1000.0), "0", "0", "0", "0"]
    return "\t".join(([str(index)] if indexed else []) + f)
