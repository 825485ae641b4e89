"""Rewrites the generated section of DESIGN.md (between the two markers) from
the check modules: technique, bounds, assumptions; the reasons are kept here.
Usage: /opt/venv/bin/python tools/design.py (from /verif)."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

# id -> (oracle, why enumeration reaches what the tests do not)
WHY = {
    "P01": ("the dual formula in float64, its gradients by autograd of that formula",
            "tests look at one loss, one cost and one shape; the errors live in the product (axis, reduction, power, dtype, overflow)"),
    "P02": ("the primal loss called directly on the batch",
            "the branch at rho = 0 and the mode switches form a history: one evaluation never shows a mode that leaks"),
    "P03": ("the textbook formula in float64 and the metric laws",
            "all pairs over an alphabet that contains ties, zeros, huge and tiny values, all kappas including the two limits"),
    "P04": ("a reference parser of the grammar plus the value of the decoded cost",
            "every sentence and every one-field corruption, through both decoders"),
    "P05": ("a fresh sampler at the current centre fed with the same random stream",
            "a stale centre, swapped spread or consumed stream needs a particular history of draws and recentrings"),
    "P06": ("closed-form log-densities (scipy), the definition of the point mass",
            "event/batch axes only go wrong for particular shapes, translations and covariance parametrisations"),
    "P07": ("the reweighted dual formula at the points recorded inside the user's model",
            "an estimator that is biased still looks reasonable; only the formula with the recorded points can tell"),
    "P08": ("a frame monitor: bitwise snapshot of parameters, buffers, flags, modes, inputs",
            "leaks appear after some orders of evaluate / initialise / freeze, not after a single call"),
    "P09": ("a model of which draw each evaluation must use; invariances under all permutations, subsets, duplications",
            "stale samples need two batches, a reset that was skipped, a bank of the same shape..."),
    "P10": ("the minimiser of the first-order expansion, in closed form",
            "one wrong exponent is invisible at rho = 1 or p = 2; the product separates them"),
    "P11": ("an explicit state machine over the observations",
            "all sequences of observations, with exact hits of the thresholds and in-place updates"),
    "P12": ("a reference descent written in the check",
            "all iterations at which the criterion stops or the objective diverges, all step budgets"),
    "P13": ("the sign of the multiplier at each consultation",
            "a negative multiplier needs a particular gradient sequence, radius and optimiser"),
    "P14": ("two separate inner optimisers in lock-step",
            "all operation sequences, including restoring a saved state and resetting one half"),
    "P15": ("torch's SGD/Adam on the transformed variables in lock-step",
            "all combinations of rules, shapes and per-group options; state errors appear at the second step only"),
    "P16": ("float64 formulas and their gradients",
            "all stackings (1 to 4 axes) x grids of points with extreme magnitudes x ways of building the loss"),
    "P17": ("a fresh estimator in a fresh state, bit for bit",
            "dependence on the past or on ambient randomness is a property of histories"),
    "P18": ("the affine map of the attributes; closed-form (ridge) least squares at radius 0",
            "all solvers x dimensions x intercepts x refits"),
    "P19": ("laws of probabilistic classifiers, equivariance under renaming, the logistic optimum at radius 0",
            "all label arrangements and alphabets, including classes given in unsorted order or with 3 classes"),
    "P20": ("the reference robust objective at every neighbour of a lattice, plus a reference optimum",
            "a suboptimal model passes score-based tests; local optimality of a convex problem settles it"),
    "P21": ("exact worst-case expectations by enumeration of breakpoints, on a lattice of decisions",
            "all multisets of demands / small return matrices, radii, prices, supports"),
    "P22": ("the same pipeline written with public building blocks",
            "a setting silently ignored is only visible when it deviates, alone or with another one"),
    "P23": ("the documented rules for given and omitted settings",
            "all combinations of given/omitted settings of a function with a dozen optional arguments"),
    "P24": ("a plain training loop on the bare model; closed-form minimisers",
            "all single and paired deviations of robustness settings that must have no influence"),
    "P25": ("a reference table of names; a dictionary model of the distributions",
            "every tuple length, every ordered choice of names, all histories of depth 4"),
    "P26": ("the documented losses recomputed from the decision",
            "all estimators x solvers x parameters x evaluation sets, and histories of fits and evaluations"),
    "P27": ("a cross-validation written by hand over every candidate, a refit at the chosen radius",
            "all candidate ranges x estimators, and repeated tunings; no test touches the tuner"),
}


def main():
    out = []
    titles = {}
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(line)
        titles[p["id"]] = p["title"]
    for pid, title in titles.items():
        mod = importlib.import_module(f"mc.checks.{pid.lower()}")
        oracle, why = WHY[pid]
        out += [f"### {pid}. {title}", "",
                f"* Decided by: {mod.TITLE}.",
                f"* Oracle: {oracle}.",
                f"* Reaches beyond tests: {why}.",
                f"* Bounds (quick): {mod.BOUNDS['quick']}. Harnesses: {', '.join(mod.HARNESSES)}."]
        if mod.ASSUMPTIONS:
            out.append(f"* Assumes: {'; '.join(mod.ASSUMPTIONS)}.")
        out.append("")
    path = os.path.join(ROOT, "DESIGN.md")
    text = open(path).read()
    a, b = "<!-- generated: tools/design.py -->\n", "<!-- end generated -->"
    i, j = text.index(a) + len(a), text.index(b)
    open(path, "w").write(text[:i] + "\n" + "\n".join(out) + text[j:])


if __name__ == "__main__":
    main()
