"""Single source of properties.jsonl and MANIFEST.json (python tools/registry.py)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "skwdro/base/"
S = "skwdro/solvers/"
DI = S + "_dual_interfaces/"
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=quant),
        why_tests_cant=why,
        anchors=dict(files=list(files),
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))


prop("P01", "The robust loss is the entropic dual objective, with exact gradients",
     "Without importance sampling, for a radius rho > 0, the robust loss of a batch equals "
     "lambda*rho^p + eps * reduce_i log( mean_j exp((L(z_ij) - lambda*c(x_i, z_ij)) / eps) ), where p is the "
     "power of the ground cost c, the z_ij are the samples drawn around x_i (however many there are) and reduce "
     "is the requested mean, sum or no reduction; it stays finite when the exponents overflow. "
     "Its gradients with respect to the model parameters, the multiplier and (when made trainable) the radius and "
     "temperature are those of this formula. The value depends only on the current parameters, hyper-parameters, "
     "batch and samples, not on earlier evaluations.",
     ["inputs", "configurations", "histories"],
     "every primal loss, ground cost, batch shape, number of samples, reduction, (rho, eps, lambda) and history of evaluations",
     "the tests evaluate a few losses at one hyper-parameter setting and mostly compare implementations with each other, so a "
     "wrong normalisation, power, reduction axis or gradient at other settings is not seen",
     [DI + "dual_loss.py", DI + "_misc_dual_interfaces.py", S + "oracle_torch.py"],
     [("dual formula", DI + "dual_loss.py compute_dual"), ("reduction", DI + "_misc_dual_interfaces.py reduce_loss_batch")],
     ["value and .grad of the robust loss module"])

prop("P02", "Null radius and empirical mode give the empirical risk; rho < 0 is refused",
     "At radius 0 the robust loss and its gradients equal the reduced primal loss on the batch itself, whatever the samples, "
     "multiplier, cost and way of evaluating it; in empirical mode the same holds up to an additive constant that "
     "involves neither model nor data and vanishes with the multiplier. Evaluating with a negative radius raises ValueError and "
     "an undefined (NaN) radius never yields a number. Switching radius, mode or train/eval back and forth leaves no trace.",
     ["inputs", "configurations", "histories"],
     "every loss, cost, shape, reduction, degenerate radius, way of evaluating, and history of switches",
     "the tests touch rho=0 for single estimators only; the several branches that handle it and the switching histories are not exercised",
     [DI + "dual_loss.py", S + "oracle_torch.py"],
     [("degenerate branches", S + "oracle_torch.py forward"), ("ERM branch", DI + "dual_loss.py compute_dual")],
     ["value and .grad of the robust loss module", "raised exceptions"])

prop("P03", "Ground costs are powers of norms of the displacement of data and labels",
     "The plain cost of moving x to z is |x-z|_k^p, labels ignored; the labelled cost is ((|x-z|_k + kappa*|y-t|_k)/(1+kappa))^p, "
     "which is the data part alone at kappa=0 and the label part alone at kappa=inf. It is symmetric, nonnegative, "
     "translation invariant, zero exactly at identical (relevant) points, computed row by row under broadcasting, "
     "differentiable, and never modifies its arguments. Negative or undefined kappa and missing labels are refused.",
     ["inputs", "configurations"],
     "every pair of points, label pair, norm type, power, kappa, shape and floating point type",
     "tests compare a handful of random pairs for k in {1,2}; special kappas, other powers, broadcasting and laws are not covered",
     [B + "costs_torch/normcost.py", B + "costs_torch/normlabelcost.py", B + "costs_torch/base_cost.py"],
     [("norm cost", B + "costs_torch/normcost.py value"), ("label cost", B + "costs_torch/normlabelcost.py value")],
     ["returned cost tensors"])

prop("P04", "Cost codes denote the ground cost they spell, or are refused",
     "A code '[t-]ID-power-type[-kappa]' with ID in {NC, NLC} decodes, through both decoders, to the cost of that kind, power, norm "
     "type and kappa (1e8 when omitted; the engine may be omitted for the parsing decoder only with three fields); no code "
     "means the squared Euclidean cost, labelled when there are labels. Unknown engines or kinds, missing, trailing or non numeric "
     "fields and negative kappas raise an error. Importance sampling is allowed for power 2 and type 2 only.",
     ["inputs"],
     "every sentence of the grammar and its corruptions, through every decoder",
     "tests decode a dozen of codes; malformed codes and field mix-ups between decoders are not enumerated",
     [B + "cost_decoder.py"],
     [("decoders", B + "cost_decoder.py cost_from_str, parse_code_torch, cost_from_parse_torch")],
     ["decoded cost objects and their values", "raised exceptions"])

prop("P05", "Samplers draw around their current centre with the spread they were built with",
     "After any history of draws and recentrings, samples have shape (n, *batch) and are the centre of the last recentring plus noise of the "
     "family and scale fixed at construction, independent across samples, rows and coordinates; recentring neither changes the "
     "spread nor touches the random stream. Labels are kept exactly, moved by noise of their own scale, or switched to "
     "their opposite with the requested probability independently per row, according to the sampler. Equal seeds give equal draws, "
     "different seeds different ones, building without a seed leaves the random stream alone, and the samplers losses provide by default "
     "obey the same rules with the scale asked for.",
     ["histories", "configurations", "inputs"],
     "every shipped sampler, covariance parametrisation, shape, spread, seed and history of draws/recentrings",
     "tests check shapes of one draw; drift of the spread over recentrings, shared noise or wrong label handling is invisible to them",
     [B + "samplers/torch/base_samplers.py", B + "samplers/torch/cost_samplers.py", B + "samplers/torch/classif_sampler.py",
      B + "samplers/torch/newsvendor_sampler.py", B + "samplers/torch/portfolio_sampler.py", B + "costs_torch/normcost.py",
      B + "costs_torch/normlabelcost.py"],
     [("recentring", B + "samplers/torch/*.py reset_mean"), ("spread", B + "costs_torch/*.py _sampler_data/_sampler_labels")],
     ["samples drawn", "torch random state"])

prop("P06", "Sampler log-densities, translated densities and the point mass are exact",
     "For every sampler, the log-density of samples is, per sample and data row, the sum over coordinates and labels of the log-density of "
     "the distribution it draws from (up to a constant per row for switched labels); the translated log-density is that of the same "
     "distribution moved to the given centre, and asking for it does not move the sampler. A point mass has its location as mean, "
     "mode and every sample, zero variance, log-density 0 at its location and -inf elsewhere, with consistent shapes.",
     ["inputs", "configurations", "histories"],
     "every sampler, spread parametrisation, shape, evaluation point, translation and recentring history",
     "tests only check the shape of the densities",
     [B + "samplers/torch/base_samplers.py", B + "samplers/torch/classif_sampler.py", "skwdro/distributions/dirac_distribution.py"],
     [("densities", B + "samplers/torch/base_samplers.py log_prob, log_prob_recentered"),
      ("point mass", "skwdro/distributions/dirac_distribution.py")],
     ["returned log-densities and samples"])

prop("P07", "Importance sampling is an exact change of measure",
     "With importance sampling, all samples (and labels) of a data point are translated together, by the gradient of the primal loss divided by "
     "twice the multiplier (and by kappa for labels that may move), and the log-ratio of the original to the translated density is added "
     "inside the exponential, so that value and gradients are those of the reweighted dual formula. When that translation is undefined "
     "(null multiplier or gradient) the estimator still equals the reweighted formula for whatever translation was used. It always "
     "follows the current model, multiplier and batch, and switching it off restores the plain formula.",
     ["inputs", "configurations", "histories"],
     "every differentiable loss, squared Euclidean cost with or without labels, shape, spread, multiplier, reduction and history",
     "tests compare fits with wide tolerances; a missing or wrong density ratio biases the loss without failing them",
     [DI + "_impsamp_interface.py", DI + "dual_loss.py", B + "samplers/torch/base_samplers.py", B + "costs_torch/normcost.py",
      B + "costs_torch/normlabelcost.py", S + "utils.py"],
     [("displacement", DI + "_impsamp_interface.py"), ("correction", DI + "dual_loss.py compute_dual"),
      ("argmax of the expansion", B + "costs_torch/*.py solve_max_series_exp")],
     ["points on which the user's model is evaluated", "value and .grad of the robust loss module"])

prop("P08", "Evaluating the robust loss leaves the user's model, data and modes untouched",
     "Evaluating or differentiating the robust loss, or initialising its multiplier, changes no parameter value, trainability flag, training "
     "mode, buffer of modules in evaluation mode, setting of the loss, nor the tensors passed in; frozen parameters get no gradient and are not moved by a solve, which keeps training modes too. "
     "train()/eval() set the training flag of the whole module as in torch, return the module and never switch between robust and empirical loss.",
     ["histories", "configurations"],
     "every history of evaluations, initialisations, user-side freezings and mode switches, with and without importance sampling",
     "tests never look at the model's flags after an evaluation",
     [DI + "_impsamp_interface.py", DI + "_misc_dual_interfaces.py", DI + "dual_loss.py", S + "oracle_torch.py", S + "entropic_dual_torch.py"],
     [("flag restoration", DI + "_impsamp_interface.py get_displacement_direction, compute_functional_grads")],
     ["parameters, flags, modes, buffers and inputs before/after"])

MORE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "registry_more.py")
if os.path.exists(MORE):
    exec(open(MORE).read())

LEVEL = {}


def main():
    have = [p for p in P if os.path.exists(f"{ROOT}/mc/checks/{p['id'].lower()}.py")]
    with open(f"{ROOT}/properties.jsonl", "w") as f:
        for p in have:
            f.write(json.dumps(p) + "\n")
    sys.path.insert(0, ROOT)
    checks = []
    for p in have:
        src = open(f"{ROOT}/mc/checks/{p['id'].lower()}.py").read()
        head = src.split("ASSUMPTIONS")[0]
        ns = {}
        exec(head[head.index("TITLE"):], ns)
        a = src[src.index("ASSUMPTIONS"):]
        a = a[:a.index("BOUNDS")]
        exec(a, ns)
        checks.append(dict(
            property=p["id"], quick_cmd=f"bash run.sh {p['id']} --tier quick",
            thorough_cmd=f"bash run.sh {p['id']} --tier thorough",
            evidence_file=f"evidence/{p['id']}.json",
            technique="bounded-exhaustive explicit-state exploration of the real code against a reference model",
            level="model_checking",
            level_note=("Within the stated bounds every configuration and every sequence of operations is executed on the code "
                        "of /repo and monitored: " + ns["TITLE"] + ". Trusted: the reference model, torch/numpy arithmetic"
                        + ("; " + "; ".join(ns["ASSUMPTIONS"]) if ns["ASSUMPTIONS"] else "") + ".")))
    man = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[],
               notes="Pure Python: the checks import /repo's working tree directly, there is nothing to compile and no hook in /repo. "
                     "Replay a violation with: bash run.sh --replay <path>.")
    json.dump(man, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
    print(len(have), "properties")


if __name__ == "__main__":
    main()
