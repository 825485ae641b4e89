"""Deterministic data, builders of real objects, and reference models."""
import math

import numpy as np
import torch as pt
import torch.nn as nn

INF = float("inf")


def grid(*shape, k=0, scale=1.0, dtype=None):
    """Deterministic 'generic' values in (-2, 2): no ties, no zeros."""
    n = int(np.prod(shape)) if shape else 1
    i = np.arange(1, n + 1, dtype=float)
    v = np.sin(1.7 * i + 0.9 * k + 0.31) * 1.3 + 0.41 * np.cos(2.3 * i * (k + 1))
    out = pt.tensor(scale * v.reshape(shape), dtype=pt.float64)
    return out.to(dtype or pt.float32)


def pnum(s):
    """JSON friendly numbers: 'inf', 'nan' or a number."""
    return float(s)


# ------------------------------------------------------------------ costs
def ref_norm(v, p):
    a = v.abs()
    if p == INF:
        return a.max(dim=-1, keepdim=True).values
    if p == 1:
        return a.sum(dim=-1, keepdim=True)
    if p == 2:
        return (a * a).sum(dim=-1, keepdim=True).sqrt()
    return a.pow(p).sum(dim=-1, keepdim=True).pow(1. / p)


def ref_cost(kind, p, power, kappa, x, z, y=None, t=None):
    dx = ref_norm(x - z, p)
    if kind == "NC":
        return dx.pow(power)
    dy = ref_norm(y - t, p)
    if kappa == INF:
        return dy.pow(power)
    if kappa == 0:
        return dx.pow(power)
    return ((dx + kappa * dy) / (1. + kappa)).pow(power)


def make_cost(kind, p, power, kappa=None):
    from skwdro.base.costs_torch import NormCost, NormLabelCost
    if kind == "NC":
        return NormCost(p=p, power=power)
    return NormLabelCost(p=p, power=power, kappa=kappa)


# ---------------------------------------------------------------- samplers
def stub_samplers():
    """Samplers whose draws are dictated by the harness."""
    from skwdro.base.samplers.torch.base_samplers import BaseSampler

    class Stub(BaseSampler):
        def __init__(self, zeta, zeta_labels=None):
            super().__init__(None)
            self.z, self.t = zeta, zeta_labels
            self.calls = []
            self.centers = []

        @property
        def produces_labels(self):
            return self.t is not None

        def sample(self, n_samples):
            self.calls.append(int(n_samples))
            return self.z, self.t

        def reset_mean(self, xi, xi_labels=None):
            self.centers.append((xi, xi_labels))

        def log_prob(self, zeta, zeta_labels):
            raise AssertionError("density of the sampler requested")

        def log_prob_recentered(self, xi, xi_labels, zeta, zeta_labels):
            raise AssertionError("density of the sampler requested")

    return Stub


# ------------------------------------------------------------- primal losses
class QuadModule(nn.Module):
    """Unlabelled primal loss: 1/2 |x - pos|^2 (one column per row)."""
    reduction = "none"

    def __init__(self, d):
        super().__init__()
        self.pos = nn.Parameter(grid(d, k=3))

    def forward(self, x):
        return 0.5 * ((x - self.pos) ** 2).sum(-1, keepdim=True)


class TwoColumns(nn.Module):
    """Labelled loss returning one column per target (spatial dims)."""
    reduction = "none"

    def forward(self, out, y):
        return (out - y) ** 2


def lam_leaf(loss):
    """The trainable tensor behind the public multiplier."""
    lam = loss.lam
    return lam if lam.is_leaf else loss._lam


def set_lam(loss, v):
    with pt.no_grad():
        lam_leaf(loss).fill_(v)


def primal_setup(name, d, dl, dtype):
    """Returns (loss, transform, labelled, ref) with ref(params, x, y) the
    reference value (last dim 1) as a function of a dict of double tensors."""
    if name == "quad":
        mod = QuadModule(d).to(dtype)
        return mod, None, False, dict(mod.named_parameters()), \
            lambda P, x, y: 0.5 * ((x - P["pos"]) ** 2).sum(-1, keepdim=True)
    lin = nn.Linear(d, dl).to(dtype)
    with pt.no_grad():
        lin.weight.copy_(grid(dl, d, k=1))
        lin.bias.copy_(grid(dl, k=2))
    if name in ("mse", "fmse"):
        import torch.nn.functional as F
        loss = nn.MSELoss(reduction="none") if name == "mse" else F.mse_loss
        return loss, lin, True, dict(lin.named_parameters()), \
            lambda P, x, y: ((x @ P["weight"].T + P["bias"] - y) ** 2).mean(-1, keepdim=True)
    if name == "logit":
        loss = nn.SoftMarginLoss(reduction="none")
        return loss, lin, True, dict(lin.named_parameters()), \
            lambda P, x, y: pt.nn.functional.softplus(
                -y * (x @ P["weight"].T + P["bias"])).mean(-1, keepdim=True)
    if name == "hub":  # unlabelled functional loss with a transform
        def fun(out, reduction="none"):
            assert reduction == "none"
            return (1. + out ** 2).sqrt()
        return fun, lin, False, dict(lin.named_parameters()), \
            lambda P, x, y: (1. + (x @ P["weight"].T + P["bias"]) ** 2).sqrt().mean(-1, keepdim=True)
    raise ValueError(name)


def ref_reduce(v, reduction):
    """v: (m,) per-sample values."""
    if reduction in (None, "mean"):
        return v.mean()
    if reduction == "sum":
        return v.sum()
    return v


def ref_dual(L, c, lam, rho, eps, p, reduction, logw=None):
    """L, c: (n, m, 1) -> lam rho^p + eps reduce_i log mean_j exp(...)"""
    t = (L - lam * c) / eps
    if logw is not None:
        t = t + logw
    t = t.squeeze(-1)
    top = t.max(dim=0).values.detach()
    v = top + (t - top).exp().mean(dim=0).log()
    return lam * rho ** p + eps * ref_reduce(v, reduction)


def lattice(n, d, k=0):
    """Well-conditioned design with small exact entries (numpy, n x d)."""
    i = np.arange(1, n + 1)[:, None]
    j = np.arange(1, d + 1)[None]
    return ((i * i * (7 + 2 * j) + 5 * j + 3 * i * j * j + 11 * k) % 13) / 4. - 1.5
