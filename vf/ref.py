"""Independent reference implementations used as oracles."""
import numpy as np
from scipy.special import logsumexp, ndtr, ndtri

EPS = np.finfo(float).eps
TINY = np.finfo(float).tiny


def kind_of(lo, hi):
    if np.isfinite(lo) and np.isfinite(hi):
        return "both"
    if np.isfinite(lo):
        return "left"
    if np.isfinite(hi):
        return "right"
    return "none"


def fwd1(x, lo, hi, transform):
    k = kind_of(lo, hi)
    if k == "none":
        return np.array(x, float)
    if k == "left":
        return np.log(x - lo)
    if k == "right":
        return np.log(hi - x)
    p = (x - lo) / (hi - lo)
    if transform == "logit":
        return np.log(p) - np.log1p(-p)
    return ndtri(p)


def inv1(v, lo, hi, transform):
    """x and log|dx/dv| and absolute error scale of the latter"""
    k = kind_of(lo, hi)
    v = np.asarray(v, float)
    if k == "none":
        return v, np.zeros_like(v), np.zeros_like(v)
    if k == "left":
        return lo + np.exp(v), v, np.zeros_like(v)
    if k == "right":
        return hi - np.exp(v), v, np.zeros_like(v)
    if transform == "logit":
        lp = -np.logaddexp(0, -v)
        lq = -np.logaddexp(0, v)
        return lo + (hi - lo) * np.exp(lp), np.log(hi - lo) + lp + lq, 8 * EPS / np.maximum(np.exp(lq), EPS)
    return lo + (hi - lo) * ndtr(v), np.log(hi - lo) - 0.5 * v * v - 0.5 * np.log(2 * np.pi), np.zeros_like(v)


class RefScaler:
    """Reference parameter transformation (diagonal standardisation learnt from draws)."""

    def __init__(self, bounds, transform, draws=None):
        self.b = np.asarray(bounds, float)
        self.t = transform
        if draws is not None:
            v = np.stack([fwd1(draws[:, i], lo, hi, transform) for i, (lo, hi) in enumerate(self.b)], axis=1)
            self.mu, self.sigma = v.mean(axis=0), v.std(axis=0)
        else:
            self.mu, self.sigma = np.zeros(len(self.b)), np.ones(len(self.b))

    def forward(self, x):
        v = np.stack([fwd1(x[:, i], lo, hi, self.t) for i, (lo, hi) in enumerate(self.b)], axis=1)
        return (v - self.mu) / self.sigma

    def inverse(self, u):
        v = self.mu + self.sigma * np.asarray(u, float)
        x = np.empty_like(v)
        J = np.zeros(len(v))
        err = np.zeros(len(v))
        for i, (lo, hi) in enumerate(self.b):
            x[:, i], j, e = inv1(v[:, i], lo, hi, self.t)
            J += j + np.log(self.sigma[i])
            err += e
        return x, J, err

    def xscale(self, x):
        """magnitude against which rounding errors of a parameter are measured"""
        out = np.abs(x) + 1e-300
        for i, (lo, hi) in enumerate(self.b):
            k = kind_of(lo, hi)
            if k == "both":
                out[:, i] = np.maximum(abs(lo), abs(hi))
            elif k == "left":
                out[:, i] = np.maximum(out[:, i], abs(lo))
            elif k == "right":
                out[:, i] = np.maximum(out[:, i], abs(hi))
            else:
                out[:, i] = np.maximum(out[:, i], max(abs(self.mu[i]), self.sigma[i]))
        return out


def mixture(logl, beta, logz, beta_final=1.0):
    """Normalised log-weights (flat, iteration-major) and log-evidence of the balance-heuristic mixture."""
    logl = np.asarray(logl, float)
    beta = np.asarray(beta, float)
    logz = np.asarray(logz, float)
    T = len(beta)
    terms = beta[:, None] * logl.ravel()[None, :] - logz[:, None]
    den = logsumexp(terms, axis=0) - np.log(T)
    lw = beta_final * logl.ravel() - den
    tot = logsumexp(lw)
    return lw - tot, tot - np.log(lw.size)


def ess(w):
    w = np.asarray(w, float)
    w = w / w.sum()
    return 1.0 / np.sum(w * w)


def uss(w, k=None):
    w = np.asarray(w, float)
    w = w / w.sum()
    k = len(w) if k is None else k
    return float(np.sum(-np.expm1(k * np.log1p(-np.minimum(w, 1.0)))))


def metric(name, w, k=None):
    return ess(w) if name == "ess" else uss(w, k)


def trim_ok(w_all, kept_idx, ess_frac):
    """Is the kept set a threshold set retaining ess_frac of the ESS?"""
    w_all = np.asarray(w_all)
    mask = np.zeros(len(w_all), bool)
    mask[kept_idx] = True
    kept, dropped = w_all[mask], w_all[~mask]
    thr = len(dropped) == 0 or dropped.max() < kept.min() or np.isclose(dropped.max(), kept.min(), rtol=1e-12)
    return thr, ess(kept) / ess(w_all) >= ess_frac - 1e-9


class Replay:
    """Recomputes the temperature ladder and the effective-particle target from recorded arrays.

    Yields, per sampling iteration t, a record of what the published rule implies given the history before t.  Where a
    comparison falls within rounding of its threshold, all admissible targets are carried along.
    """

    def __init__(self, res, n_warm, n_active, n_effective, metric_name, dynamic):
        self.L, self.beta, self.logz = np.asarray(res["logl"]), np.asarray(res["beta"]), np.asarray(res["logz"])
        self.ess = np.asarray(res["ess"])
        self.n_warm, self.n_active, self.metric, self.dynamic = n_warm, n_active, metric_name, dynamic
        self.cand = {int(n_effective)}
        self.ratio = uss(np.ones(int(n_effective)), n_active) / n_active

    def weights(self, t, beta):
        lw, lz = mixture(self.L[:t], self.beta[:t], self.logz[:t], beta)
        return np.exp(lw), lz

    def __iter__(self):
        for t in range(self.n_warm, len(self.beta)):
            bp, b = self.beta[t - 1], self.beta[t]
            wp, _ = self.weights(t, bp)
            w1, _ = self.weights(t, 1.0)
            w, lz = self.weights(t, b)
            rec = dict(t=t, beta_prev=bp, beta=b, m_prev=metric(self.metric, wp), m_one=metric(self.metric, w1),
                       m=metric(self.metric, w), logz=lz, targets=sorted(self.cand), w=w)
            if self.dynamic:
                U = uss(w, self.n_active)
                rec["U"] = U
                new = set()
                for T in self.cand:
                    new |= self._adjust(T, U)
                self.cand = new
            rec["targets_after"] = sorted(self.cand)
            yield rec

    def _adjust(self, T, U):
        lo = self.n_active * 0.95 * self.ratio
        hi = self.n_active * min(1.05 * self.ratio, 1.0)
        out = set()
        tol = 1e-9
        if U < lo * (1 + tol):
            out |= _ints(self.n_active / U * T)
        if U > hi * (1 - tol) and not U < lo * (1 - tol):
            out |= _ints(U / self.n_active * T)
        if lo * (1 - tol) <= U <= hi * (1 + tol):
            out.add(T)
        return out


def _ints(v):
    return {int(v * (1 - 1e-9)), int(v), int(v * (1 + 1e-9))}
