"""C25: posterior and evidence agree with analytically known targets."""
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, Violation, fail, require, sut
from .. import models as md

PROPERTY = "C25"
HANG_S, SLOW_CASES = 300, True
ASSUMPTIONS = ["Monte Carlo error is measured from independent repetitions of the same configuration with a floor calibrated on the unchanged tree (see DESIGN.md); "
               "targets are easy enough (width of the likelihood at least a few percent of the prior's) for the given number of particles."]
NQ = 200001
Q = (np.arange(NQ) + 0.5) / NQ


def like1(k, x, m, s, par):
    """log-likelihood factor of one parameter; m, s: centre and spread of its prior"""
    z = (x - m) / s
    c, w = par[0], par[1]
    if k == "gauss":
        return -0.5 * ((z - c) / w) ** 2
    if k == "laplace":
        return -np.abs(z - c) / w
    if k == "bimodal":
        return np.logaddexp(-0.5 * ((z - 0.9) / w) ** 2, -0.5 * ((z + 0.9) / w) ** 2 - 0.7)
    if k == "cos":
        return (np.cos(np.pi * (z - c)) - 1) / w
    if k == "flat":
        return np.zeros_like(z)
    if k == "slope":
        return c * np.clip(z, -6, 6) * 1.5
    if k == "half":
        return np.where(z > c, -np.inf, -0.5 * (z / w) ** 2)
    raise ValueError(k)


class Target:
    """Vectorised likelihood: sum of one-dimensional factors."""

    def __init__(self, cfg):
        self.f = cfg["factors"]
        self.m, self.s = md.prior_scale(cfg["prior"])
        self.off = cfg["off"]

    def __call__(self, x):
        return sum(like1(k, x[:, i], self.m[i], self.s[i], p) for i, (k, p) in enumerate(self.f)) + self.off


def exact(cfg):
    """Posterior mean and variance of every parameter and the log-evidence."""
    if cfg["prior"]["kind"] == "hier":
        d = cfg["prior"]["dim"]
        m, s = md.prior_scale(cfg["prior"])
        A = np.eye(d)
        A[1:, 0] = 1.0
        S0 = A @ np.diag([1.0] + [0.25] * (d - 1)) @ A.T
        R = np.diag([(s[i] * p[1]) ** 2 for i, (k, p) in enumerate(cfg["factors"])])
        y = np.array([m[i] + s[i] * p[0] for i, (k, p) in enumerate(cfg["factors"])])
        K = S0 @ np.linalg.inv(S0 + R)
        mean, cov = K @ y, S0 - K @ S0
        C = S0 + R
        lz = -0.5 * (y @ np.linalg.solve(C, y) + np.linalg.slogdet(2 * np.pi * C)[1]) + 0.5 * np.linalg.slogdet(2 * np.pi * R)[1]
        return mean, np.diag(cov), lz + cfg["off"]
    m, s = md.prior_scale(cfg["prior"])
    mean, var, lz = [], [], cfg["off"]
    for i, (k, p) in enumerate(cfg["factors"]):
        x = md.make_dist(cfg["prior"]["dists"][i]).ppf(Q)
        ll = like1(k, x, m[i], s[i], p)
        mx = ll.max()
        w = np.exp(ll - mx)
        lz += mx + math.log(w.mean())
        w /= w.sum()
        mu = float(np.sum(w * x))
        mean.append(mu)
        var.append(float(np.sum(w * (x - mu) ** 2)))
    return np.array(mean), np.array(var), lz


def estimate(cfg, seed, nev):
    over = dict(vectorize=True, random_state=seed)
    c = dict(cfg, mode="vectorize", blob="none", seed=seed)
    s, prior, _ = md.build(c, like=Target(cfg), **over)
    with sut("run"):
        md.run(s, c, n_evidence=nev)
    x, w, _, _ = s.posterior()
    mu = np.sum(w[:, None] * x, axis=0)
    v = np.sum(w[:, None] * (x - mu) ** 2, axis=0)
    r = s.results
    out = [mu, v, [s.evidence()[0]]]
    xr = s.posterior(resample=True)[0]
    return np.concatenate(out), xr.mean(axis=0), s.evidence()[1], len(r["beta"])


def zscores(case):
    cfg = case["cfg"]
    md.drop_logs()
    R = case["reps"]
    mean, var, lz = exact(cfg)
    nev = case["n_evidence"] if cfg["precondition"] else 0
    E = []
    Xr = []
    for k in range(R):
        e, xr, err, T = estimate(cfg, cfg["seed"] + k, nev)
        E.append(e)
        Xr.append(xr)
    E, Xr = np.array(E), np.array(Xr)
    d = len(mean)
    n = cfg["n_effective"]
    sd = np.sqrt(var)
    em = (E[:, :d] - mean) / sd                     # in posterior standard deviations
    ev = E[:, d:2 * d] / var - 1                    # relative
    ez = E[:, 2 * d] - lz
    er = (Xr - mean) / sd
    return em, ev, ez, er, n


def bigger(case):
    """The same target with four times the particles and other seeds."""
    c = dict(case["cfg"])
    for k in ("n_active", "n_effective", "n_total"):
        c[k] *= 4
    c["seed"] += 1000
    return dict(case, cfg=c, n_evidence=case["n_evidence"] * 4)


def fn(case, ctx):
    try:
        judge(*zscores(case), case)
    except Violation as e:
        # finite-sample error shrinks with the number of particles, a wrong target does not
        *z, _ = zscores(bigger(case))
        try:
            judge(*z, case["cfg"]["n_effective"], case)
        except Violation as e2:
            fail(f"{e}; with four times the particles: {e2}")
        ctx.label("borderline at this size, converges with more particles")
    md_label(ctx, case)
    ctx.nontrivial(True)


def judge(em, ev, ez, er, n, case):
    R = len(ez)
    for nm, e in (("posterior mean (in standard deviations)", em), ("posterior variance (relative)", ev), ("log-evidence", ez[:, None]), ("mean of the resampled posterior (in standard deviations)", er)):
        for i in range(e.shape[1]):
            band = bound(nm, e[:, i], n, case)
            b = float(np.mean(e[:, i]))
            require(abs(b) < band, lambda: f"{nm}{'' if 'evid' in nm else f' of parameter {i}'} is off by {b:.3f} on average over {R} runs (tolerance {band:.3f}; runs {np.round(e[:, i], 3).tolist()})")


def md_label(ctx, case):
    c = case["cfg"]
    ctx.label(c["sample"], "pre" if c["precondition"] else "nopre", c["transform"], c["metric"], c["resample"], "dim=%d" % md.prior_dim(c["prior"]), "prior=" + c["prior"]["kind"],
              *["like=" + f[0] for f in c["factors"]], "dynamic" if c["dynamic"] else "fixed")
    if c["prior"]["kind"] == "product":
        ctx.label(*["dist=" + k[0] for k in c["prior"]["dists"]])
    for k in ("periodic", "reflective"):
        if c.get(k):
            ctx.label(k)


FLOOR = {"posterior mean (in standard deviations)": 0.13, "posterior variance (relative)": 0.27, "log-evidence": 0.13, "mean of the resampled posterior (in standard deviations)": 0.15}


def bound(nm, e, n, case):
    s = float(np.std(e, ddof=1)) / math.sqrt(len(e)) if len(e) > 1 else 0.0
    return FLOOR[nm] * math.sqrt(256 / n) + 5 * s


FACT = st.one_of(
    st.tuples(st.just("gauss"), st.tuples(md.q(-0.8, 0.8), md.q(0.3, 1.2))),
    st.tuples(st.just("gauss"), st.tuples(md.q(-0.8, 0.8), md.q(0.15, 0.5))),
    st.tuples(st.just("laplace"), st.tuples(md.q(-0.6, 0.6), md.q(0.3, 1.0))),
    st.tuples(st.just("bimodal"), st.tuples(st.just(0.0), md.q(0.4, 0.6))),
    st.tuples(st.just("cos"), st.tuples(md.q(-0.8, 0.8), md.q(0.4, 1.0))),
    st.tuples(st.just("flat"), st.just((0.0, 1.0))),
    st.tuples(st.just("slope"), st.tuples(md.q(-0.8, 0.8), st.just(1.0))),
    st.tuples(st.just("half"), st.tuples(md.q(-0.2, 1.0), md.q(0.5, 1.2)))).map(lambda t: [t[0], list(t[1])])


@st.composite
def cases(draw, pre, reps):
    hier = draw(st.integers(0, 5)) == 0
    if hier:
        d = draw(st.integers(2, 3))
        prior = dict(kind="hier", dim=d)
        factors = [["gauss", [draw(md.q(-0.8, 0.8)), draw(md.q(0.3, 1.2))]] for _ in range(d)]
    else:
        d = draw(st.integers(1, 3))
        prior = dict(kind="product", dists=[draw(md.dists(md.ALLK)) for _ in range(d)])
        factors = [draw(FACT) for _ in range(d)]
        for f, dd in zip(factors, prior["dists"]):
            if (f[0] == "cos" and dd[0] not in md.TWO_SIDED      # many far-apart modes on an unbounded prior
                    or f[0] == "slope" and dd[0] not in md.TWO_SIDED + ("norm",)     # puts the posterior mass in the prior's far tail
                    or f[0] in ("half", "flat") and dd[0] in ("t", "lognorm")):      # heavy tail: the sample variance converges slowly
                f[:] = ["laplace", [max(-0.6, min(0.6, f[1][0])), max(0.3, min(1.0, f[1][1]))]]
    n_active = draw(st.sampled_from([96, 128, 160])) if not pre else draw(st.sampled_from([64, 96]))
    c = dict(prior=prior, factors=factors, like=dict(cut=None), off=draw(st.sampled_from([0.0, 0.0, 25.0, -300.0])), n_active=n_active,
             n_effective=int(n_active * draw(st.sampled_from([2.0, 2.0, 3.0]))), n_prior=draw(st.sampled_from([None, None, 2])), precondition=pre,
             sample=draw(st.sampled_from(["tpcn", "rwm"])), transform=draw(st.sampled_from(["probit", "logit"])), metric=draw(st.sampled_from(["ess", "uss"])),
             resample=draw(st.sampled_from(["mult", "syst"])), dynamic=draw(st.booleans()), n_steps=draw(st.sampled_from([None, 1, 2, 3])), n_max_steps=None,
             n_total=draw(st.sampled_from([3, 4])) * n_active, seed=draw(st.integers(0, 10 ** 6)))
    if pre:
        c["flow"] = draw(st.sampled_from(["maf1", "nsf1"]))
        c["train_frequency"] = draw(st.sampled_from([None, 2]))
        c["epochs"] = 5000
    if prior["kind"] == "product":
        two = [i for i, dd in enumerate(prior["dists"]) if dd[0] in md.TWO_SIDED]
        if two and draw(st.booleans()):
            ks = [draw(st.sampled_from(["p", "r", "-"])) for _ in two]
            c["periodic"] = [i for i, k in zip(two, ks) if k == "p"] or None
            c["reflective"] = [i for i, k in zip(two, ks) if k == "r"] or None
    return dict(cfg=c, reps=reps, n_evidence=draw(st.sampled_from([0, 256, 512])) if pre else 0)


SUBS = [Sub("nopre", cases(False, 4), fn, 5, 500, "always: every case compares the estimates of four runs with the exact values"),
        Sub("pre", cases(True, 3), fn, 2, 150, "always: every case compares the estimates of three runs with the exact values")]
