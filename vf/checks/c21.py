"""C21: proposal geometry is the weighted fit of the particles."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.special import gammaln

from ..core import Inconclusive, Sub, known_findings, require, sut
from .. import models as md

PROPERTY = "C21"
ASSUMPTIONS = ["Data sets have more distinct points than dimensions (a covariance exists)."]


def dataset(case):
    rng = np.random.RandomState(case["seed"])
    n, d = case["n"], case["dim"]
    z = rng.randn(n, d)
    if case["tail"] == "t":
        z = z / np.sqrt(rng.chisquare(3.0, n) / 3.0)[:, None]
    elif case["tail"] == "heavy":
        z = z / np.sqrt(rng.chisquare(1.2, n) / 1.2)[:, None]
    elif case["tail"] == "uniform":
        z = rng.rand(n, d)
    elif case["tail"] == "bimodal":
        z = z + 4.0 * (rng.rand(n, 1) < 0.4)
    A = np.eye(d) + case["corr"] * np.tril(rng.randn(d, d), -1)
    x = z @ A.T * 10.0 ** case["logscale"] + case["loc"]
    return x, rng


def weights(case, n, rng):
    k = case["weights"]
    if k == "none":
        return None
    if k == "equal":
        return np.full(n, 1.0 / n)
    w = np.exp(case["spread"] * rng.randn(n))
    if k == "zeros":
        w[rng.rand(n) < 0.3] = 0.0
        w[:case["dim"] + 3] = 1.0
    return w / w.sum()


def moments(x, w):
    x = np.asarray(x, np.longdouble)
    n = len(x)
    w = np.full(n, np.longdouble(1) / n) if w is None else np.asarray(w, np.longdouble) / np.sum(np.asarray(w, np.longdouble))
    m = (w[:, None] * x).sum(axis=0)
    dxx = x - m
    C = (w[:, None] * dxx).T @ dxx / (1 - np.sum(w * w))
    return m.astype(float), C.astype(float)


def geometry(x, w, seed):
    from pocomc.geometry import Geometry
    np.random.seed(seed)
    g = Geometry()
    with sut("Geometry.fit"):
        g.fit(x, weights=w) if w is not None else g.fit(x)
    return g


def check_shape(g, x, what):
    d = x.shape[1]
    for name, m, C in (("normal", g.normal_mean, g.normal_cov), ("t", g.t_mean, g.t_cov)):
        m, C = np.asarray(m), np.asarray(C)
        require(m.shape == (d,) and C.shape == (d, d), lambda: f"{what}: {name} mean has shape {m.shape}, covariance {C.shape} in {d} dimension(s)")
        require(np.all(np.isfinite(m)) and np.all(np.isfinite(C)), f"{what}: {name} fit is not finite")
        require(np.allclose(C, C.T, rtol=1e-9, atol=1e-12 * np.max(np.abs(C))), f"{what}: {name} covariance is not symmetric")
        sd = np.sqrt(np.abs(np.diag(C)))
        ev = np.linalg.eigvalsh(C / np.outer(sd, sd))
        require(np.all(np.diag(C) > 0) and ev[0] > 0, lambda: f"{what}: {name} covariance is not positive definite")
    require(np.isfinite(g.t_nu) and g.t_nu > 0, f"{what}: degrees of freedom {g.t_nu}")
    lo, hi = x.min(axis=0), x.max(axis=0)
    pad = 1e-9 * (np.abs(lo) + np.abs(hi) + 1e-300)
    require(np.all((g.t_mean >= lo - pad) & (g.t_mean <= hi + pad)), lambda: f"{what}: t location {g.t_mean} outside the data's range")


def fn_geometry(case, ctx):
    x, rng = dataset(case)
    w = weights(case, len(x), rng)
    x0, w0 = x.copy(), None if w is None else w.copy()
    g = geometry(x, w, case["seed"])
    require(np.array_equal(x, x0) and (w is None or np.allclose(w, w0, rtol=1e-12)), "fit modified the data")
    check_shape(g, x if w is None else x[w > 0], "fit")
    m, C = moments(x, w)
    sd = np.sqrt(np.diag(C))
    noise = 1e-9 + 64 * 2e-16 * np.max(np.abs(x) / sd)
    require(np.all(np.abs(g.normal_mean - m) <= noise * sd), lambda: f"normal mean {g.normal_mean}, weighted mean {m}")
    require(np.all(np.abs(g.normal_cov - C) <= 100 * noise * np.outer(sd, sd)), lambda: f"normal covariance {g.normal_cov.tolist()}, weighted covariance {C.tolist()}")
    # location and size of the t are those of the weighted particles
    if case["tail"] in ("normal", "uniform") and len(x) >= 30:
        neff = len(x) if w is None else 1.0 / np.sum(w * w)
        tol = 8.0 / math.sqrt(neff)
        if tol < 1.5:
            require(np.all(np.abs(g.t_mean - m) <= tol * sd), lambda: f"t location {g.t_mean} far from the weighted data ({m} +- {sd})")
            r = np.diag(g.t_cov) / np.diag(C)
            require(np.all((r > 0.15) & (r < 4)), lambda: f"t scale is {r} times the weighted covariance")
    if case["weights"] in ("none", "equal") and g.t_nu < 1e4:          # every particle enters the fit exactly once
        check_local_maximum(x, g.t_mean, g.t_cov, g.t_nu, x.std(axis=0), "the geometry's t")
        ctx.label("t checked")
    # unit of measurement, order of parameters
    perm = np.random.RandomState(case["seed"] + 1).permutation(x.shape[1])
    a, b = 2.0 ** case["k"], np.round(case["shift"] * sd, 3)
    y = (x[:, perm] * a) + b[perm]
    h = geometry(y, None if w is None else w0.copy(), case["seed"])
    ay = noise + 1e-9 + 64 * 2e-16 * np.max(np.abs(y) / (a * sd[perm]))
    for nm, p, qv in (("normal mean", h.normal_mean, g.normal_mean[perm] * a + b[perm]), ("t location", h.t_mean, g.t_mean[perm] * a + b[perm])):
        require(np.all(np.abs(p - qv) <= 1e3 * ay * a * sd[perm]), lambda: f"{nm} of shifted, scaled, permuted data is {p}, expected {qv}")
    for nm, P, Q in (("normal covariance", h.normal_cov, g.normal_cov), ("t scale", h.t_cov, g.t_cov)):
        Q = Q[np.ix_(perm, perm)] * a * a
        s = np.sqrt(np.diag(Q))
        require(np.all(np.abs(P - Q) <= 1e4 * ay * np.outer(s, s)), lambda: f"{nm} of shifted, scaled, permuted data is {P.tolist()}, expected {Q.tolist()}")
    require(abs(h.t_nu - g.t_nu) <= 1e-3 * g.t_nu, lambda: f"degrees of freedom {g.t_nu} become {h.t_nu} for shifted, scaled, permuted data")
    # scaling the weights, and what zero-weight particles are, is irrelevant
    if w is not None:
        y = x.copy()
        z = w == 0
        y[z] = x[z] + 100.0 * sd
        h = geometry(y, 4.0 * w0, case["seed"])
        require(np.allclose(h.normal_mean, g.normal_mean, rtol=1e-9, atol=1e-9 * np.max(sd)) and np.allclose(h.normal_cov, g.normal_cov, rtol=1e-7, atol=1e-9 * np.max(sd) ** 2),
                "normal fit depends on zero-weight particles or on the scale of the weights")
        require(np.allclose(h.t_mean, g.t_mean, rtol=1e-6, atol=1e-6 * np.max(sd)) and np.allclose(h.t_cov, g.t_cov, rtol=1e-5, atol=1e-7 * np.max(sd) ** 2),
                "t fit depends on zero-weight particles or on the scale of the weights")
        ctx.label("zero weights" if np.any(z) else "positive weights")
    # order of the particles
    order = np.random.RandomState(case["seed"] + 2).permutation(len(x))
    h = geometry(x[order], None if w is None else w0[order], case["seed"])
    require(np.all(np.abs(h.normal_mean - g.normal_mean) <= 10 * noise * sd) and np.all(np.abs(h.normal_cov - g.normal_cov) <= 1e3 * noise * np.outer(sd, sd)),
            "normal fit depends on the order of the particles")
    ctx.label("dim=%d" % x.shape[1], "weights:" + case["weights"], "tail:" + case["tail"])
    ctx.nontrivial(case["weights"] != "equal" and len(x) > x.shape[1] + 2)


def t_loglik(x, mu, S, nu):
    n, d = x.shape
    L = np.linalg.cholesky(S)
    z = np.linalg.solve(L, (x - mu).T)
    delta = np.sum(z * z, axis=0)
    return n * (gammaln((nu + d) / 2) - gammaln(nu / 2) - 0.5 * d * np.log(nu * np.pi) - np.log(np.diag(L)).sum()) - 0.5 * (nu + d) * np.sum(np.log1p(delta / nu))


def check_local_maximum(x, mu, S, nu, sd, what):
    d = x.shape[1]
    base = t_loglik(x, mu, S, nu)
    r = np.random.RandomState(0)
    for j in range(18):
        e = 0.02 if j < 12 else 0.3
        m2 = mu + e * sd * r.randn(d) * (j < 12)
        Q = np.eye(d) + e * r.randn(d, d) * (j < 12)
        S3 = Q @ S @ Q.T
        n3 = nu * math.exp(e * r.randn())
        require(t_loglik(x, m2, S3, n3) <= base + 0.05 + 1e-4 * abs(base), lambda: f"{what} is not a local maximum of the likelihood (degrees of freedom {nu:.4g}, better {n3:.4g})")


def fn_student(case, ctx):
    from pocomc.student import fit_mvstud
    x, rng = dataset(case)
    x0 = x.copy()
    with sut("fit_mvstud"):
        mu, S, nu = fit_mvstud(x)
    require(np.array_equal(x, x0), "fit_mvstud modified the data")
    mu, S = np.asarray(mu), np.atleast_2d(S)
    d = x.shape[1]
    sd = x.std(axis=0)
    require(mu.shape == (d,) and S.shape == (d, d), f"shapes {mu.shape} {S.shape} in {d} dimension(s)")
    require(np.all(np.isfinite(mu)) and np.all(np.isfinite(S)) and nu > 0, f"fit is {mu} {S.tolist()} {nu}")
    require(np.all((mu >= x.min(axis=0)) & (mu <= x.max(axis=0))), "location outside the data's range")
    require(np.allclose(S, S.T, rtol=1e-9) and np.linalg.eigvalsh(S / np.outer(sd, sd))[0] > 0, "scale is not symmetric positive definite")
    perm = np.random.RandomState(case["seed"] + 2).permutation(len(x))
    with sut("fit_mvstud of reordered data"):
        mu2, S2, nu2 = fit_mvstud(x[perm])
    require(np.allclose(mu2, mu, rtol=1e-4, atol=1e-5 * np.max(sd)) and np.allclose(S2, S, rtol=1e-3, atol=1e-6 * np.max(sd) ** 2), "fit depends on the order of the particles")
    if not np.isfinite(nu):
        # normal limit: scale is the spread of the data
        c = np.var(x, axis=0)
        r = np.diag(S) / c
        require(np.all((r > 0.8) & (r < 1.35)), lambda: f"normal-limit scale is {r} times the data's variance")
        K = (S - np.atleast_2d(np.cov(x.T, bias=True))) / np.outer(sd, sd)
        require(np.all(np.abs(K) <= 0.4), lambda: f"normal-limit scale differs from the data's covariance by {K.tolist()} standard units")
        require(np.all(np.abs(mu - np.median(x, axis=0)) <= 0.6 * sd), "normal-limit location is not central")
        if case["tail"] == "t" and len(x) >= 100:
            s3 = np.linalg.cholesky(S)
            if t_loglik(x, mu, S / 2.0, 4.0) > t_loglik(x, mu, S, 1e6) + 10:
                require(any("fit_mvstud/opt_nu" in l for l in known_findings(PROPERTY)), "a finite-degrees-of-freedom t fits these data far better than the reported normal limit")
                ctx.label("known finding: normal limit for heavy tails")
    else:
        check_local_maximum(x, mu, S, nu, sd, "the fitted t")
        ctx.label("finite nu")
    ctx.label("dim=%d" % d, "tail:" + case["tail"])
    ctx.nontrivial(d >= 2 or case["tail"] != "normal")


@st.composite
def cases(draw, nmax=120):
    d = draw(st.integers(1, 5))
    return dict(dim=d, n=draw(st.one_of(st.integers(d + 4, 3 * d + 4), st.integers(4 * d + 4, nmax), st.integers(4 * d + 4, nmax))), tail=draw(st.sampled_from(["normal", "t", "heavy", "uniform", "bimodal"])),
                corr=draw(st.sampled_from([0.0, 0.5, 2.0])), logscale=draw(st.sampled_from([0, 0, -4, 3])), loc=draw(st.sampled_from([0.0, 1.0, -30.0])),
                weights=draw(st.sampled_from(["none", "equal", "varied", "zeros"])), spread=draw(st.sampled_from([0.3, 1.0])),
                k=draw(st.integers(-8, 8)), shift=draw(st.sampled_from([0.0, 1.0, -17.0])), seed=draw(st.integers(0, 10 ** 6)))


def fn_weighted(case, ctx):
    """Importance weights that move and reshape the particles: both fits follow the weighted distribution."""
    rng = np.random.RandomState(case["seed"])
    n, d = case["n"], case["dim"]
    z = rng.randn(n, d)
    v = np.array(case["shift"][:d], float)
    s = np.array(case["shrink"][:d], float)
    lw = -0.5 * np.sum(((z - v) / s) ** 2, axis=1)
    w = np.exp(lw - lw.max())
    w /= w.sum()
    neff = 1.0 / np.sum(w * w)
    if neff < 250:
        raise Inconclusive("weights too uneven")
    A = np.eye(d) + case["corr"] * np.tril(rng.randn(d, d), -1)
    x = z @ A.T * 10.0 ** case["logscale"] + case["loc"]
    g = geometry(x, w.copy(), case["seed"])
    check_shape(g, x, "weighted fit")
    m, C = moments(x, w)
    sd = np.sqrt(np.diag(C))
    e = (g.t_mean - m) / sd
    require(np.all(np.abs(e) <= 7.0 / math.sqrt(neff)), lambda: f"t location is {np.max(np.abs(e)):.2f} standard deviations from the weighted particles ({neff:.0f} effective)")
    if g.t_nu > 30 and np.isfinite(g.t_nu) or np.isinf(g.t_nu):
        tol = 7.0 / math.sqrt(neff) + 0.03
        r = (np.diag(g.t_cov) / np.diag(C))
        require(np.all(np.abs(np.log(r)) <= tol), lambda: f"t scale is {r} times the weighted covariance ({neff:.0f} effective)")
        k = (g.t_cov - C) / np.outer(sd, sd)
        require(np.all(np.abs(k) <= tol), lambda: f"t correlations differ from the weighted ones by {k.tolist()} ({neff:.0f} effective)")
        ctx.label("near-normal t")
    ctx.label("dim=%d" % d)
    ctx.nontrivial(np.max(np.abs(v)) >= 0.5 or np.min(s) < 1.5)


weighted = st.builds(lambda **k: k, dim=st.integers(1, 4), n=st.sampled_from([2000, 4000]), shift=st.lists(md.q(-2, 2, 16), min_size=4, max_size=4),
                     shrink=st.lists(st.sampled_from([0.5, 0.7, 1.0, 1.5, 4.0]), min_size=4, max_size=4), corr=st.sampled_from([0.0, 0.5, 2.0]),
                     logscale=st.sampled_from([0, 0, -3, 3]), loc=st.sampled_from([0.0, -30.0]), seed=st.integers(0, 10 ** 6))

SUBS = [Sub("weighted", weighted, fn_weighted, 40, 2000, "weights that move or shrink the particle cloud"),
        Sub("geometry", cases(), fn_geometry, 500, 20000, "unequal or absent weights and more points than dimensions"),
        Sub("student", cases(300), fn_student, 400, 20000, "several dimensions or non-normal data")]
