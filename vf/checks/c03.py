"""C03: MCMC kernels leave the tempered posterior invariant; acceptance is exactly Metropolis-Hastings."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from ..core import Inconclusive, Sub, require, sut
from .. import models as md

PROPERTY = "C03"
ASSUMPTIONS = [
    "Walkers start from exact draws (rejection sampling), the proposal geometry is fitted on an independent sample.",
    "Adaptation couples walkers only at order 1/N, far below the z-test threshold (6 sigma on bounded paired statistics).",
]
Z = 6.0


def kernels():
    try:
        from pocomc import mcmc
        return dict(ppcn=mcmc.preconditioned_pcn, prwm=mcmc.preconditioned_rwm, pcn=mcmc.pcn, rwm=mcmc.rwm)
    except (ImportError, AttributeError):
        raise Inconclusive("kernel functions not importable under their documented names")


class Target:
    """Prior and vectorised likelihood with exact sampling from prior * likelihood^beta."""

    def __init__(self, case):
        self.c = case
        self.prior = md.make_prior(case)
        self.m, self.s = md.prior_scale(case["prior"])
        self.log_l, self.log_p = [], []

    def logl(self, x):
        z = (x - self.m) / self.s
        L = self.c["like"]
        w, c, k = L["w"], L["c"], L["kind"]
        y = z - c
        if k == "gauss":
            v = -0.5 * np.sum((y / w) ** 2, axis=1)
        elif k == "laplace":
            v = -np.sum(np.abs(y), axis=1) / w
        elif k == "bimodal":
            v = np.logaddexp(-0.5 * np.sum(((z - .8) / w) ** 2, axis=1), -0.5 * np.sum(((z + .8) / w) ** 2, axis=1)) - math.log(2)
        elif k == "step":
            v = -1.5 * np.minimum(4.0, np.floor(np.sum(np.abs(y), axis=1) / w))
        elif k == "corr":
            v = -0.5 * np.sum((y[:, 1:] - y[:, :-1] ** 2) ** 2, axis=1) / w ** 2 - 0.125 * np.sum(y ** 2, axis=1) / w ** 2
        else:
            v = np.zeros(len(z))
        if L.get("cut") is not None:
            v = np.where(z[:, 0] > L["cut"], -np.inf, v)
        return v

    def draw(self, n, beta):
        out, tries = [], 0
        while sum(map(len, out)) < n:
            x = self.prior.rvs(4 * n)
            l = self.logl(x)
            with np.errstate(invalid="ignore"):
                a = np.where(np.isfinite(l), beta * np.where(np.isfinite(l), l, 0.0), -np.inf)
            out.append(x[np.log(np.random.rand(len(x))) < a])
            tries += 1
            if tries > 60:
                raise Inconclusive("rejection sampler too slow")
        return np.concatenate(out)[:n]

    # handed to the kernel
    def loglike(self, x):
        self.log_l.append(np.array(x, copy=True))
        l = self.logl(x) if not self.c.get("frozen") else np.full(len(x), -np.inf)
        if self.c.get("blob"):
            return l, np.stack([np.sin(x[:, 0]), np.cos(x[:, -1])], axis=1)
        return l, None

    def logprior(self, x):
        self.log_p.append(np.array(x, copy=True))
        return self.prior.logpdf(x)


def random_flow(case, dim):
    import pocomc
    f = md.make_flow(case["flow"], dim, case["seed"])
    fl = pocomc.Flow(dim, f)
    g = torch.Generator().manual_seed(case["seed"])
    with torch.no_grad():
        for p in fl.flow.parameters():
            p.add_(case["fpert"] * torch.randn(p.shape, generator=g))
    return fl


class Geo:
    pass


def setup(case, n):
    import pocomc
    from pocomc.geometry import Geometry
    T = Target(case)
    d = T.prior.dim
    beta = case["beta"]
    aux = T.draw(400, beta)
    with sut("fit the transformation"):
        sc = pocomc.Reparameterize(d, bounds=T.prior.bounds, transform=case["transform"],
                                   periodic=case.get("periodic"), reflective=case.get("reflective"))
        sc.fit(T.prior.rvs(500))
        x = T.draw(n, beta)
        u = sc.forward(x)
        x, ldj = sc.inverse(u)            # the recorded point is the image of its latent coordinates
        ua = sc.forward(aux)
    pre = case["kernel"].startswith("p") and case["kernel"] != "pcn"
    flow = None
    if pre:
        from pocomc.tools import flow_numpy_wrapper
        flow = random_flow(case, d)
        u = u.astype(np.float32).astype(float)
        x, ldj = sc.inverse(u)
        ta, _ = flow_numpy_wrapper(flow).forward(ua)
    else:
        ta = ua
    rng = np.random.RandomState(case["seed"])
    C = np.atleast_2d(np.cov(ta.T))
    A = rng.randn(d, d) * case["gmis"]
    g = Geometry()
    sd = np.sqrt(np.diag(C))
    g.t_mean = ta.mean(axis=0) + case["gmis"] * rng.randn(d) * sd
    g.t_cov = C * case["gscale"] + np.diag(sd) @ A @ A.T @ np.diag(sd)
    g.t_nu = case["nu"]
    g.normal_mean, g.normal_cov = g.t_mean.copy(), g.t_cov.copy()
    lp = T.prior.logpdf(x)
    ll = T.logl(x)
    ok = np.isfinite(lp) & np.isfinite(ll)
    u, x, ldj, lp, ll = u[ok], x[ok], ldj[ok], lp[ok], ll[ok]
    if len(u) < 0.9 * n:
        raise Inconclusive("too many starting points on the edge")
    blobs = np.stack([np.sin(x[:, 0]), np.cos(x[:, -1])], axis=1) if case.get("blob") else None
    T.log_l.clear(), T.log_p.clear()
    state = dict(u=u.copy(), x=x.copy(), logdetj=ldj.copy(), logp=lp.copy(), logl=ll.copy(), beta=beta,
                 blobs=None if blobs is None else blobs.copy())
    funcs = dict(loglike=T.loglike, logprior=T.logprior, scaler=sc, flow=flow, u_geometry=g, theta_geometry=g)
    return T, sc, flow, g, state, funcs, pre


def opts(case, n_max):
    return dict(n_max=n_max, n_steps=10 ** 6, progress_bar=None, proposal_scale=case["scale"])


def zstat(d):
    nz = int(np.sum(d != 0))
    if nz < 60:
        return 0.0
    return float(np.mean(d) / (np.std(d) / math.sqrt(len(d)) + 1e-300))


def stats_of(u, logl, center, spread):
    z = np.tanh((u - center) / spread)
    out = {}
    d = u.shape[1]
    for i in range(d):
        out[f"tanh u{i}"] = z[:, i]
        out[f"tanh^2 u{i}"] = z[:, i] ** 2
        out[f"lower tail u{i}"] = (z[:, i] < np.tanh(-1.2)).astype(float)
        out[f"upper tail u{i}"] = (z[:, i] > np.tanh(1.2)).astype(float)
        for j in range(i):
            out[f"u{i}*u{j}"] = z[:, i] * z[:, j]
    out["logl"] = logl
    return out


def fn_invariance(case, ctx):
    K = kernels()
    n = 2500 if ctx.tier == "quick" else 6000
    T, sc, flow, g, state, funcs, pre = setup(case, n)
    u0, l0 = state["u"].copy(), state["logl"].copy()
    with sut(f"kernel {case['kernel']}"):
        r = K[case["kernel"]](state, funcs, opts(case, case["moves"]))
    require(r["steps"] == case["moves"], lambda: f"{r['steps']} sweeps performed, limit {case['moves']}, no early stop possible")
    c, s = np.median(u0, axis=0), np.std(u0, axis=0)
    lc, ls = np.median(l0), np.std(l0) + 1e-9
    a = stats_of(u0, np.tanh((l0 - lc) / ls), c, s)
    b = stats_of(r["u"], np.tanh((r["logl"] - lc) / ls), c, s)
    worst = max(a, key=lambda k: abs(zstat(b[k] - a[k])))
    zw = zstat(b[worst] - a[worst])
    moved = float(np.mean(np.any(r["u"] != u0, axis=1)))
    require(abs(zw) < Z, lambda: f"{case['kernel']} at beta={case['beta']} does not preserve the target: "
            f"mean of {worst} moved by {np.mean(b[worst] - a[worst]):.4f} ({zw:.1f} sigma) over {case['moves']} moves of {len(u0)} exact draws")
    require(np.all(np.isfinite(r["logl"])), "a walker moved into a zero-likelihood region")
    ctx.label(case["kernel"], "moves=%d" % case["moves"], "moved" if moved > 0.1 else "stuck", case["transform"],
              "prior=" + case["prior"]["kind"], "beta=0" if case["beta"] == 0 else "beta=1" if case["beta"] == 1 else "0<beta<1")
    ctx.nontrivial(moved > 0.1)


def mh_ratio(case, T, sc, flow, g, pre, u, J, lp, ll, xp, mu):
    """Reference log Metropolis-Hastings ratio of proposals xp from walkers at u."""
    with np.errstate(all="ignore"):
        up = sc.forward(np.clip(xp, sc.low, sc.high), check_input=False)
        Jp = sc.inverse(up)[1]
        lpp = T.prior.logpdf(xp)
        llp = np.where(np.isfinite(lpp), T.logl(xp), -np.inf)
        lr = np.where(np.isfinite(llp), case["beta"] * (np.where(np.isfinite(llp), llp, 0) - ll), -np.inf) + lpp - lp + Jp - J
        th, thp = u, up
        if pre:
            t0, d0 = flow.forward(torch.tensor(u, dtype=torch.float32))
            t1, d1 = flow.forward(torch.tensor(up, dtype=torch.float32))
            th, thp = t0.detach().numpy().astype(float), t1.detach().numpy().astype(float)
            lr = lr - d1.detach().numpy() + d0.detach().numpy()
        if case["kernel"] in ("pcn", "ppcn"):
            iS = np.linalg.inv(g.t_cov)
            d = u.shape[1]

            def q(y):
                e = y - mu
                return -(d + g.t_nu) / 2 * np.log1p(np.einsum("ki,ij,kj->k", e, iS, e) / g.t_nu)
            lr = lr - q(thp) + q(th)
    return np.where(np.isnan(lr), -np.inf, lr), up, llp, th


def fn_accept(case, ctx):
    """The last of some sweeps: reported acceptance and actual acceptances against the reference MH probability."""
    K = kernels()
    n = 500
    T, sc, flow, g, state, funcs, pre = setup(case, n)
    n = len(state["u"])
    k = case["moves"]
    mu = [g.t_mean]

    def copy_state():
        return {a: v.copy() if isinstance(v, np.ndarray) else v for a, v in state.items()}
    start = copy_state()
    if k > 1:                 # the state before the last sweep: the same stream, one sweep less
        st1 = np.random.get_state()
        with sut(f"kernel {case['kernel']}"):
            r1 = K[case["kernel"]](copy_state(), funcs, opts(case, k - 1))
        require(r1["steps"] == k - 1, lambda: f"{r1['steps']} sweeps performed, limit {k - 1}, no early stop possible")
        start = {a: np.array(r1[a]) for a in ("u", "x", "logp", "logl", "logdetj")}
        np.random.set_state(st1)
        T.log_p.clear(), T.log_l.clear()
    u, x, lp, ll = start["u"].copy(), start["x"].copy(), start["logp"].copy(), start["logl"].copy()
    J = sc.inverse(u)[1]
    with sut(f"kernel {case['kernel']}"):
        r = K[case["kernel"]](copy_state(), funcs, opts(case, k))
    xp = np.concatenate(T.log_p) if T.log_p else np.zeros((0, x.shape[1]))
    if len(xp) != n * k:
        raise Inconclusive("some proposals were not finite")
    xp = xp[-n:]
    lr, up, llp, th = mh_ratio(case, T, sc, flow, g, pre, u, J, lp, ll, xp, g.t_mean)
    edge = ~np.isfinite(up).all(axis=1) | (np.abs(up) > 8).any(axis=1)
    alpha = np.exp(np.minimum(lr, 0.0))
    tol = 2e-3 if pre else 1e-6
    tol += float(np.mean(edge))
    if case["kernel"] == "ppcn" and k > 1:
        # this kernel moves its centre between sweeps; where to is its own business
        if k > 2:
            raise Inconclusive("unknown centre of the reference distribution")
        fits = []
        for c in np.linspace(0, 1, 21):
            lr2 = mh_ratio(case, T, sc, flow, g, pre, u, J, lp, ll, xp, g.t_mean + c * (th.mean(axis=0) - g.t_mean))[0]
            a2 = np.exp(np.minimum(lr2, 0.0))
            fits.append((abs(float(r["accept"]) - a2.mean()), c, lr2, a2))
        best = min(fits, key=lambda f: f[0] + 1e-4 * abs(f[1] - 0.5))
        lr, alpha = best[2], best[3]
        tol += 0.003
    require(abs(float(r["accept"]) - alpha.mean()) <= tol,
            lambda: f"{case['kernel']}, sweep {k}: reported acceptance {float(r['accept'])!r}, mean Metropolis-Hastings probability of the proposals is {alpha.mean()!r}")
    acc = np.all(r["x"] == xp, axis=1)
    stay = np.all(r["x"] == x, axis=1)
    odd = ~(acc | stay)
    if pre or case.get("periodic") or case.get("reflective"):
        odd &= ~np.all(np.isclose(r["x"], xp, rtol=1e-6), axis=1)
    require(not odd.any(), "a walker is neither at its old point nor at its proposal")
    acc = acc & ~stay
    sel = ~edge
    require(not np.any(acc[sel] & (alpha[sel] == 0)), "a proposal with zero acceptance probability was accepted")
    if not pre:
        require(np.all(acc[sel][lr[sel] > 1e-9]), lambda: "a proposal with acceptance probability one was rejected")
    for nm, wt in (("count", np.ones(n)), ("alpha-weighted", alpha), ("uphill/downhill", np.sign(lr)),
                   ("logl-weighted", np.tanh(np.where(np.isfinite(llp), llp - ll, -1)))):
        v = np.sum((wt ** 2 * alpha * (1 - alpha))[sel])
        if v < 8:
            continue
        z = np.sum((wt * (acc - alpha))[sel]) / math.sqrt(v + (1.0 if pre else 0.0))
        require(abs(z) < Z, lambda: f"{case['kernel']}, sweep {k}: acceptances deviate from the Metropolis-Hastings probabilities ({nm}: {z:.1f} sigma)")
    ctx.label(case["kernel"], case["transform"], "prior=" + case["prior"]["kind"], "sweep %d" % k)
    ctx.nontrivial(0.02 < alpha.mean() < 0.999)


class TPrior:
    """Multivariate t in latent (or flow-latent) space: the Crank-Nicolson reference measure itself."""

    def __init__(self, d, mu, cov, nu, flow):
        import scipy.stats as ss
        self.d, self.flow = d, flow
        self.mv = ss.multivariate_t(mu, cov, df=nu)

    def to_theta(self, x):
        if self.flow is None:
            return x, np.zeros(len(x))
        t, ld = self.flow.forward(torch.tensor(x, dtype=torch.float32))
        return t.detach().numpy().astype(float), ld.detach().numpy().astype(float)

    def logpdf(self, x):
        t, ld = self.to_theta(x)
        return np.atleast_1d(self.mv.logpdf(t)) + ld


def fn_matched(case, ctx):
    """Target equal to the kernel's own reference t distribution: every proposal must be accepted and the law kept."""
    import pocomc
    from pocomc.geometry import Geometry
    K = kernels()
    n = 2500 if ctx.tier == "quick" else 6000
    d, nu = case["dim"], case["nu"]
    pre = case["kernel"] == "ppcn"
    rng = np.random.RandomState(case["seed"])
    A = rng.randn(d, d) * 0.5
    cov = A @ A.T + np.diag(0.3 + rng.rand(d))
    mu = rng.randn(d)
    flow = random_flow(case, d) if pre else None
    P = TPrior(d, mu, cov, nu, flow)
    theta = np.atleast_2d(P.mv.rvs(n, random_state=rng)).reshape(n, d)
    if pre:
        u = flow.inverse(torch.tensor(theta, dtype=torch.float32))[0].detach().numpy().astype(float)
        theta = P.to_theta(u)[0]
    else:
        u = theta
    sc = pocomc.Reparameterize(d, bounds=np.array([[-np.inf, np.inf]] * d), scale=False)
    g = Geometry()
    g.t_mean, g.t_cov, g.t_nu = mu, cov, nu
    state = dict(u=u.copy(), x=u.copy(), logdetj=np.zeros(n), logp=P.logpdf(u), logl=np.zeros(n), beta=case["beta"], blobs=None)
    funcs = dict(loglike=lambda x: (np.zeros(len(x)), None), logprior=P.logpdf, scaler=sc, flow=flow, u_geometry=g, theta_geometry=g)
    with sut("kernel"):
        r = K[case["kernel"]](state, funcs, opts(case, 1))
    require(float(r["accept"]) > (0.97 if pre else 1 - 1e-8),
            lambda: f"{case['kernel']}: acceptance {float(r['accept'])!r} on its own reference distribution, which should be 1")
    t1 = P.to_theta(r["u"])[0]
    import scipy.stats as ss
    W = np.linalg.inv(np.linalg.cholesky(cov))
    z0, z1 = (theta - mu) @ W.T, (t1 - mu) @ W.T
    # exact laws: each coordinate is t_nu; squared radius / d is F(d, nu); the pair is exchangeable
    tests = {f"coordinate {i}": ss.kstest(z1[:, i], ss.t(nu).cdf).pvalue for i in range(d)}
    q0, q1 = np.sum(z0 ** 2, axis=1) / d, np.sum(z1 ** 2, axis=1) / d
    tests["radius"] = ss.kstest(q1, ss.f(d, nu).cdf).pvalue
    worst = min(tests, key=tests.get)
    require(tests[worst] > 1e-9, lambda: f"{case['kernel']} does not preserve its reference t distribution: {worst} KS p={tests[worst]:.1e}")
    f0, f1 = ss.f(d, nu).cdf(q0), ss.f(d, nu).cdf(q1)
    ex = (f0 - 0.5) ** 2 * (f1 - 0.5) - (f1 - 0.5) ** 2 * (f0 - 0.5)
    h0, h1 = np.tanh(z0[:, 0]), np.tanh(z1[:, 0])
    ex2 = h0 ** 2 * h1 - h1 ** 2 * h0
    ex3 = h0 ** 2 * f1 - h1 ** 2 * f0
    for nm, e in (("radius", ex), ("coordinate", ex2), ("mixed", ex3)):
        require(abs(zstat(e)) < Z, lambda: f"{case['kernel']}: moves are not reversible on the reference t distribution ({nm}, {zstat(e):.1f} sigma)")
    ctx.label(case["kernel"], f"dim={d}")
    ctx.nontrivial()


@st.composite
def cases(draw, ks):
    k = draw(st.sampled_from(ks))
    pre = k in ("ppcn", "prwm")
    c = draw(md.configs(max_dim=3, blobs=False, boundary=True, modes=("serial",)))
    like = c["like"]
    like["w"] = draw(md.q(0.6, 2.0))
    like["kind"] = draw(st.sampled_from(["gauss", "laplace", "bimodal", "step", "corr", "flat"]))
    if md.prior_dim(c["prior"]) == 1 and like["kind"] == "corr":
        like["kind"] = "gauss"
    d = md.prior_dim(c["prior"])
    out = dict(kernel=k, prior=c["prior"], like=like, transform=c["transform"], beta=draw(st.sampled_from([1.0, 0.0, 0.05, 0.3, 0.7, 1.0])),
               nu=draw(st.sampled_from([3.0, 1.5, 8.0, 40.0, 1e6])), gmis=draw(st.sampled_from([0.0, 0.2, 0.6])),
               gscale=draw(st.sampled_from([1.0, 0.5, 2.0])), scale=draw(st.sampled_from([0.3, 0.6, 0.9, 1.5])) if "pcn" in k else draw(st.sampled_from([0.5, 1.0, 2.0])) * 2.38 / d ** 0.5,
               moves=draw(st.sampled_from([1, 2, 4])), blob=draw(st.booleans()), seed=draw(st.integers(0, 10 ** 6)))
    for b in ("periodic", "reflective"):
        if c.get(b):
            out[b] = c[b]
    if pre:
        out["flow"] = draw(st.sampled_from(["maf1", "nsf1", "maf2"]))
        out["fpert"] = draw(st.sampled_from([0.0, 0.15, 0.3, 0.6]))
    return out


@st.composite
def matched(draw):
    k = draw(st.sampled_from(["pcn", "ppcn"]))
    return dict(kernel=k, dim=draw(st.integers(1, 4)), nu=draw(st.sampled_from([2.5, 1.0, 5.0, 20.0])), scale=draw(st.sampled_from([0.3, 0.6, 0.9, 1.5])),
                beta=draw(st.sampled_from([0.0, 0.5, 1.0])), flow=draw(st.sampled_from(["maf1", "nsf1"])), fpert=draw(st.sampled_from([0.1, 0.3])),
                seed=draw(st.integers(0, 10 ** 6)))


SUBS = [Sub("accept", cases(["pcn", "rwm", "ppcn", "prwm"]), fn_accept, 110, 3000, "mean acceptance strictly between 2% and 99.9%"),
        Sub("matched", matched(), fn_matched, 30, 600, "every case: all walkers move"),
        Sub("invariance", cases(["pcn", "rwm", "ppcn", "prwm"]), fn_invariance, 90, 2000, "more than 10% of the walkers moved")]
