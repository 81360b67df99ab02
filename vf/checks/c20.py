"""C20: Prior is the independent product of its components."""
import math

import numpy as np
import scipy.stats as ss
from hypothesis import strategies as st

from ..core import Sub, require, sut
from .. import models as md

PROPERTY = "C20"
ASSUMPTIONS = ["Component distributions are frozen scipy.stats continuous distributions (or objects with the same three methods)."]
ALPHA = 1e-10


class Tri:
    """A user's own distribution: triangular density on [a, a+w], with the three methods Prior relies on."""

    def __init__(self, a, w):
        self.a, self.w = a, w

    def logpdf(self, x):
        t = (np.asarray(x, float) - self.a) / self.w
        with np.errstate(divide="ignore", invalid="ignore"):
            return np.where((t >= 0) & (t <= 1), np.log(2 * t / self.w), -np.inf)

    def cdf(self, x):
        t = np.clip((np.asarray(x, float) - self.a) / self.w, 0, 1)
        return t * t

    def rvs(self, size=1):
        return self.a + self.w * np.sqrt(1 - np.random.rand(size))

    def support(self):
        return self.a, self.a + self.w


def make_all(specs, share):
    """Component objects; with share, equal components are one and the same object."""
    out, seen = [], {}
    for d in specs:
        k = str(d)
        out.append(seen[k] if share and k in seen else make(d))
        seen[k] = out[-1]
    return out


def make(d):
    if d[0] == "tri":
        return Tri(d[1], d[2])
    if d[0] == "loguniform":
        return ss.loguniform(1e-6, 10.0)
    return md.make_dist(d)


def fn_density(case, ctx):
    import pocomc
    dists = make_all(case["dists"], case.get("share"))
    d = len(dists)
    with sut("Prior"):
        P = pocomc.Prior(dists)
        dim, b = P.dim, np.asarray(P.bounds)
    require(dim == d, f"dim {dim}, {d} components")
    require(b.shape == (d, 2), f"bounds shape {b.shape}")
    for i, D in enumerate(dists):
        lo, hi = D.support()
        require(b[i, 0] == lo and b[i, 1] == hi, lambda: f"bounds of component {i} are {b[i]}, support is {(lo, hi)}")
    rows = []
    for row in case["x"]:
        r = []
        for D, (k, q) in zip(dists, row):
            lo, hi = D.support()
            s = 1.0
            if k == "in":
                r.append(float(D.a + D.w * q if isinstance(D, Tri) else D.ppf(0.001 + 0.998 * q)))
            elif k == "lo":
                r.append(lo if np.isfinite(lo) else -7.0)
            elif k == "hi":
                r.append(hi if np.isfinite(hi) else 7.0)
            elif k == "below":
                r.append(lo - q - 1e-6 * (1 + abs(lo)) if np.isfinite(lo) else -9.0)
            else:
                r.append(hi + q + 1e-6 * (1 + abs(hi)) if np.isfinite(hi) else 9.0)
        rows.append(r)
    x = np.array(rows)
    x0 = x.copy()
    with np.errstate(all="ignore"):
        with sut("logpdf"):
            lp = np.asarray(P.logpdf(x))
        require(np.array_equal(x, x0), "logpdf modified its input")
        require(lp.shape == (len(x),), f"logpdf of {len(x)} rows has shape {lp.shape}")
        n_out = 0
        for a in range(len(x)):
            parts = [float(D.logpdf(x[a, i])) for i, D in enumerate(dists)]
            e = -math.inf if -math.inf in parts else math.fsum(parts)
            if math.isinf(e) and e < 0:
                n_out += 1
                require(lp[a] == -np.inf, lambda: f"point {x[a]} is outside the support of a component, log-density {lp[a]}")
            else:
                require(abs(lp[a] - e) <= 1e-9 * (1 + sum(abs(p) for p in parts)) or lp[a] == e, lambda: f"log-density at {x[a]} is {lp[a]!r}, the components sum to {e!r}")
        # a row's density does not depend on the other rows
        with sut("logpdf of one row"):
            one = np.array([P.logpdf(x[a:a + 1])[0] for a in range(len(x))])
        require(np.all((one == lp) | (np.abs(one - lp) <= 1e-12 * (1 + np.abs(lp)))), "log-density of a row depends on the other rows")
    ctx.label("dim=%d" % d, "outside" if n_out else "all inside")
    ctx.nontrivial(d >= 2)


def fn_draws(case, ctx):
    import pocomc
    dists = make_all(case["dists"], case.get("share"))
    d = len(dists)
    P = pocomc.Prior(dists)
    np.random.seed(case["seed"])
    with sut("rvs"):
        for m in case["sizes"]:
            s = np.asarray(P.rvs(m))
            require(s.shape == (m, d), f"rvs({m}) has shape {s.shape}, dimension {d}")
            require(np.all(np.isfinite(P.logpdf(s))), "a draw has zero density")
        s1 = np.asarray(P.rvs())
        require(s1.shape == (1, d), f"rvs() has shape {s1.shape}")
        n = 1500
        x = np.asarray(P.rvs(n))
        y = np.asarray(P.rvs(n))
    require(x.shape == (n, d), f"rvs({n}) has shape {x.shape}")
    require(np.all(np.isfinite(P.logpdf(x))), "a draw has zero density")
    require(not np.any(x == y) or np.mean(x == y) < 0.01, "two successive sets of draws coincide")
    z = np.empty((n, d))
    for i, D in enumerate(dists):
        p = ss.kstest(x[:, i], D.cdf).pvalue
        require(p > ALPHA, lambda: f"column {i} is not distributed as component {i} (KS p={p:.1e})")
        z[:, i] = np.clip(D.cdf(x[:, i]), 1e-12, 1 - 1e-12)
        require(len(np.unique(x[:, i])) > 0.99 * n, f"column {i} repeats values")
        r = np.corrcoef(z[1:, i], z[:-1, i])[0, 1]
        require(abs(r) < 7 / math.sqrt(n), lambda: f"column {i}: successive draws correlate ({r:.3f})")
    for i in range(d):
        for j in range(i):
            for f in (lambda t: t, lambda t: (t - 0.5) ** 2):
                r = np.corrcoef(f(z[:, i]), f(z[:, j]))[0, 1]
                require(abs(r) < 7 / math.sqrt(n), lambda: f"columns {j} and {i} are not independent (correlation {r:.3f})")
    ctx.label("dim=%d" % d, "repeated component" if len({str(q) for q in case["dists"]}) < d else "distinct components")
    ctx.nontrivial(d >= 2)


D = st.one_of(md.dists(md.ALLK), md.dists(md.ALLK),
              st.tuples(st.sampled_from(["norm", "uniform", "expon", "t"]), st.sampled_from([0.0, 1e8, -1e7]), st.sampled_from([1e3, 1e6])).map(list),
              st.tuples(st.sampled_from(["norm", "uniform", "expon", "t"]), st.just(0.0), st.sampled_from([1e-8, 1e-3])).map(list),
              st.tuples(st.sampled_from(["tri", "loguniform"]), md.q(-3, 3), md.q(0.5, 3)).map(list))
P = st.tuples(st.sampled_from(["in", "in", "in", "in", "in", "in", "lo", "hi", "below", "above"]), md.q(0, 1, 50)).map(list)


@st.composite
def dens(draw):
    ds = draw(st.lists(D, min_size=1, max_size=6))
    if draw(st.integers(0, 9)) == 0:
        ds = (ds * 12)[:draw(st.integers(7, 12))]
    if len(ds) > 1 and draw(st.booleans()):
        ds[-1] = list(ds[0])
    return dict(dists=ds, share=draw(st.booleans()), x=draw(st.lists(st.lists(P, min_size=len(ds), max_size=len(ds)), min_size=1, max_size=5)))


@st.composite
def drw(draw):
    ds = draw(st.lists(D, min_size=1, max_size=5))
    if len(ds) > 1 and draw(st.booleans()):
        ds[-1] = list(ds[0])
    return dict(dists=ds, share=draw(st.booleans()), sizes=draw(st.lists(st.one_of(st.integers(1, 9), st.sampled_from([257, 5000])), max_size=3)), seed=draw(st.integers(0, 10 ** 6)))


SUBS = [Sub("density", dens(), fn_density, 180, 8000, "two or more components"),
        Sub("draws", drw(), fn_draws, 90, 4000, "two or more components")]
