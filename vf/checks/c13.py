"""C13: the parameter transformation is a bijection with exact Jacobian."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, require, sut
from .. import models as md
from ..ref import fwd1, inv1, kind_of

PROPERTY = "C13"
ASSUMPTIONS = ["Equality is up to floating-point error propagated through the map's conditioning at the point."]
EPS = np.finfo(float).eps


def bounds_of(case):
    out = []
    for k, lo, w in case["dims"]:
        out.append({"none": (-np.inf, np.inf), "left": (lo, np.inf), "right": (-np.inf, lo), "both": (lo, round(lo + w, 9))}[k])
    return np.array(out)


def place(frac, v, lo, hi, unit=1.0):
    """A parameter value inside the bounds: exact fractions for two-sided, exponential distances for one-sided."""
    k = kind_of(lo, hi)
    if k == "both":
        return min(max(lo + frac * (hi - lo), lo), hi)
    if k == "left":
        return lo + (0.0 if frac == 0.0 else np.exp(v))
    if k == "right":
        return hi - (0.0 if frac == 0.0 else np.exp(v))
    return 3.0 * v * unit


def fn(case, ctx):
    from pocomc.scaler import Reparameterize
    B = bounds_of(case)
    d = len(B)
    rng = np.random.RandomState(case["seed"])
    n = case["n"] + 3 * d
    # training data: spread over the bounds; unbounded parameters come in units of very different size
    unit = [w if case["diagonal"] else 1.0 for _, _, w in case["dims"]]
    train = np.empty((n, d))
    for i, (lo, hi) in enumerate(B):
        f = rng.beta(case["shape"], 1.5, size=n)
        v = rng.randn(n) * case["spread"]
        train[:, i] = [place(a, b, lo, hi, unit[i]) for a, b in zip(f, v)]
        if case["onbound"] and case["diagonal"] and kind_of(lo, hi) != "none":
            train[0, i] = lo if np.isfinite(lo) else hi
    arg = B
    if case["bounds"] == "None":
        B, arg = np.array([[-np.inf, np.inf]] * d), None
        train = rng.randn(n, d) * 3
    elif case["bounds"] == "pair":
        a, w = case["dims"][0][1:]
        B = np.tile(np.array([[a, a + w]]), (d, 1))
        arg = [(a, a + w), [a, a + w], np.array([a, a + w])][case["seed"] % 3]
        train = np.clip(a + w * rng.beta(2, 2, size=(n, d)), a, a + w)
    t0 = train.copy()
    with sut("construct and fit"):
        sc = Reparameterize(d, bounds=arg, transform=case["transform"], scale=case["scale"], diagonal=case["diagonal"])
        sc.fit(train)
        ut = sc.forward(train)
    require(np.array_equal(train, t0), "fit or forward modified the data")
    require(ut.shape == train.shape and np.all(np.isfinite(ut)), lambda: f"training data have non-finite latent coordinates {ut[~np.isfinite(ut)][:3]}")
    # reference affine map
    raw = np.stack([clipfwd(train[:, i], lo, hi, case["transform"]) for i, (lo, hi) in enumerate(B)], axis=1)
    mu = raw.mean(axis=0)
    if not case["scale"]:
        mu, L = np.zeros(d), np.eye(d)
        cond = 1.0
    elif case["diagonal"]:
        sd = raw.std(axis=0)
        if case["onbound"]:
            # where exactly a point on a bound sits in latent space is the implementation's choice: read the standardisation
            # off the interior training points
            for i in range(d):
                a, b = 1 + np.argmin(raw[1:, i]), 1 + np.argmax(raw[1:, i])
                sd[i] = (raw[b, i] - raw[a, i]) / (ut[b, i] - ut[a, i])
                mu[i] = raw[a, i] - sd[i] * ut[a, i]
        L = np.diag(sd)
        cond = 1e3 if case["onbound"] else 1.0
    else:
        C = np.atleast_2d(np.cov(raw.T))
        L = np.linalg.cholesky(C)
        cond = float(np.linalg.cond(L)) ** 2
    if case["scale"]:
        tol = 1e-7 * cond + 1e-9
        m = ut.mean(axis=0)
        require(np.all(np.abs(m) < tol), lambda: f"rescaled training data have mean {m}")
        V = np.atleast_2d(np.cov(ut.T))
        vd = np.diag(V)
        ok = [abs(x - 1) < tol or abs(x * (n - 1) / n - 1) < tol for x in vd]
        require(all(ok), lambda: f"rescaled training data have variances {vd}")
        if not case["diagonal"] and cond < 1e6:
            off = V - np.diag(vd)
            require(np.all(np.abs(off) < 1e-6 * cond), lambda: f"fully rescaled training data are correlated: {off}")

    # ---- parameters -> latent -> parameters
    x = np.array([[place(f, v, lo, hi, un) for (f, v), (lo, hi), un in zip(row, B, unit)] for row in case["x"]]) if case["bounds"] == "list" else \
        B[:, 0] + (B[:, 1] - B[:, 0]) * np.array([[f for f, v in row] for row in case["x"]])[:, :d] if case["bounds"] == "pair" else \
        np.array([[3 * v for f, v in row] for row in case["x"]])[:, :d] if case["bounds"] == "None" else \
        np.array([[place(f, v, lo, hi, un) for (f, v), (lo, hi), un in zip(row, B, unit)] for row in case["x"]])
    x = np.minimum(np.maximum(x, B[:, 0]), B[:, 1])
    x = np.tile(x, (case.get("rep", 1), 1))
    x0 = x.copy()
    with sut("forward"):
        u = sc.forward(x)
    require(np.array_equal(x, x0), "forward modified its input")
    require(np.all(np.isfinite(u)), lambda: f"in-bounds point {x[np.argwhere(~np.isfinite(u))[0][0]]} has latent coordinates {u[np.argwhere(~np.isfinite(u))[0][0]]}")
    u0 = u.copy()
    with sut("inverse"):
        xr, J = sc.inverse(u)
    require(np.array_equal(u, u0), "inverse modified its input")
    require(xr.shape == x.shape and np.shape(J) == (len(x),), lambda: f"shapes {xr.shape} {np.shape(J)}")
    rv = np.stack([clipfwd(x[:, i], lo, hi, case["transform"]) for i, (lo, hi) in enumerate(B)], axis=1)
    size = np.abs(rv) + np.abs(mu)
    if not case["diagonal"] and case["scale"]:
        size = np.max(size, axis=1, keepdims=True) * np.ones((1, d)) + np.abs(u) @ np.abs(L).T
    dv = 64 * d * EPS * cond * size
    for i, (lo, hi) in enumerate(B):
        k = kind_of(lo, hi)
        sl = slope(rv[:, i], dv[:, i], lo, hi, case["transform"])
        tol = 64 * EPS * np.maximum(np.abs(x[:, i]), max([abs(b) for b in (lo, hi) if np.isfinite(b)] or [0])) + sl * dv[:, i]
        tol = tol + (4 * EPS * (hi - lo) if k == "both" else 4e-308)
        err = np.abs(xr[:, i] - x[:, i])
        bad = np.argwhere(~(err <= tol))
        require(len(bad) == 0, lambda: f"{k}-bounded parameter {x[bad[0][0], i]!r} in [{lo}, {hi}] comes back as {xr[bad[0][0], i]!r} (u={u[bad[0][0], i]!r})")

    # ---- latent -> parameters -> latent, Jacobian, bounds
    U = np.tile(np.array([[v for v in row[:d]] for row in case["u"]]), (case.get("rep", 1), 1))
    V = mu + U @ L.T
    V = np.clip(V, -600, 600)
    if case["scale"] and case["diagonal"] or not case["scale"]:
        U = (V - mu) / np.diag(L)
    Uc = U.copy()
    with sut("inverse"):
        X, J = sc.inverse(U)
    require(np.array_equal(U, Uc), "inverse modified its input")
    with np.errstate(all="ignore"):
        big = np.maximum(np.maximum(np.where(np.isfinite(B[:, 0]), np.abs(B[:, 0]), 0), np.where(np.isfinite(B[:, 1]), np.abs(B[:, 1]), 0)), 1e-300)
        inb = (X >= B[:, 0]) & (X <= B[:, 1])
    require(np.all(inb), lambda: f"latent point {U[np.argwhere(~inb)[0][0]]} lands at {X[np.argwhere(~inb)[0][0]]}, outside the bounds")
    V = mu + U @ L.T
    Jr = np.full(len(U), np.linalg.slogdet(L)[1])
    Xr = np.empty_like(X)
    for i, (lo, hi) in enumerate(B):
        Xr[:, i], j, _ = inv1(V[:, i], lo, hi, case["transform"])
        Jr = Jr + j
    sens = np.sum((1 + np.abs(V)) * (np.abs(V) + np.abs(mu)) * np.array([0.0 if kind_of(*b) == "none" else 1.0 for b in B]), axis=1)
    tolJ = 1e-12 * cond * (1 + np.abs(Jr)) + 256 * d * EPS * cond * (1 + sens) * (1 + np.max(np.abs(V), axis=1))
    bad = np.argwhere(~(np.abs(J - Jr) <= tolJ))
    require(len(bad) == 0, lambda: f"log-Jacobian at u={U[bad[0][0]]} is {J[bad[0][0]]!r}, the map's derivative gives {Jr[bad[0][0]]!r}")
    with sut("forward of inverse"):
        Xc = np.clip(X, B[:, 0], B[:, 1])
        U2 = sc.forward(Xc)
    dvv = np.zeros_like(V)
    for i, (lo, hi) in enumerate(B):
        k = kind_of(lo, hi)
        xs = np.maximum(np.abs(X[:, i]), big[i])
        if k == "both" and lo == 0:                     # close to zero, parameters keep their relative precision
            xs = np.where(V[:, i] < 0, np.maximum(np.abs(X[:, i]), 1e-290), xs)
        with np.errstate(all="ignore"):
            _, lj, _ = inv1(V[:, i], lo, hi, case["transform"])
            dvv[:, i] = 64 * EPS * (np.abs(V[:, i]) + abs(mu[i])) * cond + 64 * EPS * xs / np.exp(lj)
            if k == "none":
                dvv[:, i] = 64 * EPS * (np.abs(V[:, i]) + abs(mu[i])) * cond
    good = np.all(dvv < 1e-4, axis=1)
    Linv = np.linalg.inv(L)
    tolU = dvv @ np.abs(Linv).T * 4 + 64 * d * EPS * cond * (np.abs(U) + np.abs(mu) @ np.abs(Linv).T)
    if not case["diagonal"]:
        tolU = np.max(tolU, axis=1, keepdims=True) * cond * np.ones((1, d))
    bad = np.argwhere(good[:, None] & ~(np.abs(U2 - U) <= tolU))
    require(len(bad) == 0, lambda: f"latent point {U[bad[0][0]]} comes back as {U2[bad[0][0]]}")

    # ---- numerical derivative of the map itself
    small = np.all(np.abs(V) < 4, axis=1)
    if np.any(small) and cond < 1e4:
        i0 = int(np.argwhere(small)[0][0])
        h = 1e-4
        Jm = np.empty((d, d))
        with sut("inverse"):
            for j in range(d):
                e = np.zeros(d)
                e[j] = h
                a, b = sc.inverse((U[i0] + e)[None])[0][0], sc.inverse((U[i0] - e)[None])[0][0]
                Jm[:, j] = (a - b) / (2 * h)
        sl, ld = np.linalg.slogdet(Jm)
        noise = float(np.sum(EPS * big / (h * np.maximum(np.abs(np.diag(Jm)), 1e-300))))
        if noise < 1e-5:
            curv = float(np.max(np.abs(L)) ** 2) * (1 + float(np.max(np.abs(V[i0])))) ** 2
            tol = 1e-6 + 10 * noise + 100 * d * h * h * curv
            require(tol > 0.5 or abs(ld - J[i0]) < tol, lambda: f"log-Jacobian {J[i0]!r} at u={U[i0]}, numerical derivative gives {ld!r}")
            ctx.label("numerical derivative")
    kinds = {kind_of(*b) for b in B}
    ctx.label(*("bound:" + k for k in kinds), case["transform"], "scale" if case["scale"] else "raw", "diag" if case["diagonal"] else "full", "bounds:" + case["bounds"])
    ctx.nontrivial(kinds != {"none"})


def clipfwd(x, lo, hi, t):
    k = kind_of(lo, hi)
    with np.errstate(all="ignore"):
        if k == "none":
            return np.asarray(x, float)
        if k == "left":
            return np.log(np.maximum(x - lo, 2.3e-308))
        if k == "right":
            return np.log(np.maximum(hi - x, 2.3e-308))
        p = np.clip((x - lo) / (hi - lo), 2.3e-308, 1 - EPS / 2)
        return fwd1(p, 0.0, 1.0, t)


def slope(v, dv, lo, hi, t):
    """bound on |dx/dv| within dv of v"""
    k = kind_of(lo, hi)
    if k == "none":
        return np.ones_like(v)
    if k in ("left", "right"):
        return np.exp(np.minimum(v + dv, 700))
    return np.full_like(v, 0.4 * (hi - lo))


FR = st.one_of(md.q(0, 1, 200), st.sampled_from([0.0, 1.0, 1e-3, 1e-9, 1e-13, 1e-17, 1e-40, 1 - 1e-9, 1 - 1e-15]))
VV = st.one_of(md.q(-6, 6, 240), st.sampled_from([-30.0, 12.0, -80.0]))
LO = st.one_of(md.q(-5, 5), md.q(-5, 5, 100), st.sampled_from([0.0, 1000.0, -1e5, 1e-3]))
WI = st.one_of(md.q(0.5, 8), md.q(0.1, 8, 79), st.sampled_from([1.0, 1e-3, 1e4, 6.283185307179586]))
DIM = st.tuples(st.sampled_from(["none", "left", "right", "both", "both"]), LO, WI).map(list)


@st.composite
def cases(draw):
    dims = draw(st.lists(DIM, min_size=1, max_size=5))
    d = len(dims)
    return dict(dims=dims, transform=draw(st.sampled_from(["probit", "logit"])), scale=draw(st.sampled_from([True, True, True, False])),
                diagonal=draw(st.sampled_from([True, True, False])), bounds=draw(st.sampled_from(["list"] * 8 + ["None", "pair"])),
                n=draw(st.one_of(st.integers(4, 60), st.integers(4, 60), st.integers(4, 60), st.integers(61, 900))), shape=draw(st.sampled_from([1.0, 1.5, 4.0])), spread=draw(st.sampled_from([0.3, 1.0, 3.0])),
                onbound=draw(st.booleans()), rep=draw(st.sampled_from([1] * 11 + [367])), seed=draw(st.integers(0, 10 ** 6)),
                x=draw(st.lists(st.lists(st.tuples(FR, VV).map(list), min_size=d, max_size=d), min_size=1, max_size=4)),
                u=draw(st.lists(st.lists(st.one_of(md.q(-4, 4, 160), st.sampled_from([30.0, -30.0, 45.0, -45.0, 9.0])), min_size=d, max_size=d), min_size=1, max_size=4)))


SUBS = [Sub("map", cases(), fn, 400, 20000, "at least one bounded parameter")]
