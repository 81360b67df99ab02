"""C14: periodic and reflective boundary conditions fold correctly."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, require, sut
from .. import models as md
from . import c03

PROPERTY = "C14"
ASSUMPTIONS = ["Points are at most 50 widths outside; folded values are compared up to the rounding of repeated additions."]
EPS = np.finfo(float).eps


def fn_fold(case, ctx):
    from pocomc.scaler import Reparameterize
    B = np.array([{"none": (-np.inf, np.inf), "left": (lo, np.inf), "right": (-np.inf, lo)}.get(k, (lo, lo + w)) for k, lo, w in case["dims"]])
    d = len(B)
    per = [i for i in range(d) if case["dims"][i][0] == "p"]
    ref = [i for i in range(d) if case["dims"][i][0] == "r"]
    x = np.empty((len(case["x"]), d))
    for a, row in enumerate(case["x"]):
        for i, (k, fr) in enumerate(row):
            lo, hi = B[i]
            w = case["dims"][i][2]
            base = lo if np.isfinite(lo) else hi if np.isfinite(hi) else 0.0
            if k == "lo" and np.isfinite(lo):
                x[a, i] = lo
            elif k == "hi" and np.isfinite(hi):
                x[a, i] = hi
            elif k == "ulp":
                x[a, i] = np.nextafter(hi if np.isfinite(hi) else base, np.inf)
            elif k == "ulp-":
                x[a, i] = np.nextafter(lo if np.isfinite(lo) else base, -np.inf)
            else:
                x[a, i] = base + fr * w
    x = np.tile(x, (case.get("rep", 1), 1))
    kw = dict(periodic=per or (None if case["empty"] else []), reflective=ref or (None if case["empty"] else []))
    with sut("construct"):
        sc = Reparameterize(d, bounds=B, transform=case["transform"], **kw)
    x0 = x.copy()
    with sut("apply_boundary_conditions_x"):
        y = np.array(sc.apply_boundary_conditions_x(x), copy=True)
        y2 = np.array(sc.apply_boundary_conditions_x(y), copy=True)
    require(np.array_equal(x, x0), "the input array was modified")
    require(y.shape == x.shape, f"shape {y.shape}")
    n_folded = 0
    for i in range(d):
        lo, hi = B[i]
        for a in range(len(x)):
            v, r = x[a, i], y[a, i]
            if i not in per and i not in ref or lo <= v <= hi:
                require(r == v, lambda: f"parameter {i} ({case['dims'][i][0]}): in-range or unaffected value {v!r} became {r!r}")
                continue
            n_folded += 1
            w = hi - lo
            k = abs(v - lo) / w + 2
            tol = 8 * EPS * k * (abs(v) + abs(lo) + abs(hi)) + 4 * EPS * w
            require(lo <= r <= hi, lambda: f"parameter {i} ({case['dims'][i][0]}): {v!r} folded to {r!r}, outside [{lo}, {hi}]")
            if i in per:
                m = (v - r) / w
                require(abs(m - round(m)) * w <= tol, lambda: f"periodic parameter {i}: {v!r} moved to {r!r}, {m} periods of {w}")
            else:
                t = (v - lo) % (2 * w)
                e = lo + (t if t <= w else 2 * w - t)
                require(abs(r - e) <= tol, lambda: f"reflective parameter {i}: {v!r} moved to {r!r}, mirror image in [{lo}, {hi}] is {e!r}")
    require(np.array_equal(y, y2), "folding a folded point changes it")
    ctx.label("folded" if n_folded else "in range", "both kinds" if per and ref else "periodic" if per else "reflective" if ref else "neither")
    ctx.nontrivial(n_folded > 0)


def fn_run(cfg, ctx):
    md.drop_logs()
    s, prior, like = md.build(cfg)
    md.run_sut(s, cfg, prior, like)
    r = s.results
    B = prior.bounds
    x = r["x"].reshape(-1, len(B))
    require(np.all((x >= B[:, 0]) & (x <= B[:, 1])), "recorded parameter outside its bounds")
    require(np.all(np.isfinite(prior.logpdf(x))), "recorded parameter outside the support")
    for row in like.log:
        require(np.all((row >= B[:, 0]) & (row <= B[:, 1])), lambda: f"likelihood evaluated at {row}")
    require(abs(r["beta"][-1] - 1) < 1e-4, "run did not finish")
    md.label_cfg(ctx, cfg)
    ctx.nontrivial(md.accepted_something(r))


DIM = st.tuples(st.sampled_from(["p", "r", "p", "r", "both", "none", "left", "right"]), st.one_of(md.q(-5, 5), st.sampled_from([0.0, 1000.0, -200.0])),
                st.one_of(md.q(0.5, 8), st.sampled_from([1.0, 6.283185307179586, 0.01]))).map(list)
PT = st.one_of(st.tuples(st.just("f"), md.q(0, 1, 100)), st.tuples(st.just("f"), md.q(-3, 4, 70)), st.tuples(st.just("f"), md.q(-50, 50, 400)),
               st.tuples(st.sampled_from(["lo", "hi", "ulp", "ulp-"]), st.just(0.0))).map(list)




@st.composite
def folds(draw):
    dims = draw(st.lists(DIM, min_size=1, max_size=4))
    return dict(dims=dims, transform=draw(st.sampled_from(["probit", "logit"])), empty=draw(st.booleans()), rep=draw(st.sampled_from([1] * 19 + [211])),
                x=draw(st.lists(st.lists(PT, min_size=len(dims), max_size=len(dims)), min_size=1, max_size=6)))


@st.composite
def bounded_prior(draw, max_dim=3):
    d = draw(st.integers(1, max_dim))
    dists = [draw(md.dists(["uniform", "uniform", "beta", "truncnorm", "norm"])) for _ in range(d)]
    dists[0][0] = draw(st.sampled_from(["uniform", "beta", "truncnorm"]))
    kinds = [draw(st.sampled_from(["p", "r"])) if x[0] != "norm" else "-" for x in dists]
    return dict(kind="product", dists=dists), [i for i, k in enumerate(kinds) if k == "p"] or None, [i for i, k in enumerate(kinds) if k == "r"] or None


@st.composite
def runs(draw):
    p, per, ref = draw(bounded_prior())
    c = draw(md.configs(boundary=False, max_dim=1, cut=False, custom=False))
    c["prior"], c["periodic"], c["reflective"] = p, per, ref
    c["n_active"] = max(c["n_active"], 4 * len(p["dists"]))
    c["n_effective"] = max(c["n_effective"], c["n_active"])
    return c


@st.composite
def invs(draw):
    c = draw(c03.cases(["pcn", "rwm", "ppcn", "prwm"]))
    p, per, ref = draw(bounded_prior())
    c["prior"] = p
    c.pop("periodic", None), c.pop("reflective", None)
    if per:
        c["periodic"] = per
    if ref:
        c["reflective"] = ref
    if len(p["dists"]) == 1 and c["like"]["kind"] == "corr":
        c["like"]["kind"] = "gauss"
    if "pcn" not in c["kernel"]:
        c["scale"] = 2.38 / len(p["dists"]) ** 0.5
    return c


SUBS = [Sub("fold", folds(), fn_fold, 700, 40000, "some value was outside its bounds"),
        Sub("run", runs(), fn_run, 12, 500, "the run went past warm-up"),
        Sub("invariance", invs(), c03.fn_invariance, 25, 800, "more than 10% of the walkers moved")]
