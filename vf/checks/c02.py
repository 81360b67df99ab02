"""C02: nothing outside the prior support is evaluated, kept or returned."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, require
from .. import models as md

PROPERTY = "C02"
ASSUMPTIONS = ["Prior draws themselves lie in the support."]


def inside(prior, x, what):
    x = np.asarray(x)
    if not len(x):
        return
    require(np.all(np.isfinite(x)), lambda: f"{what}: non-finite parameters {x[~np.isfinite(x).all(axis=1)][0]}")
    lo, hi = prior.bounds.T
    b = ~np.all((x >= lo) & (x <= hi), axis=1)
    require(not b.any(), lambda: f"{what}: {x[b][0]} is outside the bounds {prior.bounds.tolist()}")
    lp = prior.logpdf(x)
    b = ~np.isfinite(lp)
    require(not b.any(), lambda: f"{what}: {x[b][0]} has prior log-density {lp[b][0]}")


def fn(cfg, ctx):
    md.drop_logs()
    prior = md.make_prior(cfg)
    outside = [0, 0]

    def hook(x):
        b = ~np.isfinite(prior._logpdf(x))
        outside[0] += int(np.sum(b))
        outside[1] += bool(len(b) and b.all())
    prior.hook_id = 0
    md.HOOKS[0] = hook
    s, prior, like = md.build(cfg, prior=prior)
    md.run_sut(s, cfg, prior, like)
    md.HOOKS.clear()
    n_out = outside[0]
    inside(prior, like.log, "likelihood input")
    if cfg["mode"] == "vectorize" and not cfg["n_evidence"]:
        require(all(len(b) for b in md.LOGS[like.uid]), "the vectorized likelihood was called with no points at all")
    inside(prior, s.results["x"].reshape(-1, prior.dim), "recorded particle")
    for kw in (dict(), dict(trim_importance_weights=False), dict(resample=True)):
        inside(prior, s.posterior(**kw)[0], f"posterior({kw})")
    require(np.all(np.isfinite(s.results["logp"])), "non-finite recorded log-prior")
    md.label_cfg(ctx, cfg)
    if n_out:
        ctx.label("proposals outside the support")
    if outside[1]:
        ctx.label("every proposal of a sweep outside the support")
    bounded = np.isfinite(prior.bounds).any()
    ctx.nontrivial(n_out > 0 or (bounded and md.accepted_something(s.results)))


@st.composite
def cut_priors(draw, **kw):
    c = draw(md.configs(min_dim=2, max_dim=3, **kw))
    d = md.prior_dim(c["prior"])
    c["prior"] = dict(kind=draw(st.sampled_from(["disc", "wedge"])), dim=d, r=draw(md.q(0.5, 4)))
    if draw(st.booleans()):
        c["periodic"] = draw(st.sampled_from([None, [0], [1]]))
        c["reflective"] = None if c["periodic"] else [0]
    else:
        c.pop("periodic", None), c.pop("reflective", None)
    c["like"]["w"] = draw(st.sampled_from([0.6, 1.5, 4.0]))       # broad: many proposals leave the support
    return c


# every proposal of a sweep outside the support, with integer / structured / vector blobs
ALL_OUT = [dict(prior=dict(kind="disc", dim=3, r=0.5), like=dict(kind="flat", w=0.6, c=0.3, off=800.0, cut=None), blob=b, mode=m, n_active=12, n_effective=18, n_prior=3,
                precondition=False, sample="rwm", transform="logit", metric="uss", resample="mult", dynamic=True, n_steps=1, n_max_steps=8, n_total=64, n_evidence=0, seed=25573)
           for b, m in (("int", "serial"), ("struct", "serial"), ("vec", "serial"), ("none", "vectorize"))]
@st.composite
def sparse(draw, **kw):
    """So few particles, in so small a support, that the whole batch of a sweep falls outside now and then."""
    c = draw(cut_priors(**kw))
    c["n_active"] = draw(st.sampled_from([2, 3, 4]))
    c["n_effective"] = draw(st.sampled_from([24, 32]))
    c["n_prior"] = 48 // c["n_active"]
    c.pop("n_prior_extra", None)
    c["n_max_steps"] = draw(st.sampled_from([None, 8]))
    c["prior"]["r"] = draw(md.q(0.3, 1.5))
    c["like"].update(w=draw(st.sampled_from([1.5, 4.0])), cut=None)
    return c


R = "a proposal fell outside the support, or bounded parameters moved under MCMC"
SUBS = [Sub("box", md.configs(precondition=False, custom=False, kinds=list(md.TWO_SIDED + md.ONE_SIDED)), fn, 16, 500, R),
        Sub("cut", cut_priors(precondition=False), fn, 20, 700, R, corpus=ALL_OUT),
        Sub("cut_pre", cut_priors(precondition=True), fn, 8, 400, R),
        Sub("sparse", sparse(precondition=False), fn, 10, 400, R),
        Sub("sparse_pre", sparse(precondition=True), fn, 4, 150, R)]
