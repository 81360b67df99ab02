"""C12: runs are reproducible and unaffected by observation."""
import numpy as np
import torch
from hypothesis import strategies as st

from ..core import Sub, require, sut
from .. import models as md
from .c18 import ListPool

PROPERTY = "C12"
ASSUMPTIONS = ["Resampled posterior draws (posterior(resample=True)) take random numbers by definition and are not an observation in this sense."]


def perturb(seed):
    np.random.seed(seed)
    np.random.randn(seed % 17 + 1)
    torch.manual_seed(seed + 1)
    torch.randn(seed % 5 + 1)


def observe(s, what, blobs):
    if what == "results":
        r = s.results
        for v in r.values():
            np.asarray(v).sum if hasattr(v, "sum") else None
        s.results
    elif what == "posterior":
        s.posterior()
        s.posterior(return_logw=True, trim_importance_weights=False)
        s.posterior(ess_trim=0.5, bins_trim=50, return_blobs=blobs)
    elif what == "evidence":
        s.evidence()


def go(case, ctx, seed0, save=None, progress=False, observers=()):
    import pocomc
    cfg = case["cfg"]
    md.drop_logs()
    blobs = cfg["blob"] != "none"

    def cls(*a, **k):
        perturb(seed0)          # whatever happened before in the process must not matter
        return pocomc.Sampler(*a, **k)
    prior, like = md.make_prior(cfg), md.make_like(cfg, record=False)
    over = dict(pool=ListPool()) if cfg["mode"] == "pool" else {}
    over["output_dir"] = ctx.fresh_dir()
    s, prior, like = md.build(cfg, prior=prior, like=like, cls=cls, **over)
    out = []
    for nt in case["runs"]:
        kw = dict(progress=progress)
        if save:
            kw["save_every"] = save
        md.run_sut(s, cfg, prior, like, n_total=nt, **kw)
        with sut("observers"):
            for o in observers:
                observe(s, o, blobs)
        out.append(s.evidence())
    if save:
        with sut("save_state"):
            s.save_state(over["output_dir"] + "/x.state")
    with sut("posterior"):
        post = [np.array(a, copy=True) for a in s.posterior(return_blobs=blobs)]
        rs = [np.array(a, copy=True) for a in s.posterior(resample=True)]
    return dict(res=md.results_copy(s), post=post, rs=rs, ev=out, calls=int(s.calls), rng=float(np.random.rand()), trng=float(torch.rand(1)))


def fn(case, ctx):
    cfg = case["cfg"]
    blobs = cfg["blob"] != "none"
    A = go(case, ctx, 1)

    def compare(B, what):
        msg = md.diff_results(A["res"], B["res"], have_blobs=blobs)
        require(msg is None, lambda: f"{what}: {msg}")
        require(repr(A["ev"]) == repr(B["ev"]), lambda: f"{what}: evidence {B['ev']} instead of {A['ev']}")
        require(A["calls"] == B["calls"], f"{what}: call counts")
        for a, b in zip(A["post"] + A["rs"], B["post"] + B["rs"]):
            require(md.bits_equal(a, b), f"{what}: posterior")
    for v in case["vary"]:
        if v == "seed":
            compare(go(case, ctx, case["other"]), "same arguments and random_state, different earlier random numbers in the process")
        elif v == "progress":
            compare(go(case, ctx, 1, progress=True), "progress display on")
        elif v == "save":
            compare(go(case, ctx, 1, save=case["save"]), "checkpoints on")
        elif v == "observe":
            compare(go(case, ctx, 1, observers=("results", "posterior", "evidence")), "results, posterior and evidence read between runs")
        ctx.label("vary:" + v)
    md.label_cfg(ctx, cfg)
    ctx.nontrivial(np.sum(A["res"]["beta"] > 0) >= 2)


@st.composite
def cases(draw, **kw):
    c = draw(md.configs(modes=("serial", "serial", "vectorize", "pool"), max_dim=3, **kw))
    c["seed"] = draw(st.one_of(st.just(0), st.integers(0, 10 ** 6)))
    if c["precondition"]:
        c["epochs"] = 12 if draw(st.booleans()) else c["epochs"]
        if draw(st.sampled_from([True, False, False])):
            c["flow"], c["epochs"] = draw(st.sampled_from(["maf3", "nsf3"])), 8
    runs = [32] if draw(st.booleans()) else [32, draw(st.sampled_from([32, 60, 80]))]
    return dict(cfg=c, runs=runs, other=draw(st.integers(2, 1000)), save=draw(st.integers(1, 3)),
                vary=draw(st.lists(st.sampled_from(["seed", "progress", "save", "observe"]), min_size=1, max_size=4, unique=True)))


R = "at least two iterations at positive temperature were compared bit for bit"
SUBS = [Sub("nopre", cases(precondition=False), fn, 13, 600, R),
        Sub("pre", cases(precondition=True), fn, 5, 200, R)]
