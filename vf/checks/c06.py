"""C06: the temperature ladder is monotone and holds the particle target."""
import numpy as np
from hypothesis import strategies as st

from ..core import Inconclusive, Sub, Violation, require
from .. import models as md
from .. import ref

PROPERTY = "C06"
ASSUMPTIONS = ["'About 1 percent' is accepted up to 1.5 percent."]


def check_ladder(cfg, s, prior, n_eff0=None, complete=True):
    r = s.results
    n_warm = len(prior.draws[0]) // cfg["n_active"]
    b = np.asarray(r["beta"])
    require(np.all(b[:n_warm] == 0), lambda: f"warm-up temperatures {b[:n_warm]}")
    require(np.all(np.diff(b) >= 0), lambda: f"beta decreased: {b.tolist()}")
    require(b[-1] <= 1 and (1 - b[-1] <= 1e-4 or not complete), lambda: f"final beta {b[-1]!r}")
    kinds = set()
    rp = ref.Replay(r, n_warm, cfg["n_active"], cfg["n_effective"] if n_eff0 is None else n_eff0, cfg["metric"], cfg["dynamic"])
    for e in rp:
        t, T = e["t"], e["targets"]
        where = f"iteration {t}: beta {e['beta_prev']:.6g} -> {e['beta']:.6g}, metric {e['m_prev']:.6g} -> {e['m']:.6g} (at beta=1: {e['m_one']:.6g}), target {T}"
        hold = [x for x in T if e["m_prev"] <= x * (1 + 1e-9)]
        jump = [x for x in T if e["m_one"] >= x * (1 - 1e-9)]
        near = [x for x in T if abs(e["m"] - x) <= 0.015 * x]
        must_hold = all(e["m_prev"] <= x * (1 - 1e-9) for x in T)
        N = t * cfg["n_active"]
        if cfg["metric"] == "ess" and b[t - 1] == 0 and N & (N - 1) == 0 and T == [N] and len(set(np.asarray(r["logz"])[:t].tolist())) == 1:
            must_hold = True          # equal weights, a power of two of them: the sample size is exactly the target
            kinds.add("exact tie")
        must_jump = all(e["m_one"] >= x * (1 + 1e-9) and e["m_prev"] > x * (1 + 1e-9) for x in T)
        if e["beta"] == e["beta_prev"]:
            kinds.add("hold" if e["beta"] < 1 else "at one")
            require(hold or e["beta"] == 1.0, "beta held although the metric exceeds the target; " + where)
        elif e["beta"] == 1.0:
            kinds.add("jump")
            require(jump or near, "beta jumped to 1 although the metric there is below the target; " + where)
        else:
            kinds.add("bisect")
            require(near, "chosen beta misses the target; " + where)
        if must_hold:
            require(e["beta"] == e["beta_prev"], "beta moved although the metric is not above the target; " + where)
        if must_jump:
            require(e["beta"] == 1.0, "beta should be 1; " + where)
        require(abs(r["ess"][t] - e["m"]) <= 1e-6 * (1 + e["m"]), lambda: f"recorded sample size {r['ess'][t]!r} is not the metric; " + where)
    return kinds


def fn(cfg, ctx):
    md.drop_logs()
    s, prior, like = md.build(cfg)
    md.run_sut(s, cfg, prior, like)
    kinds = check_ladder(cfg, s, prior)
    if cfg["seed"] % 3 == 0:
        md.run_sut(s, cfg, prior, like, n_total=cfg["n_total"] + 40)
        kinds |= check_ladder(cfg, s, prior)
    for k in kinds:
        ctx.label("step:" + k)
    md.label_cfg(ctx, cfg)
    ctx.label("dynamic" if cfg["dynamic"] else "static")
    ctx.nontrivial("bisect" in kinds or "hold" in kinds)


def fn_sharp(cfg, ctx):
    """So narrow a target can leave too few distinct particles for a covariance: what was recorded until then is checked."""
    md.drop_logs()
    s, prior, like = md.build(cfg)
    complete = True
    try:
        md.run_sut(s, cfg, prior, like)
    except Violation as e:
        if "LinAlgError" not in str(e):
            raise
        complete = False
        if len(s.results["beta"]) <= len(prior.draws[0]) // cfg["n_active"]:
            raise Inconclusive("no iteration recorded")
    kinds = check_ladder(cfg, s, prior, complete=complete)
    md.label_cfg(ctx, cfg)
    ctx.label("complete" if complete else "degenerate", *("step:" + k for k in kinds))
    ctx.nontrivial("bisect" in kinds or "hold" in kinds)


@st.composite
def sharp(draw):
    """Likelihoods so narrow that the first temperatures are minute."""
    c = draw(md.configs(precondition=False, blobs=False, likekinds=["gauss", "laplace", "ring"], cut=False, max_dim=3))
    c["like"]["w"] = draw(st.sampled_from([0.05, 1e-2, 1e-3, 1e-4]))
    c["n_active"] = max(c["n_active"], 24)
    c["n_effective"] = max(c["n_effective"], 2 * c["n_active"])
    c["n_max_steps"] = draw(st.sampled_from([1, 3]))
    return c


SUBS = [Sub("sharp", sharp(), fn_sharp, 14, 500, "some iteration searched for, or held, an intermediate temperature"),
        Sub("ladder", md.configs(precondition=False, blobs=False), fn, 42, 1500, "some iteration searched for, or held, an intermediate temperature"),
        Sub("ladder_pre", md.configs(precondition=True, blobs=False, evidence=False), fn, 6, 200, "some iteration searched for, or held, an intermediate temperature")]
