"""C28: each iteration's MCMC effort is bounded and honestly reported."""
import numpy as np
from hypothesis import strategies as st

from ..core import Inconclusive, Sub, require, sut
from .. import models as md
from . import c03

PROPERTY = "C28"
ASSUMPTIONS = ["A sweep evaluates the prior at each of its finite proposals; with an unbounded prior all proposals are finite."]


def fn_run(cfg, ctx):
    md.drop_logs()
    prior, like = md.make_prior(cfg), md.make_like(cfg, record=False)
    mon = md.Monitor(prior, like)
    s, prior, like = md.build(cfg, prior=prior, like=like)
    mon.sampler = s
    md.run_sut(s, cfg, prior, like)
    r = s.results
    n, d = cfg["n_active"], prior.dim
    n_warm = len(prior.draws[0]) // n
    T = len(r["beta"])
    n_max = 10 * max(d, cfg["n_steps"] or 0) if cfg["n_max_steps"] is None else cfg["n_max_steps"]
    unbounded = not np.isfinite(prior.bounds).any()
    steps, acc, eff = np.asarray(r["steps"]), np.asarray(r["accept"], float), np.asarray(r["efficiency"], float)
    calls = np.asarray(r["calls"])
    for t in range(n_warm, T):
        require(1 <= steps[t] <= max(1, n_max), lambda: f"iteration {t}: {steps[t]} sweeps, limit {n_max}")
        require(0 <= acc[t] <= 1, lambda: f"iteration {t}: acceptance {acc[t]!r}")
        require(np.isfinite(eff[t]), lambda: f"iteration {t}: efficiency {eff[t]!r}")
        made = int(calls[t] - calls[t - 1])
        require(0 <= made <= steps[t] * n, lambda: f"iteration {t}: {made} evaluations in {steps[t]} sweeps of {n} particles")
        rows = mon.rows.get(t)
        real = (mon.count_at[t + 1] if t + 1 in mon.count_at else (like.count if t == T - 1 and not cfg["n_evidence"] else None))
        if real is not None and t in mon.count_at:
            real -= mon.count_at[t]
            require(real <= steps[t] * n, lambda: f"iteration {t}: {real} actual evaluations in {steps[t]} reported sweeps of {n} particles")
        if rows is not None and t < T - 1:
            require(rows <= steps[t] * n, lambda: f"iteration {t}: {rows} proposals assessed in {steps[t]} reported sweeps of {n} particles")
            if unbounded and not cfg["precondition"]:
                require(rows == steps[t] * n, lambda: f"iteration {t}: {rows} proposals assessed, {steps[t]} sweeps of {n} particles reported")
        sigma = eff[t] * 2.38 / d ** 0.5
        if cfg["sample"] == "tpcn":
            require(-1e-12 <= sigma <= 0.99 + 1e-9, lambda: f"iteration {t}: Crank-Nicolson scale {sigma!r}")
    md.label_cfg(ctx, cfg)
    ctx.label("n_max=%s" % cfg["n_max_steps"])
    if np.any(steps[n_warm:] > 1):
        ctx.label("several sweeps")
    ctx.nontrivial(T > n_warm + 1)


class Bar:
    def __init__(self):
        self.info = dict(calls=0)
        self.rec = []

    def update_stats(self, d):
        self.info = {**self.info, **d}
        self.rec.append(dict(d))


def fn_stop(case, ctx):
    """Kernel level: when it stops before n_max, the monitored mean had stopped improving."""
    K = c03.kernels()
    T, sc, flow, g, state, funcs, pre = c03.setup(case, case["walkers"])
    bar = Bar()
    if case["start"] == "worse":            # start far out so that the mean improves for a while
        o = np.argsort(state["logl"] + state["logp"])[: max(4, len(state["logl"]) // 4)]
        for k in ("u", "x", "logdetj", "logp", "logl"):
            state[k] = state[k][o]
        if state["blobs"] is not None:
            state["blobs"] = state["blobs"][o]
    n, d = state["u"].shape
    m0 = float(np.mean(state["logl"] + state["logp"]))
    opt = dict(n_max=case["n_max"], n_steps=case["n_steps"], progress_bar=bar, proposal_scale=case["scale"])
    with sut(f"kernel {case['kernel']}"):
        r = K[case["kernel"]](state, funcs, opt)
    st_, nm = int(r["steps"]), case["n_max"]
    require(1 <= st_ <= max(1, nm), lambda: f"{st_} sweeps with limit {nm}")
    require(r["calls"] == sum(len(a) for a in T.log_l), lambda: f"{r['calls']} calls reported, {sum(len(a) for a in T.log_l)} points evaluated")
    require(r["calls"] <= st_ * n, "more than one evaluation per walker and sweep")
    require(0 <= float(r["accept"]) <= 1, lambda: f"acceptance {r['accept']!r}")
    require(np.isfinite(r["proposal_scale"]), "scale not finite")
    if case["kernel"] in ("pcn", "ppcn"):
        require(0 <= float(r["proposal_scale"]) <= 0.99 + 1e-12, lambda: f"Crank-Nicolson scale {r['proposal_scale']!r}")
    recs = [e for e in bar.rec if "logP" in e]
    if len(recs) != st_:
        raise Inconclusive("the progress object is not updated once per sweep")
    lp = [m0] + [float(e["logP"]) for e in recs]
    flat = not np.isfinite(T.prior.bounds).any()      # constant Jacobian: the monitored mean is logl+logp for every kernel
    if st_ < nm and (case["kernel"] in ("pcn", "ppcn") or flat):
        best, since = lp[0], 0
        for v in lp[1:]:
            if v > best:
                best, since = v, 0
            else:
                since += 1
        need = case["n_steps"] if case["kernel"] in ("pcn", "ppcn") else 1
        require(since >= max(1, need), lambda: f"{case['kernel']} stopped after {st_} of {nm} sweeps although the mean log-posterior last improved {since} sweeps ago (n_steps={case['n_steps']}): {[round(v, 4) for v in lp]}")
        ctx.label("early stop")
    if case.get("frozen"):
        require(st_ == nm and float(r["accept"]) == 0.0, lambda: f"all proposals impossible: {st_} of {nm} sweeps, acceptance {r['accept']!r}")
        ctx.label("frozen")
    ctx.label(case["kernel"], case["start"])
    ctx.nontrivial(st_ > 1)


@st.composite
def stop_cases(draw):
    c = draw(c03.cases(["pcn", "rwm", "ppcn", "prwm"]))
    c["n_steps"] = draw(st.sampled_from([1, 2, 3, 0]))
    c["n_max"] = draw(st.sampled_from([1, 3, 10, 40]))
    c["walkers"] = draw(st.sampled_from([8, 40, 100]))
    c["start"] = draw(st.sampled_from(["worse", "exact"]))
    if draw(st.integers(0, 3)) == 0:          # every proposal is rejected, for as many sweeps as allowed
        c["frozen"] = True
        c["n_steps"] = 10 ** 4
    return c


@st.composite
def plateau_cases(draw):
    """Long climbs with setbacks: improvements keep coming between sweeps that do not improve."""
    c = draw(stop_cases())
    c.pop("frozen", None)
    c.update(start="worse", walkers=draw(st.sampled_from([24, 40, 100])), n_max=60, n_steps=draw(st.sampled_from([2, 3, 5])), beta=draw(st.sampled_from([0.3, 0.7, 1.0])))
    c["scale"] = draw(st.sampled_from([0.9, 1.5])) if "pcn" in c["kernel"] else c["scale"]
    return c


SUBS = [Sub("plateau", plateau_cases(), fn_stop, 30, 1200, "more than one sweep"),
        Sub("kernel", stop_cases(), fn_stop, 90, 2500, "more than one sweep"),
        Sub("run", md.configs(precondition=False, blobs=False), fn_run, 28, 900, "more than one sampling iteration"),
        Sub("run_pre", md.configs(precondition=True, blobs=False), fn_run, 6, 200, "more than one sampling iteration")]
