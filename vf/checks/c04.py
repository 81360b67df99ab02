"""C04: importance weights and running evidence are the mixture weights."""
import numpy as np
from hypothesis import strategies as st

from ..core import Inconclusive, Sub, require, sut
from .. import models as md
from .. import ref

PROPERTY = "C04"
ASSUMPTIONS = []


def close(a, b, tol=1e-8):
    return np.abs(a - b) <= tol * (1 + np.abs(b))


def weights_close(a, b, what):
    a, b = np.asarray(a, float), np.asarray(b, float)
    require(a.shape == b.shape, lambda: f"{what}: shape {a.shape}, expected {b.shape}")
    bad = ~(close(a, b, 1e-8) | ((a < -650) & (b < -650)))
    require(not bad.any(), lambda: f"{what}: log-weight {a[bad][0]!r} at {int(np.argmax(bad))}, mixture weight is {b[bad][0]!r}")


def check_run(cfg, s, n_warm, ctx):
    r = s.results
    lw, lz = ref.mixture(r["logl"], r["beta"], r["logz"])
    weights_close(r["logw"], lw, "results['logw']")
    p = s.posterior(trim_importance_weights=False, return_logw=True)
    weights_close(np.sort(p[1]), np.sort(lw), "posterior log-weights")
    w = s.posterior(trim_importance_weights=False)[1]
    require(np.allclose(np.sort(w), np.sort(np.exp(lw)), rtol=1e-7, atol=1e-14), "posterior weights are not the mixture weights")
    moved = 0
    eps = 1e-7
    for e in ref.Replay(r, n_warm, cfg["n_active"], cfg["n_effective"], cfg["metric"], cfg["dynamic"]):
        t, z = e["t"], r["logz"][e["t"]]
        if e["beta"] == e["beta_prev"] and (e["beta"] < 1 or all(e["m_prev"] <= x * (1 - eps) for x in e["targets"])):
            require(close(z, r["logz"][t - 1]), lambda: f"iteration {t}: beta was held at {e['beta']} but the log-evidence went from {r['logz'][t - 1]!r} to {z!r}")
            ctx.label("held")
        elif all(e["m_prev"] > x * (1 + eps) for x in e["targets"]):
            require(close(z, e["logz"]), lambda: f"iteration {t} (beta={e['beta']}): recorded log-evidence {z!r}, estimate from earlier iterations {e['logz']!r}")
    for t in range(n_warm, len(r["beta"])):
        _, e = ref.mixture(r["logl"][:t], r["beta"][:t], r["logz"][:t], r["beta"][t])
        ok = close(r["logz"][t], e)
        if r["beta"][t] == r["beta"][t - 1]:
            ok = ok or close(r["logz"][t], r["logz"][t - 1])
        else:
            moved += 1
        require(ok, lambda: f"iteration {t} (beta={r['beta'][t]}): recorded log-evidence {r['logz'][t]!r}, estimate from earlier iterations {e!r}")
    if cfg["like"].get("cut") is None:
        require(np.all(r["logz"][:n_warm] == 0), "log-evidence of the prior is not 0")
    if not (cfg["precondition"] and cfg["n_evidence"]):
        require(close(s.evidence()[0], lz), lambda: f"final log-evidence {s.evidence()[0]!r}, mixture estimate at beta=1 {lz!r}")
    return moved


def fn_run(cfg, ctx):
    md.drop_logs()
    s, prior, like = md.build(cfg)
    md.run_sut(s, cfg, prior, like)
    n_warm = len(prior.draws[0]) // cfg["n_active"]
    moved = check_run(cfg, s, n_warm, ctx)
    if cfg["seed"] % 2:
        md.run_sut(s, cfg, prior, like, n_total=cfg["n_total"] + 40)
        moved += check_run(cfg, s, n_warm, ctx)
        ctx.label("continued")
    md.label_cfg(ctx, cfg)
    ctx.nontrivial(moved >= 1 and len(s.results["beta"]) > n_warm + 1)


def particles_class():
    try:
        from pocomc.particles import Particles
        return Particles
    except ImportError:
        raise Inconclusive("Particles not importable")


@st.composite
def direct(draw):
    T = draw(st.integers(1, 7))
    n = draw(st.sampled_from([1, 2, 5, 16]))
    long = draw(st.integers(0, 11)) == 0
    if long:                                  # a long history of many particles
        T, n = draw(st.sampled_from([40, 120])), draw(st.sampled_from([5, 64, 257]))
    incr = [draw(md.q(0, 0.5)) for _ in range(T)] if not long else [draw(md.q(0, 0.5)) / 12] * T
    beta, b = [], 0.0
    for i in range(T):
        b = min(1.0, b + (0 if i == 0 else incr[i]))
        beta.append(round(b, 6))
    return dict(T=T, n=n, beta=beta, spread=draw(st.sampled_from([1.0, 10.0, 300.0, 1e4])), off=draw(st.sampled_from([0.0, 1e3, -1e5, 5.0])),
                zjit=draw(st.sampled_from([0.0, 1.0, 20.0])), beta_final=draw(st.sampled_from([1.0, 0.0, 0.37, 0.9])),
                shift=draw(st.sampled_from([0.5, -7.0, 1000.0, -12345.0])), seed=draw(st.integers(0, 10 ** 6)))


def fn_direct(c, ctx):
    P = particles_class()
    rng = np.random.RandomState(c["seed"])
    L = c["off"] - c["spread"] * rng.gamma(1.0, 1.0, (c["T"], c["n"]))
    beta = np.array(c["beta"])
    logz = beta * (c["off"] - c["spread"]) + c["zjit"] * rng.randn(c["T"]) * (beta > 0)
    outs = []
    for sh in (0.0, c["shift"]):
        with sut("Particles"):
            p = P(c["n"], 1)
            for t in range(c["T"]):
                p.update(dict(u=np.zeros((c["n"], 1)), x=np.zeros((c["n"], 1)), logdetj=np.zeros(c["n"]), logl=L[t] + sh,
                              logp=np.zeros(c["n"]), logw=np.zeros(c["n"]), iter=t, logz=logz[t] + beta[t] * sh, calls=0,
                              steps=1, efficiency=1.0, ess=1.0, accept=1.0, beta=beta[t], blobs=None))
            outs.append(p.compute_logw_and_logz(c["beta_final"]))
    lw, lz = ref.mixture(L, beta, logz, c["beta_final"])
    sc = abs(c["off"]) + c["spread"] + abs(c["shift"])
    tol = 1e-13 * sc * 50 + 1e-9
    a, z = outs[0]
    require(np.all(np.abs(a - lw) <= tol + 1e-9 * np.abs(lw)), lambda: f"log-weights {a[:4]} vs mixture {lw[:4]}")
    require(abs(z - lz) <= tol + 1e-9 * abs(lz), lambda: f"log-evidence {z!r} vs {lz!r}")
    a2, z2 = outs[1]
    require(np.all(np.abs(a2 - a) <= tol + 1e-9 * np.abs(lw)), "adding a constant to the log-likelihood changed the weights")
    require(abs(z2 - z - c["beta_final"] * c["shift"]) <= tol + 1e-9 * abs(z), lambda: f"constant {c['shift']} moved the log-evidence by {z2 - z!r}, expected {c['beta_final'] * c['shift']!r}")
    with sut("compute_results"):
        r = p.compute_results()
    weights_close(r["logw"], ref.mixture(L, beta, logz, 1.0)[0] if abs(c["shift"]) < 10 else ref.mixture(L + c["shift"], beta, logz + beta * c["shift"], 1.0)[0], "results['logw']")
    ctx.nontrivial(c["T"] > 1 and len(set(c["beta"])) > 1)


SUBS = [Sub("direct", direct(), fn_direct, 150, 5000, "at least two different temperatures in the history"),
        Sub("run", md.configs(precondition=False), fn_run, 26, 1200, "beta moved at least once and the run lasted more than one iteration"),
        Sub("run_pre", md.configs(precondition=True), fn_run, 7, 300, "beta moved at least once and the run lasted more than one iteration")]
