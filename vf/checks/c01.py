"""C01: every recorded sample is self-consistent."""
import numpy as np

from ..core import Sub, require
from .. import models as md
from ..ref import RefScaler

PROPERTY = "C01"
ASSUMPTIONS = ["The prior's logpdf and the likelihood are deterministic functions of one row."]


def check_history(cfg, s, prior, like):
    r = s.results
    x, logl, logp = r["x"], r["logl"], r["logp"]
    T, n, d = x.shape
    require(n == cfg["n_active"] and d == prior.dim, lambda: f"history shape {x.shape}")
    xf = x.reshape(-1, d)
    ref_l = np.array([like.value(row) for row in xf]).reshape(T, n)
    bad = np.argwhere(ref_l != logl)
    require(len(bad) == 0, lambda: f"logl at iteration/particle {tuple(bad[0])} is {logl[tuple(bad[0])]!r}, likelihood there gives {ref_l[tuple(bad[0])]!r}")
    # logpdf is evaluated row-wise here; scipy's vectorised result may differ in the last bits
    ref_p = prior.logpdf(xf).reshape(T, n)
    bad = np.argwhere(~(np.abs(ref_p - logp) <= 1e-12 * (1 + np.abs(ref_p))))
    require(len(bad) == 0, lambda: f"logp at {tuple(bad[0])} is {logp[tuple(bad[0])]!r}, prior gives {ref_p[tuple(bad[0])]!r}")
    if cfg["blob"] != "none":
        B = r["blobs"]
        require(len(B) == T, "blobs: one entry per iteration expected")
        for t in range(T):
            for i in range(n):
                exp = like.blob_of(x[t, i])
                require(blob_matches(B[t][i], exp), lambda: f"blob at iteration {t} particle {i}: {B[t][i]!r}, likelihood gives {exp!r}")
    ref = RefScaler(prior.bounds, cfg["transform"], prior.draws[0])
    uf = r["u"].reshape(-1, d)
    require(np.all(np.isfinite(uf)), "non-finite latent coordinates recorded")
    xr, J, err = ref.inverse(uf)
    dev = np.abs(xr - xf) / ref.xscale(xf)
    k = np.unravel_index(np.argmax(dev), dev.shape)
    require(dev[k] < 1e-7, lambda: f"latent coordinates {uf[k[0]]} map to {xr[k[0]]}, recorded parameters are {xf[k[0]]}")
    jd = np.abs(J - r["logdetj"].ravel()) - 1e-6 * (1 + np.abs(J)) - err
    k2 = int(np.argmax(jd))
    require(jd[k2] <= 0, lambda: f"logdetj {r['logdetj'].ravel()[k2]!r} recorded, transformation gives {J[k2]!r} at u={uf[k2]}")


def blob_matches(rec, exp):
    exp = exp[0] if len(exp) == 1 else exp
    if getattr(rec, "dtype", None) is not None and rec.dtype.names:
        vals = tuple(rec[k] for k in rec.dtype.names)
        exp = exp if isinstance(exp, tuple) else (exp,)
        return len(vals) == len(exp) and all(a == b for a, b in zip(vals, exp))
    if isinstance(exp, str):
        return isinstance(rec, str) and rec == exp
    if isinstance(exp, tuple):
        return len(rec) == len(exp) and all(a == b for a, b in zip(rec, exp))
    return np.array_equal(np.asarray(rec), np.squeeze(np.asarray(exp)))


def fn(cfg, ctx):
    md.drop_logs()
    s, prior, like = md.build(cfg)
    md.run_sut(s, cfg, prior, like)
    check_history(cfg, s, prior, like)
    if cfg["seed"] % 3 == 0:
        md.run_sut(s, cfg, prior, like, "continued run", n_total=int(1.5 * cfg["n_total"]))
        check_history(cfg, s, prior, like)
        ctx.label("continued")
    r = s.results
    md.label_cfg(ctx, cfg)
    ctx.nontrivial(md.accepted_something(r) and len(np.unique(r["logl"])) > cfg["n_active"])


SUBS = [Sub("nopre", md.configs(precondition=False), fn, 36, 1500,
            "the run went past warm-up and recorded more distinct log-likelihoods than one batch"),
        Sub("pre", md.configs(precondition=True, big_flows=True), fn, 9, 400,
            "the run went past warm-up and recorded more distinct log-likelihoods than one batch")]
