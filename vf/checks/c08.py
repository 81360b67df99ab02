"""C08: the importance-sampled evidence is the unbiased flow estimate."""
import numpy as np
import torch
from hypothesis import strategies as st
from scipy.special import logsumexp

from ..core import Inconclusive, Sub, require
from .. import models as md
from .. import ref

PROPERTY = "C08"
ASSUMPTIONS = ["Flow densities are single precision: agreement to 5e-3 in log-evidence plus the effect of ill-conditioned points.",
               "The reported error is compared with an independent bootstrap of the same weights, within 25 percent."]


def fn(case, ctx):
    cfg = case["cfg"]
    md.drop_logs()
    prior, like = md.make_prior(cfg), md.make_like(cfg)
    mon = md.Monitor(prior, like)
    s, prior, like = md.build(cfg, prior=prior, like=like)
    mon.sampler = s
    zflow = s.flow
    fracs, T0 = [], 0
    for nev, nt in case["runs"]:
        c0 = like.count
        md.run_sut(s, cfg, prior, like, n_total=nt, n_evidence="omit" if nev is None else nev)
        nev = 4096 if nev is None else nev            # the documented default
        lz, err = s.evidence()
        r = s.results
        if nev == 0 or not cfg["precondition"]:
            _, e = ref.mixture(r["logl"], r["beta"], r["logz"])
            require(abs(lz - e) < 1e-8 * (1 + abs(e)), lambda: f"evidence {lz!r}, sequential estimate {e!r}")
            require(err is None, lambda: f"sequential estimate reported with error {err!r}")
            T0 = len(r["beta"])
            continue
        # evaluations made when the prior was first consulted with the final history: those after it are the evidence's
        T = len(r["beta"])
        x = like.log[mon.count_at[T] if T > T0 else c0:]
        T0 = T
        require(len(x) <= nev, lambda: f"{len(x)} evaluations for {nev} evidence samples")
        sc = ref.RefScaler(prior.bounds, cfg["transform"], prior.draws[0])
        with np.errstate(all="ignore"):
            u = sc.forward(x)
            _, J, _ = sc.inverse(u)
            lq = zflow.log_prob(torch.tensor(u, dtype=torch.float32)).detach().numpy().astype(float)
            lp = prior.logpdf(x)
            ll = np.array([like.value(v) for v in x])
            lw = ll + lp + J - lq
        bad = ~np.isfinite(u).all(axis=1)
        ill = bad | (np.abs(u) > 7).any(axis=1)
        lw = np.where(np.isnan(lw), -np.inf, lw)
        full = np.concatenate([lw, np.full(nev - len(lw), -np.inf)])
        e = logsumexp(full) - np.log(nev)
        if not np.isfinite(e):
            raise Inconclusive("no evidence sample has weight")
        share = float(np.exp(logsumexp(lw[ill]) - logsumexp(lw))) if ill.any() else 0.0
        if share > 1e-3:
            raise Inconclusive("weight on ill-conditioned samples")
        require(abs(lz - e) < 5e-3 + 1e-6 * abs(e), lambda: f"log-evidence {lz!r}; average of likelihood*prior*Jacobian/flow density over all {nev} samples ({len(x)} in the support) gives {e!r}")
        nz = int(np.sum(np.isfinite(full)))
        require(err is not None, "no error reported for the importance-sampled evidence")
        w = np.exp(full - full.max())
        ess = w.sum() ** 2 / np.sum(w ** 2)
        if nz >= 15 and ess > 5:
            rng = np.random.RandomState(cfg["seed"])
            bs = np.std([np.log(np.mean(w[rng.randint(0, nev, nev)])) for _ in range(1500)])
            require(abs(err - bs) <= 0.25 * bs + 2e-3, lambda: f"reported error {err!r}, bootstrap standard error {bs!r}")
            ctx.label("error checked")
        fracs.append(len(x) / nev)
        if len(x) < nev:
            ctx.label("samples outside the support")
        if not np.isfinite(ll).all():
            ctx.label("zero-likelihood samples")
    md.label_cfg(ctx, cfg)
    ctx.nontrivial(bool(fracs) or not cfg['precondition'])


@st.composite
def cases(draw, custom=None, **kw):
    c = draw(md.configs(precondition=True, blobs=True, max_dim=3, modes=("serial", "vectorize"), **kw))
    if custom:
        d = draw(st.integers(2, 3))
        c["prior"] = dict(kind=draw(st.sampled_from(["disc", "wedge"])), dim=d, r=draw(md.q(0.5, 3)))
        c["n_active"] = max(c["n_active"], 4 * d)
        c["n_effective"] = max(c["n_effective"], c["n_active"])
        c["like"]["w"] = draw(st.sampled_from([0.6, 1.0, 3.0]))
        c.pop("periodic", None), c.pop("reflective", None)
    return dict(cfg=c, runs=[[draw(st.sampled_from([16, 40, 100, 200, 40, 100, 200, 1100, 5003, None])), draw(st.sampled_from([32, 48]))]]
                + draw(st.lists(st.tuples(st.sampled_from([0, 30, 80]), st.sampled_from([32, 64])).map(list), max_size=1)))


@st.composite
def nopre(draw):
    c = draw(md.configs(precondition=False, blobs=False, max_dim=3))
    return dict(cfg=c, runs=[[draw(st.sampled_from([0, 64])), 48]] + draw(st.lists(st.just([32, 80]), max_size=1)))


R = "an importance-sampled evidence was recomputed from its logged samples"
SUBS = [Sub("box", cases(), fn, 9, 400, R),
        Sub("cut_support", cases(custom=True), fn, 9, 400, R),
        Sub("sequential", nopre(), fn, 6, 200, "without preconditioning the sequential estimate was recomputed")]
