"""C27: the history is append-only, complete and always reported in full."""
import os

import numpy as np
from hypothesis import strategies as st

from ..core import Inconclusive, Sub, require, sut
from .. import models as md

PROPERTY = "C27"
ASSUMPTIONS = []
PER_ITER = ["u", "x", "logdetj", "logl", "logp", "logz", "calls", "steps", "efficiency", "ess", "accept", "beta", "iter"]


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.ndim == 1 and a.dtype.kind in "if" and b.dtype.kind in "if":
        return a.shape == b.shape and bool(np.all(a == b))        # per-iteration scalars: the common dtype may widen
    return md.bits_equal(a, b)


def check_prefix(old, new, when, blobs):
    T = len(old["beta"])
    require(len(new["beta"]) >= T, lambda: f"{when}: history shrank from {T} to {len(new['beta'])} iterations")
    for k in PER_ITER + (["blobs"] if blobs else []):
        require(same(old[k], np.asarray(new[k])[:T]), lambda: f"{when}: recorded {k} of the first {T} iterations changed: {md._first_diff(np.asarray(old[k]), np.asarray(new[k])[:T])}")


def check_shape(cfg, s, prior, blobs, min_len):
    r = s.results
    T = len(r["beta"])
    n, d = cfg["n_active"], prior.dim
    shapes = dict(u=(T, n, d), x=(T, n, d), logdetj=(T, n), logl=(T, n), logp=(T, n), logw=(T * n,))
    for k in PER_ITER:
        exp = shapes.get(k, (T,))
        require(np.shape(r[k]) == exp, lambda: f"results[{k!r}] has shape {np.shape(r[k])}, expected {exp}")
    require(np.shape(r["logw"]) == (T * n,), lambda: f"results['logw'] has shape {np.shape(r['logw'])} for {T} iterations")
    if blobs:
        require(len(r["blobs"]) == T and all(len(b) == n for b in r["blobs"]), "blobs: one entry of n_active per iteration expected")
    require(np.array_equal(r["iter"], np.arange(T)), lambda: f"iteration indices {np.asarray(r['iter']).tolist()}")
    require(T >= min_len, lambda: f"results show {T} iterations, {min_len} were recorded")
    # the posterior uses everything
    require(len(s.posterior(trim_importance_weights=False)[0]) == T * n, "posterior does not cover the whole history")
    return r


def check_warmup(cfg, r, draws, like):
    n = cfg["n_active"]
    n_warm = len(draws) // n
    exp = n_warm if cfg["n_prior"] is None else cfg["n_prior"]
    require(n_warm == exp or cfg["n_prior"] is None, lambda: f"{len(draws)} prior draws for n_prior={cfg['n_prior']} batches")
    require(np.all(np.asarray(r["beta"])[:n_warm] == 0), "warm-up entries must have beta=0")
    for t in range(n_warm):
        rows = draws[t * n:(t + 1) * n]
        fin = np.array([np.isfinite(like.value(x)) for x in rows])
        require(np.array_equal(r["x"][t][fin], rows[fin]), lambda: f"warm-up entry {t} is not the prior draws {t * n}..{(t + 1) * n - 1} in order")
    return n_warm


def fn(case, ctx):
    cfg = case["cfg"]
    blobs = cfg["blob"] != "none"
    md.drop_logs()
    prior, like = md.make_prior(cfg), md.make_like(cfg, record=False)
    mon = md.Monitor(prior, like, snapshots=True)
    d = ctx.fresh_dir()
    s, prior, like = md.build(cfg, prior=prior, like=like, output_dir=d)
    mon.sampler = s
    last, total, ran, sizes = None, 0, False, []
    draws = None
    saved = None
    for op in case["ops"]:
        k = op[0]
        if k == "run":
            md.run_sut(s, cfg, prior, like, n_total=op[1], **({"save_every": op[2]} if op[2] else {}))
            draws = prior.draws[0]
            ran = True
            sizes.append(len(s.results["beta"]))
        elif not ran:
            continue
        elif k == "read":
            s.results, s.posterior(), s.evidence()
        elif k == "save":
            saved = (os.path.join(d, "h.state"), md.results_copy(s))
            with sut("save_state"):
                s.save_state(saved[0])
        elif k == "load" and saved:
            if op[1]:
                s, _, _ = md.build(cfg, prior=prior, like=like, output_dir=d)
                mon.sampler = s
            with sut("load_state"):
                s.load_state(saved[0])
            msg = md.diff_results(saved[1], s.results, have_blobs=blobs)
            require(msg is None, lambda: f"history after load_state differs from what was saved: {msg}")
            last = None
            mon.snaps.clear()
            mon.T = 0
        r = check_shape(cfg, s, prior, blobs, 0)
        if last is not None:
            check_prefix(last, r, f"after {op}", blobs)
        for T, snap in mon.snaps.items():
            check_prefix(snap, r, f"since iteration {T} was recorded", blobs)
            require(len(snap["beta"]) == T, "results read during the run are incomplete")
        last = md.results_copy(s)
        n_warm = check_warmup(cfg, r, draws, like)
    if not ran:
        raise Inconclusive("no run in the sequence")
    md.label_cfg(ctx, cfg)
    for o in case["ops"]:
        ctx.label("op=" + o[0])
    ctx.nontrivial(len(last["beta"]) > n_warm + 1 and len(case["ops"]) > 1)


OP = st.one_of(st.tuples(st.just("run"), st.sampled_from([32, 64, 100, 140]), st.sampled_from([0, 0, 1, 2])),
               st.tuples(st.just("read")), st.tuples(st.just("save")), st.tuples(st.just("load"), st.booleans())).map(list)


@st.composite
def cases(draw, **kw):
    c = draw(md.configs(modes=("serial", "vectorize"), **kw))
    if draw(st.integers(0, 4)) == 0:        # iterations in which nothing is accepted
        c.update(prior=dict(kind="disc", dim=3, r=0.5), periodic=None, reflective=None, sample="rwm", n_steps=1, n_max_steps=1, n_active=max(c["n_active"], 12))
        c["n_effective"] = max(c["n_effective"], c["n_active"])
    ops = [["run", draw(st.sampled_from([32, 48, 64])), draw(st.sampled_from([0, 0, 1, 3]))]] + draw(st.lists(OP, min_size=1, max_size=5))
    return dict(cfg=c, ops=ops)


@st.composite
def long_cases(draw):
    """Many iterations: small ensembles, one sweep each, a large requested sample."""
    c = draw(md.configs(precondition=False, modes=("serial", "vectorize"), max_dim=2))
    c.update(n_active=8, n_effective=draw(st.sampled_from([16, 24, 32])), n_steps=1, n_max_steps=1)
    n = draw(st.sampled_from([250, 320, 400]))
    return dict(cfg=c, ops=[["run", n, draw(st.sampled_from([0, 7]))], draw(st.sampled_from([["read"], ["run", n + 60, 0]]))])


R = "more than one sampling iteration and at least two operations"
SUBS = [Sub("histories", cases(precondition=False), fn, 14, 500, R),
        Sub("histories_pre", cases(precondition=True), fn, 4, 150, R),
        Sub("long", long_cases(), fn, 3, 60, R)]
