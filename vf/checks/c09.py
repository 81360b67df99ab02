"""C09: resuming a checkpoint continues the same run."""
import os
import shutil

import numpy as np
import torch
from hypothesis import strategies as st

from ..core import Inconclusive, Sub, require, sut
from .. import models as md
from .c18 import ListPool

PROPERTY = "C09"
ASSUMPTIONS = ["The random streams at the moment of a save (not part of the checkpoint format) are captured by overriding save_state and restored before resuming."]


def get_rng():
    return np.random.get_state(), torch.get_rng_state()


def set_rng(st_):
    np.random.set_state(st_[0])
    torch.set_rng_state(st_[1])


def make_class(rec):
    import pocomc

    class Spy(pocomc.Sampler):
        def save_state(self, path):
            super().save_state(path)
            rec[str(path)] = get_rng()
    return Spy


def summary(s, blobs):
    p = s.posterior(trim_importance_weights=False, return_blobs=blobs)
    return dict(res=md.results_copy(s), post=[np.array(a, copy=True) for a in p], ev=s.evidence(), calls=int(s.calls),
                t=len(s.results["beta"]), n_eff=s.n_effective)


def compare(a, b, what, blobs):
    msg = md.diff_results(a["res"], b["res"], have_blobs=blobs)
    require(msg is None, lambda: f"{what}: {msg}")
    for x, y in zip(a["post"], b["post"]):
        require(md.bits_equal(x, y), f"{what}: posterior differs")
    require(_eq(a["ev"], b["ev"]), lambda: f"{what}: evidence {b['ev']} instead of {a['ev']}")
    require(a["calls"] == b["calls"], lambda: f"{what}: {b['calls']} calls instead of {a['calls']}")
    require(a["n_eff"] == b["n_eff"], lambda: f"{what}: effective-particle target {b['n_eff']} instead of {a['n_eff']}")


def _eq(a, b):
    return all((x is None and y is None) or (x is not None and y is not None and (x == y or (x != x and y != y))) for x, y in zip(a, b))


def fresh(cfg, like, d, rec=None, **over):
    """A new sampler as a user would build it in a new session: same arguments, its own prior and likelihood objects."""
    if rec is not None:
        over["cls"] = make_class(rec)
    c = dict(cfg, seed=cfg["seed"] + 1)
    prior = md.make_prior(cfg)
    l2 = md.make_like(cfg, record=False)
    if cfg["mode"] == "pool":
        over["pool"] = ListPool()
    return md.build(c, prior=prior, like=l2, output_dir=d, **over)[0]


def expected_names(label, t0, T, k):
    must = {f"{label}_{t}.state" for t in range(t0 + 1, T) if (t - t0) % k == 0} | {f"{label}_final.state"}
    may = {f"{label}_{T}.state"} if T > t0 and (T - t0) % k == 0 else set()
    return must, may


def check_files(d, label, t0, T, k, before, what):
    got = {f for f in os.listdir(d) if f.endswith(".state")} if os.path.isdir(d) else set()
    must, may = expected_names(label, t0, T, k)
    new = got - before
    require(must <= got, lambda: f"{what}: missing checkpoints {sorted(must - got)} (save_every={k}, iterations {t0}..{T})")
    require(new <= must | may, lambda: f"{what}: unexpected checkpoints {sorted(new - must - may)} (save_every={k}, iterations {t0}..{T})")
    return got


def fn(case, ctx):
    cfg, k = case["cfg"], case["save_every"]
    blobs = cfg["blob"] != "none"
    md.drop_logs()
    base = ctx.fresh_dir()
    d = os.path.join(base, *case["dir"])
    label = case["label"]
    rec = {}
    over = dict(pool=ListPool()) if cfg["mode"] == "pool" else {}
    if case["label"] != "pmc":
        over["output_label"] = label
    prior, like = md.make_prior(cfg), md.make_like(cfg, record=False)
    s, prior, like = md.build(cfg, prior=prior, like=like, cls=make_class(rec), output_dir=d, **over)
    nt = cfg["n_total"]
    path0 = os.path.join(base, "before.state")
    with sut("save_state before run"):
        s.save_state(path0)
    md.run_sut(s, cfg, prior, like, "run with save_every", save_every=k)
    A = summary(s, blobs)
    T = A["t"]
    n_warm = len(prior.draws[0]) // cfg["n_active"]
    # checkpoints on disk
    check_files(d, label, 0, T, k, set(), "first run")
    missing = [p for p in (os.path.join(d, f) for f in sorted(os.listdir(d))) if p not in rec]
    if missing:
        raise Inconclusive("checkpoints are not written through save_state")
    path1 = os.path.join(base, "after.state")
    with sut("save_state after run"):
        s.save_state(path1)
    rng1 = rec[path1]
    # keep the checkpoints elsewhere: a resumed run writes to the output directory recorded in the state
    ck = os.path.join(base, "ck")
    shutil.copytree(d, ck)
    for f in os.listdir(d):
        rec[os.path.join(ck, f)] = rec[os.path.join(d, f)]
    # continue the original: what a resumed finished run must reproduce
    set_rng(rng1)
    md.run_sut(s, cfg, prior, like, "continued run", n_total=nt + 40)
    B = summary(s, blobs)
    over2 = {k_: v for k_, v in over.items() if k_ == "output_label"}

    paths = [("before", path0, 0)]
    for f in sorted(os.listdir(ck)):
        t = f[len(label) + 1:-len(".state")]
        if t != "final":
            paths.append(("warm-up" if int(t) < n_warm else "sampling", os.path.join(ck, f), int(t)))
    picks = sorted({paths[i % len(paths)] for i in case["picks"]})
    d2 = os.path.join(base, "resumed")
    for kind, path, t in picks:
        rec2 = {}
        s2 = fresh(cfg, like, d2, rec=rec2, **over2)
        for dd in (d, d2):
            shutil.rmtree(dd, ignore_errors=True)
        set_rng(rec[path])
        kw = dict(save_every=case["save2"]) if case["save2"] else {}
        with sut(f"resume from {kind} checkpoint (iteration {t} of {T})"):
            md.run(s2, cfg, resume_state_path=path, **kw)
        what = f"resumed from {kind} checkpoint at iteration {t} of {T}"
        C = summary(s2, blobs)
        if kind == "before" and cfg["prior"]["kind"] == "product":
            # unpickled scipy distributions own a copy of the generator, so the global stream is not advanced by the prior draws
            for key in ("beta", "iter", "calls") + (("x", "u", "logl", "logp", "logdetj") if cfg["like"]["cut"] is None else ()):
                require(md.bits_equal(A["res"][key][:n_warm], C["res"][key][:n_warm]), f"{what}: warm-up {key} differs")
            require(abs(C["res"]["beta"][-1] - 1) < 1e-4, f"{what}: does not finish")
        else:
            compare(A, C, what, blobs)
        if kw:
            out = str(s2.output_dir)
            got = check_files(out, label, t, len(C["res"]["beta"]), case["save2"], set(), "resumed run")
            if kind != "before":
                chain(case, cfg, like, ctx, s2, rec2, out, got, A, T, t, label, over2, base, blobs)
        ctx.label("from " + kind)
    # finished run, larger n_total, via final checkpoint and via the hand-made one
    for path in (path1, os.path.join(ck, f"{label}_final.state")):
        s2 = fresh(cfg, like, d2, **over2)
        with sut("load_state"):
            s2.load_state(path)
        compare(A, summary(s2, blobs), "loaded final state", blobs)
        set_rng(rng1)
        with sut("resume a finished run with a larger n_total"):
            md.run(s2, cfg, n_total=nt + 40, resume_state_path=path)
        compare(B, summary(s2, blobs), "finished run resumed with larger n_total", blobs)
    # nothing left to do: the samples stay as they are and the final checkpoint is still left behind
    path = os.path.join(ck, f"{label}_final.state")
    s2 = fresh(cfg, like, d2, **over2)
    for dd in (d, d2):
        shutil.rmtree(dd, ignore_errors=True)
    with sut("resume a finished run with its own n_total"):
        md.run(s2, cfg, resume_state_path=path, save_every=k, n_evidence=0)
    C = summary(s2, blobs)
    if cfg["n_evidence"]:
        C["ev"] = A["ev"]  # the flow-based estimate of the evidence is drawn per call of run
    compare(A, C, "finished run resumed with its own n_total", blobs)
    check_files(str(s2.output_dir), label, T, T, k, set(), "finished run resumed with its own n_total")
    md.label_cfg(ctx, cfg)
    ctx.label("save_every=%d" % k, "nested dir" if len(case["dir"]) > 1 else "flat dir")
    ctx.nontrivial(any(p[0] == "sampling" for p in picks) and T > n_warm + 1)


def chain(case, cfg, like, ctx, s2, rec2, out, got, A, T, t, label, over2, base, blobs):
    """A third sampler goes on from a checkpoint that the resumed run wrote."""
    names = sorted((f for f in got if not f.endswith("_final.state")), key=lambda f: int(f[len(label) + 1:-len(".state")]))
    if not names:
        return
    f = names[case["picks"][0] % len(names)]
    src = os.path.join(out, f)
    if src not in rec2:
        raise Inconclusive("checkpoints are not written through save_state")
    p3 = os.path.join(base, "chain.state")
    shutil.copy(src, p3)
    s3 = fresh(cfg, like, os.path.join(base, "third"), **over2)
    set_rng(rec2[src])
    with sut(f"resume from {f}, written by a run resumed at iteration {t} of {T}"):
        md.run(s3, cfg, resume_state_path=p3)
    compare(A, summary(s3, blobs), f"resumed from {f}, written by a run resumed at iteration {t} of {T}", blobs)
    ctx.label("chain of resumes")


@st.composite
def cases(draw, **kw):
    c = draw(md.configs(modes=("serial", "vectorize", "pool"), max_dim=3, **kw))
    c["n_total"] = draw(st.sampled_from([32, 48, 64]))
    return dict(cfg=c, save_every=draw(st.sampled_from([1, 2, 3])), save2=draw(st.sampled_from([0, 1, 2])),
                picks=draw(st.lists(st.integers(0, 40), min_size=1, max_size=3)),
                dir=draw(st.sampled_from([["states"], ["a", "b", "c"]])), label=draw(st.sampled_from(["pmc", "run.v1", "x"])))


R = "resumed from a checkpoint written between sampling iterations of a run with several"
SUBS = [Sub("nopre", cases(precondition=False), fn, 8, 400, R),
        Sub("pre", cases(precondition=True), fn, 3, 160, R)]
