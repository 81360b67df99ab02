"""C07: a run ends exactly when the requested sample size is reached at beta=1."""
import shutil
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from ..core import Inconclusive, Sub, fail, require, sut
from .. import models as md
from .. import ref

PROPERTY = "C07"
ASSUMPTIONS = ["A well-behaved target (unimodal, within the prior) that needs more than 60000 likelihood calls at these sizes "
               "(typical: 2000) is reported as not terminating."]


def done(r, t, metric, n_total):
    """Stop rule after t iterations; None when within rounding of the threshold."""
    lw, _ = ref.mixture(r["logl"][:t], r["beta"][:t], r["logz"][:t])
    m = ref.metric(metric, np.exp(lw))
    if abs(m - n_total) < 1e-7 * n_total:
        return None, m
    return bool(1 - r["beta"][t - 1] < 1e-4 and m >= n_total), m


def fn(case, ctx):
    cfg = case["cfg"]
    md.drop_logs()
    s, prior, like = md.build(cfg)
    prev = 0
    grew = False
    for j, n_total in enumerate(case["totals"]):
        try:
            md.run_sut(s, cfg, prior, like, n_total=n_total)
        except Inconclusive as e:
            if case["good"] and "budget" in str(e):
                fail(f"run(n_total={n_total}) did not end within {md.BUDGET} likelihood calls on a well-behaved target")
            raise
        r = s.results
        T = len(r["beta"])
        n_warm = len(prior.draws[0]) // cfg["n_active"]
        ok, m = done(r, T, cfg["metric"], n_total)
        require(ok is not False, lambda: f"run(n_total={n_total}) returned with beta={r['beta'][-1]!r} and {cfg['metric']}={m:.3f}")
        for t in range(max(prev, n_warm), T):
            ok, m = done(r, t, cfg["metric"], n_total)
            require(ok is not True, lambda: f"run number {j + 1} (n_total={n_total}) performed iteration {t} although {cfg['metric']}={m:.3f} at beta={r['beta'][t - 1]!r} already met the target")
        if j and T > prev:
            grew = True
        if j and n_total <= max(case["totals"][:j]):
            require(T == prev, lambda: f"run(n_total={n_total}) after {case['totals'][:j]} added {T - prev} iterations")
        prev = T
    if case.get("resume"):
        check_resume(case, s, cfg)
    md.label_cfg(ctx, cfg)
    ctx.label("runs=%d" % len(case["totals"]), "well-behaved" if case["good"] else "any target")
    ctx.nontrivial(T > n_warm + 1 and (grew or len(case["totals"]) == 1))


def check_resume(case, s, cfg):
    """The finished state, loaded in a fresh sampler: a total that is already met adds nothing, a larger one is met."""
    import os
    d = tempfile.mkdtemp(prefix="c07_")
    try:
        path = os.path.join(d, "done.state")
        with sut("save_state"):
            s.save_state(path)
        before = len(s.results["beta"])
        for n_total in (case["totals"][-1], 8, case["totals"][-1] + 32):
            s2, p2, l2 = md.build(cfg)
            md.run_sut(s2, cfg, p2, l2, n_total=n_total, resume_state_path=path, what="resuming a finished run")
            r = s2.results
            T = len(r["beta"])
            ok, m = done(r, T, cfg["metric"], n_total)
            require(ok is not False, lambda: f"resumed run(n_total={n_total}) returned with beta={r['beta'][-1]!r} and {cfg['metric']}={m:.3f}")
            for t in range(before, T):
                ok, m = done(r, t, cfg["metric"], n_total)
                require(ok is not True, lambda: f"run(n_total={n_total}) resumed from a finished state performed iteration {t} although {cfg['metric']}={m:.3f} at beta={r['beta'][t - 1]!r} already met the target")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def fn_mid(case, ctx):
    """A checkpoint of an unfinished run, resumed in a fresh sampler with totals above and below the one it was started with."""
    cfg = case["cfg"]
    md.drop_logs()
    d = ctx.fresh_dir()
    s, prior, like = md.build(cfg, output_dir=d, output_label="mid")
    md.run_sut(s, cfg, prior, like, n_total=case["total"], save_every=1)
    files = sorted((int(p.stem.split("_")[1]), p) for p in Path(d).glob("mid_[0-9]*.state"))
    require(files, "save_every=1 wrote no checkpoint")
    t0, path = files[int(case["at"] * (len(files) - 1))]
    more = 0
    for n_total in case["totals"]:
        s2, p2, l2 = md.build(cfg)
        md.run_sut(s2, cfg, p2, l2, n_total=n_total, resume_state_path=path, what="resuming an unfinished run")
        r = s2.results
        T = len(r["beta"])
        ok, m = done(r, T, cfg["metric"], n_total)
        what = f"run(n_total={n_total}) resumed at iteration {t0} of a run(n_total={case['total']})"
        require(ok is not False, lambda: f"{what} returned with beta={r['beta'][-1]!r} and {cfg['metric']}={m:.3f}")
        for t in range(t0, T):
            ok, m = done(r, t, cfg["metric"], n_total)
            require(ok is not True, lambda: f"{what} performed iteration {t} although {cfg['metric']}={m:.3f} at beta={r['beta'][t - 1]!r} already met the target")
        more += T > t0
    md.label_cfg(ctx, cfg)
    ctx.nontrivial(more > 0)


@st.composite
def mid_cases(draw):
    c = draw(md.configs(precondition=False, blobs=False, modes=("serial",), max_dim=2, cut=False, custom=False, likekinds=["gauss", "flat", "laplace"]))
    total = draw(st.sampled_from([120, 200]))
    return dict(cfg=c, total=total, at=draw(md.q(0, 1, 8)), totals=[draw(st.sampled_from([8, 32, 48])), draw(st.sampled_from([64, 100, 240]))])


@st.composite
def large(draw):
    c = draw(md.large_configs(blobs=False))
    return dict(cfg=c, good=False, totals=draw(st.sampled_from([[1100], [600, 1300], [1500]])), resume=False)


def fn_near(case, ctx):
    """The target n_effective is placed just above the warm-up's effective sample size at beta=1, so that the ladder stops
    just short of 1 first, where a small n_total is already met."""
    cfg = dict(case["cfg"])
    md.drop_logs()
    scout = md.make_like(cfg, budget=cfg["n_prior"] * cfg["n_active"] - 1)
    s, prior, _ = md.build(cfg, like=scout)
    try:
        md.run(s, cfg)
    except Inconclusive:
        pass
    x = prior.draws[0]
    ll = np.array([scout.value(v) for v in x])
    w = np.exp(ll - ll.max())
    m = ref.metric(cfg["metric"], w / w.sum())
    cfg["n_effective"] = max(int(np.ceil(m * (1 + case["gap"]))), 2)
    s, prior, like = md.build(cfg)
    md.run_sut(s, cfg, prior, like, n_total=case["total"])
    require(md.bits_equal(prior.draws[0], x), "harness: other warm-up draws")
    r = s.results
    n_warm = len(x) // cfg["n_active"]
    b = np.asarray(r["beta"])
    ok, m = done(r, len(b), cfg["metric"], case["total"])
    require(ok is not False, lambda: f"run(n_total={case['total']}) returned with beta={b[-1]!r} and {cfg['metric']}={m:.3f} (n_effective={cfg['n_effective']})")
    for t in range(n_warm, len(b)):
        ok, m = done(r, t, cfg["metric"], case["total"])
        require(ok is not True, lambda: f"run(n_total={case['total']}) performed iteration {t} although {cfg['metric']}={m:.3f} at beta={b[t - 1]!r} already met the target")
    near = b[(b > 0.9) & (b < 1 - 1e-4)]
    ctx.label("beta>0.99" if np.any(near > 0.99) else "beta>0.97" if np.any(near > 0.97) else "beta>0.9" if len(near) else "far")
    ctx.nontrivial(np.any(near > 0.97))


@st.composite
def near_cases(draw):
    c = draw(md.configs(precondition=False, blobs=False, min_dim=3, max_dim=4, cut=False, custom=False, kinds=["norm"], likekinds=["gauss"],
                        boundary=False, metrics=("ess",)))
    c["prior"]["dists"] = [["norm", 0.0, 1.0] for _ in range(draw(st.integers(2, 8)))]
    c["like"].update(w=draw(md.q(0.4, 1.0)), c=draw(md.q(-0.8, 0.8)))
    c["n_active"] = 32
    c["n_prior"] = draw(st.sampled_from([4, 6, 8]))
    c["dynamic"] = False
    c["n_max_steps"] = 2
    c["n_steps"] = 1
    return dict(cfg=c, gap=draw(st.sampled_from([0.002, 0.004, 0.007, 0.011, 0.013, 0.016, 0.02])), total=draw(st.sampled_from([1, 4, 8])))


def fn_tie(case, ctx):
    """A flat likelihood of value 1: all weights are equal, so with a power of two of particles the effective sample size is
    exactly their number, and a run asked for that many must end there."""
    cfg = case["cfg"]
    md.drop_logs()
    s, prior, like = md.build(cfg)
    n = cfg["n_active"]
    for n_total in case["totals"]:
        before = len(s.results["beta"]) if like.count else 0
        md.run_sut(s, cfg, prior, like, n_total=n_total)
        r = s.results
        T, n_warm = len(r["beta"]), len(prior.draws[0]) // n
        b = np.asarray(r["beta"])
        require(b[-1] == 1.0 and T * n >= n_total, lambda: f"run(n_total={n_total}) returned with beta={b[-1]!r} and {T * n} equally weighted particles")
        for t in range(max(before, n_warm), T):
            require(not (b[t - 1] == 1.0 and t * n == n_total), lambda: f"run(n_total={n_total}) performed iteration {t} although its {t * n} equally weighted particles already are that many")
    ctx.label("tie" if T * n == case["totals"][-1] else "no tie", "runs=%d" % len(case["totals"]))
    ctx.nontrivial(any(k * n in case["totals"] and b[k - 1] == 1.0 for k in range(1, T + 1)))


@st.composite
def tie_cases(draw):
    c = draw(md.configs(precondition=False, blobs=False, cut=False, custom=False, likekinds=["flat"], boundary=False, offs=False, metrics=("ess",), max_dim=2))
    c["n_active"] = draw(st.sampled_from([8, 16, 32]))
    c["n_effective"] = 2 * c["n_active"]
    c["n_prior"] = draw(st.sampled_from([1, 2, 4]))
    c["n_prior_extra"] = 0
    return dict(cfg=c, totals=[c["n_active"] * k for k in draw(st.sampled_from([[4], [8], [16], [8, 16], [8, 8], [16, 8]]))])


TOT = st.sampled_from([8, 32, 40, 64, 100, 120, 160])


@st.composite
def cases(draw, good, **kw):
    if good:
        c = draw(md.configs(max_dim=2, cut=False, likekinds=["gauss", "flat", "laplace"], custom=False,
                            kinds=["norm", "uniform", "beta", "expon"], **kw))
        c["like"]["w"] = draw(md.q(0.5, 1.5))
        c["n_steps"] = draw(st.sampled_from([1, 2]))
        c["n_max_steps"] = draw(st.sampled_from([5, 10]))
        if c["metric"] == "uss":
            c["n_effective"] = min(c["n_effective"], 2 * c["n_active"])
    else:
        c = draw(md.configs(**kw))
    return dict(cfg=c, good=good, totals=draw(st.lists(TOT, min_size=1, max_size=4)), resume=draw(st.sampled_from([False, False, True])))


R = "the run lasted beyond its first iteration and, with several run() calls, a later one added iterations"
SUBS = [Sub("near_one", near_cases(), fn_near, 14, 500, "some recorded inverse temperature lies above 0.97 and short of 1"),
        Sub("tie", tie_cases(), fn_tie, 4, 60, "the requested total was reached exactly"),
        Sub("well_behaved", cases(True, precondition=False, blobs=False), fn, 14, 600, R),
        Sub("any", cases(False, precondition=False), fn, 14, 600, R),
        Sub("mid", mid_cases(), fn_mid, 4, 150, "some resumed run added iterations"),
        Sub("large", large(), fn, 1, 20, R),
        Sub("pre", cases(True, precondition=True, blobs=False), fn, 5, 200, R)]
