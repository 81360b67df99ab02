"""C18: likelihood calls are counted exactly."""
import os

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, require, sut
from .. import models as md

PROPERTY = "C18"
ASSUMPTIONS = ["Evaluations in worker processes are counted in the parent by the pool's map (one task per point)."]


class ListPool:
    """In-process pool: keeps evaluation counts observable."""

    def map(self, f, xs):
        return [f(x) for x in list(xs)]


def fn(case, ctx):
    cfg = case["cfg"]
    md.drop_logs()
    prior, like = md.make_prior(cfg), md.make_like(cfg, record=False)
    mon = md.Monitor(prior, like)
    over = dict(pool=ListPool()) if cfg["mode"] == "pool" else {}
    d = ctx.fresh_dir()
    s, prior, like = md.build(cfg, prior=prior, like=like, output_dir=d, **over)
    mon.sampler = s
    resumed = any_ev = False
    for k, (nt, nev, resume) in enumerate(case["runs"]):
        nev = nev if cfg["precondition"] else 0
        if resume and k:
            path = os.path.join(d, "hand.state")
            with sut("save_state"):
                s.save_state(path)
            s, _, _ = md.build(cfg, prior=prior, like=like, output_dir=d, **over)
            mon.sampler = s
            md.run_sut(s, cfg, prior, like, n_total=nt, n_evidence=nev, resume_state_path=path)
            resumed = True
        else:
            md.run_sut(s, cfg, prior, like, n_total=nt, n_evidence=nev)
        require(int(s.calls) == like.count, lambda: f"after run {k + 1}: sampler reports {int(s.calls)} calls, the likelihood was evaluated {like.count} times")
        r = s.results
        c = np.asarray(r["calls"])
        for T, cnt in mon.count_at.items():
            # count_at[T]: evaluations made when the first prior density was requested with T iterations recorded;
            # evaluations for the evidence of an earlier run() come after the iteration they follow
            if 1 <= T <= len(c):
                ok = int(c[T - 1]) == cnt
                require(ok, lambda: f"iteration {T - 1} recorded {int(c[T - 1])} calls, {cnt} evaluations had been made")
        any_ev |= nev > 0
        if not any_ev:
            require(int(c[-1]) == like.count, lambda: f"last iteration recorded {int(c[-1])} calls, {like.count} evaluations were made")
        require(np.all(np.diff(c) >= 0), "call counter decreased")
    md.label_cfg(ctx, cfg)
    ctx.label("resumed" if resumed else "same sampler", "runs=%d" % len(case["runs"]))
    ctx.nontrivial(len(r["beta"]) > len(prior.draws[0]) // cfg["n_active"] + 1)


@st.composite
def cases(draw, **kw):
    c = draw(md.configs(modes=("serial", "vectorize", "pool"), **kw))
    n = draw(st.integers(1, 3))
    runs = [[draw(st.sampled_from([32, 64, 90, 120])), draw(st.sampled_from([0, 20, 50])), draw(st.booleans())] for _ in range(n)]
    return dict(cfg=c, runs=runs)


SUBS = [Sub("nopre", cases(precondition=False), fn, 18, 700, "the run lasted beyond its first sampling iteration"),
        Sub("pre", cases(precondition=True), fn, 9, 350, "the run lasted beyond its first sampling iteration")]
