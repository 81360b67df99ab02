"""C29: dynamic particle allocation follows the unique-sample ratio."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, require
from .. import models as md
from .. import ref
from .c06 import check_ladder

PROPERTY = "C29"
ASSUMPTIONS = ["Comparisons within 1e-9 of a threshold accept either outcome."]


def fn(case, ctx):
    cfg = case["cfg"]
    md.drop_logs()
    prior, like = md.make_prior(cfg), md.make_like(cfg)
    mon = md.Monitor(prior, like)
    s, prior, like = md.build(cfg, prior=prior, like=like)
    mon.sampler = s
    n0 = s.n_effective
    require(n0 == cfg["n_effective"], lambda: f"initial target {n0}")
    changes = 0
    for k, nt in enumerate(case["totals"]):
        md.run_sut(s, cfg, prior, like, n_total=nt)
        # the next temperature uses the adjusted target
        check_ladder(cfg, s, prior)
        r = s.results
        n_warm = len(prior.draws[0]) // cfg["n_active"]
        rp = ref.Replay(r, n_warm, cfg["n_active"], cfg["n_effective"], cfg["metric"], cfg["dynamic"])
        last, up, down = None, 0, 0
        for e in rp:
            last = e
            if e["targets_after"] != e["targets"]:
                changes += 1
                if max(e["targets_after"]) > max(e["targets"]):
                    up += 1
                else:
                    down += 1
        exp = last["targets_after"] if last else [n0]
        require(s.n_effective in exp, lambda: f"target after {len(r['beta'])} iterations is {s.n_effective}, the rule gives {exp} (dynamic={cfg['dynamic']}, started at {n0})")
        if not cfg["dynamic"]:
            require(s.n_effective == n0, "target changed with dynamic allocation off")
        if up:
            ctx.label("grew")
        if down:
            ctx.label("shrank")
    for T, v in mon.seen.items():
        # seen at the first prior evaluation with T recorded iterations, i.e. after the reweighting of iteration T
        if T >= n_warm and T < len(r["beta"]):
            rr = {k: r[k][:T + 1] for k in ("logl", "beta", "logz", "ess")}
            rp = ref.Replay(rr, n_warm, cfg["n_active"], cfg["n_effective"], cfg["metric"], cfg["dynamic"])
            e = list(rp)[-1]
            require(v in e["targets_after"], lambda: f"target used during iteration {T} is {v}, the rule gives {e['targets_after']}")
    md.label_cfg(ctx, cfg)
    ctx.label("dynamic" if cfg["dynamic"] else "static")
    ctx.nontrivial(changes > 0 if cfg["dynamic"] else len(r["beta"]) > n_warm + 1)


@st.composite
def cases(draw, **kw):
    c = draw(md.configs(blobs=False, **kw))
    c["dynamic"] = draw(st.sampled_from([True, True, True, False]))
    c["like"]["w"] = draw(st.sampled_from([0.1, 0.25, 0.5, 1.0]))
    return dict(cfg=c, totals=draw(st.lists(st.sampled_from([32, 64, 100, 140]), min_size=1, max_size=2)))


SUBS = [Sub("dynamic", cases(precondition=False), fn, 26, 900, "with dynamic allocation on, the target changed at least once; off, more than one iteration ran"),
        Sub("dynamic_pre", cases(precondition=True, evidence=False), fn, 3, 150, "as above")]
