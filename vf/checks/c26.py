"""C26: zero-likelihood regions are excluded and accounted for."""
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, Inconclusive, require, sut
from .. import models as md
from . import c08
from .c18 import ListPool

PROPERTY = "C26"
ASSUMPTIONS = ["Every warm-up batch contains at least one particle of positive likelihood, and the warm-up at least 3 (dim + 1) of them (a proposal covariance exists).",
               "The sequential evidence of a flat likelihood on part of the prior is compared with the exact prior mass within 7 binomial standard errors (times 2, for the "
               "running average over batches)."]


def rec_key(r, t, i, blobs):
    b = r["blobs"][t][i] if blobs else None
    return (r["x"][t, i].tobytes(), r["u"][t, i].tobytes(), float(r["logdetj"][t, i]), float(r["logl"][t, i]), float(r["logp"][t, i]), repr(b))


def fn(case, ctx):
    cfg = case["cfg"]
    md.drop_logs()
    over = dict(pool=ListPool()) if cfg["mode"] == "pool" else {}
    s, prior, like = md.build(cfg, **over)
    md.run_sut(s, cfg, prior, like, what="run with a zero-likelihood region")
    if case["again"]:
        md.run_sut(s, cfg, prior, like, what="continued run", n_total=int(1.5 * cfg["n_total"]))
    r = s.results
    T, n, d = r["x"].shape
    D = prior.draws[0]
    nw = len(D) // n
    bad = ~np.isfinite(r["logl"])
    require(not bad.any(), lambda: f"recorded particle {tuple(np.argwhere(bad)[0])} has log-likelihood {r['logl'][bad][0]}")
    bl = cfg["blob"] != "none"
    nrep = 0
    for t in range(nw):
        fin = np.array([np.isfinite(like.value(v)) for v in D[t * n:(t + 1) * n]])
        ok = {rec_key(r, t, i, bl) for i in range(n) if fin[i]}
        for i in range(n):
            if fin[i]:
                require(np.array_equal(r["x"][t, i], D[t * n + i]), lambda: f"warm-up particle {t},{i} of positive likelihood is {r['x'][t, i]}, drawn {D[t * n + i]}")
            else:
                nrep += 1
                require(rec_key(r, t, i, bl) in ok, lambda: f"warm-up particle {t},{i} of zero likelihood was not replaced by a complete copy of another particle of its batch "
                        f"(x={r['x'][t, i]}, logl={r['logl'][t, i]}, logp={r['logp'][t, i]}, logdetj={r['logdetj'][t, i]})")
    for o in (dict(), dict(trim_importance_weights=False), dict(resample=True)):
        with sut("posterior"):
            out = s.posterior(**o)
        require(np.all(np.isfinite(out[-2])), lambda: f"posterior({o}) has samples of zero likelihood")
        require(all(np.isfinite(like.value(v)) for v in out[0]), lambda: f"posterior({o}) has samples in the zero-likelihood region")
    require(np.all(np.isfinite(r["logz"])) and np.isfinite(s.evidence()[0]), lambda: f"non-finite log-evidence {s.evidence()[0]}")
    rejected = sum(1 for v in like.log[len(D):] if not np.isfinite(like.value(v)))
    md.label_cfg(ctx, cfg)
    ctx.label("region=%s" % (cfg["like"]["region"][0] if cfg["like"].get("region") else "halfspace"), "replaced" if nrep else "none replaced",
              "zero-likelihood proposals" if rejected else "no such proposals")
    ctx.nontrivial(nrep > 0 and T > nw)


def fn_mass(case, ctx):
    """Flat likelihood exp(off) on part of the prior: the sequential evidence is that part's mass."""
    cfg = case["cfg"]
    md.drop_logs()
    s, prior, like = md.build(cfg)
    md.run_sut(s, cfg, prior, like, what="run with a zero-likelihood region", n_evidence=0)
    m, sc = md.prior_scale(cfg["prior"])
    dist = md.make_dist(cfg["prior"]["dists"][0])
    p = float(dist.cdf(m[0] + sc[0] * cfg["like"]["cut"]))
    if not 0.05 < p < 0.97:
        raise Inconclusive("region too small or too large")
    N = len(prior.draws[0])
    got = s.evidence()[0] - cfg["like"]["off"]
    sd = math.sqrt((1 - p) / (p * N))
    require(abs(got - math.log(p)) < 14 * sd + 0.02, lambda: f"sequential log-evidence is {got:.4f}, the prior mass of positive likelihood has log {math.log(p):.4f} (standard error {sd:.4f})")
    ctx.label("decides" if abs(math.log(p)) > 14 * sd + 0.02 else "mass too close to one")
    ctx.nontrivial(abs(math.log(p)) > 14 * sd + 0.02)


REG = st.one_of(st.tuples(st.just("hole"), md.q(0.3, 1.2)), st.tuples(st.just("shell"), md.q(0, 1)), st.tuples(st.just("stripes"), md.q(0.5, 3)), st.tuples(st.just("corner"), md.q(-0.8, 0.8))).map(list)


@st.composite
def cases(draw, pre):
    c = draw(md.configs(precondition=pre, modes=("serial", "vectorize", "pool"), max_dim=3))
    if c["mode"] != "vectorize":
        c["blob"] = draw(st.sampled_from(["none", "float", "vec", "struct", "str", "int"]))
    if draw(st.booleans()):
        c["like"]["cut"] = draw(md.q(-0.6, 1.2))
        c["like"]["region"] = None
    else:
        c["like"]["cut"] = None
        c["like"]["region"] = draw(REG)
    return dict(cfg=c, again=draw(st.booleans()))


@st.composite
def mass_cases(draw):
    c = draw(md.configs(precondition=False, modes=("vectorize",), max_dim=2, custom=False, likekinds=["flat"], boundary=False))
    c["n_active"] = draw(st.sampled_from([64, 128]))
    c["n_effective"] = 2 * c["n_active"]
    c["n_prior"] = draw(st.sampled_from([16, 24]))
    c["n_total"] = 64
    c["like"]["cut"] = draw(md.q(-1.0, 0.6))
    c["n_max_steps"] = 1
    return dict(cfg=c)


@st.composite
def is_cases(draw):
    c = draw(c08.cases())
    c["cfg"]["like"]["cut"] = draw(md.q(-0.4, 1.2))
    return c


SUBS = [Sub("regions", cases(False), fn, 26, 1200, "some warm-up particle was replaced and sampling iterations followed"),
        Sub("regions_pre", cases(True), fn, 5, 250, "some warm-up particle was replaced and sampling iterations followed"),
        Sub("mass", mass_cases(), fn_mass, 8, 400, "the mass differs from one by more than the tolerance"),
        Sub("importance", is_cases(), c08.fn, 4, 200, "an importance-sampled evidence was recomputed from its logged samples")]
