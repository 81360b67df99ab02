"""C17: resampling is faithful to the weights."""
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, Inconclusive, Violation, require, sut
from .. import models as md
from .. import ref

PROPERTY = "C17"
ASSUMPTIONS = ["In-run resampling is observed with a likelihood that vanishes everywhere except at the prior draws, so that every MCMC move is rejected "
               "and the recorded particles are the resampled ones; the weighted history it draws from is the one trimmed to 99 percent of its effective size."]


def weights_of(c):
    w = np.array([0.0 if e is None else m * 2.0 ** e for m, e in c["w"]])
    if c.get("big"):
        w = md.expand_weights(w, *c["big"])
    if not np.any(w > 0):
        w[c["seed"] % len(w)] = 1.0
    return w


def exact(w):
    f = [Fraction(float(x)) for x in w]
    s = sum(f)
    return [x / s for x in f]


def fn_direct(case, ctx):
    from pocomc.tools import systematic_resample
    w = weights_of(case)
    n = case["size"]
    kind = case["as"]
    if kind == "float32":
        arg = w.astype(np.float32)
        w = arg.astype(float)
    elif kind == "list":
        arg = [float(v) for v in w]
    elif kind == "int":
        arg = np.array([0 if v == 0 else int(min(max(1, round(v)), 2 ** 20)) for v in w])
        w = arg.astype(float)
    elif kind == "normalised":
        w = w / w.sum()
        arg = w.copy()
    else:
        arg = w.copy()
    if not np.any(w > 0):
        return
    before = list(map(float, arg))
    real = np.random.random
    fixed = case["u"]
    if fixed is not None:
        def scripted(size=None):
            return fixed if size is None else np.full(size, fixed)
        np.random.random = scripted
    try:
        with sut("systematic_resample"):
            if fixed is None:
                idx = np.asarray(systematic_resample(n, arg, random_state=case["seed"]))
                idx2 = np.asarray(systematic_resample(n, weights=arg, random_state=case["seed"]))
            else:
                idx = np.asarray(systematic_resample(n, arg))
                idx2 = idx
    finally:
        np.random.random = real
    require(np.array_equal(idx, idx2), "the same random_state gives different indices")
    require(list(map(float, arg)) == before, "systematic_resample modified the weights")
    require(idx.shape == (n,) and idx.dtype.kind in "iu", lambda: f"shape {idx.shape} dtype {idx.dtype} for size {n}")
    require(np.all((idx >= 0) & (idx < len(w))), lambda: f"index {idx.max()} for {len(w)} weights")
    p = exact(w)
    cnt = np.bincount(idx, minlength=len(w))
    slack = 1e-9 if kind != "float32" else 1e-4
    for i, pi in enumerate(p):
        if pi == 0:
            require(cnt[i] == 0, lambda: f"entry {i} of zero weight was drawn {cnt[i]} times")
            continue
        e = float(n * pi)
        require(math.floor(e - slack * (1 + e)) <= cnt[i] <= math.ceil(e + slack * (1 + e)), lambda: f"entry {i} with n*w = {e!r} was drawn {cnt[i]} times")
    ctx.label("u=%r" % fixed if fixed is not None else "seeded", "as=" + kind, "zeros" if np.any(w == 0) else "positive", "n<m" if n < len(w) else "n>=m")
    ctx.nontrivial(len(w) > 1 and len(set(w.tolist())) > 1)


def fn_mean(case, ctx):
    """Expected counts are n w_i: the offset is uniform, so each count is floor plus a Bernoulli."""
    from pocomc.tools import systematic_resample
    w = weights_of(case)
    n, R = case["size"], 300
    p = np.array([float(v) for v in exact(w)])
    tot = np.zeros(len(w))
    np.random.seed(case["seed"])
    with sut("systematic_resample"):
        for _ in range(R):
            tot += np.bincount(np.asarray(systematic_resample(n, w.copy())), minlength=len(w))
    e = n * p
    fr = e - np.floor(e)
    sd = np.sqrt(fr * (1 - fr) / R)
    dev = np.abs(tot / R - e)
    bad = dev > 6.5 * sd + 12 / R
    require(not np.any(bad), lambda: f"mean count {tot[bad][0] / R:.4f} of an entry with n*w = {e[bad][0]:.4f} over {R} draws")
    ctx.nontrivial(np.any((fr > 0.1) & (fr < 0.9)))


# --------------------------------------------------------------------------- inside a run

class StopRun(BaseException):
    pass


class AtDraws(md.Like):
    """Finite only at the prior draws."""
    keys = None

    def value(self, x):
        if self.keys is None:
            self.keys = {np.ascontiguousarray(r).tobytes() for r in self.prior_.draws[0]}
        if np.ascontiguousarray(x).tobytes() not in self.keys:
            return -np.inf
        return super().value(x)


class Stopper:
    """Ends the run once k iterations have been recorded."""

    def __init__(self, k):
        self.k, self.sampler = k, None

    def __call__(self, x):
        if self.sampler is None:
            return
        try:
            T = len(self.sampler.results["beta"])
        except Exception:
            return
        if T >= self.k:
            raise StopRun()


def trim_ref(w):
    w = w / w.sum()
    tot = 1 / np.sum(w * w)
    for p in np.linspace(0, 99, 1000)[::-1]:
        m = w >= np.percentile(w, p)
        t = w[m] / w[m].sum()
        if 1 / np.sum(t * t) / tot >= 0.99:
            break
    out = np.zeros(len(w))
    out[m] = t
    return out


def neighbours(w, k):
    """Trimmed weights for thresholds adjacent to the reference one (which may be met only to within rounding)."""
    o = np.argsort(-w, kind="stable")
    for j in range(max(1, k - 3), min(len(w), k + 3) + 1):
        out = np.zeros(len(w))
        out[o[:j]] = w[o[:j]] / w[o[:j]].sum()
        yield out


def groups(keys, w, n):
    g, fl, ce = {}, {}, {}
    for k, v in zip(keys, w):
        e = n * v
        g[k] = g.get(k, 0.0) + v
        fl[k] = fl.get(k, 0) + math.floor(e - 1e-7)
        ce[k] = ce.get(k, 0) + (math.ceil(e + 1e-7) if v > 0 else 0)
    return g, fl, ce


def violations(cnt, g, fl, ce):
    return sum(1 for k in g if not fl[k] <= cnt.get(k, 0) <= ce[k])


def fn_run(case, ctx):
    cfg = case["cfg"]
    md.drop_logs()
    prior = md.make_prior(cfg)
    m, sc = md.prior_scale(cfg["prior"])
    like = AtDraws(cfg["like"], m, sc, "none")
    like.prior_ = prior
    with sut("Sampler"):
        s, _, _ = md.build(cfg, prior=prior, like=like)
    nw = md.n_warm_of(cfg)
    stop = Stopper(nw + case["extra"])
    stop.sampler = s
    md._UID[0] += 1
    prior.hook_id = md._UID[0]
    md.HOOKS[prior.hook_id] = stop
    try:
        with sut("run"):
            md.run(s, cfg)
    except StopRun:
        pass
    except Violation:
        if md.empty_batch(cfg, prior, like) or md.few_finite(cfg, prior, like):
            raise Inconclusive("a warm-up batch has no positive-likelihood particle")
        raise
    r = s.results
    T, n = len(r["beta"]), s.n_active
    if T <= nw:
        raise Inconclusive("no sampling iteration")
    X = [[np.ascontiguousarray(v).tobytes() for v in r["x"][t]] for t in range(T)]
    done = 0
    for t in range(nw, T):
        lw, _ = ref.mixture(r["logl"][:t], r["beta"][:t], r["logz"][:t], r["beta"][t])
        wfull = np.exp(lw)
        w = trim_ref(wfull)
        hist = [k for b in X[:t] for k in b]
        g, fl, ce = groups(hist, w, n)
        cnt = {}
        for k in X[t]:
            require(k in g, "a particle that starts an iteration is not in the recorded history")
            cnt[k] = cnt.get(k, 0) + 1
        if cfg["resample"] == "syst":
            bad = [k for k in g if not fl[k] <= cnt.get(k, 0) <= ce[k]]
            if bad and any(not violations(cnt, *groups(hist, a, n)) for a in neighbours(wfull, int(np.sum(w > 0)))):
                bad = []
            require(not bad, lambda: f"iteration {t}: systematic resampling drew a particle of expected count {n * g[bad[0]]:.4f} {cnt.get(bad[0], 0)} times (allowed {fl[bad[0]]}..{ce[bad[0]]})")
        else:
            for k, c in cnt.items():
                require(g[k] > 0 or n * sum(v for kk, v in zip(hist, wfull / wfull.sum()) if kk == k) > 1e-6, lambda: f"iteration {t}: a particle of zero weight was drawn {c} times")
            ks = list(g)
            gv = np.array([g[k] for k in ks])
            cv = np.array([cnt.get(k, 0) for k in ks])
            lookup = {}
            for b in range(t):
                for i, k in enumerate(X[b]):
                    lookup[k] = (r["logl"][b][i], r["x"][b][i][0])
            L = np.array([lookup[k][0] for k in ks])
            x0 = np.array([lookup[k][1] for k in ks])
            for fv in (np.tanh((L - np.median(L)) / (np.std(L) + 1e-9)), (x0 > np.median(x0)).astype(float), np.sqrt(gv / gv.max()), np.arange(len(ks)) / len(ks)):
                mean = np.sum(gv * fv)
                var = np.sum(gv * (fv - mean) ** 2) / n
                if var * n * n > 6:
                    z = (np.sum(cv * fv) / n - mean) / math.sqrt(var)
                    require(abs(z) < 7, lambda: f"iteration {t}: multinomially resampled particles are not distributed as the weights ({z:.1f} sigma)")
            if t == nw:
                rs = np.random.RandomState(case["sim"])
                sims = []
                for _ in range(60):
                    c = rs.multinomial(n, gv / gv.sum())
                    sims.append(violations(dict(zip(ks, c)), g, fl, ce))
                obs = violations(cnt, g, fl, ce)
                lo = np.mean(sims) - 7 * max(np.std(sims), 1.0)
                require(obs >= lo, lambda: f"iteration {t}: {obs} counts deviate from their expectation by a whole draw or more, multinomial resampling gives {np.mean(sims):.1f}")
                ctx.label("scheme distinguishable" if lo > 0 else "scheme not distinguishable")
        done += 1
    md.label_cfg(ctx, cfg)
    ctx.nontrivial(done >= 1 and r["beta"][-1] > 0)


W = st.lists(st.tuples(st.sampled_from([1.0, 1.0, 1.5, 1.25, 1.1]), st.one_of(st.none(), st.integers(-3, 3), st.integers(-60, 20))).map(list),
             min_size=1, max_size=30)
BIG = st.one_of(*([st.none()] * 39 + [md.BIGW]))
direct = st.builds(lambda **k: k, w=W, big=BIG, size=st.one_of(st.integers(1, 60), st.sampled_from([512, 4096])), seed=st.integers(0, 2 ** 31 - 1),
                   u=st.sampled_from([None] * 6 + [0.0, 1 - 2.0 ** -53, 0.5, 2.0 ** -60]),
                   **{"as": st.sampled_from(["float", "normalised", "float32", "list", "int"])})
mean = st.builds(lambda **k: k, w=W, big=BIG, size=st.one_of(st.integers(1, 40), st.integers(1, 40), st.sampled_from([200, 513, 1025, 2001, 4999, 10007])), seed=st.integers(0, 10 ** 6))


@st.composite
def runs(draw, pre, sizes):
    c = draw(md.configs(precondition=pre, blobs=False, modes=("serial",), boundary=False, max_dim=3, likekinds=["gauss", "laplace", "ring", "corr", "step", "bimodal"]))
    c["n_active"] = draw(st.sampled_from(sizes))
    c["n_effective"] = int(c["n_active"] * draw(st.sampled_from([1.0, 1.5, 2.0, 3.0])))
    c["n_prior"] = draw(st.sampled_from([None, 2, 3, 6]))
    c["n_max_steps"] = 1
    c["n_evidence"] = 0
    if pre:
        c["epochs"] = 2
    return dict(cfg=c, extra=draw(st.integers(1, 5)), sim=draw(st.integers(0, 10 ** 6)))


SUBS = [Sub("direct", direct, fn_direct, 600, 30000, "several distinct weights"),
        Sub("mean", mean, fn_mean, 25, 1500, "some expected count is not an integer"),
        Sub("run", runs(False, [16, 32, 64, 64]), fn_run, 25, 1200, "at least one resampling at a positive temperature"),
        Sub("run_large", runs(False, [256, 384]), fn_run, 6, 250, "at least one resampling at a positive temperature"),
        Sub("run_pre", runs(True, [32, 64]), fn_run, 4, 200, "at least one resampling at a positive temperature")]
