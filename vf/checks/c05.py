"""C05: posterior() is aligned and weight-faithful for every option."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, require, sut
from .. import models as md
from .. import ref

PROPERTY = "C05"
ASSUMPTIONS = ["Rows with bitwise equal parameters carry equal weights (they have equal likelihoods)."]


def key(x):
    return np.ascontiguousarray(x).tobytes()


def check_call(cfg, s, hist, o, ctx):
    """hist: dict key -> (index of one occurrence, multiplicity)"""
    kw = dict(o)
    with sut(f"posterior({kw})"):
        out = s.posterior(**kw)
    resample, blobs = o.get("resample", False), o.get("return_blobs", False)
    trim, ess_trim = o.get("trim_importance_weights", True), o.get("ess_trim", 0.99)
    out = list(out)
    B = out.pop() if blobs else None
    require(len(out) == (3 if resample else 4), lambda: f"posterior({kw}) returned {len(out)} arrays")
    x, logl, logp = out[0], out[-2], out[-1]
    n = len(x)
    require(all(len(a) == n for a in out) and (B is None or len(B) == n), lambda: f"posterior({kw}): lengths {[len(a) for a in out]}")
    X, L, P, W = hist["x"], hist["logl"], hist["logp"], hist["logw"]
    rows = []
    for i in range(n):
        k = hist["index"].get(key(x[i]))
        require(k is not None, lambda: f"posterior({kw}): row {i} is not in the recorded history")
        rows.append(k[0])
        require(logl[i] == L[k[0]] and logp[i] == P[k[0]], lambda: f"posterior({kw}): row {i} has logl,logp={logl[i]!r},{logp[i]!r}, recorded {L[k[0]]!r},{P[k[0]]!r}")
        if blobs:
            require(md.bits_equal(np.asarray(B[i]), np.asarray(hist["blobs"][k[0]])), lambda: f"posterior({kw}): blob of row {i} is {B[i]!r}, recorded {hist['blobs'][k[0]]!r}")
    rows = np.array(rows)
    cnt = {}
    for i in range(n):
        cnt[key(x[i])] = cnt.get(key(x[i]), 0) + 1
    if not resample:
        lw = out[1] if o.get("return_logw") else np.log(np.maximum(out[1], 1e-320))
        w = np.exp(lw - lw.max()) if o.get("return_logw") else out[1]
        if not o.get("return_logw"):
            require(np.all(w >= 0) and abs(w.sum() - 1) < 1e-9, lambda: f"posterior({kw}): weights sum to {w.sum()!r}")
        tgt = np.exp(W[rows] - W[rows].max())
        require(np.allclose(w / w.max(), tgt, rtol=1e-7, atol=1e-13), lambda: f"posterior({kw}): weights are not proportional to the importance weights of the rows")
        for k, c in cnt.items():
            require(c <= hist["index"][k][1], "a history row is returned more often than it was recorded")
        full = np.exp(W - W.max())
        if not trim:
            require(n == len(X), lambda: f"untrimmed posterior has {n} rows of {len(X)}")
        else:
            check_trim(cnt, hist, full, w, ess_trim, kw)
        return n < len(X)
    # resampling
    if trim:
        kept = s.posterior(trim_importance_weights=True, ess_trim=ess_trim, bins_trim=o.get("bins_trim", 1000))
    else:
        kept = s.posterior(trim_importance_weights=False)
    kx, kwt = kept[0], kept[1]
    require(n == len(kx), lambda: f"resampled posterior has {n} rows, {len(kx)} were available")
    group, fl, ce = {}, {}, {}
    for i in range(len(kx)):
        k = key(kx[i])
        e = n * kwt[i]
        group[k] = group.get(k, 0.0) + e
        fl[k] = fl.get(k, 0) + np.floor(e * (1 - 1e-9) - 1e-9)
        ce[k] = ce.get(k, 0) + np.ceil(e * (1 + 1e-9) + 1e-9)
    for k, c in cnt.items():
        require(k in group, "resampled posterior contains a trimmed row")
        require(group[k] > 0, "resampled posterior contains a row of zero weight")
    if cfg["resample"] == "syst":
        for k in group:
            require(fl[k] <= cnt.get(k, 0) <= ce[k], lambda: f"systematic resampling drew a row of expected count {group[k]:.4f} {cnt.get(k, 0)} times")
    g = np.array([group[k] for k in group]) / n
    c = np.array([cnt.get(k, 0) for k in group])
    f = np.tanh((L[[hist["index"][k][0] for k in group]] - np.median(L)) / (np.std(L) + 1e-9))
    for fv in (f, np.sqrt(np.minimum(1.0, g / g.max())), X[[hist["index"][k][0] for k in group], 0] > np.median(X[:, 0])):
        fv = np.asarray(fv, float)
        mean = np.sum(g * fv)
        var = np.sum(g * (fv - mean) ** 2) / n
        if var * n * n > 4:
            z = (np.sum(c * fv) / n - mean) / np.sqrt(var)
            require(abs(z) < 6.5, lambda: f"resampled posterior is not distributed as the weights ({z:.1f} sigma)")
    return True


def check_stream(cfg, s, hist, ctx):
    """Resampled rows are fresh draws: the user's random stream is not reset, and over repeated calls each row's average count
    is its expected count."""
    after = []
    for seed in (11, 12):
        np.random.seed(seed)
        s.posterior(resample=True)
        after.append(np.random.rand(4))
    require(not np.array_equal(*after), "posterior(resample=True) resets numpy's random stream")
    np.random.seed(cfg["seed"] % 2 ** 31)
    x, w = s.posterior()[:2]
    n, R = len(x), 24
    k = [key(v) for v in x]
    pos = {a: i for i, a in enumerate(dict.fromkeys(k))}
    g = np.zeros(len(pos))
    for a, v in zip(k, w):
        g[pos[a]] += v
    c = np.zeros(len(pos))
    for _ in range(R):
        for v in s.posterior(resample=True)[0]:
            c[pos[key(v)]] += 1
    # each row: multinomial bound (systematic resampling varies less)
    sd = np.sqrt(R * n * g * (1 - g)) + 0.5
    z = (c - R * n * g) / sd
    i = int(np.argmax(np.abs(z)))
    require(abs(z[i]) < 8, lambda: f"over {R} resampled posteriors a row with expected count {R * n * g[i]:.2f} was drawn {c[i]:.0f} times")
    # groups of rows: whole upper half by position
    h = np.arange(len(g)) >= len(g) // 2
    p = g[h].sum()
    if 0.02 < p < 0.98:
        zz = (c[h].sum() - R * n * p) / np.sqrt(R * n * p * (1 - p))
        require(abs(zz) < 7, lambda: f"over {R} resampled posteriors the later half of the rows was drawn {c[h].sum():.0f} times, expected {R * n * p:.1f}")


def check_trim(cnt, hist, full, w, ess_trim, kw):
    idx = hist["index"]
    wmin = min(full[idx[k][0]] for k in cnt)
    for k, (i, m) in idx.items():
        if cnt.get(k, 0) < m:
            require(full[i] <= wmin * (1 + 1e-9), lambda: f"posterior({kw}): dropped a row of weight {full[i] / full.sum()!r} while keeping {wmin / full.sum()!r}")
    fr = ref.ess(w) / ref.ess(full)
    require(fr >= ess_trim - 1e-6, lambda: f"posterior({kw}): trimming kept {fr:.5f} of the effective sample size, requested {ess_trim}")


OPT = st.fixed_dictionaries({}, optional=dict(
    resample=st.booleans(), return_blobs=st.booleans(), trim_importance_weights=st.booleans(), return_logw=st.booleans(),
    ess_trim=st.sampled_from([0.99, 1.0, 0.5, 0.9, 0.999, 0.1]), bins_trim=st.sampled_from([1000, 1, 2, 10, 100])))


@st.composite
def cases(draw, **kw):
    c = draw(md.configs(**kw))
    if c["mode"] != "vectorize":
        c["blob"] = draw(st.sampled_from(["none", "float", "vec", "struct", "str", "two"]))
    return dict(cfg=c, opts=draw(st.lists(OPT, min_size=4, max_size=10)))


def fn(case, ctx):
    cfg = case["cfg"]
    md.drop_logs()
    s, prior, like = md.build(cfg)
    md.run_sut(s, cfg, prior, like)
    before = md.results_copy(s)
    r = s.results
    d = prior.dim
    X = r["x"].reshape(-1, d)
    lw, _ = ref.mixture(r["logl"], r["beta"], r["logz"])
    hist = dict(x=X, logl=r["logl"].ravel(), logp=r["logp"].ravel(), logw=lw, index={})
    if cfg["blob"] != "none":
        hist["blobs"] = np.concatenate(list(r["blobs"]))
    for i in range(len(X)):
        k = key(X[i])
        a = hist["index"].get(k, (i, 0))
        hist["index"][k] = (a[0], a[1] + 1)
    n_eff, calls, ev = s.n_effective, s.calls, s.evidence()
    trimmed = False
    for o in case["opts"]:
        if o.get("return_blobs") and cfg["blob"] == "none":
            try:
                s.posterior(**o)
            except ValueError:
                continue
            require(False, "posterior(return_blobs=True) without blobs did not raise ValueError")
        trimmed |= bool(check_call(cfg, s, hist, o, ctx))
        for k in o:
            ctx.label(f"{k}={o[k]}")
    if len(X) < 1000:
        check_stream(cfg, s, hist, ctx)
    msg = md.diff_results(before, s.results, have_blobs=cfg["blob"] != "none")
    require(msg is None, lambda: f"calling posterior() changed the recorded history: {msg}")
    require((s.n_effective, s.calls, s.evidence()) == (n_eff, calls, ev) or np.isnan(ev[0]), "calling posterior() changed the sampler")
    md.label_cfg(ctx, cfg)
    ctx.nontrivial(trimmed and len(hist["index"]) > 20)


@st.composite
def large(draw):
    c = draw(md.large_configs(blobs=False))
    if c["mode"] != "vectorize":
        c["blob"] = draw(st.sampled_from(["none", "float"]))
    return dict(cfg=c, opts=[dict(resample=True), dict(), dict(resample=True, trim_importance_weights=False)] + draw(st.lists(OPT, max_size=2)))


SUBS = [Sub("options", cases(precondition=False), fn, 30, 1200, "some call trimmed or resampled a history with more than 20 distinct rows"),
        Sub("options_pre", cases(precondition=True), fn, 4, 200, "some call trimmed or resampled a history with more than 20 distinct rows"),
        Sub("large", large(), fn, 1, 20, "some call trimmed or resampled a history with more than 20 distinct rows")]
