"""C22: sample-size diagnostics and trimming."""
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, require, sut
from .. import models as md

PROPERTY = "C22"
ASSUMPTIONS = ["Weights are non-negative float arrays with at least one positive entry (the documented input)."]


def weights_of(c):
    w = np.array([0.0 if e is None else m * 2.0 ** e for m, e in c["w"]])
    if c.get("big"):
        w = md.expand_weights(w, *c["big"])
    return w


W = st.lists(st.tuples(st.sampled_from([1.0, 1.0, 1.5, 1.25, 1.1]), st.one_of(st.none(), st.integers(-3, 3), st.integers(-60, 20))).map(list),
             min_size=1, max_size=40)


def ess_exact(w):
    f = [Fraction(float(x)) for x in w]
    s, q = sum(f), sum(x * x for x in f)
    return float(s * s / q)


def uss_ref(w, k):
    f = [Fraction(float(x)) for x in w]
    s = sum(f)
    out = 0.0
    for x in f:
        p = float(x / s)
        out += 1.0 if x == s else -math.expm1(k * math.log1p(-p)) if p < 1 else 1.0
    return out


def close(a, b, rel=1e-9):
    return abs(a - b) <= rel * max(1.0, abs(b))


def fn_ess(case, ctx):
    from pocomc import tools
    w = weights_of(case)
    if not np.any(w > 0):
        w[0] = 1.0
    n = len(w)
    E = ess_exact(w)
    with sut("effective_sample_size"):
        e = float(tools.effective_sample_size(w.copy()))
        e2 = float(tools.effective_sample_size(w * 2.0 ** case["shift"]))
        perm = np.random.RandomState(case["perm"]).permutation(n)
        e3 = float(tools.effective_sample_size(w[perm].copy()))
    require(close(e, E), lambda: f"ESS {e}, definition {E}")
    require(close(e2, E), lambda: f"ESS {e2} after rescaling weights by 2**{case['shift']}, definition {E}")
    require(close(e3, E), lambda: f"ESS {e3} after permuting, definition {E}")
    require(1 - 1e-9 <= e <= n * (1 + 1e-9), f"ESS {e} outside [1, {n}]")
    k = case["k"]
    kk = n if k is None else k
    U = uss_ref(w, kk)
    with sut("unique_sample_size"):
        u = float(tools.unique_sample_size(w.copy()) if k is None else tools.unique_sample_size(w.copy(), k=k))
        u2 = float(tools.unique_sample_size(w * 2.0 ** case["shift"], k=k))
        u3 = float(tools.unique_sample_size(w[perm].copy(), k=k))
    for v, t in ((u, ""), (u2, " after rescaling"), (u3, " after permuting")):
        require(abs(v - U) <= 1e-9 * max(1, U) + n * kk * 3e-16, lambda: f"USS {v}{t}, definition {U} (k={kk})")
    require(-1e-9 <= u <= min(n, kk) * (1 + 1e-9), f"USS {u} outside [0, min({n}, {kk})]")
    # log-weight variants, any offset
    with np.errstate(divide="ignore"):
        logw = np.log(w) + case["off"]
    with sut("compute_ess / increment_logz"):
        ce = float(tools.compute_ess(logw.copy()))
        iz = float(tools.increment_logz(logw.copy()))
    tol = 1e-7 + 1e-13 * abs(case["off"])
    require(close(ce * n, E, tol), lambda: f"compute_ess {ce} x {n}, definition {E} (offset {case['off']})")
    S = float(sum(Fraction(float(x)) for x in w))
    require(abs(iz - (math.log(S) + case["off"])) <= 1e-9 + 4e-16 * abs(case["off"]), lambda: f"increment_logz {iz}, log-sum-exp {math.log(S) + case['off']}")
    ctx.label("n=1" if n == 1 else "n>1", "k=None" if k is None else "k", "zeros" if np.any(w == 0) else "positive", "big offset" if abs(case["off"]) > 700 else "small offset")
    ctx.nontrivial(n > 1 and len(set(w.tolist())) > 1)


def fn_trim(case, ctx):
    from pocomc import tools
    w = weights_of(case)
    if not np.any(w > 0):
        w[0] = 1.0
    n = len(w)
    ess, bins = case["ess"], case["bins"]
    samples = np.arange(n) * 10.0 if case["shape"] == 1 else np.arange(2 * n).reshape(n, 2) * 10.0
    s0 = samples.copy()
    with sut("trim_weights"):
        ts, tw = tools.trim_weights(samples, w.copy(), ess=ess, bins=bins)
    require(np.array_equal(samples, s0), "trim_weights modified the samples")
    ts, tw = np.asarray(ts), np.asarray(tw)
    idx = (ts if case["shape"] == 1 else ts[:, 0] / 2) / 10.0
    idx = idx.astype(int)
    require(len(ts) == len(tw) and len(ts) >= 1, lambda: f"{len(ts)} samples, {len(tw)} weights")
    require(np.array_equal(ts, s0[idx]), "trimmed samples are not rows of the input")
    require(len(set(idx.tolist())) == len(idx) and np.all(np.diff(idx) > 0), "kept samples repeated or reordered")
    wn = w / w.sum()
    kept = np.zeros(n, dtype=bool)
    kept[idx] = True
    if not np.all(kept):
        require(wn[kept].min() > wn[~kept].max() * (1 - 1e-12), lambda: f"a sample of weight {wn[~kept].max()} was dropped, one of weight {wn[kept].min()} kept")
        # equal weights are either all kept or all dropped
        require(wn[kept].min() > wn[~kept].max() * (1 + 1e-15) or wn[kept].min() != wn[~kept].max(), "equal weights treated differently")
    require(np.allclose(tw, w[idx] / w[idx].sum(), rtol=1e-9, atol=0), "trimmed weights are not the kept weights normalised")
    require(abs(tw.sum() - 1) < 1e-9, f"trimmed weights sum to {tw.sum()}")
    e_all, e_kept = ess_exact(w), ess_exact(w[idx])
    require(e_kept >= ess * e_all * (1 - 1e-9), lambda: f"trimming keeps {e_kept / e_all:.6f} of the effective sample size, {ess} requested")
    ctx.label("ess=1" if ess == 1 else "ess<1", "trimmed" if len(idx) < n else "all kept", f"bins={bins}")
    ctx.nontrivial(len(idx) < n)


ESSV = st.one_of(st.sampled_from([1.0, 0.99, 0.5, 0.0, 0.999999]), md.q(0, 1, 100))
BIG = st.one_of(*([st.none()] * 39 + [md.BIGW]))
ess_cases = st.builds(lambda **k: k, w=W, big=BIG, shift=st.integers(-300, 300), k=st.one_of(st.none(), st.integers(1, 200), st.sampled_from([999, 1000, 1024, 5000, 100000])),
                      off=st.one_of(md.q(-50, 50), st.sampled_from([1e4, -1e4, 1e6, -1e6, 709.0, 0.0])), perm=st.integers(0, 99))
trim_cases = st.builds(lambda **k: k, w=W, big=BIG, ess=ESSV, bins=st.sampled_from([1, 2, 3, 10, 100, 1000]), shape=st.sampled_from([1, 2]))
SUBS = [Sub("sizes", ess_cases, fn_ess, 900, 40000, "several distinct weights"),
        Sub("trim", trim_cases, fn_trim, 500, 20000, "some sample was trimmed away")]
