"""C30: blobs travel with their samples in every supported layout."""
import os

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, Inconclusive, require, sut
from .. import models as md
from .c02 import sparse
from .c18 import ListPool

PROPERTY = "C30"
ASSUMPTIONS = ["A likelihood returns blobs of one type per position, the same for all points.",
               "Axes of length one are dropped from a blob's shape (single values are scalars)."]

O = np.dtype(object)
F = np.dtype(float)
EXPECT = {         # layout -> dtype, shape of one blob
    "float": (F, ()), "npfloat": (F, ()), "f32": (np.dtype(np.float32), ()), "int": (np.dtype(int), ()), "bool": (np.dtype(bool), ()), "vec": (F, (3,)), "vec1": (F, ()),
    "mat": (F, (2, 2)), "two": (F, (2,)), "twoint": (np.dtype(int), (2,)), "struct": (np.dtype(md.BLOB_DTYPES["struct"]), ()),
    "struct1": (np.dtype(md.BLOB_DTYPES["struct1"]), ()), "structstr": (np.dtype(md.BLOB_DTYPES["structstr"]), ()), "str": (O, ()), "mixed": (O, (2,)), "strs": (O, (2,)),
    "declfloat": (F, ()), "declint": (np.dtype(int), ()), "cplx": (np.dtype(complex), ()), "ragged": (O, (2,)), "arrs": (F, (2, 2)), "list": (F, (2,)), "dict": (O, ()),
    "fltint": (F, (2,)), "structvec": (np.dtype(md.BLOB_DTYPES["structvec"]), ()), "row1": (F, (2,)),
    "bytes": (O, ()), "npstr": (O, ()), "u8": (np.dtype(np.uint8), ()), "i16": (np.dtype(np.int16), ()), "date": (np.dtype("datetime64[D]"), ()),
}


def same(rec, exp, layout):
    """One recorded blob against what the likelihood returned (a tuple)."""
    dt, shape = EXPECT[layout]
    if dt.names:
        vals = tuple(rec[k] for k in dt.names)
        return len(vals) == len(exp) and all(np.array_equal(np.asarray(a), np.asarray(b)) for a, b in zip(vals, exp))
    if dt == O:
        vals = list(rec) if shape else [rec]
        return len(vals) == len(exp) and all(type(a) is type(b) and (np.array_equal(a, b) if isinstance(b, np.ndarray) else a == b) for a, b in zip(vals, exp))
    return md.bits_equal(np.asarray(rec), np.asarray(exp, dtype=dt).reshape(shape))


def check_rows(x, B, like, layout, where):
    dt, shape = EXPECT[layout]
    B = np.asarray(B)
    require(B.dtype == dt, lambda: f"{where}: blobs of layout {layout} have dtype {B.dtype}, expected {dt}")
    require(B.shape == (len(x),) + shape, lambda: f"{where}: blobs of layout {layout} have shape {B.shape}, expected {(len(x),) + shape}")
    for i in range(len(x)):
        exp = like.blob_of(x[i])
        require(same(B[i], exp, layout), lambda: f"{where}: row {i} carries blob {B[i]!r}, the likelihood returned {exp!r} there")


def check_all(s, like, cfg, opts, where):
    r = s.results
    T, n, d = r["x"].shape
    B = r["blobs"]
    require(len(B) == T, lambda: f"{where}: blobs of {len(B)} iterations, {T} recorded")
    for t in range(T):
        check_rows(r["x"][t], B[t], like, cfg["blob"], f"{where}, iteration {t}")
    for o in opts:
        with sut(f"posterior({o})"):
            out = s.posterior(return_blobs=True, **o)
        require(len(out) == (4 if o.get("resample") else 5), lambda: f"posterior({o}) with blobs returned {len(out)} arrays")
        check_rows(out[0], out[-1], like, cfg["blob"], f"{where}, posterior({o})")


def fn(case, ctx):
    cfg = case["cfg"]
    md.drop_logs()
    d = ctx.fresh_dir()
    over = dict(pool=ListPool()) if cfg["mode"] == "pool" else {}
    s, prior, like = md.build(cfg, output_dir=d, **over)
    md.run_sut(s, cfg, prior, like, save_every=case["every"])
    check_all(s, like, cfg, case["opts"], "run")
    T0 = len(s.results["beta"])
    if case["then"] == "continue":
        md.run_sut(s, cfg, prior, like, what="continued run", n_total=int(1.6 * cfg["n_total"]))
        check_all(s, like, cfg, case["opts"], "continued run")
    elif case["then"] == "resume":
        files = sorted(os.listdir(d))
        f = files[case["file"] % len(files)]
        s, _, _ = md.build(cfg, prior=prior, like=like, output_dir=d, **over)
        md.run_sut(s, cfg, prior, like, what="resumed run", n_total=int(1.4 * cfg["n_total"]), resume_state_path=os.path.join(d, f))
        check_all(s, like, cfg, case["opts"], "resumed run")
    md.label_cfg(ctx, cfg)
    ctx.label(case["then"])
    r = s.results
    ctx.nontrivial(md.accepted_something(r) and len(np.unique(r["logl"])) > cfg["n_active"])


def fn_none(case, ctx):
    """Without blobs none are reported."""
    cfg = case["cfg"]
    md.drop_logs()
    over = dict(pool=ListPool()) if cfg["mode"] == "pool" else {}
    s, prior, like = md.build(cfg, **over)
    for _ in range(2):
        B = s.results.get("blobs") if _ else None
        require(B is None or all(b is None for b in np.asarray(B, dtype=object).ravel()), lambda: f"blobs reported without any: {B!r}")
        for o in case["opts"]:
            try:
                s.posterior(return_blobs=True, **o)
            except ValueError:
                pass
            except Exception as e:
                require(False, f"posterior(return_blobs=True) without blobs raised {type(e).__name__}")
            else:
                require(False, "posterior(return_blobs=True) without blobs did not raise")
            if _:
                with sut("posterior"):
                    out = s.posterior(**o)
                require(len(out) == (3 if o.get("resample") else 4), lambda: f"posterior({o}) returned {len(out)} arrays")
        if not _:
            md.run_sut(s, cfg, prior, like)
    md.label_cfg(ctx, cfg)
    ctx.nontrivial(True)


OPT = st.fixed_dictionaries({}, optional=dict(resample=st.booleans(), trim_importance_weights=st.booleans(), return_logw=st.booleans(), ess_trim=st.sampled_from([0.9, 0.5, 1.0])))


@st.composite
def cases(draw, pre):
    c = draw(md.configs(precondition=pre, blobs=False, modes=("serial", "serial", "pool"), max_dim=3))
    c["blob"] = draw(st.integers(0, 10 ** 6).map(lambda i: md.BLOBS[i % len(md.BLOBS)]))
    return dict(cfg=c, opts=draw(st.lists(OPT, min_size=1, max_size=3)), then=draw(st.sampled_from(["stop", "continue", "resume"])), every=draw(st.sampled_from([1, 2, 5])),
                file=draw(st.integers(0, 30)))


@st.composite
def none_cases(draw):
    return dict(cfg=draw(md.configs(precondition=False, blobs=False, modes=("serial", "pool", "vectorize"), max_dim=2)), opts=draw(st.lists(OPT, min_size=1, max_size=3)))


@st.composite
def sparse_cases(draw):
    """Few particles in a small support: single points and empty batches reach the likelihood."""
    c = draw(cases(False))
    blob = c["cfg"]["blob"]
    c["cfg"] = dict(draw(sparse(precondition=False, blobs=False, modes=("serial", "serial", "pool"))), blob=blob, n_total=40)
    return c


def enumerated():
    """Every layout at least once in every run of the check."""
    for i, b in enumerate(md.BLOBS):
        c = dict(prior=dict(kind="product", dists=[["norm", 0.0, 1.0], ["uniform", -2.0, 4.0]]), like=dict(kind="gauss", w=0.5, c=0.1, off=0.0, cut=[None, 0.8][i % 2]), blob=b,
                 mode=["serial", "pool"][i // 2 % 2], n_active=16, n_effective=32, n_prior=None, precondition=False, sample=["tpcn", "rwm"][i // 3 % 2], transform="probit",
                 metric="ess", resample=["mult", "syst"][i // 5 % 2], dynamic=True, n_steps=1, n_max_steps=3, n_total=48, n_evidence=0, seed=i)
        yield dict(cfg=c, opts=[{}, dict(resample=True), dict(trim_importance_weights=False)], then=["resume", "continue"][i % 2], every=2, file=i)


RULE = "the run went past warm-up and recorded more distinct log-likelihoods than one batch"
SUBS = [Sub("layouts", cases(False), fn, 16, 1200, RULE, corpus=list(enumerated())), Sub("layouts_pre", cases(True), fn, 4, 200, RULE),
        Sub("none", none_cases(), fn_none, 4, 200, "always"),
        Sub("sparse", sparse_cases(), fn, 8, 300, RULE)]
