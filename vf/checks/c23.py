"""C23: invalid input is rejected before sampling; defaults are as documented."""
import os
import warnings

import numpy as np
import torch
from hypothesis import strategies as st

from ..core import Sub, require, sut
from .. import models as md

PROPERTY = "C23"
ASSUMPTIONS = ["An option value is invalid when it is not one of the documented names; 'pcn', which the documentation names once by mistake for 'tpcn', is not tried."]

VALID = dict(transform=["probit", "logit"], metric=["ess", "uss"], sample=["tpcn", "rwm"], resample=["mult", "syst"],
             flow=["maf3", "maf6", "maf12", "nsf3", "nsf6", "nsf12"])
NEAR = dict(transform=["Probit", "probit ", "log", "logits", "sigmoid", "", None, 0, 1.0, True, "none"],
            metric=["ESS", "USS", "es", "ess ", "", None, 1, "kl"],
            sample=["TPCN", "tpcn_", "RWM", "rw", "hmc", "", None, 3],
            resample=["Mult", "multinomial", "systematic", "sys", "strat", "", None, 2],
            flow=["maf", "maf2", "nsf", "nsf4", "MAF3", "nsf13", "", None, 3, "affine"])


def bad_values(k):
    return st.one_of(st.sampled_from(NEAR[k]), st.text(alphabet="abeilmnoprstuwyf0123_ -", max_size=8).filter(lambda t: t not in VALID[k] and t != "pcn"))


def expect_value_error(what, fn, like=None):
    try:
        fn()
    except ValueError:
        pass
    except Exception as e:
        require(False, f"{what}: raised {type(e).__name__} ({e}) instead of ValueError")
    else:
        require(False, f"{what}: accepted")
    if like is not None:
        require(like.count == 0, lambda: f"{what}: the likelihood was called {like.count} times before the rejection")


def fn_options(case, ctx):
    import pocomc
    cfg = case["cfg"]
    md.drop_logs()
    prior, like = md.make_prior(cfg), md.make_like(cfg)
    kw = md.sampler_kwargs(cfg)
    kw.update(case["valid"])
    with sut(f"Sampler with valid options {case['valid']}"):
        pocomc.Sampler(prior, like, **kw)
    bad = dict(kw)
    bad.update(case["bad"])
    for sp in case["special"]:
        if sp == "vecblobs":
            bad.update(vectorize=True, blobs_dtype=[("a", float)])
        else:
            bad.update(n_active=None, n_effective=None)
    if case["bad"] or case["special"]:
        expect_value_error(f"Sampler with {case['bad']} {case['special']}", lambda: pocomc.Sampler(prior, like, **bad), like)
    for k in case["bad"]:
        ctx.label("bad " + k)
        if len(case["bad"]) + len(case["special"]) > 1:
            expect_value_error(f"Sampler with {k}={case['bad'][k]!r}", lambda: pocomc.Sampler(prior, like, **{**kw, k: case["bad"][k]}), like)
        if k == "transform":
            d = prior.dim
            expect_value_error(f"Reparameterize(transform={case['bad'][k]!r})", lambda: pocomc.scaler.Reparameterize(d, bounds=prior.bounds, transform=case["bad"][k]))
        if k == "flow":
            expect_value_error(f"Flow({case['bad'][k]!r})", lambda: pocomc.Flow(prior.dim, case["bad"][k]))
    for sp in case["special"]:
        ctx.label(sp)
    ctx.nontrivial(bool(case["bad"] or case["special"]))


def fn_defaults(case, ctx):
    import pocomc
    cfg = dict(case["cfg"])
    md.drop_logs()
    d = ctx.fresh_dir()
    os.chdir(d)
    prior, like = md.make_prior(cfg), md.make_like(cfg)
    E, A = case["E"], case["A"]
    kw = md.sampler_kwargs(cfg)
    for k in ("n_effective", "n_active", "n_prior"):
        kw.pop(k, None)
    how = case["how"]
    if how == "active":
        kw.update(n_active=A, n_effective=None)
        we, wa = 2 * A, A
    elif how == "effective":
        kw.update(n_active=None, n_effective=E)
        we, wa = E, E // 2
    elif how == "n_ess":
        kw.update(n_active=A, n_ess=E)
        we, wa = E, A
    else:
        kw.update(n_active=A, n_effective=E)
        we, wa = E, A
    if case["n_prior"] is not None:
        kw["n_prior"] = case["n_prior"] * wa + case.get("rest", 0)
    wp = 2 * max(we // wa, 1) * wa if case["n_prior"] is None else case["n_prior"] * wa + case.get("rest", 0)
    if case["n_dim"]:
        kw["n_dim"] = prior.dim
    want_dir, want_label = "states", "pmc"
    if case["dir"] is not None:
        kw["output_dir"] = want_dir = case["dir"]
    if case["label"] is not None:
        kw["output_label"] = want_label = case["label"]
    with sut(f"Sampler with {how} particle numbers"), warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        s = pocomc.Sampler(prior, like, **kw)
    if how == "n_ess":
        require(any(issubclass(w.category, DeprecationWarning) for w in rec), "n_ess gives no DeprecationWarning")
    require(int(s.n_effective) == we, lambda: f"n_effective {s.n_effective}, documented {we} ({how}: E={E}, A={A})")
    cfg["n_active"] = wa
    md.run_sut(s, cfg, prior, like, save_every=case["every"])
    r = s.results
    require(r["x"].shape[1:] == (wa, prior.dim), lambda: f"recorded particles {r['x'].shape[1:]}, documented ({wa}, {prior.dim}) ({how}: E={E}, A={A})")
    require(len(prior.draws) == 1 and (prior.draws[0].shape[0] == wp or (case.get("rest") and prior.draws[0].shape[0] == wp - 1)), lambda: f"prior draws {[x.shape for x in prior.draws]}, documented {wp}")
    require(np.all(r["ess"][:wp // wa] == we), "recorded sample size during warm-up is not the target")
    if case["every"] is not None:
        require(sorted(os.listdir(d)) == [want_dir.split("/")[0]], lambda: f"state files went to {os.listdir(d)}, documented {want_dir}")
        names = sorted(os.listdir(os.path.join(d, want_dir)))
        require(f"{want_label}_final.state" in names, lambda: f"no {want_label}_final.state in {names}")
        bad = [n for n in names if not (n.startswith(want_label + "_") and n.endswith(".state"))]
        require(not bad, lambda: f"unexpected state files {bad}")
    else:
        require(os.listdir(d) == [], lambda: f"files {os.listdir(d)} written without save_every")
    if cfg.get("blob", "none") == "none":
        for o in (dict(), dict(resample=True), dict(trim_importance_weights=False)):
            expect_value_error(f"posterior(return_blobs=True, {o}) without blobs", lambda: s.posterior(return_blobs=True, **o))
    ctx.label(how, "n_prior" if case["n_prior"] else "default n_prior", "saves" if case["every"] else "no saves")
    ctx.nontrivial(True)


def fn_input(case, ctx):
    """Out-of-bounds and non-float transformation input."""
    from pocomc.scaler import Reparameterize
    lo = np.array([-np.inf if b[0] is None else b[0] for b in case["bounds"]], float)
    hi = np.array([np.inf if b[1] is None else b[0] + b[1] if b[0] is not None else b[1] for b in case["bounds"]], float)
    d, n = len(lo), case["n"]
    rs = np.random.RandomState(case["seed"])
    p = rs.uniform(0.05, 0.95, (n, d))
    x = np.empty((n, d))
    for i in range(d):
        if np.isfinite(lo[i]) and np.isfinite(hi[i]):
            x[:, i] = lo[i] + (hi[i] - lo[i]) * p[:, i]
        elif np.isfinite(lo[i]):
            x[:, i] = lo[i] + 3 * p[:, i]
        elif np.isfinite(hi[i]):
            x[:, i] = hi[i] - 3 * p[:, i]
        else:
            x[:, i] = 6 * p[:, i] - 3
    bounds = np.stack([lo, hi], axis=1)
    form = case["form"]
    arg = bounds.tolist() if form == "list" else bounds
    tr = case["transform"]

    def make(b):
        return Reparameterize(d, bounds=b, transform=tr, scale=case["scale"], diagonal=case["diagonal"])
    with sut(f"Reparameterize with valid bounds as {form}"):
        s = make(arg)
        s.fit(x)
        u = s.forward(x)
    require(np.all(np.isfinite(u)), "valid data have non-finite latent coordinates")
    if np.all(np.isfinite(bounds)):
        for dt in (int, bool):
            expect_value_error(f"Reparameterize with {dt.__name__} bounds", lambda: make(bounds.astype(dt)))
    # one bad entry anywhere
    i, j = case["at"][0] % n, case["at"][1] % d
    kinds = ["nan"]
    if np.isfinite(lo[j]):
        kinds += ["below", "far below", "just below", "-inf"]
    if np.isfinite(hi[j]):
        kinds += ["above", "far above", "just above", "+inf"]
    k = kinds[case["kind"] % len(kinds)]
    y = x.copy()
    y[i, j] = {"nan": np.nan, "below": lo[j] - 0.1, "far below": lo[j] - 1e9 - abs(lo[j]), "just below": np.nextafter(lo[j], -np.inf), "-inf": -np.inf,
               "above": hi[j] + 0.1, "far above": hi[j] + 1e9 + abs(hi[j]), "just above": np.nextafter(hi[j], np.inf), "+inf": np.inf}[k]
    expect_value_error(f"forward of a point {k} bounds", lambda: s.forward(y))
    expect_value_error(f"fit to a point {k} bounds", lambda: make(arg).fit(y))
    # on the bounds is inside
    z = x.copy()
    ok = False
    for b in (lo[j], hi[j]):
        if np.isfinite(b):
            z[i, j] = b
            ok = True
            with sut("forward of a point on a bound"):
                s.forward(z)
    ctx.label(k, form, "bounded" if ok else "unbounded")
    ctx.nontrivial(True)


def fn_flow_input(case, ctx):
    import pocomc
    d = case["d"]
    f = pocomc.Flow(d, md.make_flow("maf1", d, case["seed"]))
    rs = np.random.RandomState(case["seed"])
    x = rs.randn(case["n"], d)
    for dt in ("int64", "int32", "bool", "complex64", "float16"):
        t = torch.tensor(x).to(getattr(torch, dt))
        for nm in ("forward", "inverse", "log_prob", "fit"):
            expect_value_error(f"Flow.{nm} of {dt} data", lambda: getattr(f, nm)(t))
    with sut("Flow on double-precision data"), warnings.catch_warnings(record=True) as rec, torch.no_grad():
        warnings.simplefilter("always")
        a = f.forward(torch.tensor(x))[0]
        b = f.forward(torch.tensor(x, dtype=torch.float32))[0]
    require(any("Float64" in str(w.message) or "Float32" in str(w.message) for w in rec), "double-precision data are cast without a warning")
    require(a.dtype == torch.float32 and torch.allclose(a, b, atol=1e-5), "double-precision data give another result than single-precision data")
    ctx.nontrivial(True)


def fn_validators(case, ctx):
    """The input assertions against their definitions."""
    from pocomc import input_validation as iv
    rs = np.random.RandomState(case["seed"])
    d, n = case["d"], case["n"]
    grid = np.array([-2.0, -1.0, 0.0, 1.0, 2.0])
    lo = rs.choice(grid, d)
    hi = lo + rs.choice([0.0, 1.0, 2.0], d)
    if case["nan"]:
        lo[rs.rand(d) < 0.3] = np.nan
        hi[rs.rand(d) < 0.3] = np.nan
    x = np.empty((n, d))
    for i in range(d):
        a = lo[i] if np.isfinite(lo[i]) else -3.0
        b = hi[i] if np.isfinite(hi[i]) else 3.0
        x[:, i] = np.clip(rs.choice(np.arange(-3, 3.5, 0.5), n), min(a, b), max(a, b)) if rs.rand() < 0.9 else rs.choice(np.arange(-3, 3.5, 0.5), n)
    l0, h0 = lo.copy(), hi.copy()
    A = np.where(np.isnan(lo), -np.inf, lo)
    B = np.where(np.isnan(hi), np.inf, hi)
    for lopen in (False, True):
        for ropen in (False, True):
            ok = bool(np.all((A < x) if lopen else (A <= x)) and np.all((x < B) if ropen else (x <= B)))
            what = f"assert_array_within_interval(left_open={lopen}, right_open={ropen})"
            if ok:
                with sut(what):
                    iv.assert_array_within_interval(x, lo, hi, left_open=lopen, right_open=ropen)
            else:
                expect_value_error(what, lambda: iv.assert_array_within_interval(x, lo, hi, left_open=lopen, right_open=ropen))
            ctx.label("inside" if ok else "outside")
    require(np.array_equal(lo, l0, equal_nan=True) and np.array_equal(hi, h0, equal_nan=True), "the interval assertion modified the bounds")
    arrs = [np.zeros(3), np.zeros((2, 3)), np.zeros((3, 2)), np.zeros((1, 2, 3)), np.zeros(()), np.zeros(3, int), np.zeros(3, bool), np.zeros(3, np.float32), np.zeros(3, complex)]
    a, b = arrs[rs.randint(len(arrs))], arrs[rs.randint(len(arrs))]
    for nm, ok, args in (("assert_array_1d", a.ndim == 1, (a,)), ("assert_array_2d", a.ndim == 2, (a,)), ("assert_arrays_equal_shape", a.shape == b.shape, (a, b)),
                         ("assert_array_float", a.dtype.kind == "f", (a,)), ("assert_equal_type", True, (a, b)), ("assert_equal_type", False, (a, b.tolist()))):
        if ok:
            with sut(nm):
                getattr(iv, nm)(*args)
        else:
            expect_value_error(nm, lambda: getattr(iv, nm)(*args))
    ctx.nontrivial(True)


@st.composite
def option_cases(draw):
    c = draw(md.configs(precondition=False, blobs=False, modes=("serial", "vectorize"), boundary=False, max_dim=2))
    names = draw(st.lists(st.sampled_from(sorted(NEAR)), unique=True, max_size=3))
    bad = {k: draw(bad_values(k)) for k in names}
    valid = {k: draw(st.sampled_from(VALID[k])) for k in draw(st.lists(st.sampled_from(["transform", "metric", "sample", "resample"]), unique=True, max_size=4))}
    if draw(st.integers(0, 9)) == 0:
        valid["flow"] = draw(st.sampled_from(VALID["flow"]))
    return dict(cfg=c, bad=bad, valid=valid, special=draw(st.lists(st.sampled_from(["vecblobs", "nonumbers"]), unique=True, max_size=2)) if draw(st.booleans()) else [])


@st.composite
def default_cases(draw):
    c = draw(md.configs(precondition=draw(st.sampled_from([False, False, False, True])), boundary=False, max_dim=3, cut=False))
    c["n_evidence"] = 0
    A = draw(st.integers(12, 24))
    return dict(cfg=c, A=A, E=draw(st.integers(24, 60)), how=draw(st.sampled_from(["active", "effective", "n_ess", "both"])),
                n_prior=draw(st.sampled_from([None, None, 1, 2, 3])), rest=draw(st.sampled_from([0, 0, 4])), n_dim=draw(st.booleans()),
                dir=draw(st.sampled_from([None, None, "out", "a/b"])), label=draw(st.sampled_from([None, None, "lab", "x_y"])),
                every=draw(st.sampled_from([None, 1, 3])))


V = md.q(-4, 4, 16)
BD = st.one_of(st.tuples(V, st.sampled_from([1.0, 2.0, 0.5, 100.0])), st.tuples(V, st.none()), st.tuples(st.none(), V), st.tuples(st.none(), st.none())).map(list)
inputs = st.builds(lambda **k: k, bounds=st.lists(BD, min_size=1, max_size=4), n=st.integers(8, 20), seed=st.integers(0, 10 ** 6), form=st.sampled_from(["array", "list"]),
                   transform=st.sampled_from(["probit", "logit"]), scale=st.booleans(), diagonal=st.booleans(), at=st.tuples(st.integers(0, 99), st.integers(0, 99)).map(list),
                   kind=st.integers(0, 100)).filter(lambda c: len(c["bounds"]) != 2 or True)


def near_misses():
    """Every option alone with each near miss: other case, padding, truncation."""
    c = dict(prior=dict(kind="product", dists=[["norm", 0.0, 1.0]]), like=dict(kind="gauss", w=0.5, c=0.1, off=0.0, cut=None), blob="none", mode="serial", n_active=16, n_effective=32,
             n_prior=None, precondition=False, sample="tpcn", transform="probit", metric="ess", resample="mult", dynamic=True, n_steps=1, n_max_steps=3, n_total=48, n_evidence=0, seed=1)
    for k in VALID:
        vals = list(NEAR[k])
        for v in VALID[k]:
            vals += [v.upper(), v.title(), " " + v, v + " ", v[:-1], v + v[-1], v + "0"]
        for v in vals:
            if v not in VALID[k] and v != "pcn":
                yield dict(cfg=c, bad={k: v}, valid={}, special=[])


SUBS = [Sub("near_misses", st.sampled_from(list(near_misses())), fn_options, 1, 1, "at least one invalid option", corpus=list(near_misses()), shards=1),
        Sub("options", option_cases(), fn_options, 60, 3000, "at least one invalid option"),
        Sub("defaults", default_cases(), fn_defaults, 14, 600, "always"),
        Sub("input", inputs, fn_input, 250, 8000, "always"),
        Sub("flow_input", st.fixed_dictionaries(dict(d=st.integers(1, 4), n=st.integers(1, 8), seed=st.integers(0, 10 ** 6))), fn_flow_input, 10, 300, "always"),
        Sub("validators", st.fixed_dictionaries(dict(d=st.integers(1, 3), n=st.integers(1, 4), seed=st.integers(0, 10 ** 6), nan=st.booleans())), fn_validators, 150, 5000, "always")]
