"""C15: the flow is an invertible map with matching density and samples."""
import copy
import math
import warnings

import numpy as np
import scipy.stats as ss
import torch
from hypothesis import strategies as st

from ..core import Inconclusive, Sub, require, sut
from .. import models as md

PROPERTY = "C15"
ASSUMPTIONS = ["The reference map is the same network evaluated in double precision; single-precision results are compared where the map is not ill-conditioned.",
               "The base density of the user-supplied flows used here is the standard normal (as in every zuko preset)."]
LOG2PI = math.log(2 * math.pi)


def make(case):
    import pocomc
    import zuko
    d = case["dim"]
    torch.manual_seed(case["seed"])
    name = case["flow"]
    if name == "custom-maf":
        f = zuko.flows.MAF(d, transforms=2, hidden_features=[8, 8])
    elif name == "custom-maf-rand":
        f = zuko.flows.MAF(d, transforms=3, hidden_features=[8], randperm=True)
    elif name == "custom-nsf":
        f = zuko.flows.NSF(d, transforms=2, bins=5, hidden_features=[8, 8])
    elif name == "custom-nice":
        f = zuko.flows.NICE(d, transforms=3, hidden_features=[8])
    else:
        f = name
    with sut("Flow"):
        F = pocomc.Flow(d, f)
    if not isinstance(f, str):
        require(F.flow is f, "a user-supplied flow is not used as is")
    deep = {"maf12": 4.0, "nsf12": 4.0, "maf6": 2.0, "nsf6": 2.0}.get(name, 1.0)
    with torch.no_grad():
        for p in F.flow.parameters():
            p.add_(case["pert"] / deep * torch.randn(p.shape) / math.sqrt(max(1.0, float(p.shape[-1]) / 8.0)))
    return F


def fn(case, ctx):
    d, n = case["dim"], case.get("n", 40)
    F = make(case)
    g = torch.Generator().manual_seed(case["seed"] + 1)
    x = torch.randn(n, d, generator=g) * case["spread"] + case["shift"]
    x0 = x.clone()
    F64 = copy.deepcopy(F.flow).double()
    with torch.no_grad():
        t64 = F64().transform
        z64, l64 = t64.call_and_ladj(x.double())
        with sut("forward"):
            z, l = F.forward(x)
        require(torch.equal(x, x0), "forward modified its input")
        require(z.shape == x.shape and l.shape == (n,), lambda: f"forward shapes {tuple(z.shape)} {tuple(l.shape)}")
        ok = (l64.abs() < 8) & (z64.abs().amax(dim=1) < 12)
        tol = 2e-3 * torch.exp(0.25 * l64.abs())
        bad = ok & ((z.double() - z64).abs().amax(dim=1) > tol * (1 + z64.abs().amax(dim=1)))
        require(not bool(bad.any()), lambda: f"latent point {z[bad][0].tolist()} for {x[bad][0].tolist()}, the map gives {z64[bad][0].tolist()}")
        badl = ok & ((l.double() - l64).abs() > tol * (1 + l64.abs()) * d)
        require(not bool(badl.any()), lambda: f"log-Jacobian {l[badl][0].item()}, the map's derivative gives {l64[badl][0].item()}")
        # back
        with sut("inverse"):
            xr, li = F.inverse(z)
        require(xr.shape == x.shape and li.shape == (n,), "inverse shapes")
        okr = ok & (l64.abs() < 5)
        bad = okr & ((xr - x).abs().amax(dim=1) > 5e-3 * torch.exp(0.5 * l64.abs()) * (1 + x.abs().amax(dim=1)))
        require(not bool(bad.any()), lambda: f"{x[bad][0].tolist()} comes back as {xr[bad][0].tolist()}")
        bad = okr & ((li + l).abs() > 2e-2 * torch.exp(0.5 * l64.abs()) * (1 + l.abs()))
        require(not bool(bad.any()), lambda: f"log-Jacobians of the two directions are {l[bad][0].item()} and {li[bad][0].item()}")
        # latent -> data -> latent
        zz = torch.randn(n, d, generator=g)
        with sut("inverse"):
            xx, lx = F.inverse(zz)
            zb, lb = F.forward(xx)
        good = (lx.abs() < 5) & torch.isfinite(xx).all(dim=1) & (xx.abs().amax(dim=1) < 1e3)
        bad = good & ((zb - zz).abs().amax(dim=1) > 5e-3 * torch.exp(0.5 * lx.abs()) * (1 + zz.abs().amax(dim=1)))
        require(not bool(bad.any()), lambda: f"latent {zz[bad][0].tolist()} comes back as {zb[bad][0].tolist()}")
        bad = good & ((lb + lx).abs() > 2e-2 * torch.exp(0.5 * lx.abs()) * (1 + lx.abs()))
        require(not bool(bad.any()), lambda: f"log-Jacobians of the two directions are {lx[bad][0].item()} and {lb[bad][0].item()}")
        # density
        with sut("log_prob"):
            lp = F.log_prob(x)
        ref = -0.5 * (z64 ** 2).sum(dim=1) - 0.5 * d * LOG2PI + l64
        require(lp.shape == (n,), f"log_prob shape {tuple(lp.shape)}")
        bad = ok & ((lp.double() - ref).abs() > tol * (1 + ref.abs()) * d * 4)
        require(not bool(bad.any()), lambda: f"log-density {lp[bad][0].item()} at {x[bad][0].tolist()}, base density plus Jacobian is {ref[bad][0].item()}")
        # double precision input gives the same numbers in single precision
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with sut("double input"):
                zd, ld = F.forward(x.double())
                xd, lid = F.inverse(z.double())
                lpd = F.log_prob(x.double())
        require(torch.allclose(zd, z, rtol=1e-5, atol=1e-5, equal_nan=True) and torch.allclose(ld, l, rtol=1e-4, atol=1e-4, equal_nan=True) and
                torch.allclose(xd, xr, rtol=1e-4, atol=1e-4, equal_nan=True) and torch.allclose(lpd, lp, rtol=1e-4, atol=1e-3, equal_nan=True), "double-precision input gives other results")
    # the derivative itself
    k = int(torch.nonzero(ok)[0]) if bool(ok.any()) else None
    if k is not None:
        Jm = torch.autograd.functional.jacobian(lambda v: F64().transform(v[None])[0], x[k].double())
        ld = torch.linalg.slogdet(Jm)[1].item()
        require(abs(ld - l[k].item()) <= float(tol[k]) * (1 + abs(ld)) * d * 2, lambda: f"log-Jacobian {l[k].item()} at {x[k].tolist()}, log-determinant of the derivative is {ld}")
    # wrapper
    from pocomc.tools import flow_numpy_wrapper
    W = flow_numpy_wrapper(F)
    xn = x.numpy().astype(float)
    xn0 = xn.copy()
    with sut("flow_numpy_wrapper"):
        th, lw = W.forward(xn)
        back, lwi = W.inverse(th)
    require(np.array_equal(xn, xn0), "wrapper modified its input")
    require(isinstance(th, np.ndarray) and th.shape == (n, d) and np.shape(lw) == (n,) and np.shape(lwi) == (n,), "wrapper shapes")
    require(np.allclose(th, z.numpy(), rtol=1e-4, atol=1e-4, equal_nan=True), "wrapper latent points differ from the flow's")
    require(np.allclose(lw, -l.numpy(), rtol=1e-3, atol=1e-3, equal_nan=True), lambda: f"wrapper log-Jacobian {lw[:2]}, flow {l[:2].tolist()} (sign convention: parameter over latent volume)")
    require(np.allclose(back, xr.numpy(), rtol=1e-3, atol=1e-3, equal_nan=True) and np.allclose(lwi, li.numpy(), rtol=1e-3, atol=1e-3, equal_nan=True), "wrapper inverse differs from the flow's")
    # samples
    m = case["m"]
    with torch.no_grad():
        torch.manual_seed(case["seed"] + 5)
        with sut("sample"):
            s1, lp1 = F.sample()
            s, lps = F.sample(m)
        require(s1.shape == (1, d) and lp1.shape == (1,), f"sample() has shapes {tuple(s1.shape)} {tuple(lp1.shape)}")
        require(s.shape == (m, d) and lps.shape == (m,), f"sample({m}) has shapes {tuple(s.shape)} {tuple(lps.shape)}")
        z64, l64 = F64().transform.call_and_ladj(s.double())
        ref = -0.5 * (z64 ** 2).sum(dim=1) - 0.5 * d * LOG2PI + l64
        okk = (l64.abs() < 5) & (s.abs().amax(dim=1) < 1e3)
        bad = okk & ((lps.double() - ref).abs() > 2e-2 * torch.exp(0.5 * l64.abs()) * (1 + ref.abs()) * d)
        require(not bool(bad.any()), lambda: f"sample {s[bad][0].tolist()} comes with log-density {lps[bad][0].item()}, the flow gives {ref[bad][0].item()}")
        if m >= 200 and float(okk.float().mean()) > 0.98:
            for i in range(d):
                p = ss.kstest(z64[:, i].numpy(), "norm").pvalue
                require(p > 1e-9, lambda: f"samples' latent coordinate {i} is not standard normal (p={p:.1e})")
            if d > 1:
                c = np.corrcoef(ss.norm.cdf(z64.numpy()).T)     # ranks: a few samples are too ill-conditioned to map back
                require(np.max(np.abs(c - np.eye(d))) < 7 / math.sqrt(m), "samples' latent coordinates are correlated")
            ctx.label("sample law tested")
    ctx.label("flow:" + case["flow"], "dim=%d" % d)
    ctx.nontrivial(bool(ok.float().mean() > 0.5) and float((z - x).abs().max()) > 0.05)


def fn_cast(case, ctx):
    from pocomc.tools import torch_double_to_float, numpy_to_torch, torch_to_numpy
    a = np.array(case["v"], dtype=float).reshape(-1, 1)
    t = torch.tensor(a)
    for warn in (True, False):
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            with sut(f"torch_double_to_float(warn={warn})"):
                f = torch_double_to_float(t, warn=warn)
                f2 = torch_double_to_float(t.float(), warn=warn)
        require(f.dtype == torch.float32 and torch.equal(f, t.float()), "cast value")
        require(f2.dtype == torch.float32 and torch.equal(f2, t.float()), "single precision is passed through")
        require(bool(rec) == warn, f"warn={warn} gave {len(rec)} warnings")
    require(np.array_equal(torch_to_numpy(numpy_to_torch(a)), a.astype(np.float32)), "array round trip")
    ctx.nontrivial(len(case["v"]) > 1)


SMALL = ["maf3", "nsf3", "custom-maf", "custom-nsf", "custom-nice", "custom-maf-rand"]


@st.composite
def cases(draw, flows):
    f = draw(st.sampled_from(flows))
    return dict(flow=f, dim=draw(st.integers(2 if f == "custom-nice" else 1, 5)), pert=draw(st.sampled_from([0.0, 0.1, 0.3])), spread=draw(st.sampled_from([0.5, 1.0, 2.5])),
                shift=draw(st.sampled_from([0.0, 0.0, 1.0, -3.0])), m=draw(st.sampled_from([1, 7, 600, 600, 4099])), n=draw(st.sampled_from([40, 40, 40, 1, 2, 1301])), seed=draw(st.integers(0, 10 ** 6)))


R = "the map moves points visibly and is well conditioned on most of them"
SUBS = [Sub("small", cases(SMALL), fn, 40, 2500, R),
        Sub("deep", cases(["maf6", "nsf6", "maf12", "nsf12"]), fn, 5, 300, R),
        Sub("cast", st.builds(lambda v: dict(v=v), st.lists(md.q(-1e6, 1e6, 10 ** 6), min_size=1, max_size=5)), fn_cast, 20, 500, "several values")]
