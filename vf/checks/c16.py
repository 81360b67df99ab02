"""C16: flow training respects weights, validation and early stopping."""
import copy
import math
import warnings

import numpy as np
import torch
import zuko
from hypothesis import strategies as st

from ..core import Inconclusive, Sub, require, sut
from .. import models as md

PROPERTY = "C16"
ASSUMPTIONS = [
    "Training rows are distinct, weights non-negative with at least one positive entry.",
    "The user-supplied flow is any zuko.flows.Flow; the recording flow used here is one.",
]
ROWS = []                 # (rows handed to log_prob, dict with gradient of the loss with respect to each row's log-density)


class RecDist:
    def __init__(self, inner):
        self.inner = inner

    def log_prob(self, x):
        lp = self.inner.log_prob(x)
        rec = dict(x=x.detach().clone(), grad=None)
        if lp.requires_grad:
            def hook(g, rec=rec):
                rec["grad"] = g.detach().clone() if rec["grad"] is None else rec["grad"] + g.detach()
            lp.register_hook(hook)
        ROWS.append(rec)
        return lp

    def __getattr__(self, k):
        return getattr(self.inner, k)


class RecMAF(zuko.flows.MAF):
    """A user-supplied flow that records which rows it is trained on and with which coefficient."""

    def forward(self, c=None):
        return RecDist(super().forward(c))


def data(case):
    rs = np.random.RandomState(case["dseed"])
    n, d = case["n"], case["d"]
    x = rs.randn(n, d) * 1.3 + 0.4 * rs.randn(n, d) ** 2
    k = case["wkind"]
    if k == "none":
        w = None
    elif k == "uniform":
        w = np.ones(n)
    elif k == "zeros":
        w = rs.rand(n) * (rs.rand(n) < 0.5)
        w[rs.randint(n)] = 1.0
    elif k == "skew":
        w = np.exp(2.0 * rs.randn(n))
    else:                                   # runs of zero weight, so that whole batches have none
        w = rs.rand(n)
        a, b = sorted(rs.randint(0, n + 1, 2))
        w[a:b] = 0.0
        w[rs.randint(n)] = 0.7
    if w is not None:
        w = w / w.sum()
    return torch.tensor(x, dtype=torch.float32), None if w is None else torch.tensor(w, dtype=torch.float32)


def new_flow(case, rec=False):
    from pocomc.flow import Flow
    torch.manual_seed(case["fseed"])
    if rec:
        return Flow(case["d"], RecMAF(case["d"], transforms=1, hidden_features=[6]))
    return Flow(case["d"], md.make_flow(case.get("flow", "maf1"), case["d"], case["fseed"]))


def train(f, case, x, w, **over):
    kw = dict(weights=w, validation_split=case["split"], epochs=case["epochs"], batch_size=case["batch"], patience=case["patience"],
              learning_rate=case["lr"], shuffle=case["shuffle"], annealing=case["annealing"])
    kw.update(over)
    torch.manual_seed(case["tseed"])
    np.random.seed(case["tseed"])
    with sut("Flow.fit"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        h = f.fit(x, **kw)
    return h


def params(f):
    return torch.cat([p.detach().ravel() for p in f.flow.parameters()]).numpy()


def check_history(h, case, n, epochs=None):
    E = case["epochs"] if epochs is None else epochs
    L, V = np.asarray(h["loss"], float), np.asarray(h["val_loss"], float)
    require(1 <= len(L) <= E, lambda: f"{len(L)} loss entries for an epoch limit of {E}")
    if case["split"] > 0:
        require(len(V) == len(L), lambda: f"{len(V)} validation losses for {len(L)} epochs")
    else:
        require(len(V) == 0, lambda: f"{len(V)} validation losses without validation")
    require(np.all(np.isfinite(L)) and np.all(np.isfinite(V)), lambda: f"non-finite loss history {L[:5]} {V[:5]}")
    return L, V


def check_patience(mon, case, E):
    """Stopping early only after patience epochs without improvement, and then before 2 * patience + 3."""
    p = case["patience"]
    best = np.minimum.accumulate(mon)
    bi = np.array([int(np.argmin(mon[:k + 1])) for k in range(len(mon))])
    gap = np.arange(len(mon)) - bi
    if len(mon) < E:
        require(gap[-1] >= p, lambda: f"training stopped {gap[-1]} epochs after the best epoch, patience {p}")
    require(np.all(gap[:-1] <= 2 * p + 2), lambda: f"training went on {gap[:-1].max()} epochs after the best epoch, patience {p}")
    return best[-1]


def fn_weights(case, ctx):
    """Zero-weight rows have no influence; rescaled weights change nothing."""
    x, w = data(case)
    x0, w0 = x.clone(), w.clone()
    rs = np.random.RandomState(case["dseed"] + 1)
    x2 = x.clone()
    z = (w == 0).numpy()
    x2[torch.tensor(z)] = torch.tensor(rs.uniform(-4, 4, size=(int(z.sum()), case["d"])), dtype=torch.float32)
    w3 = w * 2.0 ** case["pow"]
    out = []
    for xx, ww in ((x, w), (x2, w), (x, w3)):
        f = new_flow(case)
        h = train(f, case, xx, ww)
        check_history(h, case, case["n"])
        with torch.no_grad():
            out.append((np.asarray(h["loss"]), np.asarray(h["val_loss"]), f.flow().log_prob(x0).numpy(), params(f)))
    require(torch.equal(x, x0) and torch.equal(w, w0), "fit modified the caller's samples or weights")
    for k, what in ((1, "changing zero-weight samples"), (2, f"multiplying all weights by 2**{case['pow']}")):
        a, b = out[0], out[k]
        require(len(a[0]) == len(b[0]), lambda: f"{what} changed the number of epochs from {len(a[0])} to {len(b[0])}")
        for i, nm in ((0, "loss"), (1, "validation loss")):
            require(np.allclose(a[i], b[i], rtol=1e-3, atol=1e-3 * (1 + np.abs(a[i]).max() if len(a[i]) else 1)), lambda: f"{what} changed the {nm} history: {a[i][:4]} and {b[i][:4]}")
        dev = np.abs(a[2] - b[2]).max()
        require(dev < 0.02 + 0.01 * np.abs(a[2]).max(), lambda: f"{what} changed the trained flow (log-density differs by {dev:.3g})")
    require(np.all(np.isfinite(out[0][3])), "training left non-finite parameters")
    ctx.label("w=" + case["wkind"], "shuffle" if case["shuffle"] else "ordered", "validation" if case["split"] > 0 else "no validation",
              "batches" if case["batch"] < case["n"] else "one batch")
    ctx.nontrivial(bool(z.any()) and case["n"] > 4)


def fn_record(case, ctx):
    """Every training row is used once per epoch, with its own weight, and the held-out rows are not trained on."""
    x, w = data(case)
    x0, w0 = x.clone(), None if w is None else w.clone()
    f = new_flow(case, rec=True)
    ROWS.clear()
    h = train(f, case, x, w)
    L, V = check_history(h, case, case["n"])
    require(torch.equal(x, x0) and (w is None or torch.equal(w, w0)), "fit modified the caller's samples or weights")
    E, n = len(L), case["n"]
    index = {x0[i].numpy().tobytes(): i for i in range(n)}
    if len(index) != n:
        raise Inconclusive("duplicate rows in the generated data")
    tr, va = np.zeros(n, int), np.zeros(n, int)
    ratio = []
    for r in ROWS:
        idx = []
        for row in r["x"].numpy():
            i = index.get(row.tobytes())
            require(i is not None, "the flow was trained on a row that is not in the data")
            idx.append(i)
        idx = np.array(idx)
        if r["grad"] is None:
            np.add.at(va, idx, 1)
            continue
        np.add.at(tr, idx, 1)
        g = r["grad"].numpy().astype(float)
        ww = np.ones(len(idx)) if w is None else w0.numpy().astype(float)[idx]
        if np.all(ww == 0):
            require(np.all(g == 0), "a batch of zero-weight samples contributes to training")
            continue
        c = -g.sum() / ww.sum()
        require(c > 0, lambda: f"training lowers the log-density of the samples (coefficient {-c:.3g})")
        require(np.allclose(-g, c * ww, rtol=1e-3, atol=1e-5 * c * ww.max()), lambda: f"samples are not trained with their own weights: loss coefficients {(-g / c)[:5]}, weights {ww[:5]}")
        ratio.append(c)
    tot = tr + va
    require(np.all((tr == E) | (tr == 0)), lambda: f"training rows were used {sorted(set(tr.tolist()))} times in {E} epochs")
    nval = int(np.sum(tr == 0))
    if case["split"] == 0:
        require(nval == 0, lambda: f"{nval} rows were left out of training without validation")
    else:
        want = case["split"] * n
        require(abs(nval - want) <= 1, lambda: f"{nval} of {n} rows were held out for validation_split={case['split']}")
        require(np.all(va[tr == 0] == E), lambda: f"held-out rows were used {sorted(set(va[tr == 0].tolist()))} times in {E} epochs")
        require(np.all(va[tr > 0] == 0), "training rows were used for validation")
    check_patience(V if case["split"] > 0 else L, case, case["epochs"])
    ctx.label("w=" + case["wkind"], "shuffle" if case["shuffle"] else "ordered", f"split={case['split']}", "early" if E < case["epochs"] else "all epochs")
    ctx.nontrivial(E > 1 and tot.sum() > n)


def fn_early(case, ctx):
    """Stopping early leaves the flow at the best recorded monitored loss."""
    x, w = data(case)
    n = case["n"]
    f = new_flow(case)
    h = train(f, case, x, w)
    L, V = check_history(h, case, n)
    best = check_patience(V, case, case["epochs"])
    f1 = new_flow(case)
    h1 = train(f1, case, x, w, epochs=1, patience=10 ** 6)

    def nll(f, k):
        with torch.no_grad():
            lp = f.flow().log_prob(x).numpy().astype(float)
        ww = np.ones(n) if w is None else w.numpy().astype(float)
        return -np.sum(ww[k:] * lp[k:]) / np.sum(ww[k:])
    # which rows are held out is taken from the last rows (no shuffling); their number from the documented fraction
    k = n - int(math.ceil(case["split"] * n - 1e-9))
    if w is not None and float(w[k:].sum()) == 0:
        ctx.label("no validation weight")
        return
    a = nll(f1, k)
    if abs(a) < 0.05:
        ctx.label("constant undetermined")
        return
    c = h1["val_loss"][0] / a
    final = c * nll(f, k)
    if len(L) < case["epochs"]:
        tol = 2e-4 * (abs(c) * 1 + abs(best)) * (1 + 0.2 / abs(a))
        require(abs(final - best) <= tol, lambda: f"early stopping left the flow at validation loss {final:.6g}, best recorded {best:.6g} (last {V[-1]:.6g})")
        ctx.label("stopped early", "distinguishable" if abs(V[-1] - best) > 3 * tol else "flat")
        ctx.nontrivial(abs(V[-1] - best) > 3 * tol)
    else:
        ctx.label("all epochs")


def fn_early_replay(case, ctx):
    """Stopping early leaves the parameters a run of exactly the best number of epochs ends with."""
    x, w = data(case)
    kw = dict(annealing=False, noise=case["noise"] if case["usenoise"] else None)
    f = new_flow(case)
    L, V = check_history(train(f, case, x, w, **kw), case, case["n"])
    mon = V if case["split"] > 0 else L
    check_patience(mon, case, case["epochs"])
    if len(L) == case["epochs"]:
        ctx.label("all epochs")
        return
    b = int(np.argmin(mon))
    f2, f3 = new_flow(case), new_flow(case)
    L2, _ = check_history(train(f2, case, x, w, epochs=b + 1, patience=10 ** 6, **kw), case, case["n"], b + 1)
    train(f3, case, x, w, epochs=len(L), patience=10 ** 6, **kw)
    require(len(L2) == b + 1, lambda: f"{len(L2)} epochs without early stopping, limit {b + 1}")
    require(np.allclose(L2, L[:b + 1], rtol=1e-3, atol=1e-3), "the same training gives different losses under another epoch limit")
    d = np.abs(params(f) - params(f2)).max()
    gap = np.abs(params(f3) - params(f2)).max()
    require(d <= 1e-5 + 0.05 * gap, lambda: f"after early stopping the parameters differ by {d:.3g} from those of the best epoch {b} ({len(L)} epochs were run; last parameters differ by {gap:.3g})")
    ctx.label("stopped early", "validation" if case["split"] > 0 else "training loss", "shuffle" if case["shuffle"] else "ordered")
    ctx.nontrivial(gap > 1e-3)


def fn_noise(case, ctx):
    """Training noise is scaled by the mean nearest-neighbour distance."""
    x, w = data(case)
    n, d = x.shape
    x0 = x.clone()
    f = new_flow(case, rec=True)
    ROWS.clear()
    h = train(f, case, x, w, noise=case["noise"], shuffle=False, validation_split=0.0, annealing=False)
    require(torch.equal(x, x0), "fit modified the caller's samples")
    E = len(h["loss"])
    D = np.linalg.norm(x0.numpy()[:, None, :].astype(float) - x0.numpy()[None, :, :], axis=2)
    np.fill_diagonal(D, np.inf)
    nn = D.min(axis=1).mean()
    seen = np.concatenate([r["x"].numpy() for r in ROWS]).astype(float)
    require(len(seen) == E * n, lambda: f"{len(seen)} rows were used in {E} epochs of {n} samples")
    e = (seen.reshape(E, n, d) - x0.numpy()[None]).ravel()
    N = e.size
    if case["noise"] == 0:
        require(np.all(e == 0), "noise=0 perturbs the samples")
        return
    s = e.std() / (case["noise"] * nn)
    require(abs(s - 1) < 7 / math.sqrt(2 * N) + 1e-3, lambda: f"noise has {s:.3f} times the requested scale ({N} values)")
    require(abs(e.mean()) < 7 * case["noise"] * nn / math.sqrt(N), "noise is biased")
    if E > 1:
        a = e.reshape(E, -1)
        r = np.corrcoef(a[0], a[1])[0, 1]
        require(abs(r) < 7 / math.sqrt(a.shape[1]), f"the noise of successive epochs is correlated ({r:.2f})")
    ctx.label(f"noise={case['noise']}")
    ctx.nontrivial(N > 300)


def fn_reg(case, ctx):
    """Laplace and Gaussian penalties add |w|/b and w^2/(2 s^2) of the network weights, with the right sign and scaling."""
    x, w = data(case)
    base = new_flow(case)
    wts = []
    for t in base.flow.modules():
        if hasattr(t, "hyper"):
            wts += [p.detach() for nme, p in t.hyper.named_parameters() if nme.endswith("weight")]
    A = float(sum(p.abs().sum() for p in wts))
    Q = float(sum(p.square().sum() for p in wts))
    common = dict(epochs=1, learning_rate=1e-12, shuffle=False, validation_split=0.0, batch_size=case["n"], annealing=False)
    out = {}
    for nm, kw in (("none", {}), ("lap", dict(laplace_scale=case["b"])), ("gau", dict(gaussian_scale=case["s"])), ("both", dict(laplace_scale=case["b"], gaussian_scale=case["s"]))):
        f = new_flow(case)
        out[nm] = train(f, case, x, w, **common, **kw)["loss"][0] * case["n"]
    pl, pg = A / case["b"], Q / (2 * case["s"] ** 2)
    for nm, want in (("lap", pl), ("gau", pg), ("both", pl + pg)):
        got = out[nm] - out["none"]
        tol = 1e-4 * (abs(out["none"]) + want) + 1e-3
        require(abs(got - want) <= tol, lambda: f"{nm} regularisation adds {got:.5g} to the loss, penalty {want:.5g}")
    ctx.nontrivial(pl > 0)


WK = ["zeros", "zeros", "blocks", "skew"]


def base(n=(8, 60), wk=("none", "uniform", "zeros", "blocks", "skew"), epochs=(1, 8), patience=(1, 30), split=(0.0, 0.0, 0.1, 0.2, 0.25, 0.5, 0.75),
         lr=(1e-3, 1e-2), shuffle=st.booleans(), batch=None, d=(1, 3)):
    return dict(n=st.integers(*n), d=st.integers(*d), dseed=st.integers(0, 10 ** 6), fseed=st.integers(0, 10 ** 6), tseed=st.integers(0, 10 ** 6),
                wkind=st.sampled_from(list(wk)), epochs=st.integers(*epochs), patience=st.integers(*patience), split=st.sampled_from(list(split)),
                lr=st.sampled_from(list(lr)), shuffle=shuffle, annealing=st.booleans(),
                batch=batch if batch is not None else st.one_of(st.integers(1, 16), st.sampled_from([32, 1000])))


def cases(flow=("maf1", "nsf1", "nice"), **kw):
    dd = base(**kw)
    dd["flow"] = st.sampled_from(list(flow))
    dd["pow"] = st.integers(-12, 12)
    dd["usenoise"] = st.booleans()
    dd["noise"] = st.sampled_from([0.5, 1.0, 0.1, 2.0, 0.0])
    dd["b"] = st.sampled_from([0.5, 1.0, 3.0, 0.05])
    dd["s"] = st.sampled_from([0.5, 1.0, 3.0, 0.1])
    return st.fixed_dictionaries(dd)


SUBS = [
    Sub("weights", cases(wk=WK, patience=(30, 60), epochs=(1, 6), d=(2, 3)), fn_weights, 25, 1200, "some training sample has zero weight"),
    Sub("rows", cases(epochs=(1, 25), patience=(1, 6)), fn_record, 30, 1500, "more than one epoch recorded"),
    Sub("rows_large", cases(n=(257, 1300), d=(2, 3), epochs=(1, 3), patience=(1, 6), batch=st.sampled_from([64, 256, 512, 1000])), fn_record, 3, 150, "more than one epoch recorded"),
    Sub("noise_large", cases(n=(200, 800), epochs=(1, 2), wk=("none", "skew"), d=(2, 3), batch=st.sampled_from([128, 512, 1000])), fn_noise, 2, 100, "more than 300 noise values"),
    Sub("early", cases(n=(16, 50), epochs=(40, 120), patience=(2, 6), split=(0.25, 0.5), lr=(3e-2, 1e-2, 1e-1), shuffle=st.just(False), batch=st.just(1000),
                       wk=("none", "skew", "uniform"), flow=("maf1", "nsf1"), d=(2, 3)), fn_early, 12, 600,
        "training stopped early at parameters distinguishable from the last ones"),
    Sub("early_replay", cases(n=(8, 40), epochs=(30, 60), patience=(1, 4), lr=(3e-2, 1e-2), batch=st.sampled_from([8, 16, 1000])), fn_early_replay, 10, 600,
        "training stopped early and the last parameters differ from the best ones"),
    Sub("noise", cases(n=(20, 60), epochs=(1, 4), wk=("none", "skew"), d=(2, 3)), fn_noise, 12, 800, "more than 300 noise values"),
    Sub("reg", cases(n=(8, 30), wk=("none", "skew"), flow=("maf1", "nsf1"), d=(2, 3)), fn_reg, 12, 500, "the penalty is positive"),
]
