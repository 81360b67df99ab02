"""C24: the flow is trained on schedule and only when preconditioning."""
import contextlib
import inspect

import numpy as np
import zuko
from hypothesis import strategies as st

from ..core import Sub, Inconclusive, Violation, require, sut
from .. import models as md
from .. import ref

PROPERTY = "C24"
ASSUMPTIONS = ["Iterations are numbered from 1 with warm-up included, so 'every train_frequency-th iteration' are those whose number is a multiple of it.",
               "Training receives single-precision copies of the particles; the history trimmed to 99 percent of its effective sample size is what training sees."]
TOUCHED = []


class SpyMAF(zuko.flows.MAF):
    def forward(self, c=None):
        TOUCHED.append("flow()")
        return super().forward(c)


@contextlib.contextmanager
def spying(record, sampler):
    """Record every call of the sampler's flow."""
    from pocomc.flow import Flow
    saved = {k: getattr(Flow, k) for k in ("fit", "forward", "inverse", "log_prob", "sample")}
    sig = inspect.signature(saved["fit"])

    def fit(self, *a, **k):
        if self is not sampler().flow:
            return saved["fit"](self, *a, **k)
        b = sig.bind(self, *a, **k)
        b.apply_defaults()
        args = dict(b.arguments)
        args.pop("self")
        args["x"] = args["x"].detach().clone().numpy()
        args["weights"] = None if args["weights"] is None else args["weights"].detach().clone().numpy()
        s = sampler()
        try:
            T = len(s.results["beta"])
        except Exception:
            T = 0
        record.append(("fit", T, args))
        return saved["fit"](self, *a, **k)

    def other(nm):
        def f(self, *a, **k):
            if self is sampler().flow:
                record.append((nm, None, None))
            return saved[nm](self, *a, **k)
        return f
    Flow.fit = fit
    for nm in saved:
        if nm != "fit":
            setattr(Flow, nm, other(nm))
    try:
        yield
    finally:
        for nm, v in saved.items():
            setattr(Flow, nm, v)


DEFAULTS = dict(validation_split=0.5, epochs=5000, learning_rate=1e-3, annealing=False, gaussian_scale=None, laplace_scale=None, noise=None, shuffle=True, clip_grad_norm=1.0)


def fn_pre(case, ctx):
    cfg = case["cfg"]
    md.drop_logs()
    over = dict(train_config=case["train"] or None, train_frequency=case["freq"])
    holder = {}
    s, prior, like = md.build(cfg, **over)
    holder["s"] = s
    n_eff0 = s.n_effective
    rec = []
    with spying(rec, lambda: holder["s"]):
        md.run_sut(s, cfg, prior, like)
        if case["again"]:
            md.run_sut(s, cfg, prior, like, what="second run", n_total=int(1.6 * cfg["n_total"]))
    r = s.results
    T = len(r["beta"])
    nw = md.n_warm_of(cfg)
    freq = max(n_eff0 // (2 * cfg["n_active"]), 1) if case["freq"] is None else case["freq"]
    want = [t for t in range(nw, T) if t == nw or (t + 1) % freq == 0 or r["beta"][t] == 1.0]
    fits = [(t, a) for nm, t, a in rec if nm == "fit"]
    got = [t for t, _ in fits]
    require(got == want, lambda: f"flow trained at iterations {got}, schedule {want} (warm-up {nw}, frequency {freq}, betas {np.round(r['beta'], 4).tolist()})")
    d = prior.dim
    for t, a in fits:
        lw, _ = ref.mixture(r["logl"][:t], r["beta"][:t], r["logz"][:t], r["beta"][t])
        full = np.exp(lw)
        U = r["u"][:t].reshape(-1, d).astype(np.float32)
        x, w = a["x"], a["weights"]
        require(x.shape == (len(w), d) and x.dtype == np.float32, lambda: f"iteration {t}: training data {x.shape} {x.dtype}, {len(w)} weights")
        require(w is not None and np.all(w >= 0) and abs(float(w.astype(float).sum()) - 1) < 1e-3, lambda: f"iteration {t}: training weights sum to {w.astype(float).sum()}")
        # each training row is a history row, with its weight
        book = {}
        for i in range(len(U)):
            book.setdefault(U[i].tobytes(), []).append(i)
        used, tw = np.zeros(len(U), bool), np.zeros(len(x))
        for i in range(len(x)):
            L = book.get(x[i].tobytes())
            require(L is not None, lambda: f"iteration {t}: training row {i} is not a particle of the history")
            free = [j for j in L if not used[j]]
            require(bool(free), lambda: f"iteration {t}: a particle is used more often for training than it was recorded")
            used[free[0]] = True
            tw[i] = full[free[0]]
        require(np.allclose(w / w.max(), tw / tw.max(), rtol=2e-3, atol=1e-6), lambda: f"iteration {t}: training weights are not the importance weights of the training rows")
        thr, enough = ref.trim_ok(full, np.nonzero(used)[0], 0.99 - 1e-6)
        require(enough, lambda: f"iteration {t}: training sees less than 99 percent of the effective sample size")
        dropped = full[~used]
        require(len(dropped) == 0 or dropped.max() <= full[used].min() * (1 + 1e-6), lambda: f"iteration {t}: a particle of larger weight than one used was left out of training")
        exp = dict(DEFAULTS)
        exp["patience"] = int(d)
        bs = min(n_eff0 // 2, 512)
        exp.update(case["train"])
        bs = case["train"].get("batch_size", bs)
        exp["batch_size"] = min(len(x) // 2, bs)
        for k, v in exp.items():
            require(a[k] == v, lambda: f"iteration {t}: training option {k} is {a[k]!r}, requested {v!r}")
    md.label_cfg(ctx, cfg)
    ctx.label("freq=%r" % case["freq"], "again" if case["again"] else "once", *["opt " + k for k in case["train"]])
    ctx.nontrivial(len(want) < T - nw or len(want) > 2)


def fn_nopre(case, ctx):
    cfg = case["cfg"]
    md.drop_logs()
    d = md.prior_dim(cfg["prior"])
    s, prior, like = md.build(cfg, flow=SpyMAF(d, transforms=1, hidden_features=[4]), train_frequency=case["freq"])
    before = {k: v.clone() for k, v in s.flow.flow.state_dict().items()}
    rec = []
    TOUCHED.clear()
    with spying(rec, lambda: s):
        md.run_sut(s, cfg, prior, like, n_evidence=case["n_evidence"])
        s.posterior()
        s.evidence()
    require(not rec and not TOUCHED, lambda: f"without preconditioning the flow was used: {[r[0] for r in rec][:3] or TOUCHED[:1]}")
    require(all(bool((v == before[k]).all()) for k, v in s.flow.flow.state_dict().items()), "without preconditioning the flow's parameters changed")
    require(s.evidence()[1] is None, "without preconditioning an importance-sampling error is reported")
    md.label_cfg(ctx, cfg)
    ctx.nontrivial(md.accepted_something(s.results))


TRAIN = st.fixed_dictionaries({}, optional=dict(
    validation_split=st.sampled_from([0.0, 0.2, 0.3]), epochs=st.sampled_from([1, 3, 7]), batch_size=st.sampled_from([5, 16, 1000]), patience=st.sampled_from([1, 4]),
    learning_rate=st.sampled_from([1e-2, 5e-4]), annealing=st.just(True), gaussian_scale=st.sampled_from([1.0, 3.0]), laplace_scale=st.sampled_from([1.0, 0.2]),
    noise=st.sampled_from([0.1, 1.0]), shuffle=st.just(False), clip_grad_norm=st.sampled_from([0.5, 10.0])))


@st.composite
def pre_cases(draw):
    c = draw(md.configs(precondition=True, evidence=False, max_dim=3))
    t = draw(TRAIN)
    t.setdefault("epochs", draw(st.sampled_from([2, 5000])))
    if t["epochs"] == 5000:
        t.pop("epochs")
    n = c["n_active"]
    c["n_effective"] = int(draw(st.sampled_from([1.0, 2.0, 4.0, 6.0])) * n)
    return dict(cfg=c, train=t, freq=draw(st.sampled_from([None, None, None, 1, 2, 3, 5])), again=draw(st.booleans()))


nopre_cases = st.builds(lambda cfg, freq, n_evidence: dict(cfg=cfg, freq=freq, n_evidence=n_evidence), md.configs(precondition=False), st.sampled_from([None, 1, 2]), st.sampled_from([0, 64]))
SUBS = [Sub("schedule", pre_cases(), fn_pre, 14, 350, "at least one iteration without training or more than two with"),
        Sub("nopre", nopre_cases, fn_nopre, 8, 400, "at least one SMC iteration")]
