"""Shared generator of sampler configurations, recording priors and likelihoods."""
import copy
import math

import numpy as np
import scipy.stats as ss
import torch
from hypothesis import strategies as st

from .core import Inconclusive, Violation, sut

BUDGET = 60000            # likelihood evaluations per case before it is called inconclusive

# --------------------------------------------------------------------------- priors

def make_dist(d):
    k, p = d[0], d[1:]
    if k == "norm":
        return ss.norm(p[0], p[1])
    if k == "uniform":
        return ss.uniform(p[0], p[1])
    if k == "expon":
        return ss.expon(p[0], p[1])
    if k == "wmax":
        return ss.weibull_max(1.5, loc=p[0], scale=p[1])
    if k == "beta":
        return ss.beta(2.0, 3.0, loc=p[0], scale=p[1])
    if k == "truncnorm":
        return ss.truncnorm(-1.5, 2.0, loc=p[0], scale=p[1])
    if k == "lognorm":
        return ss.lognorm(0.6, loc=p[0], scale=p[1])
    if k == "t":
        return ss.t(5.0, loc=p[0], scale=p[1])
    if k == "gamma":
        return ss.gamma(2.5, loc=p[0], scale=p[1])
    if k == "loguniform":
        return ss.loguniform(p[0], p[1])
    raise ValueError(k)


TWO_SIDED = ("uniform", "beta", "truncnorm")
ONE_SIDED = ("expon", "wmax", "lognorm", "gamma")
UNBOUNDED = ("norm", "t")


HOOKS = {}                # uid -> callable(x) run on every logpdf call (registry, so that pickled copies share it)


class Hooked:
    """Prior base class: an observer can be attached to density evaluations."""

    hook_id = None

    def logpdf(self, x):
        h = HOOKS.get(self.hook_id)
        if h is not None:
            h(x)
        return self._logpdf(x)


class Monitor:
    """Watches a run from inside prior evaluations (one or more per MCMC sweep): likelihood counts and history snapshots at
    the moment each iteration was recorded."""

    def __init__(self, prior, like, snapshots=False):
        self.sampler, self.like, self.snap = None, like, snapshots
        self.count_at, self.snaps, self.seen = {}, {}, {}
        self.rows = {}            # history length -> rows of prior evaluations made while it had that length
        self.T = 0
        _UID[0] += 1
        prior.hook_id = _UID[0]
        HOOKS[prior.hook_id] = self

    def history_length(self):
        try:
            return len(self.sampler.results["beta"])
        except Exception:
            return 0              # nothing recorded yet

    def __call__(self, x):
        if self.sampler is None:
            return
        T = self.history_length()
        if T != self.T:
            self.T = T
            self.count_at[T] = self.like.count
            self.seen[T] = self.sampler.n_effective
            if self.snap:
                self.snaps[T] = results_copy(self.sampler)
        self.rows[T] = self.rows.get(T, 0) + len(x)

    def __getstate__(self):
        return {}


class ProductPrior(Hooked):
    """User-style prior built on the package's own Prior, recording what it hands out."""

    def __init__(self, dists, log=None):
        import pocomc
        self.inner = pocomc.Prior([make_dist(d) for d in dists])
        self.draws = []
        self.n_logpdf = 0

    def _logpdf(self, x):
        return self.inner.logpdf(x)

    def rvs(self, size=1):
        x = self.inner.rvs(size)
        self.draws.append(np.array(x, copy=True))
        return x

    @property
    def bounds(self):
        return self.inner.bounds

    @property
    def dim(self):
        return self.inner.dim


class DiscPrior(Hooked):
    """Uniform on the ball of radius r (dim d) inside the bounding box: non-rectangular support."""

    def __init__(self, dim, r):
        self.d, self.r = dim, r
        self.draws = []
        self.logv = dim / 2 * math.log(math.pi) - math.lgamma(dim / 2 + 1) + dim * math.log(r)

    def _logpdf(self, x):
        inside = np.sum(np.asarray(x) ** 2, axis=1) <= self.r ** 2
        return np.where(inside, -self.logv, -np.inf)

    def rvs(self, size=1):
        z = np.random.randn(size, self.d)
        z /= np.linalg.norm(z, axis=1)[:, None]
        x = 0.999999 * self.r * z * np.random.rand(size)[:, None] ** (1.0 / self.d)
        self.draws.append(x.copy())
        return x

    @property
    def bounds(self):
        return np.array([[-self.r, self.r]] * self.d)

    @property
    def dim(self):
        return self.d


class WedgePrior(Hooked):
    """Uniform on 0 < x0 < x1 < ... < 1 (ordered simplex) times a scale r; other example of a cut-off box."""

    def __init__(self, dim, r):
        self.d, self.r = dim, r
        self.draws = []
        self.logv = dim * math.log(r) - math.lgamma(dim + 1)

    def _logpdf(self, x):
        x = np.asarray(x)
        ok = np.all(np.diff(x, axis=1) >= 0, axis=1) & np.all(x >= 0, axis=1) & np.all(x <= self.r, axis=1)
        return np.where(ok, -self.logv, -np.inf)

    def rvs(self, size=1):
        x = self.r * np.sort(np.random.rand(size, self.d), axis=1)
        self.draws.append(x.copy())
        return x

    @property
    def bounds(self):
        return np.array([[0.0, self.r]] * self.d)

    @property
    def dim(self):
        return self.d


class HierPrior(Hooked):
    """x0 ~ N(0,1), x_i | x0 ~ N(x0, 0.5): correlated, unbounded."""

    def __init__(self, dim):
        self.d = dim
        self.draws = []

    def _logpdf(self, x):
        x = np.asarray(x)
        lp = ss.norm.logpdf(x[:, 0])
        for i in range(1, self.d):
            lp = lp + ss.norm.logpdf(x[:, i], x[:, 0], 0.5)
        return lp

    def rvs(self, size=1):
        x0 = np.random.randn(size)
        x = np.stack([x0] + [x0 + 0.5 * np.random.randn(size) for _ in range(self.d - 1)], axis=1)
        self.draws.append(x.copy())
        return x

    @property
    def bounds(self):
        return np.array([[-np.inf, np.inf]] * self.d)

    @property
    def dim(self):
        return self.d


def make_prior(cfg):
    p = cfg["prior"]
    if p["kind"] == "product":
        return ProductPrior(p["dists"])
    if p["kind"] == "disc":
        return DiscPrior(p["dim"], p["r"])
    if p["kind"] == "wedge":
        return WedgePrior(p["dim"], p["r"])
    if p["kind"] == "hier":
        return HierPrior(p["dim"])
    raise ValueError(p["kind"])


def prior_dim(p):
    return len(p["dists"]) if p["kind"] == "product" else p["dim"]


def prior_scale(p):
    """Per-dimension centre and spread, to place likelihoods sensibly."""
    if p["kind"] == "product":
        m, s = [], []
        for d in p["dists"]:
            D = make_dist(d)
            lo, me, hi = D.ppf([0.16, 0.5, 0.84])
            m.append(me)
            s.append((hi - lo) / 2)
        return np.array(m), np.array(s)
    if p["kind"] == "disc":
        return np.zeros(p["dim"]), np.full(p["dim"], p["r"] / 2)
    if p["kind"] == "wedge":
        d = p["dim"]
        return p["r"] * np.arange(1, d + 1) / (d + 1), np.full(d, 0.25 * p["r"])
    return np.zeros(p["dim"]), np.full(p["dim"], 1.1)


# --------------------------------------------------------------------------- likelihoods

LOGS = {}                 # uid -> list of recorded input arrays (kept out of instances so that pickled copies share it)
COUNT = {}
_UID = [0]


def new_uid():
    _UID[0] += 1
    u = _UID[0]
    LOGS[u] = []
    COUNT[u] = 0
    return u


def drop_logs():
    LOGS.clear()
    HOOKS.clear()
    COUNT.clear()


class Like:
    """Deterministic log-likelihood of one point; evaluates row by row when handed a 2-D array."""

    def __init__(self, spec, m, s, blob="none", record=True, budget=BUDGET):
        self.spec, self.m, self.s, self.blob = spec, np.asarray(m), np.asarray(s), blob
        self.record = record
        self.budget = budget
        self.uid = new_uid()

    def __setstate__(self, d):
        self.__dict__.update(d)
        LOGS.setdefault(self.uid, [])
        COUNT.setdefault(self.uid, 0)

    def value(self, x):
        sp = self.spec
        z = (np.asarray(x, dtype=float) - self.m) / self.s
        if sp.get("cut") is not None and z[0] > sp["cut"]:
            return -np.inf
        if sp.get("region") is not None:
            g, a = sp["region"]
            if g == "hole" and np.sum(z ** 2) < a ** 2:
                return -np.inf
            if g == "shell" and np.sum(z ** 2) > (2 + a) ** 2:
                return -np.inf
            if g == "stripes" and math.floor((float(z[-1]) + 40) / (0.5 * a)) % 2:
                return -np.inf
            if g == "corner" and np.all(z > a):
                return -np.inf
        w, c, k = sp["w"], sp["c"], sp["kind"]
        if k == "gauss":
            v = -0.5 * float(np.sum(((z - c) / w) ** 2))
        elif k == "flat":
            v = 0.0
        elif k == "bimodal":
            v = float(np.logaddexp(-0.5 * np.sum(((z - 0.8) / w) ** 2), -0.5 * np.sum(((z + 0.8) / w) ** 2)))
        elif k == "ring":
            v = -0.5 * ((float(np.sqrt(np.sum(z ** 2))) - 1.0) / w) ** 2
        elif k == "laplace":
            v = -float(np.sum(np.abs(z - c))) / w
        elif k == "step":
            v = -2.0 * min(6.0, math.floor(float(np.sum(np.abs(z - c))) / w))
        elif k == "corr":
            y = z - c
            v = -0.5 * float(np.sum((y[1:] - y[:-1] ** 2) ** 2) / w ** 2 + np.sum(y ** 2) / (4 * w ** 2))
        else:
            raise ValueError(k)
        return v + sp["off"]

    def blob_of(self, x):
        return make_blob(self.blob, x)

    def one(self, x):
        v = self.value(x)
        if self.blob == "none":
            return v
        return (v,) + self.blob_of(x)

    def __call__(self, x, *args, **kwargs):
        x = np.asarray(x)
        if x.ndim == 2:
            if self.record:
                LOGS[self.uid].append(np.array(x, copy=True))
            COUNT[self.uid] += len(x)
            self.check_budget()
            return np.array([self.value(r) for r in x], dtype=float)
        if self.record:
            LOGS[self.uid].append(np.array(x, copy=True)[None, :])
        COUNT[self.uid] += 1
        self.check_budget()
        return self.one(x)

    def check_budget(self):
        if COUNT[self.uid] > self.budget:
            raise Inconclusive("likelihood budget")

    @property
    def log(self):
        L = LOGS[self.uid]
        return np.concatenate(L) if L else np.zeros((0, len(self.m)))

    @property
    def count(self):
        return COUNT[self.uid]


def make_blob(kind, x):
    x = np.asarray(x, dtype=float)
    h = float(np.sum(np.sin(1e3 * x) * np.arange(1, len(x) + 1)))
    if kind == "float":
        return (h,)
    if kind == "npfloat":
        return (np.float64(h),)
    if kind == "f32":
        return (np.float32(h),)
    if kind == "int":
        return (int(math.floor((h + 20) * 1e16)) | 1,)       # odd and above 2**53: not a double
    if kind == "bool":
        return (bool(h > 0),)
    if kind == "vec":
        return (np.array([h, h * h, 1.0 + x[0]]),)
    if kind == "vec1":
        return (np.array([h]),)
    if kind == "mat":
        return (np.array([[h, 1.0], [x[0], x[-1]]]),)
    if kind == "two":
        return (h, float(x[0]))
    if kind == "twoint":
        return (int(math.floor(h * 1e3)), int(math.floor(x[0] * 1e3)))
    if kind == "struct":
        return (h, int(math.floor((h + 20) * 1e16)) | 1)
    if kind == "struct1":
        return (h,)
    if kind == "structstr":
        return (h, "n%d" % int(abs(h) * 1e4))
    if kind == "str":
        return ("s" * (1 + int(abs(h) * 7) % 9) + "%.3f" % h,)
    if kind == "mixed":
        return ("s" * (1 + int(abs(h) * 7) % 9), h)
    if kind == "strs":
        return ("a%.4f" % h, "b" * (1 + int(abs(h) * 7) % 9))
    if kind == "declfloat":
        return (h,)
    if kind == "declint":
        return (int(math.floor(h * 1e3)),)
    if kind == "cplx":
        return (complex(h, x[0]),)
    if kind == "ragged":
        return (h, np.array([h, x[0]]))
    if kind == "arrs":
        return (np.array([h, 1.0]), np.array([x[0], x[-1]]))
    if kind == "list":
        return ([h, 2.0 * h],)
    if kind == "dict":
        return ({"h": h, "n": int(abs(h) * 1e3)},)
    if kind == "fltint":
        return (h, int(abs(h) * 1e3))
    if kind == "structvec":
        return (h, np.array([h, x[0]]))
    if kind == "row1":
        return (np.array([[h, x[0]]]),)
    if kind == "bytes":
        return (b"s" * (1 + int(abs(h) * 7) % 9),)
    if kind == "npstr":
        return (np.str_("s" * (1 + int(abs(h) * 7) % 9) + "%.3f" % h),)
    if kind == "u8":
        return (np.uint8(int(abs(h) * 1e3) % 256),)
    if kind == "i16":
        return (np.int16(int(h * 1e3) % 30000 - 15000),)
    if kind == "date":
        return (np.datetime64("2020-01-01") + int(abs(h) * 1e3),)
    raise ValueError(kind)


BLOB_DTYPES = {
    "struct": [("z", float), ("b", int)],
    "struct1": [("a", float)],
    "structstr": [("value", float), ("name", object)],
    "declfloat": float,
    "declint": int,
    "structvec": [("w", float), ("V2", float, 2)],
}
BLOBS = ["float", "npfloat", "f32", "int", "bool", "vec", "vec1", "mat", "two", "twoint", "struct", "struct1", "structstr", "str",
         "mixed", "strs", "declfloat", "declint", "cplx", "ragged", "arrs", "list", "dict", "fltint", "structvec", "row1",
         "bytes", "npstr", "u8", "i16", "date"]


# --------------------------------------------------------------------------- strategies

def q(lo, hi, n=64):
    """floats on a grid: small, readable and shrinkable"""
    return st.integers(0, n).map(lambda i: round(lo + (hi - lo) * i / n, 6))


LOC = st.one_of(q(-3, 3), st.sampled_from([0.0, 100.0, -1000.0]))
SCALE = st.one_of(q(0.5, 3), st.sampled_from([1.0, 0.01, 50.0]))


def dists(kinds):
    return st.tuples(st.sampled_from(kinds), LOC, SCALE).map(list)


ALLK = list(UNBOUNDED + TWO_SIDED + ONE_SIDED)


@st.composite
def priors(draw, max_dim=4, min_dim=1, kinds=ALLK, custom=True):
    dim = draw(st.integers(min_dim, max_dim))
    if custom and dim >= 2:
        k = draw(st.sampled_from(["product"] * 5 + ["disc", "wedge", "hier"]))
        if k in ("disc", "wedge"):
            return dict(kind=k, dim=min(dim, 3), r=draw(q(0.5, 4)))
        if k == "hier":
            return dict(kind=k, dim=min(dim, 3))
    return dict(kind="product", dists=[draw(dists(kinds)) for _ in range(dim)])


LIKES = ["gauss", "gauss", "laplace", "bimodal", "ring", "step", "corr", "flat"]


@st.composite
def likes(draw, kinds=LIKES, cut=True, offs=True):
    k = draw(st.sampled_from(kinds))
    return dict(kind=k,
                w=draw(q(0.25, 1.5)),
                c=draw(q(-0.8, 0.8)),
                off=draw(st.sampled_from([0.0, 0.0, 0.0, 3.5, -40.0, 800.0, -2000.0])) if offs else 0.0,
                cut=draw(st.sampled_from([None] * 4 + [0.3, 0.8, 1.5])) if cut else None)


@st.composite
def configs(draw, precondition=None, blobs=True, modes=("serial", "serial", "vectorize"), max_dim=4, cut=True, custom=True,
            kinds=ALLK, likekinds=LIKES, boundary=True, big_flows=False, offs=True, min_dim=1, metrics=("ess", "uss"),
            evidence=True):
    if max_dim == 4 and draw(st.integers(0, 11)) == 11:      # now and then more parameters than usual
        min_dim, max_dim = 5, 8
    prior = draw(priors(max_dim=max_dim, min_dim=min_dim, custom=custom, kinds=kinds))
    dim = prior_dim(prior)
    mode = draw(st.sampled_from(list(modes)))
    n_active = draw(st.sampled_from([8, 12, 16, 16, 24, 32]))
    n_active = max(n_active, 4 * dim)
    ratio = draw(st.sampled_from([2.0, 2.0, 1.5, 3.0, 1.0, 4.0]))
    if precondition is None:
        pre = draw(st.sampled_from([False, False, True]))
    else:
        pre = precondition
    c = dict(prior=prior,
             like=draw(likes(cut=cut, kinds=likekinds, offs=offs)),
             blob=draw(st.sampled_from(["none"] * 3 + ["float", "vec", "int", "struct", "str"])) if blobs and mode != "vectorize" else "none",
             mode=mode,
             n_active=n_active,
             n_effective=int(ratio * n_active),
             n_prior=draw(st.sampled_from([None, None, None, 1, 2, 3])),
             precondition=pre,
             sample=draw(st.sampled_from(["tpcn", "rwm"])),
             transform=draw(st.sampled_from(["probit", "logit"])),
             metric=draw(st.sampled_from(list(metrics))),
             resample=draw(st.sampled_from(["mult", "syst"])),
             dynamic=draw(st.booleans()),
             n_steps=draw(st.sampled_from([None, 1, 2])),
             n_max_steps=draw(st.sampled_from([None, 1, 3, 8])),
             n_total=draw(st.sampled_from([32, 48, 64, 80])),
             n_evidence=draw(st.sampled_from([0, 32, 64])) if pre and evidence else 0,
             seed=draw(st.integers(0, 10 ** 6)))
    if c["n_prior"] is not None:
        c["n_prior_extra"] = draw(st.sampled_from([0, 0, 1, n_active // 2, n_active - 1] + ([-3] if c["n_prior"] == 1 else [])))
    if pre:
        c["flow"] = draw(st.sampled_from(["maf1", "nsf1", "maf1", "nsf1"] + (["maf3", "nsf3"] if big_flows else [])))
        c["train_frequency"] = draw(st.sampled_from([None, 1, 2, 3]))
        c["epochs"] = draw(st.sampled_from([5000, 12]))
    if boundary and prior["kind"] == "product":
        two = [i for i, d in enumerate(prior["dists"]) if d[0] in TWO_SIDED]
        if two and draw(st.booleans()):
            kinds_ = [draw(st.sampled_from(["p", "r", "-"])) for _ in two]
            per = [i for i, k in zip(two, kinds_) if k == "p"]
            ref = [i for i, k in zip(two, kinds_) if k == "r"]
            c["periodic"] = per or None
            c["reflective"] = ref or None
    return c


@st.composite
def large_configs(draw, **kw):
    """Runs of realistic size: hundreds of particles, histories of thousands of rows."""
    c = draw(configs(precondition=False, max_dim=2, cut=False, custom=False, likekinds=["gauss", "flat", "laplace"], **kw))
    c["n_active"] = draw(st.sampled_from([128, 200, 256]))
    c["n_effective"] = draw(st.sampled_from([2, 3])) * c["n_active"]
    c["n_prior"] = None
    c.pop("n_prior_extra", None)
    c["n_steps"], c["n_max_steps"] = 1, draw(st.sampled_from([2, 4]))
    c["n_total"] = draw(st.sampled_from([1100, 1500]))
    return c


# --------------------------------------------------------------------------- building samplers

def make_flow(name, dim, seed):
    import zuko
    if name in ("maf3", "maf6", "maf12", "nsf3", "nsf6", "nsf12"):
        return name
    torch.manual_seed(seed % (2 ** 31))
    if name == "maf1":
        return zuko.flows.MAF(dim, transforms=1, hidden_features=[8])
    if name == "maf2":
        return zuko.flows.MAF(dim, transforms=2, hidden_features=[8])
    if name == "nsf1":
        return zuko.flows.NSF(dim, transforms=1, bins=4, hidden_features=[8])
    if name == "nice":
        return zuko.flows.NICE(dim, transforms=2, hidden_features=[8])
    raise ValueError(name)


def make_like(cfg, **kw):
    m, s = prior_scale(cfg["prior"])
    return Like(cfg["like"], m, s, cfg.get("blob", "none"), **kw)


def n_prior_of(cfg):
    """Requested prior samples: whole batches plus, sometimes, a remainder that fills no batch (or fewer than one batch)."""
    if cfg["n_prior"] is None:
        return None
    extra = min(cfg.get("n_prior_extra", 0), cfg["n_active"] - 1)
    return cfg["n_prior"] * cfg["n_active"] + (extra if extra >= 0 or cfg["n_prior"] == 1 else 0)


def n_warm_of(cfg):
    """Warm-up iterations the documented defaults imply."""
    return cfg["n_prior"] if cfg["n_prior"] is not None else 2 * max(cfg["n_effective"] // cfg["n_active"], 1)


def sampler_kwargs(cfg, **over):
    kw = dict(n_effective=cfg["n_effective"], n_active=cfg["n_active"],
              vectorize=cfg["mode"] == "vectorize",
              blobs_dtype=BLOB_DTYPES.get(cfg.get("blob", "none")),
              periodic=cfg.get("periodic"), reflective=cfg.get("reflective"),
              transform=cfg["transform"], precondition=cfg["precondition"],
              dynamic=cfg["dynamic"], metric=cfg["metric"],
              n_prior=n_prior_of(cfg),
              sample=cfg["sample"], n_steps=cfg["n_steps"], n_max_steps=cfg["n_max_steps"],
              resample=cfg["resample"], random_state=cfg["seed"])
    if cfg["precondition"]:
        kw["flow"] = make_flow(cfg["flow"], prior_dim(cfg["prior"]), cfg["seed"])
        kw["train_frequency"] = cfg.get("train_frequency")
        if cfg.get("epochs") and cfg["epochs"] != 5000:
            kw["train_config"] = dict(epochs=cfg["epochs"])
    else:
        kw["flow"] = make_flow("maf1", prior_dim(cfg["prior"]), cfg["seed"])
    kw.update(over)
    return kw


def build(cfg, prior=None, like=None, cls=None, **over):
    import pocomc
    prior = make_prior(cfg) if prior is None else prior
    like = make_like(cfg) if like is None else like
    s = (cls or pocomc.Sampler)(prior, like, **sampler_kwargs(cfg, **over))
    return s, prior, like


def run(s, cfg, n_total=None, n_evidence=None, **kw):
    """Run the sampler; conditions under which a batch of prior draws has no support are not decided here."""
    kw.setdefault("progress", False)
    if n_evidence != "omit":
        kw["n_evidence"] = cfg["n_evidence"] if n_evidence is None else n_evidence
    s.run(n_total=cfg["n_total"] if n_total is None else n_total, **kw)
    return s


def run_sut(s, cfg, prior, like, what="run", **kw):
    """Run under the rule that valid configurations must not raise."""
    try:
        with sut(what):
            run(s, cfg, **kw)
    except Violation:
        if empty_batch(cfg, prior, like):
            raise Inconclusive("a warm-up batch has no positive-likelihood particle")
        if few_finite(cfg, prior, like):
            raise Inconclusive("too few distinct positive-likelihood prior draws to define a covariance")
        raise


def few_finite(cfg, prior, like):
    """True when hardly any prior draw has positive likelihood: no proposal covariance exists (outside every property's domain)."""
    if (cfg["like"].get("cut") is None and cfg["like"].get("region") is None) or not prior.draws:
        return False
    x, n = prior.draws[0], cfg["n_active"]
    x = x[:len(x) // n * n]
    return sum(bool(np.isfinite(like.value(r))) for r in x) < 3 * (x.shape[1] + 1)


def empty_batch(cfg, prior, like):
    """True when some warm-up batch of draws has zero likelihood throughout (outside every property's domain)."""
    if (cfg["like"].get("cut") is None and cfg["like"].get("region") is None) or not prior.draws:
        return False
    x, n = prior.draws[0], cfg["n_active"]
    return any(all(not np.isfinite(like.value(r)) for r in x[i:i + n]) for i in range(0, len(x) - n + 1, n))


def label_cfg(ctx, cfg):
    ctx.label(cfg["sample"], "pre" if cfg["precondition"] else "nopre", cfg["transform"], cfg["metric"], cfg["resample"],
              "mode=" + cfg["mode"], "blob=" + cfg.get("blob", "none"), "prior=" + cfg["prior"]["kind"],
              "like=" + cfg["like"]["kind"], "dim=%d" % prior_dim(cfg["prior"]),
              "cut" if cfg["like"].get("cut") is not None else "nocut")
    if cfg.get("periodic"):
        ctx.label("periodic")
    if cfg.get("reflective"):
        ctx.label("reflective")


def accepted_something(res):
    """At least one SMC iteration happened and at least one new point was recorded after warm-up."""
    b = res["beta"]
    k = int(np.sum(np.asarray(res["steps"]) >= 1))
    return len(b) > 2 and np.any(np.asarray(b) > 0) and k > 0


def bits_equal(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype == object:
        return all(_obj_eq(p, r) for p, r in zip(a.ravel(), b.ravel()))
    if a.dtype.kind == "f" or a.dtype.kind == "c":
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))
    return bool(np.all(a == b))


def _obj_eq(p, r):
    if isinstance(p, np.ndarray) or isinstance(r, np.ndarray):
        return bits_equal(p, r)
    return p == r or (p != p and r != r)


KEYS = ["u", "x", "logdetj", "logl", "logp", "blobs", "logz", "calls", "steps", "efficiency", "ess", "accept", "beta", "iter", "logw"]


def diff_results(ra, rb, keys=KEYS, have_blobs=True):
    for k in keys:
        if k == "blobs" and not have_blobs:
            continue
        if not bits_equal(ra[k], rb[k]):
            a, b = np.asarray(ra[k]), np.asarray(rb[k])
            if a.shape != b.shape:
                return f"{k}: shapes {a.shape} and {b.shape}"
            return f"{k} differs: {_first_diff(a, b)}"
    return None


def _first_diff(a, b):
    for i in np.ndindex(a.shape[:1] if a.ndim else ()):
        if not bits_equal(a[i], b[i]):
            return f"first at {i}: {str(a[i])[:120]} != {str(b[i])[:120]}"
    return f"dtype {a.dtype} != {b.dtype}"


def results_copy(s):
    r = s.results
    return {k: copy.deepcopy(np.asarray(v)) for k, v in r.items()}


def expand_weights(w, n, law, seed):
    """A long weight vector: the given one repeated and, unless ties are asked for, jittered."""
    rng = np.random.RandomState(seed)
    w = np.resize(np.asarray(w, float), n)
    if law == "ties":
        return w
    if law == "exp":
        return w * rng.exponential(size=n)
    return w * np.exp(3.0 * rng.randn(n))


BIGW = st.tuples(st.sampled_from([333, 1000, 1001, 2500, 6000]), st.sampled_from(["ties", "exp", "lognormal"]), st.integers(0, 10 ** 6)).map(list)
