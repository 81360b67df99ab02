"""C11: results do not depend on how the likelihood is executed."""
import copy
import random
import time

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, Violation, require, sut
from .. import models as md
from .c02 import sparse
from .c19 import FakeComm, fake_mpi

PROPERTY = "C11"
ASSUMPTIONS = ["The MPI pool runs over a simulated communicator (mpi4py is not installed); workers execute pickled copies of the tasks."]


def num(a):
    try:
        return 0.0 if a is None else float(np.sum(np.asarray(a, dtype=float)))
    except (TypeError, ValueError):
        return 0.0


def same_arg(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and md.bits_equal(a, b)
    return a == b


def real_arg(v):
    """Case values are JSON; some stand for other kinds of argument."""
    if isinstance(v, dict) and "array" in v:
        return np.array(v["array"])
    if isinstance(v, dict) and "tuple" in v:
        return tuple(v["tuple"])
    return v


class ArgLike(md.Like):
    """A likelihood whose value depends on the extra arguments it is handed."""

    delay = False
    many = False
    expect = ((), {})

    def check_arguments(self, args, kwargs):
        ea, ek = self.expect
        ok = len(args) == len(ea) and all(same_arg(a, b) for a, b in zip(args, ea))
        ok = ok and sorted(kwargs) == sorted(ek) and all(same_arg(kwargs[k], ek[k]) for k in ek)
        if not ok:
            raise Violation(f"likelihood called with args={args!r} kwargs={kwargs!r} instead of {ea!r} {ek!r}")

    def __call__(self, x, *args, **kwargs):
        x = np.asarray(x)
        self.check_arguments(args, kwargs)
        if x.ndim != (2 if self.many else 1):
            raise Violation(f"{'vectorized ' if self.many else ''}likelihood called with an array of shape {x.shape}")
        if x.ndim == 2:
            md.COUNT[self.uid] += len(x)
            self.check_budget()
            return np.array([self.value(r) + self.extra(r, args, kwargs) for r in x], dtype=float)
        md.COUNT[self.uid] += 1
        self.check_budget()
        if self.delay and int(abs(x[0]) * 1e6) % 7 == 0:       # some points take longer than others
            time.sleep(0.003)
        v = self.value(x) + self.extra(x, args, kwargs)
        return v if self.blob == "none" else (v,) + self.blob_of(x)

    def extra(self, r, args, kwargs):
        e = 0.0
        for i, a in enumerate(args):
            e += (i + 1) * num(a) * 0.01
        for k in sorted(kwargs):
            e += len(k) * num(kwargs[k]) * 0.01
        return e - 0.01 * len(args)


class OrderPool:
    """User pool: evaluates the tasks in a generated order, returns results in task order as a list, iterator or generator."""

    def __init__(self, seed, form):
        self.rng, self.form, self.tasks = random.Random(seed), form, 0

    def map(self, f, xs):
        xs = [np.array(x, copy=True) for x in xs]
        self.tasks += len(xs)
        order = list(range(len(xs)))
        self.rng.shuffle(order)
        out = [None] * len(xs)
        for i in order:
            out[i] = f(xs[i])
        if self.form == "iter":
            return iter(out)
        if self.form == "gen":
            return (o for o in out)
        if self.form == "tuple":
            return tuple(out)
        return out


def outcome(case, mode, ctx):
    cfg = dict(case["cfg"])
    m, s_ = md.prior_scale(cfg["prior"])
    like = ArgLike(cfg["like"], m, s_, cfg["blob"], record=False)
    like.many = mode == "vectorize"
    prior = md.make_prior(cfg)
    args = None if case["args"] is None else [real_arg(a) for a in case["args"]]
    if args is not None and case.get("args_form") == "tuple":
        args = tuple(args)
    kwargs = None if case["kwargs"] is None else {k: real_arg(v) for k, v in case["kwargs"].items()}
    like.expect = (tuple(copy.deepcopy(args) or ()), copy.deepcopy(kwargs) or {})
    over = dict(likelihood_args=args, likelihood_kwargs=kwargs, vectorize=mode == "vectorize")
    pool = close = None
    if mode == "order":
        pool = OrderPool(case["order"], case["form"])
    elif mode == "mpi":
        import pocomc.parallel as par
        comm = FakeComm(case["workers"], random.Random(case["order"]))
        with fake_mpi(par, comm):
            pool = par.MPIPool()
    elif mode == "int":
        pool = case["workers"]
        like.delay = True
    if pool is not None:
        over["pool"] = pool
    s, prior, like = md.build(cfg, prior=prior, like=like, **over)
    try:
        if mode == "mpi":
            with fake_mpi(par, comm):
                md.run_sut(s, cfg, prior, like, f"run ({mode})")
        else:
            md.run_sut(s, cfg, prior, like, f"run ({mode})")
        if mode == "order":
            require(pool.tasks > 0, lambda: f"the pool that was given received no evaluation ({s.calls} calls were made)")
        if mode == "int" and case["workers"] > 1:
            require(like.count < s.calls, lambda: f"pool={case['workers']}: all {s.calls} evaluations were made in the calling process")
        blobs = cfg["blob"] != "none"
        with sut("posterior"):
            p = s.posterior(return_blobs=blobs)
        return dict(res=md.results_copy(s), post=[np.array(a, copy=True) for a in p], ev=s.evidence(), calls=int(s.calls), count=like.count)
    finally:
        if mode == "int":
            try:
                s.pool.terminate()
                s.pool.join()
            except Exception:
                pass


def fn(case, ctx):
    cfg = case["cfg"]
    blobs = cfg["blob"] != "none"
    md.drop_logs()
    A = outcome(case, "serial", ctx)
    require(A["calls"] == A["count"], "call count differs from evaluations made")
    for mode in case["modes"]:
        if mode == "vectorize" and blobs:
            continue
        B = outcome(case, mode, ctx)
        what = f"{mode} run differs from the serial run"
        msg = md.diff_results(A["res"], B["res"], have_blobs=blobs)
        require(msg is None, lambda: f"{what}: {msg}")
        for a, b in zip(A["post"], B["post"]):
            require(md.bits_equal(a, b), f"{what}: posterior")
        require(repr(A["ev"]) == repr(B["ev"]), lambda: f"{what}: evidence {A['ev']} {B['ev']}")
        require(A["calls"] == B["calls"], lambda: f"{what}: calls {A['calls']} {B['calls']}")
        ctx.label("mode:" + mode)
    md.label_cfg(ctx, cfg)
    ctx.label("args=%d" % (len(case["args"]) if case["args"] is not None else -1), "kwargs=%d" % (len(case["kwargs"]) if case["kwargs"] is not None else -1))
    ctx.nontrivial(np.sum(A["res"]["beta"] > 0) >= 2)


NUM = st.lists(md.q(-2, 2), min_size=1, max_size=3)
VAL = st.one_of(md.q(-3, 3), NUM, NUM.map(lambda v: {"array": v}), NUM.map(lambda v: {"tuple": v}),
                st.sampled_from([None, True, "text", 0, 7, {"key": 1.5}, [], {}]))
NAMES = st.sampled_from(["a", "bb", "ccc", "n", "f", "y", "args", "kwargs"])


@st.composite
def cases(draw, modes, **kw):
    c = draw(md.configs(modes=("serial",), max_dim=3, **kw))
    c["n_total"] = draw(st.sampled_from([32, 64]))
    return dict(cfg=c, modes=draw(modes), order=draw(st.integers(0, 9999)), workers=draw(st.integers(1, 4)),
                form=draw(st.sampled_from(["list", "iter", "gen", "tuple"])),
                args=draw(st.one_of(st.none(), st.lists(VAL, max_size=4), st.lists(VAL, min_size=1, max_size=4))),
                args_form=draw(st.sampled_from(["list", "tuple"])),
                kwargs=draw(st.one_of(st.none(), st.dictionaries(NAMES, VAL, max_size=4), st.dictionaries(NAMES, VAL, min_size=1, max_size=4))))


@st.composite
def sparse_cases(draw, modes):
    """Few particles in a small support: batches of one point and of none reach the likelihood."""
    c = draw(cases(modes, precondition=False))
    c["cfg"] = dict(draw(sparse(precondition=False, modes=("serial",))), n_total=48)
    return c


ALL = st.just(["vectorize", "order", "mpi"])
INT = st.just(["int"])
R = "at least two sampling iterations at positive temperature were compared"
SUBS = [Sub("nopre", cases(ALL, precondition=False), fn, 6, 500, R),
        Sub("sparse", sparse_cases(ALL), fn, 3, 150, R),
        Sub("pre", cases(ALL, precondition=True), fn, 3, 200, R),
        Sub("process-pool", cases(INT), fn, 2, 80, R, shards=4)]
