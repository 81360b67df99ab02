"""C19: the MPI pool over a simulated communicator with generated completion orders."""
import contextlib
import pickle
import random
import sys
import threading
import types

import dill
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, fail, require, sut
from .. import models as md

PROPERTY = "C19"
ASSUMPTIONS = ["mpi4py is not installed: the communicator is simulated (eager sends, synchronous ssend, matching by source and tag, per-pair ordering), with payloads pickled as MPI would."]

ANY = -1


class Status:
    def __init__(self):
        self.source = None
        self.tag = None

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class Deadlock(Exception):
    pass


class FakeComm:
    """Deterministic simulation: the master runs; a worker's answer becomes available at a generated moment."""

    def __init__(self, n_workers, rng, delay=3):
        self.size = n_workers + 1
        self.rng, self.delay = rng, delay
        self.inbox = {w: [] for w in range(1, n_workers + 1)}   # tasks waiting at a worker
        self.ready = []                                         # (source, tag, payload): answers that can be received
        self.quit = {w: 0 for w in range(1, n_workers + 1)}
        self.ran = []                                           # (worker, tag) in order of execution
        self.sent = []
        self.busy = {}
        self.overlap = None
        self.spins = 0
        self.codec = lambda: dill

    def Get_rank(self):
        return 0

    def Get_size(self):
        return self.size

    rank = property(Get_rank)

    def _check(self, dest, tag):
        if dest not in self.inbox:
            raise ValueError(f"invalid rank {dest}")
        if tag < 0:
            raise ValueError(f"invalid tag {tag}")

    def send(self, obj, dest, tag=0):
        self._check(dest, tag)
        if obj is None:
            self.quit[dest] += 1
            return
        if dest in self.busy:
            self.overlap = f"worker {dest} was given task {tag} while still busy with task {self.busy[dest]}"
        self.busy[dest] = tag
        self.sent.append((dest, tag))
        self.inbox[dest].append((tag, self.codec().dumps(obj)))
        self.spins = 0

    ssend = isend = send

    def _work(self, w):
        tag, payload = self.inbox[w].pop(0)
        func, arg = self.codec().loads(payload)
        self.ran.append((w, tag))
        self.ready.append((w, tag, self.codec().dumps(func(arg))))

    def _step(self, force=False):
        """Let some workers finish."""
        waiting = [w for w in self.inbox if self.inbox[w]]
        if not waiting:
            return
        k = self.rng.randint(0, min(self.delay, len(waiting)))
        if (force or self.spins > 40) and not self.ready:      # fair: somebody finishes eventually
            k = max(k, 1)
        self.rng.shuffle(waiting)
        for w in waiting[:k]:
            self._work(w)

    def _match(self, source, tag):
        # per source, answers arrive in order
        seen, out = set(), []
        for i, (w, t, _) in enumerate(self.ready):
            if (source == ANY or w == source) and (tag == ANY or t == tag) and w not in seen:
                out.append(i)
            seen.add(w)
        return out

    def Iprobe(self, source=ANY, tag=ANY, status=None):
        self._step()
        self.spins += 1
        if self.spins > 20000:
            raise Deadlock("master polls for ever")
        return bool(self._match(source, tag))

    iprobe = Iprobe

    def Probe(self, source=ANY, tag=ANY, status=None):
        for _ in range(1000):
            self._step(force=True)
            m = self._match(source, tag)
            if m:
                return True
            if not any(self.inbox.values()):
                break
        raise Deadlock("master waits for an answer nobody will send")

    probe = Probe

    def recv(self, source=ANY, tag=ANY, status=None):
        self.Probe(source, tag)
        i = self.rng.choice(self._match(source, tag))
        w, t, payload = self.ready.pop(i)
        if self.busy.get(w) == t:
            del self.busy[w]
        if status is not None:
            status.source, status.tag = w, t
        self.spins = 0
        return self.codec().loads(payload)


class ThreadComm:
    """Threaded communicator: real worker loops, one mailbox per rank."""

    def __init__(self, size, sleeps):
        self.size, self.sleeps = size, sleeps
        self.cv = threading.Condition()
        self.box = {r: [] for r in range(size)}

    def at(self, rank):
        c = types.SimpleNamespace(size=self.size)
        c.Get_rank, c.Get_size, c.rank = (lambda: rank), (lambda: self.size), rank

        def send(obj, dest, tag=0):
            if not 0 <= dest < self.size or tag < 0:
                raise ValueError("invalid rank or tag")
            with self.cv:
                item = [rank, tag, pickle.dumps(obj), False]
                self.box[dest].append(item)
                self.cv.notify_all()
            return item

        def ssend(obj, dest, tag=0):
            item = send(obj, dest, tag)
            with self.cv:
                if not self.cv.wait_for(lambda: item[3], timeout=20):
                    raise Deadlock("ssend")

        def find(source, tag):
            for m in self.box[rank]:
                if (source == ANY or m[0] == source) and (tag == ANY or m[1] == tag):
                    return m

        def Iprobe(source=ANY, tag=ANY, status=None):
            with self.cv:
                if not find(source, tag):
                    self.cv.wait(0.0002)
                return find(source, tag) is not None

        def Probe(source=ANY, tag=ANY, status=None):
            with self.cv:
                if not self.cv.wait_for(lambda: find(source, tag), timeout=20):
                    raise Deadlock("Probe")
                return True

        def recv(source=ANY, tag=ANY, status=None):
            with self.cv:
                if not self.cv.wait_for(lambda: find(source, tag), timeout=20):
                    raise Deadlock("recv")
                m = find(source, tag)
                self.box[rank].remove(m)
                m[3] = True
                self.cv.notify_all()
            if status is not None:
                status.source, status.tag = m[0], m[1]
            return pickle.loads(m[2])
        c.send, c.ssend, c.isend, c.Iprobe, c.iprobe, c.Probe, c.probe, c.recv = send, ssend, send, Iprobe, Iprobe, Probe, Probe, recv
        return c


class FakePickle:
    """The serializer of mpi4py: standard pickle unless it is given another one."""

    def __init__(self, dumps=None, loads=None, protocol=None):
        self._dumps, self._loads, self._protocol = dumps or pickle.dumps, loads or pickle.loads, protocol

    def dumps(self, obj):
        return self._dumps(obj, self._protocol) if self._protocol is not None else self._dumps(obj)

    def loads(self, data):
        return self._loads(data)


@contextlib.contextmanager
def fake_mpi(par, world=None, imported=True):
    """Install a stand-in mpi4py and reset the module's cached import."""
    mod = types.ModuleType("mpi4py")
    MPI = types.ModuleType("mpi4py.MPI")
    MPI.ANY_SOURCE = MPI.ANY_TAG = ANY
    MPI.Status = Status
    MPI.COMM_WORLD = world
    MPI.pickle, MPI.Pickle = FakePickle(), FakePickle
    mod.MPI = MPI
    old = {k: sys.modules.get(k) for k in ("mpi4py", "mpi4py.MPI")}
    sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = mod, MPI
    par.MPI = MPI if imported else None
    try:
        yield MPI
    finally:
        par.MPI = None
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


class Square:
    """Worker function with an identity per task; results of several kinds, including None and falsy ones."""

    def __init__(self, form):
        self.form = form

    def __call__(self, x):
        if self.form == "none":
            return None if x % 2 else x
        if self.form == "tuple":
            return (x * x, "b%d" % x)
        if self.form == "array":
            return np.full(2, float(x))
        if self.form == "zero":
            return 0 * x
        return x * x + 1


def same(a, b):
    return type(a) is type(b) and (np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b)


def make_tasks(kind, n, base):
    xs = [base + 3 * i for i in range(n)]
    if kind == "tuple":
        return tuple(xs)
    if kind == "gen":
        return (x for x in xs)
    if kind == "array":
        return np.array(xs, dtype=int)
    if kind == "range":
        return range(base, base + 3 * n, 3)
    return xs


def fn_sim(case, ctx):
    import pocomc.parallel as par
    comm = FakeComm(case["workers"], random.Random(case["order"]), case["delay"])
    with fake_mpi(par, comm, imported=False) as mpi:
        comm.codec = lambda: mpi.pickle
        with sut("MPIPool()"):
            pool = par.MPIPool(comm=comm if case["explicit"] else None, use_dill=case["dill"])
        require(pool.is_master() and not pool.is_worker(), "rank 0 is not the master")
        require(pool.size == case["workers"], f"size {pool.size} with {case['workers']} workers")
        ctxm = pool if case["with"] else contextlib.nullcontext()
        with sut("map"):
            with ctxm:
                for k, (n, kind, form) in enumerate(case["maps"]):
                    base = 100 * k
                    sq = Square(form)
                    f = (lambda x: sq(x)) if case["dill"] else sq      # a closure cannot be pickled without dill
                    comm.ran.clear()
                    comm.sent.clear()
                    out = pool.map(f, make_tasks(kind, n, base))
                    exp = [f(x) for x in make_tasks(kind, n, base)]
                    require(isinstance(out, list) and len(out) == n, lambda: f"map over {n} tasks returned {type(out).__name__} of length {len(out) if hasattr(out, '__len__') else '?'}")
                    bad = [i for i in range(n) if not same(out[i], exp[i])]
                    require(not bad, lambda: f"map {k}: result {bad[0]} is {out[bad[0]]!r}, expected {exp[bad[0]]!r}")
                    require(len(comm.ran) == n, lambda: f"map {k}: {len(comm.ran)} executions of {n} tasks")
                    require(len({t for _, t in comm.ran}) == n, f"map {k}: a task ran twice")
                    require(comm.overlap is None, lambda: comm.overlap)
                    require(not comm.ready and not any(comm.inbox.values()), f"map {k}: messages left over")
        if not case["with"]:
            with sut("close"):
                pool.close()
        require(all(q >= 1 for q in comm.quit.values()), lambda: f"after close, workers {[w for w, q in comm.quit.items() if not q]} were not told to stop")
        pool.workers = set()          # nothing left to do at interpreter exit
    ns = [m[0] for m in case["maps"]]
    ctx.label("workers=%d" % case["workers"], "maps=%d" % len(ns), *("tasks:" + m[1] for m in case["maps"]), *("results:" + m[2] for m in case["maps"]))
    ctx.nontrivial(case["workers"] >= 2 and max(ns) > case["workers"])


def fn_threads(case, ctx):
    import pocomc.parallel as par
    n = case["workers"]
    tc = ThreadComm(n + 1, None)
    ended, errors, ran = {}, [], []
    with fake_mpi(par, None):
        def worker(rank):
            try:
                par.MPIPool(comm=tc.at(rank), use_dill=False)
                ended[rank] = "returned"
            except SystemExit as e:
                ended[rank] = "exit %s" % e.code
            except BaseException as e:
                errors.append(f"worker {rank}: {type(e).__name__}: {e}")
        th = [threading.Thread(target=worker, args=(r,), daemon=True) for r in range(1, n + 1)]
        for t in th:
            t.start()
        with sut("master"):
            pool = par.MPIPool(comm=tc.at(0), use_dill=False)
            for k, (m, kind, form) in enumerate(case["maps"]):
                f = Square(form)
                out = pool.map(f, make_tasks(kind, m, 10 * k))
                require(len(out) == m and all(same(a, f(x)) for a, x in zip(out, make_tasks(kind, m, 10 * k))), f"map {k} over {m} tasks with {n} worker threads: wrong results")
            pool.close()
        for t in th:
            t.join(10)
        pool.workers = set()
        require(not errors, lambda: errors[0])
        require(not any(t.is_alive() for t in th), "a worker is still waiting after close()")
        require(all(v == "exit 0" for v in ended.values()), lambda: f"workers ended as {ended}")
    ctx.label("workers=%d" % n)
    ctx.nontrivial(n >= 2 and max(m[0] for m in case["maps"]) > n)


def fn_single(case, ctx):
    import pocomc.parallel as par
    comm = FakeComm(0, random.Random(0))
    with fake_mpi(par, comm):
        try:
            p = par.MPIPool()
        except ValueError:
            pass
        except Exception as e:
            fail(f"a pool without workers raises {type(e).__name__} instead of ValueError")
        else:
            fail("a pool without workers is accepted")
    ctx.nontrivial()


MAPS = st.lists(st.tuples(st.one_of(st.integers(0, 6), st.integers(0, 40)), st.sampled_from(["list", "tuple", "gen", "array", "range"]),
                          st.sampled_from(["sq", "none", "tuple", "array", "zero"])).map(list), min_size=1, max_size=4)

sim = st.builds(lambda **k: k, workers=st.integers(1, 7), order=st.integers(0, 10 ** 6), delay=st.sampled_from([0, 1, 2, 8]),
                explicit=st.booleans(), dill=st.booleans(), maps=MAPS).flatmap(lambda c: st.booleans().map(lambda w: {**c, "with": w}))
thr = st.builds(lambda **k: k, workers=st.integers(1, 4), maps=MAPS)
BIG = [dict(workers=w, order=1, delay=8, explicit=True, dill=False, maps=[[n, "range", "sq"]], **{"with": False}) for w, n in ((3, 33000), (7, 70000))]
R = "several workers and more tasks than workers in some map"
SUBS = [Sub("simulated", sim, fn_sim, 400, 20000, R, corpus=BIG),
        Sub("threads", thr, fn_threads, 40, 1500, R),
        Sub("single", st.just({}), fn_single, 1, 1, "always", shards=1)]
