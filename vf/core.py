"""Runner for the generated-input checks.

A check module (vf/checks/cNN.py) exposes PROPERTY, SUBS (a list of Sub) and
optionally ASSUMPTIONS.  Every Sub couples a Hypothesis strategy that produces
a JSON-serialisable case with a decision function fn(case, ctx), which raises
Violation when the oracle disagrees with the code under test.
"""
import contextlib
import hashlib
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
NSHARDS = 8
HANG_S = 240          # a single case normally takes well under two seconds


class Violation(Exception):
    """The oracle disagrees with the code under test."""


class Inconclusive(Exception):
    """The case could not be decided (budget); counted, never an alarm."""


class _Hang(BaseException):
    pass


class _Stop(BaseException):
    pass


def fail(msg):
    raise Violation(msg)


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


@contextlib.contextmanager
def sut(what):
    """Run code under test on input it must accept: any exception is a violation."""
    try:
        yield
    except (Violation, Inconclusive):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:])
        raise Violation(f"{what}: raised {type(e).__name__}: {e} [{where}]") from e


class Ctx:
    """Per-case scratch: classification labels and the scratch directory."""

    def __init__(self, scratch, tier):
        self.labels = set()
        self.is_nontrivial = False
        self.scratch = scratch
        self.tier = tier
        self._n = 0

    def label(self, *names):
        self.labels.update(str(n) for n in names)

    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True

    def fresh_dir(self):
        return tempfile.mkdtemp(prefix="case_", dir=self.scratch)


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough, rule, corpus=(), shards=None):
        """quick / thorough: generated examples per shard."""
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough
        self.rule, self.corpus = rule, list(corpus)
        self.shards = shards      # restrict to the first N shards (None: all)


def canon(case):
    return json.dumps(case, sort_keys=True, default=_default)


def _default(o):
    import numpy as np
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(type(o))


def case_seed(case):
    return zlib.crc32(canon(case).encode()) & 0x7FFFFFFF


def reset_rng(case):
    import numpy as np
    import torch
    s = case_seed(case)
    np.random.seed(s)
    torch.manual_seed(s)


def run_case(sub, case, ctx):
    reset_rng(case)
    cwd = os.getcwd()
    try:
        sub.fn(case, ctx)
    except (Violation, Inconclusive, MemoryError, ImportError):
        raise
    except Exception as e:
        # Valid input made the code under test raise, or hand back something the oracle cannot even read.
        tb = traceback.extract_tb(e.__traceback__)
        in_repo = any(f.filename.startswith(REPO + "/") for f in tb)
        if type(e).__module__.startswith("hypothesis") or (isinstance(e, OSError) and not in_repo):
            raise
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-5:])
        what = "raised on valid input" if in_repo else "left a result the check cannot read"
        raise Violation(f"the code under test {what}: {type(e).__name__}: {e} [{where}]") from e
    finally:
        os.chdir(cwd)


class Result:
    def __init__(self):
        self.evaluations = 0
        self.corpus = 0
        self.inconclusive = 0
        self.skipped = 0
        self.digests = set()
        self.labels = {}
        self.samples = []
        self.violation = None     # (sub, case, message)
        self.error = None
        self.per_sub = {}


def _worker(mod, shard, tier, seed, scratch, out, deadline, shrink_s):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    res = Result()
    signal.signal(signal.SIGALRM, _raise_hang)
    try:
        for sub in mod.SUBS:
            if sub.shards is not None and shard >= sub.shards:
                continue
            best = {}

            def body(case, sub=sub, best=best, corpus=False):
                now = time.time()
                if best and now - best["t0"] > shrink_s:
                    raise _Stop()
                if not best and now > deadline:
                    res.skipped += 1
                    return
                ctx = Ctx(scratch, tier)
                res.evaluations += 1
                res.corpus += bool(corpus)
                res.per_sub[sub.name] = res.per_sub.get(sub.name, 0) + 1
                try:
                    signal.setitimer(signal.ITIMER_REAL, getattr(mod, "HANG_S", HANG_S))
                    run_case(sub, case, ctx)
                except Inconclusive as e:
                    res.inconclusive += 1
                    res.labels["inconclusive:" + str(e)[:60]] = res.labels.get("inconclusive:" + str(e)[:60], 0) + 1
                    return
                except Violation as v:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    size = len(canon(case))
                    if not best or size <= best["size"]:
                        best.update(case=case, msg=str(v), size=size)
                        best.setdefault("t0", time.time())
                    raise
                except _Hang:
                    if getattr(mod, "SLOW_CASES", False):        # long cases: running out of time decides nothing
                        res.inconclusive += 1
                        return
                    best.update(case=case, msg=f"no result within {HANG_S} s (cases of this size take about a second): the code under test does not terminate", size=0)
                    best.setdefault("t0", 0)
                    raise _Stop()
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                for l in ctx.labels:
                    k = f"{sub.name}/{l}"
                    res.labels[k] = res.labels.get(k, 0) + 1
                if ctx.is_nontrivial:
                    d = hashlib.sha1((sub.name + canon(case)).encode()).hexdigest()[:16]
                    if d not in res.digests:
                        res.digests.add(d)
                        if sum(1 for s in res.samples if s["check"] == sub.name) < 1:
                            res.samples.append(dict(check=sub.name, case=case, labels=sorted(ctx.labels)))
                if case and isinstance(case, dict):
                    for n in os.listdir(scratch):
                        if n.startswith("case_"):
                            shutil.rmtree(os.path.join(scratch, n), ignore_errors=True)

            try:
                for i, c in enumerate(sub.corpus):
                    if i % NSHARDS == shard:
                        body(c, corpus=True)
                n = sub.quick if tier == "quick" else sub.thorough
                if n:
                    h = int(hashlib.sha1(f"{seed}:{mod.PROPERTY}:{sub.name}:{shard}".encode()).hexdigest()[:12], 16)
                    todo = [shard > 0]           # every search starts with the simplest case: only the first worker runs it

                    def entry(case):
                        if todo[0]:
                            todo[0] = False
                            return
                        body(case)
                    test = given(sub.strategy)(entry)
                    test = settings(max_examples=n + todo[0], deadline=None, database=None,
                                    phases=[Phase.generate, Phase.shrink],
                                    suppress_health_check=list(HealthCheck),
                                    report_multiple_bugs=False, print_blob=False)(test)
                    test = hypothesis.seed(h)(test)
                    test()
            except _Stop:
                pass
            except Violation:
                pass
            except Exception:
                if not best:
                    raise
            if best:
                res.violation = (sub.name, best["case"], best["msg"])
                break
    except BaseException:
        res.error = traceback.format_exc()
    with open(out + ".tmp", "wb") as f:
        pickle.dump(res, f)
    os.rename(out + ".tmp", out)


def _raise_hang(signum, frame):
    raise _Hang()


def check_repo():
    import pocomc
    f = os.path.abspath(pocomc.__file__)
    if not f.startswith(REPO + "/"):
        raise RuntimeError(f"pocomc comes from {f}, not {REPO}")


def known_findings(prop):
    """Entries of known_findings.txt that suppress a specific failing sub/case."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known:") and f"property={prop} " in line:
                out.append(line.strip())
    return out


def main(mod, tier, seed):
    t0 = time.time()
    check_repo()
    prop = mod.PROPERTY
    scratch = tempfile.mkdtemp(prefix="vf_" + prop + "_")
    budget = float(os.environ.get("VF_BUDGET_S", 420 if tier == "quick" else 3000))
    shrink_s = float(os.environ.get("VF_SHRINK_S", 40 if tier == "quick" else 240))
    deadline = t0 + budget
    procs = {}
    try:
        for k in range(NSHARDS):
            d = os.path.join(scratch, f"s{k}")
            os.mkdir(d)
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                    os.chdir(d)
                    fd = os.open(os.path.join(scratch, f"log{k}"), os.O_WRONLY | os.O_CREAT)
                    dn = os.open(os.devnull, os.O_RDWR)
                    os.dup2(dn, 0); os.dup2(dn, 1); os.dup2(dn, 2)
                    os.close(fd)
                    _worker(mod, k, tier, seed, d, os.path.join(scratch, f"r{k}"), deadline, shrink_s)
                except BaseException:
                    code = 3
                finally:
                    os._exit(code)
            procs[pid] = k
        results, violated = {}, False
        while procs:
            pid, status = os.wait()
            if pid not in procs:
                continue
            k = procs.pop(pid)
            out = os.path.join(scratch, f"r{k}")
            if os.path.exists(out):
                results[k] = pickle.load(open(out, "rb"))
            else:
                r = Result(); r.error = f"worker {k} ended with status {status} and no result"
                results[k] = r
            _kill_group(pid)
            if results[k].violation and not violated:
                violated = True
                for p in list(procs):
                    _kill_group(p)
                for p in list(procs):
                    try:
                        os.waitpid(p, 0)
                    except ChildProcessError:
                        pass
                    procs.pop(p)
    finally:
        for p in list(procs):
            _kill_group(p)
        shutil.rmtree(scratch, ignore_errors=True)

    viol = [r.violation for r in results.values() if r.violation]
    errs = [r.error for r in results.values() if r.error]
    ev = dict(
        property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
        coverage=dict(
            evaluations=sum(r.evaluations for r in results.values()),
            distinct_nontrivial=len(set().union(*[r.digests for r in results.values()])) if results else 0,
            rule="; ".join(f"{s.name}: {s.rule}" for s in mod.SUBS),
            samples=_samples(results),
            per_check={s.name: sum(r.per_sub.get(s.name, 0) for r in results.values()) for s in mod.SUBS},
            classes=_merge(results),
            regression_cases=sum(r.corpus for r in results.values()),
            inconclusive=sum(r.inconclusive for r in results.values()),
            skipped_for_time=sum(r.skipped for r in results.values()),
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2),
        violations=len(viol),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=_default)
    for line in known_findings(prop):
        print("KNOWN-FINDING: " + line[len("known:"):].strip())
    if viol:
        sub, case, msg = min(viol, key=lambda v: len(canon(v[1])))
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        name = f"{prop}-{sub}-{hashlib.sha1(canon(case).encode()).hexdigest()[:10]}.json"
        path = os.path.join(VERIF, "replays", name)
        with open(path, "w") as f:
            json.dump(dict(property=prop, check=sub, case=case, message=msg), f, indent=1, default=_default)
        print(f"[{prop}/{sub}] {msg[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errs:
        sys.stderr.write(errs[0])
        print(f"ERROR: the check itself failed ({len(errs)} shard(s))")
        return 2
    c = ev["coverage"]
    print(f"OK property={prop} tier={tier} seed={seed} evaluations={c['evaluations']} "
          f"nontrivial={c['distinct_nontrivial']} inconclusive={c['inconclusive']} wall={ev['wall_s']}s")
    return 0


def _kill_group(pid):
    for f in (os.killpg, os.kill):
        try:
            f(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


def _samples(results):
    out, seen = [], {}
    for r in results.values():
        for s in r.samples:
            if seen.get(s["check"], 0) < 2:
                seen[s["check"]] = seen.get(s["check"], 0) + 1
                t = json.loads(json.dumps(s, default=_default))
                out.append(t)
    return out[:12]


def _merge(results):
    out = {}
    for r in results.values():
        for k, v in r.labels.items():
            out[k] = out.get(k, 0) + v
    return dict(sorted(out.items()))
