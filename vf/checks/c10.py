"""C10: checkpoint writes are atomic and durable (generated crash points and injected I/O failures in forked children)."""
import errno
import os
import pickle
import resource
import signal
import sys
import traceback

import numpy as np
from hypothesis import strategies as st

from ..core import Inconclusive, Sub, fail, require, sut
from .. import models as md

PROPERTY = "C10"
LEVEL = "fault_enumeration"
ASSUMPTIONS = ["The process is killed (no power loss): durability is judged by fsync covering every byte before the name appears.",
               "Checkpoint names do not end in '.temp' (the suffix the package reserves for files being written)."]

PKG = os.sep + "pocomc" + os.sep
FAIL_PICKLE = [False]
DIE_AT = [0]               # set in the child only


class Fussy(md.Like):
    """A likelihood whose pickling can be made to fail, after part of the state has been written."""

    def __getstate__(self):
        if FAIL_PICKLE[0]:
            raise RuntimeError("cannot be pickled now")
        return self.__dict__.copy()

    def check_budget(self):
        if DIE_AT[0] and md.COUNT[self.uid] > DIE_AT[0]:
            os._exit(77)
        super().check_budget()


def make_like(cfg):
    m, s = md.prior_scale(cfg["prior"])
    return Fussy(cfg["like"], m, s, cfg.get("blob", "none"), record=False)


def state_of(s):
    r = md.results_copy(s)
    return dict(res=r, calls=int(s.calls), t=int(s.t), n_eff=int(s.n_effective), ev=s.evidence())


def same(a, b, blobs):
    return (md.diff_results(a["res"], b["res"], have_blobs=blobs) is None and
            all(a[k] == b[k] for k in ("calls", "t", "n_eff")) and repr(a["ev"]) == repr(b["ev"]))


def load(cfg, path, d):
    s, _, _ = md.build(dict(cfg, seed=cfg["seed"] + 7), like=make_like(cfg), output_dir=d)
    s.load_state(path)
    return s


# --------------------------------------------------------------------------- faults, installed inside a forked child

class Events:
    """Counts file-system events of the child (audit events on the scratch directory, fsync) and acts on one of them."""

    NAMES = ("open", "os.rename", "os.remove", "os.link", "os.symlink", "os.truncate", "os.mkdir", "shutil.move", "shutil.copyfile")

    def __init__(self, base, act=None):
        self.base, self.act, self.n, self.on = base, act, 0, True
        self.fsynced = {}                 # inode -> size covered by fsync
        self.renames = []                 # (dst, inode, size, covered)
        real = {k: getattr(os, k) for k in ("fsync", "fdatasync")}

        def wrap(k):
            def f(fd):
                fdn = fd if isinstance(fd, int) else fd.fileno()
                self.event("fsync")
                real[k](fdn)
                s = os.fstat(fdn)
                self.fsynced[s.st_ino] = s.st_size
                self.event("after fsync")
            return f
        for k in real:
            setattr(os, k, wrap(k))
        sys.addaudithook(self.audit)

    def audit(self, name, args):
        if not self.on or name not in self.NAMES:
            return
        paths = [os.fsdecode(os.fspath(a)) for a in args[:2] if isinstance(a, (str, bytes, os.PathLike))]
        if not any(p.startswith(self.base) for p in paths):
            return
        if name == "open" and not (isinstance(args[1], str) and any(c in args[1] for c in "wax+") or
                                   args[1] is None and args[2] & (os.O_WRONLY | os.O_RDWR)):
            return
        if name in ("os.rename", "os.link") and not all(p.startswith(self.base) for p in paths):
            raise OSError(errno.EXDEV, "output directory is on its own filesystem")
        if name in ("os.rename", "os.link"):
            try:
                s = os.stat(paths[0])
                self.renames.append((paths[1], s.st_ino, s.st_size, self.fsynced.get(s.st_ino)))
            except OSError:
                pass
        self.event(name)

    def event(self, name):
        self.n += 1
        if self.act is not None and self.on:
            self.act(self.n, name)


def install(fault, base, full):
    """Install the fault; returns (events, undo)."""
    k, a = fault[0], fault[1]
    if k == "exit-event":
        def act(n, name):
            if n == a:
                os._exit(77)
        return Events(base, act), None
    if k == "fail-event":
        def act(n, name):
            if n == a and name != "after fsync":
                raise OSError(errno.EIO, "injected " + name)
        return Events(base, act), None
    if k in ("short-write", "short-kill"):
        off = int(round(a / 1000.0 * full))
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL if k == "short-kill" else signal.SIG_IGN)
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (off, hard))
        return None, lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    if k == "exit-line":
        cnt = [0]

        def tracer(frame, event, arg):
            if PKG not in frame.f_code.co_filename:
                return None
            if event == "line":
                cnt[0] += 1
                if cnt[0] == a:
                    os._exit(77)
            return tracer
        sys.settrace(tracer)
        return None, lambda: sys.settrace(None)
    if k == "pickle":
        FAIL_PICKLE[0] = True

        def undo():
            FAIL_PICKLE[0] = False
        return None, undo
    if k == "none":
        return Events(base), None
    raise ValueError(k)


def in_child(f, base):
    """Run f in a forked child; returns (exit status, its result or None)."""
    out = os.path.join(base, "child.out")
    if os.path.exists(out):
        os.remove(out)
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            try:
                r = ("ok", f())
            except BaseException:
                r = ("error", traceback.format_exc())
            sys.settrace(None)
            with open(out + ".w", "wb") as h:
                pickle.dump(r, h)
            os.rename(out + ".w", out)
        finally:
            os._exit(0)
    _, st_ = os.waitpid(pid, 0)
    if os.path.exists(out):
        return st_, pickle.load(open(out, "rb"))
    return st_, None


def fn_save(case, ctx):
    cfg = case["cfg"]
    blobs = cfg["blob"] != "none"
    md.drop_logs()
    FAIL_PICKLE[0] = False
    base = os.path.realpath(ctx.fresh_dir())
    d = os.path.join(base, "states")
    os.mkdir(d)
    path = os.path.join(d, case["name"])
    s, prior, like = md.build(cfg, like=make_like(cfg), output_dir=d)
    if case["old"]:
        md.run_sut(s, cfg, prior, like)
        with sut("save_state"):
            s.save_state(path)
        A = state_of(s)
        with sut("load_state"):
            require(same(state_of(load(cfg, path, d)), A, blobs), "saved state does not load back")
        md.run_sut(s, cfg, prior, like, n_total=cfg["n_total"] + 30)
    else:
        A = None
        md.run_sut(s, cfg, prior, like)
    B = state_of(s)
    probe = os.path.join(base, "probe.state")
    s.save_state(probe)
    full = os.path.getsize(probe)
    old_bytes = open(path, "rb").read() if case["old"] else None

    for fault in case["faults"]:
        # restore the situation before the save
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        if old_bytes is not None:
            with open(path, "wb") as h:
                h.write(old_bytes)

        def child():
            ev, undo = install(fault, d, full)
            err = None
            try:
                s.save_state(path)
                if fault[0] == "none":
                    for k in range(1, 10):                # other sizes: what is left in a buffer at the end varies
                        like.pad = "x" * (7900 * k)
                        s.save_state(path)
            except Exception as e:
                err = f"{type(e).__name__}: {e}"
            if undo:
                undo()
            if ev is not None:
                ev.on = False
            raw = open(path, "rb").read() if os.path.exists(path) else None
            rep = dict(err=err, mid=raw, n=ev.n if ev else None, renames=ev.renames if ev else None,
                       fsynced=ev.fsynced if ev else None)
            if err is not None:
                # the sampler must be able to go on and save again
                s.save_state(path)
                rep["again"] = open(path, "rb").read()
                md.run(s, cfg, n_total=cfg["n_total"] + 40)
                rep["grown"] = len(s.results["beta"])
            return rep

        status, rep = in_child(child, base)
        what = f"fault {fault} while saving {'over a previous checkpoint' if case['old'] else 'a first checkpoint'}"
        if rep is not None and rep[0] == "error":
            fail(f"{what}: the sampler could not go on after the failed save: {rep[1][-600:]}")

        def judge(raw, when):
            if raw is None:
                require(A is None, f"{what}: {when}, the previous checkpoint is gone")
                return "none"
            p = os.path.join(base, "judge.state")
            with open(p, "wb") as h:
                h.write(raw)
            try:
                got = state_of(load(cfg, p, d))
            except Exception as e:
                fail(f"{what}: {when}, the checkpoint does not load: {type(e).__name__}: {e}")
            if same(got, B, blobs):
                return "new"
            require(A is not None and same(got, A, blobs), f"{what}: {when}, the checkpoint holds neither the previous nor the new state")
            return "old"

        if rep is None:
            require(fault[0] in ("exit-event", "short-kill", "exit-line"), f"{what}: the process died (status {status})")
            raw = open(path, "rb").read() if os.path.exists(path) else None
            ctx.label(f"{fault[0]}: died, {judge(raw, 'after the crash')}")
            ctx.nontrivial()
            # a new process can still save here
            try:
                s.save_state(path)
            except Exception as e:
                fail(f"{what}: a later save fails: {type(e).__name__}: {e}")
            require(judge(open(path, "rb").read(), "after a later save") == "new", f"{what}: a later save leaves the old state")
            continue
        rep = rep[1]
        state = judge(rep["mid"], "after the save returned" if rep["err"] is None else "after the failed save")
        if rep["err"] is None:
            require(state == "new", f"{what}: save_state returned without error but the checkpoint is the {state} one")
            ctx.label(fault[0] + ": completed")
            if fault[0] == "none":
                hits = [r for r in rep["renames"] if os.path.realpath(r[0]) == path]
                if hits:
                    require(len(hits) == 10, lambda: f"harness: {len(hits)} of 10 saves put a checkpoint in place")
                for _, ino, size, cov in hits:
                    require(cov is not None, f"{what}: the new checkpoint is put in place without fsync")
                    require(cov == size, lambda: f"{what}: only {cov} of {size} bytes were flushed to disk before the checkpoint was put in place")
                if not hits:
                    st_ = os.stat(path)
                    require(rep["fsynced"].get(st_.st_ino) == st_.st_size, f"{what}: checkpoint bytes not flushed to disk")
                ctx.nontrivial()
        else:
            ctx.label(f"{fault[0]}: raised, {state}")
            ctx.nontrivial()
            require(judge(rep["again"], "after saving again") == "new", f"{what}: saving again after the failure leaves the old state")
            require(rep["grown"] >= len(B["res"]["beta"]), f"{what}: history lost after a failed save")


def fn_run(case, ctx):
    """The whole process dies somewhere in a run that writes checkpoints."""
    cfg = case["cfg"]
    blobs = cfg["blob"] != "none"
    md.drop_logs()
    FAIL_PICKLE[0] = False
    base = os.path.realpath(ctx.fresh_dir())
    d = os.path.join(base, "states")

    def child():
        s, prior, like = md.build(cfg, like=make_like(cfg), output_dir=d)
        if case["kind"] == "event":
            install(["exit-event", case["n"]], d, 0)
        else:
            DIE_AT[0] = case["n"] * 10
        md.run(s, cfg, save_every=case["every"])
        return len(s.results["beta"])

    status, rep = in_child(child, base)
    if rep is not None and rep[0] == "error":
        raise Inconclusive("run failed for another reason") if cfg["like"]["cut"] is not None else AssertionError(rep[1])
    files = sorted(f for f in os.listdir(d) if f.endswith(".state")) if os.path.isdir(d) else []
    best = None
    for f in files:
        p = os.path.join(d, f)
        try:
            s = load(cfg, p, d)
            r = s.results
        except Exception as e:
            fail(f"process killed during a run: {f} does not load: {type(e).__name__}: {e}")
        t = f[len("pmc_"):-len(".state")]
        T = len(r["beta"])
        require(t == "final" or int(t) == T, f"{f} holds {T} iterations")
        if best is None or T > best[0]:
            best = (T, p)
    if best:
        s, prior, like = md.build(dict(cfg, seed=cfg["seed"] + 3), like=make_like(cfg), output_dir=d)
        with sut("resume after a crash"):
            md.run(s, cfg, resume_state_path=best[1], save_every=case["every"])
        require(len(s.results["beta"]) >= best[0], "history shrank on resume")
        require(abs(s.results["beta"][-1] - 1) < 1e-4, "resumed run does not finish")
        require(os.path.exists(os.path.join(d, "pmc_final.state")), "no final checkpoint after resuming")
    ctx.label(case["kind"], "died" if rep is None else "finished", "checkpoints=%d" % min(len(files), 9))
    ctx.nontrivial(rep is None and bool(files))


FAULTS = st.one_of(
    st.tuples(st.just("exit-event"), st.integers(1, 6)),
    st.tuples(st.just("fail-event"), st.integers(1, 5)),
    st.tuples(st.just("short-write"), st.one_of(st.integers(0, 999), st.sampled_from([0, 999]))),
    st.tuples(st.just("short-kill"), st.one_of(st.integers(0, 999), st.sampled_from([0, 999]))),
    st.tuples(st.just("exit-line"), st.integers(1, 25)),
    st.tuples(st.just("pickle"), st.just(0)),
    st.tuples(st.just("none"), st.just(0))).map(list)


@st.composite
def small(draw):
    c = draw(md.configs(precondition=draw(st.sampled_from([False, False, True])), modes=("serial",), max_dim=2, boundary=False,
                        cut=False, evidence=False))
    c["n_total"] = 32
    c["n_active"], c["n_effective"] = 8, 16
    return c


@st.composite
def save_cases(draw):
    return dict(cfg=draw(small()), old=draw(st.sampled_from([True, True, False])),
                name=draw(st.sampled_from(["pmc_1.state", "state", "a.b.state", "x.pkl"])),
                faults=draw(st.lists(FAULTS, min_size=4, max_size=8)) + [["none", 0]])


@st.composite
def run_cases(draw):
    return dict(cfg=draw(small()), every=draw(st.sampled_from([1, 1, 2])), kind=draw(st.sampled_from(["event", "like"])),
                n=draw(st.integers(1, 30)))


SUBS = [Sub("save", save_cases(), fn_save, 9, 250, "the process died or the save failed under the injected fault, or flushing was observed on a completed save"),
        Sub("run", run_cases(), fn_run, 8, 250, "the process died after at least one checkpoint had been written")]
