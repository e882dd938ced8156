"""Simulator core: simulated processes, clock, faults and the schedule.

Everything a run does is a function of the world specification, the fault plan,
the schedule seed (or an explicit schedule) and the interpreter's hash seed.
Nothing in here reads a real clock or draws from an unseeded generator.
"""

from __future__ import annotations

import errno
import gc
import io
import logging
import os
import random
import sys
import threading
import traceback
import weakref
from collections import Counter

from . import vfs as vfs_mod

SIM: "Sim | None" = None  # the simulation in progress, if any

ERRNO = {k: getattr(errno, k) for k in (
    "EIO", "ENOSPC", "EDQUOT", "EACCES", "EMFILE", "ENFILE", "ENOMEM", "EROFS", "ENOENT",
    "ESTALE", "EBUSY", "EPERM", "ETXTBSY", "EINTR", "ELOOP", "EXDEV", "E2BIG", "ENOTDIR",
)}


_CLEANUP = {"rmtree", "_rmtree_unsafe", "_rmtree_safe_fd", "cleanup", "_cleanup", "_rmtree", "mkdtemp",
            "mkstemp", "_mkstemp_inner", "resetperms"}


def whence() -> str:
    """The functions of the package that lead to the present operation: what it is done for."""
    f = sys._getframe(2)
    out = []
    while f is not None:
        c = f.f_code
        if "/auditwheel/" in c.co_filename:
            if not out:
                out.append(f"{c.co_name}:{f.f_lineno}")
            elif c.co_name != out[-1].split(":")[0]:
                out.append(c.co_name)
        f = f.f_back
    return "<".join(out)


def in_cleanup() -> bool:
    """Is the running process removing (or just creating) temporary files?"""
    f = sys._getframe(2)
    while f is not None:
        c = f.f_code
        if c.co_name in _CLEANUP and c.co_filename.endswith(("shutil.py", "tempfile.py")):
            return True
        f = f.f_back
    return False


class SimKilled(BaseException):
    """The simulated process was killed at this instant (never seen by a live process)."""


class SimStuck(BaseException):
    """The simulated process exceeded its step budget."""


class HarnessError(Exception):
    """The simulator itself cannot represent what the code asked for."""


class Proc:
    """One simulated process."""

    _pid = 4000

    def __init__(self, idx, argv, *, cwd, environ, uid=1000, umask=0o022, tmpdir="/tmp", seed=0,
                 entry=None):
        self.idx = idx
        self.argv = list(argv)
        self.cwd = cwd  # vfs Node
        self.environ = dict(environ)
        self.uid = uid
        self.umask = umask
        self.tmpdir = tmpdir
        self.rng = random.Random(f"{seed}/proc/{idx}")
        self.entry = entry  # callable run inside the process; default: auditwheel main
        self.pid = 4000 + idx
        self.nops = 0
        self.sites: Counter = Counter()
        self.dead = False
        self.done = False
        self.fds: dict[int, object] = {}
        self.next_fd = 10_000
        self.labels: dict[str, str] = {}
        self.ntemp = 0
        self.stdout = io.StringIO()
        self.stderr = io.StringIO()
        self.modules: dict[str, object] = {}
        self.log_handlers: list = []
        self.log_level = logging.WARNING
        self.rand_state = None
        self.outcome: dict = {}
        self.value = None
        self.sem = threading.Semaphore(0)
        self.finalizers: list = []
        self.start_cwd_path = None

    # -- temporary names: deterministic, collision-prone on request
    def temp_names(self):
        chars = "abcdefghijklmnopqrstuvwxyz0123456789_"
        while True:
            yield "".join(self.rng.choice(chars) for _ in range(8))


class Sim:
    def __init__(self, vfs, *, seed=0, faults=(), schedule=None, max_ops=60_000, trace_limit=40_000,
                 start_ns=1_700_000_000_000_000_000, host=None, tick_ns=1000, bufsize=8192):
        self.vfs = vfs
        vfs.now = lambda: self.now_ns
        self.now_ns = start_ns
        self.start_ns = start_ns
        self.tick_ns = tick_ns
        self.bufsize = bufsize
        self.seed = seed
        self.faults = [dict(f) for f in faults]
        for f in self.faults:
            f["hits"] = 0
        self.by_site: dict[tuple, list] = {}
        for f in self.faults:
            self.by_site.setdefault((f.get("proc", 0), f["op"], f["label"]), []).append(f)
        self.schedule_in = schedule  # list of [proc, nops] segments, or None
        self.sched_rng = random.Random(f"{seed}/sched")
        self.switch_prob = 0.15
        self.schedule_out: list[list[int]] = []
        self.procs: list[Proc] = []
        self.cur: Proc | None = None
        self.seq = 0
        self.max_ops = max_ops
        self.trace: list[tuple] = []
        self.trace_limit = trace_limit
        self.fired: Counter = Counter()
        self.probes: Counter = Counter()
        self.host = host or {}
        self.invariants: list = []  # callables run after every visible mutation
        self.monitor_generation = -1
        self.violation = None
        self.tool_runs: list[tuple] = []
        self.main_sem = threading.Semaphore(0)
        self.multi = False
        self.harness_error = None
        self.in_quiet = 0

    # ------------------------------------------------------------------ events
    def label(self, path) -> str:
        """Site label of a path: absolute, with the temporary directories' names replaced."""
        if not isinstance(path, (str, int)):
            path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not isinstance(path, str):
            return str(path)
        if path[:2] == "$T":
            return path  # a label already
        p = self.cur
        if not path.startswith("/"):
            base = self.vfs.path_of(p.cwd) or "(gone)"
            path = base.rstrip("/") + "/" + path
        for real, sym in p.labels.items():
            if path.startswith(real):
                rest = path[len(real):]
                if rest == "" or rest[0] == "/":
                    return sym + rest
        return path

    def op(self, kind, path=None, may_fail=True):
        """One simulated step.  Returns the fault to apply at this step, if any.

        ``kill``/``intr`` faults with when=before are raised from here; with
        when=after the caller gets the fault back and passes it to ``after``.
        """
        p = self.cur
        if p.dead:
            raise SimKilled
        p.nops += 1
        self.seq += 1
        self.now_ns += self.tick_ns
        lab = self.label(path) if path is not None else ""
        key = (kind, lab)
        n = p.sites[key]
        p.sites[key] = n + 1
        if len(self.trace) < self.trace_limit:
            self.trace.append((p.idx, kind, lab, n, may_fail, whence()))
        if p.nops > self.max_ops:
            raise SimStuck(f"{p.nops} steps without finishing")
        if self.multi:
            self._maybe_switch()
            if p.dead:
                raise SimKilled
        if self.invariants and not self.in_quiet and self.vfs.generation != self.monitor_generation:
            self.check_invariants()
        hit = None
        for f in self.by_site.get((p.idx, kind, lab), ()):
            if f.get("nth", 0) == n or (f.get("sticky") and n >= f.get("nth", 0)):
                f["hits"] += 1
                if hit is None:
                    hit = f
        if hit is None:
            return None
        k = hit["k"]
        if hit["k"] != "short" and not hit.get("cleanup"):
            hit["cleanup"] = in_cleanup()
        self.fired[k if k != "errno" else "errno:" + hit["e"]] += 1
        if k == "jump":
            self.now_ns += hit["ns"]
            return None
        if k == "mutate":
            self.in_quiet += 1
            try:
                self.mutate(hit["what"])
            finally:
                self.in_quiet -= 1
            return None
        if k == "kill" and hit.get("when", "before") == "before":
            self.kill()
        if k == "intr" and hit.get("when", "before") == "before":
            raise KeyboardInterrupt
        if k == "mem":
            raise MemoryError("simulated allocation failure")
        if k == "errno" and hit.get("when", "before") == "before":
            raise vfs_mod.err(ERRNO[hit["e"]], path)
        return hit

    def after(self, hit, path=None):
        if hit is None:
            return
        if hit["k"] == "kill":
            self.kill()
        if hit["k"] == "intr":
            raise KeyboardInterrupt
        if hit["k"] == "errno" and hit.get("when") == "after":
            raise vfs_mod.err(ERRNO[hit["e"]], path)

    def kill(self):
        p = self.cur
        p.dead = True
        p.outcome = {"status": "killed", "at": p.nops}
        # a killed process runs no exit handlers
        self._detach_finalizers(p, run=False)
        raise SimKilled

    def mutate(self, what):
        """An outside actor changes the host (package upgrade, removed directory, ...)."""
        v = self.vfs
        act = what["act"]
        try:
            if act == "remove":
                v.unlink(what["path"], v.root, 0)
            elif act == "write":
                # atomic replacement, as a package manager does
                mode = v.get(what["path"]).mode if v.exists(what["path"]) else 0o644
                if v.exists(what["path"], follow=False):
                    v.unlink(what["path"], v.root, 0)
                v.put(what["path"], bytes.fromhex(what["hex"]), mode=mode)
            elif act == "mkdir":
                v.makedirs(what["path"], uid=what.get("uid", 0))
            else:
                raise HarnessError(f"unknown mutation {act}")
        except OSError:
            pass

    def check_invariants(self):
        self.monitor_generation = self.vfs.generation
        self.in_quiet += 1
        try:
            for inv in self.invariants:
                msg = inv(self)
                if msg and self.violation is None:
                    self.violation = {"msg": msg, "seq": self.seq, "proc": self.cur.idx if self.cur else -1}
        finally:
            self.in_quiet -= 1

    # ------------------------------------------------------------------ processes
    def spawn(self, argv, **kw) -> Proc:
        kw.setdefault("environ", {})
        kw.setdefault("cwd", self.vfs.root)
        p = Proc(len(self.procs), argv, seed=self.seed, **kw)
        self.procs.append(p)
        return p

    def _enter(self, p: Proc):
        from . import seam

        seam.swap_in(p)
        self.cur = p

    def _leave(self, p: Proc):
        from . import seam

        self.cur = None
        seam.swap_out(p)

    def _detach_finalizers(self, p: Proc, run: bool):
        mine = []
        for f in list(weakref.finalize._registry):
            if getattr(f, "_awsim_owner", None) is p or f in p.finalizers:
                mine.append(f)
        for f in mine:
            if run:
                try:
                    f()
                except Exception:  # noqa: BLE001 - an exit handler's own failure
                    pass
            else:
                f.detach()

    def _body(self, p: Proc):
        """Run the process to completion in the current thread."""
        from . import seam

        self._enter(p)
        try:
            try:
                try:
                    entry = p.entry or seam.auditwheel_main
                    p.value = entry(p)
                    rc = p.value
                    if p.entry is None:
                        rc = 0 if rc is None else int(rc)
                    else:
                        rc = 0
                    p.outcome = {"status": "exit", "code": rc}
                except SystemExit as exc:
                    code = exc.code
                    if code is None:
                        code = 0
                    elif not isinstance(code, int):
                        p.stderr.write(str(code) + "\n")
                        code = 1
                    p.outcome = {"status": "exit", "code": code}
                except SimKilled:
                    if not p.dead:
                        raise HarnessError("kill without a dead process") from None
                except SimStuck as exc:
                    p.outcome = {"status": "stuck", "msg": str(exc)}
                    p.dead = True
                    self._detach_finalizers(p, run=False)
                except HarnessError:
                    raise
                except BaseException as exc:  # noqa: BLE001 - becomes the process's outcome
                    he = exc
                    while he is not None:
                        if isinstance(he, HarnessError):
                            raise he from None
                        he = he.__context__
                    tb = traceback.extract_tb(exc.__traceback__)
                    where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb
                             if "/auditwheel/" in f.filename]
                    p.outcome = {
                        "status": "raised",
                        "code": 1,
                        "exc": type(exc).__name__,
                        "msg": str(exc)[:500],
                        "where": where[-3:],
                    }
                    exc = None
                    he = None
                if p.outcome.get("status") == "killed":
                    return
                if not p.dead:
                    # interpreter exit: pending objects die, exit handlers run
                    try:
                        if p.outcome["status"] == "raised":
                            gc.collect()
                        self._detach_finalizers(p, run=True)
                    except SimKilled:
                        pass
                    except (KeyboardInterrupt, MemoryError):
                        # delivered while the interpreter shuts down
                        p.outcome["late"] = True
                p.final_cwd = self.vfs.path_of(p.cwd)
            except HarnessError as exc:
                self.harness_error = exc
                p.dead = True
                self._detach_finalizers(p, run=False)
                p.outcome = {"status": "harness", "msg": str(exc)}
        finally:
            p.done = True
            p.dead = True if p.outcome.get("status") in ("killed", "stuck", "harness") else p.dead
            self._leave(p)

    def run(self, procs=None):
        """Run the processes: one in this thread, or several interleaved."""
        global SIM
        procs = [q for q in (procs or self.procs) if not q.done]
        if SIM is not None:
            raise HarnessError("nested simulation")
        SIM = self
        try:
            if len(procs) == 1:
                self.multi = False
                self._body(procs[0])
            else:
                self._run_multi(procs)
        finally:
            SIM = None
        if self.invariants:
            self.check_invariants()
        if self.harness_error is not None:
            raise self.harness_error

    # ------------------------------------------------------------------ interleaving
    def _run_multi(self, procs):
        self.multi = True
        self.runnable = list(procs)
        self.seg_in = [list(s) for s in self.schedule_in] if self.schedule_in is not None else None
        threads = []
        for p in procs:
            t = threading.Thread(target=self._thread, args=(p,), daemon=True)
            threads.append(t)
            t.start()
        first = self._pick(None)
        self._resume(first)
        self.main_sem.acquire()
        for t in threads:
            t.join()
        self.multi = False

    def _thread(self, p: Proc):
        p.sem.acquire()
        try:
            self._body(p)
        except BaseException as exc:  # noqa: BLE001
            self.harness_error = HarnessError(f"{type(exc).__name__}: {exc}\n{traceback.format_exc()}")
        self.runnable.remove(p)
        if self.runnable:
            self._resume(self._pick(None))
        else:
            self.main_sem.release()

    def _resume(self, p: Proc):
        if not self.schedule_out or self.schedule_out[-1][0] != p.idx:
            self.schedule_out.append([p.idx, 0])
        p.sem.release()

    def _pick(self, cur):
        """Choose who runs next; ``cur`` is None when the running process ended."""
        run = self.runnable
        if self.seg_in is not None:
            while self.seg_in:
                who, left = self.seg_in[0]
                p = next((q for q in run if q.idx == who), None)
                if p is None or left <= 0:
                    self.seg_in.pop(0)
                    continue
                self.seg_in[0][1] -= 1
                return p
            return cur if cur in run else run[0]
        if cur is None or len(run) == 1:
            return run[self.sched_rng.randrange(len(run))]
        if self.sched_rng.random() < self.switch_prob:
            others = [q for q in run if q is not cur]
            return others[self.sched_rng.randrange(len(others))]
        return cur

    def _maybe_switch(self):
        cur = self.cur
        nxt = self._pick(cur)
        if self.schedule_out:
            self.schedule_out[-1][1] += 1
        if nxt is cur:
            return
        self._leave(cur)
        self._resume(nxt)
        cur.sem.acquire()
        self._enter(cur)
