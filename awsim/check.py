"""Checks: cases, references, judging, shrinking, replay."""

from __future__ import annotations

import collections
import copy
import functools
import gc
import hashlib
import json
import os
import random
import time
import zipfile

from . import core, oracle, plan, seam, world
from .oracle import V

SIMV = 1  # bumped when a change of the simulator invalidates old replay files


def dumps(o) -> str:
    return json.dumps(o, sort_keys=True, separators=(",", ":"))


def digest(o) -> str:
    return hashlib.sha256(o if isinstance(o, bytes) else dumps(o).encode()).hexdigest()[:16]


class Stats:
    def __init__(self):
        self.runs = 0
        self.ops = 0
        self.sim_ns = 0
        self.cases = 0
        self.worlds = 0
        self.fired = collections.Counter()
        self.outcomes = collections.Counter()
        self.sites: set = set()
        self.distinct: set = set()
        self.schedules: set = set()
        self.probes = collections.Counter()
        self.tools = collections.Counter()
        self.samples: list = []

    def dump(self):
        return {"runs": self.runs, "ops": self.ops, "sim_ns": self.sim_ns, "cases": self.cases, "worlds": self.worlds,
                "fired": dict(self.fired), "outcomes": dict(self.outcomes), "sites": sorted(self.sites),
                "distinct": sorted(self.distinct), "schedules": sorted(self.schedules), "probes": dict(self.probes),
                "tools": dict(self.tools), "samples": self.samples}


STATS = Stats()
_since_gc = 0


def simulate(spec, *, faults=(), schedule=None, seed=0, invariants=(), sequential=True, capacity=None, sim=None,
             entries=None):
    """One simulated run, counted."""
    global _since_gc
    if capacity is not None:
        spec = dict(spec, knobs=dict(spec.get("knobs", {}), capacity_extra=capacity))
    s = world.make_sim(spec, faults=faults, schedule=schedule, seed=seed)
    s.invariants = [i(s) if getattr(i, "factory", False) else i for i in invariants]
    procs = [world.add_proc(s, p, entry=entries[i] if entries else None) for i, p in enumerate(spec["procs"])]
    go(s, procs, sequential)
    return s


def go(s, procs, sequential=True):
    global _since_gc
    n0 = s.now_ns
    was = gc.isenabled()
    gc.disable()
    try:
        if sequential:
            for p in procs:
                s.run([p])
        else:
            s.run(procs)
    finally:
        if was:
            gc.enable()
    _since_gc += 1
    if _since_gc >= 20:
        _since_gc = 0
        gc.collect()
    st = STATS
    st.runs += 1
    st.ops += sum(p.nops for p in procs)
    st.sim_ns += max(0, s.now_ns - n0) if s.now_ns - n0 < 10**15 else 0
    st.fired.update(s.fired)
    for p in procs:
        o = p.outcome
        st.outcomes[o.get("status") if o.get("status") != "exit" else f"exit {o.get('code')}"] += 1
    for f in s.faults:
        if f["hits"]:
            st.sites.add(f"{f['op']} {plan.label_class(f['label'])} {f['k']}{f.get('e', '')}")
    for t in s.tool_runs:
        st.tools[t[1]] += 1
    if len(procs) > 1 and not sequential:
        st.schedules.add(digest(s.schedule_out))


# --------------------------------------------------------------------------- outputs
def whls(v, d) -> dict[str, bytes]:
    try:
        names = v.listdir(d)
    except OSError:
        return {}
    return {n: v.read(f"{d}/{n}") for n in names if n.endswith(".whl")}


def disk(v) -> str:
    """A digest of everything on the simulated disk."""
    h = hashlib.sha256()

    def rec(n, path):
        h.update(f"{path} {n.kind} {n.mode:o} {n.uid} {n.mtime_ns}\n".encode("utf-8", "surrogateescape"))
        if n.kind == "d":
            for name in sorted(n.children):
                rec(n.children[name], f"{path}/{name}")
        elif n.kind == "f":
            h.update(hashlib.sha256(n.data).digest())
        else:
            h.update(str(n.target).encode())

    rec(v.root, "")
    return h.hexdigest()[:16]


@functools.lru_cache(maxsize=4096)
def canon(data: bytes, dates: bool, sbom: bool = True):
    """What must be equal: the bytes, or all but the members' dates, or all but the SBOM too."""
    if dates and sbom:
        return ("bytes", hashlib.sha256(data).hexdigest())
    try:
        out = []
        import io

        with zipfile.ZipFile(io.BytesIO(data)) as z:
            for zi in z.infolist():
                n = zi.filename
                if not sbom and (n.endswith(".dist-info/RECORD") or "/sboms/" in n and ".dist-info/" in n):
                    continue
                out.append((n, hashlib.sha256(z.read(zi)).hexdigest(), zi.external_attr, zi.compress_type,
                            zi.date_time if dates else None))
        return ("members", *out)
    except (zipfile.BadZipFile, OSError, ValueError, NotImplementedError, EOFError, __import__("zlib").error):
        return ("damaged", hashlib.sha256(data).hexdigest())


def dated(p: dict) -> bool:
    """Are the member dates fixed by the environment?"""
    return "SOURCE_DATE_EPOCH" in p.get("env", {})


class Ref:
    """A fault-free run of a specification."""

    def __init__(self, spec, seed=0, sequential=True):
        s = simulate(spec, seed=seed, sequential=sequential)
        self.spec = spec
        self.outcomes = [world.outcome(p) for p in s.procs]
        self.ok = [world.ok(p) for p in s.procs]
        self.trace = s.trace
        self.nops = [p.nops for p in s.procs]
        self.stdout = [p.stdout.getvalue() for p in s.procs]
        self.stderr = [p.stderr.getvalue() for p in s.procs]
        v0 = oracle.host_vfs(spec)
        self.dirs = sorted({p["wheel_dir"] for p in spec["procs"] if "wheel_dir" in p})
        self.before = {d: whls(v0, d) for d in self.dirs}
        self.after = {d: whls(s.vfs, d) for d in self.dirs}
        self.outs = {d: {n: b for n, b in self.after[d].items() if self.before[d].get(n) != b} for d in self.dirs}
        self.used = s.vfs.used()
        self.used0 = v0.used()
        self.peak = getattr(s.vfs, "peak", self.used)
        self.tool_runs = s.tool_runs


_refs: collections.OrderedDict = collections.OrderedDict()


def reference(spec, seed=0, sequential=True) -> Ref:
    key = (dumps(spec), seed, sequential)
    r = _refs.get(key)
    if r is None:
        r = _refs[key] = Ref(spec, seed, sequential)
        while len(_refs) > 24:
            _refs.popitem(last=False)
    else:
        _refs.move_to_end(key)
    return r


# --------------------------------------------------------------------------- check base
class Check:
    id = ""
    technique = ""
    level = "exploration"
    rule = ""
    #: worlds per tier over all shards
    worlds = {"quick": 400, "thorough": 6000}
    #: cases per world
    per_world = 8
    #: shards come in pairs that run the same cases under different hash seeds
    paired = False
    #: what is counted as distinct and non-trivial: fault sites, or what judge() puts in STATS.distinct
    count_sites = False
    assumptions: list[str] = []

    def world(self, rng):
        """A world (JSON) for the next cases; None to skip."""
        raise NotImplementedError

    def cases(self, spec, rng, n):
        """Cases (JSON) for a world."""
        raise NotImplementedError

    def judge(self, case) -> list[V]:
        raise NotImplementedError

    def fingerprint(self, case):
        """For paired shards: what must be equal across hash seeds."""
        return None

    # -- helpers
    def v(self, kind, msg):
        return V(self.id, kind, msg)


# --------------------------------------------------------------------------- shrinking
def _lists(case):
    """(getter path, kind) of lists in the case which may lose elements."""
    out = []

    def walk(o, path):
        if isinstance(o, dict):
            for k in sorted(o):
                v = o[k]
                if isinstance(v, list):
                    if k in ("faults", "schedule", "files", "members", "needed", "undef", "defined", "hist", "attempts", "steps"):
                        out.append(path + (k,))
                    if k == "procs" and len(v) > 1 or k == "variants" and len(v) > 2:
                        out.append(path + (k,))
                    for i, x in enumerate(v):
                        walk(x, path + (k, i))
                else:
                    walk(v, path + (k,))
        elif isinstance(o, list):
            for i, x in enumerate(o):
                walk(x, path + (i,))

    walk(case, ())
    order = {"attempts": 0, "steps": 0, "faults": 1, "schedule": 2, "hist": 2, "files": 3, "members": 4}
    out.sort(key=lambda p: (order.get(p[-1], 5), len(p)))
    return out


def _get(o, path):
    for k in path:
        o = o[k]
    return o


def shrink(case, same, budget=250, seconds=45.0):
    """Greedy ddmin: ``same(case)`` tells whether the candidate shows the same violation."""
    t0 = time.monotonic()
    tries = 0

    def attempt(cand):
        nonlocal tries
        tries += 1
        try:
            return same(cand)
        except (core.HarnessError, KeyError, IndexError, ValueError, TypeError, AttributeError, OSError):
            return False

    def over():
        return tries >= budget or time.monotonic() - t0 > seconds

    changed = True
    while changed and not over():
        changed = False
        for path in _lists(case):
            if over():
                break
            try:
                lst = _get(case, path)
            except (KeyError, IndexError):
                continue
            if not isinstance(lst, list) or not lst:
                continue
            n = 1 if len(lst) <= 3 else 2
            size = max(1, len(lst) // n)
            while size >= 1 and not over():
                i = 0
                while i < len(lst) and not over():
                    cand = copy.deepcopy(case)
                    cl = _get(cand, path)
                    removed = cl[i : i + size]
                    if path[-1] == "members":
                        keep = [m for m in removed if m.get("record") or m["name"].endswith(".dist-info/WHEEL")]
                        if len(keep) == len(removed):
                            i += size
                            continue
                        cl[i : i + size] = keep
                    else:
                        del cl[i : i + size]
                    if attempt(cand):
                        case = cand
                        lst = _get(case, path)
                        changed = True
                        if path[-1] == "members":
                            i += len([m for m in removed if m.get("record")])
                    else:
                        i += size
                size //= 2
        # options and knobs
        for pi, p in enumerate(_procs(case)):
            i = 0
            while not over():
                argv = _procs(case)[pi].get("argv")
                if argv is None or i >= len(argv):
                    break
                a = argv[i]
                width = 2 if a in ("--plat", "-z", "-L", "--exclude", "--ldpaths") else 1
                if not a.startswith("-") or a in ("-w", "--json", "--patcher"):
                    i += 1
                    continue
                cand = copy.deepcopy(case)
                del _procs(cand)[pi]["argv"][i : i + width]
                if attempt(cand):
                    case = cand
                    changed = True
                else:
                    i += width
        knobs = _spec(case).get("knobs", {}) if _spec(case) else {}
        for k in sorted(knobs):
            if over():
                break
            cand = copy.deepcopy(case)
            del _spec(cand)["knobs"][k]
            if attempt(cand):
                case = cand
                changed = True
    return case, tries


def _spec(case):
    return case.get("spec") if isinstance(case.get("spec"), dict) else {}


def _procs(case):
    return _spec(case).get("procs", [])


# --------------------------------------------------------------------------- known findings
def known(root):
    try:
        with open(os.path.join(root, "known_findings.json"), encoding="utf-8") as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def is_known(v: V, findings):
    import re

    for k in findings:
        if k["property"] == v.prop and v.kind in k["kinds"] and re.search(k["match"], v.msg):
            return k
    return None


# --------------------------------------------------------------------------- worker
def run_shard(check: Check, tier: str, seed: int, shard: int, nshards: int, deadline: float, findings) -> dict:
    """Explore this shard's share of the cases."""
    t0 = time.monotonic()
    total = check.worlds[tier]
    group = shard // 2 if check.paired else shard
    ngroups = nshards // 2 if check.paired else nshards
    prints: dict[str, str] = {}
    found: list[dict] = []
    knowns: collections.Counter = collections.Counter()
    kinds: set = set()
    done = 0
    warm_up()
    for i in range(group, total, ngroups):
        if time.monotonic() - t0 > deadline:
            break
        rng = random.Random(f"{seed}/{check.id}/{i}")
        spec = check.world(rng)
        done += 1
        if spec is None:
            continue
        STATS.worlds += 1
        for j, case in enumerate(check.cases(spec, rng, check.per_world)):
            if time.monotonic() - t0 > deadline:
                break
            STATS.cases += 1
            vs = check.judge(case)
            if check.paired:
                fp = check.fingerprint(case)
                if fp is not None:
                    prints[f"{i}/{j}"] = fp
            if len(STATS.samples) < 2 and j == 0:
                STATS.samples.append(brief(case))
            for v in vs:
                k = is_known(v, findings)
                if k is not None:
                    knowns[k["id"]] += 1
                    continue
                if v.kind in kinds:
                    continue
                kinds.add(v.kind)
                found.append({"kind": v.kind, "msg": v.msg, "case": case, "where": [i, j]})
        if len(found) >= 3:
            break
    out = []
    for f in found[:3]:
        def same(c, kind=f["kind"]):
            return any(v.kind == kind and is_known(v, findings) is None for v in check.judge(c))

        if not same(f["case"]):
            out.append({**f, "flaky": True})
            continue
        small, tries = shrink(f["case"], same)
        msg = next(v.msg for v in check.judge(small) if v.kind == f["kind"])
        out.append({"kind": f["kind"], "msg": msg, "case": small, "first_msg": f["msg"], "where": f["where"],
                    "shrink_tries": tries, "original_size": len(dumps(f["case"])), "size": len(dumps(small)),
                    "original": f["case"]})
    return {"shard": shard, "found": out, "known": dict(knowns), "stats": STATS.dump(), "done": done,
            "wall": time.monotonic() - t0, "prints": prints}


def case_at(check: Check, seed: int, where: str):
    """The case a shard judged as ``world/number``."""
    i, j = map(int, where.split("/"))
    seam.install()
    rng = random.Random(f"{seed}/{check.id}/{i}")
    spec = check.world(rng)
    for n, case in enumerate(check.cases(spec, rng, check.per_world)):
        if n == j:
            return case
    raise KeyError(where)


def brief(case):
    """A case as a short sample for the evidence."""
    spec = case.get("spec") or {}
    out = {k: v for k, v in case.items() if k not in ("spec",)}
    if spec:
        out["argv"] = [p.get("argv") for p in spec.get("procs", [])]
        out["libc/arch"] = f"{spec.get('libc')}/{spec.get('arch')}"
        out["wheel members"] = [len(w.get("members", ())) for w in spec.get("wheels", ())]
        out["host files"] = len(spec.get("files", ()))
    t = dumps(out)
    return json.loads(t) if len(t) < 1500 else {"truncated": t[:1500]}


_warm = False


def warm_up():
    """Fill process-wide caches of the interpreter and libraries before counting operations."""
    global _warm
    if _warm:
        return
    _warm = True
    from . import gen

    seam.install()
    for i in range(3):
        g = gen.Gen(random.Random(i), **gen.EASY)
        simulate(g.repair_world())
    simulate(gen.Gen(random.Random(1)).show_world())
    gc.collect()
    gc.freeze()
    STATS.__init__()
