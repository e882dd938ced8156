#!/usr/bin/env python3
"""Checks of auditwheel by deterministic simulation with fault injection.

    run.py check ID [--tier quick|thorough]    decide one property (exit 0, or 1 with a VIOLATION line)
    run.py replay FILE                         run the recorded case again (exit 1 when it is reproduced)
    run.py selftest                            determinism of the simulator itself
    run.py setup                               are the programs the simulator needs there?
"""

from __future__ import annotations

import argparse
import collections
import json
import os
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
VENV = "/opt/venv/bin/python"
PY = VENV if os.path.exists(VENV) else sys.executable
WORKERS = 8
SOFT = {"quick": 420.0, "thorough": 840.0}
HARD = {"quick": 780.0, "thorough": 1500.0}


def hash_seed(seed: int, shard: int) -> int:
    return (seed * 1_000_003 + shard * 7919 + 1) % 4294967295


def env_for(hs: int) -> dict:
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "AUDITWHEEL", "LD_", "SOURCE_DATE"))}
    e.update(PYTHONHASHSEED=str(hs), PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8", TZ="UTC")
    return e


def get_check(pid):
    from awsim import checks

    return checks.ALL[pid]()


# --------------------------------------------------------------------------- worker side
def worker(a):
    from awsim import check, seam

    seam.install()
    c = get_check(a.id)
    if a.scale != 1.0:
        c.worlds = {t: max(1, int(n * a.scale)) for t, n in c.worlds.items()}
    r = check.run_shard(c, a.tier, a.seed, a.shard, a.nshards, a.deadline, check.known(ROOT))
    with open(a.out, "w") as f:
        json.dump(r, f)
    return 0


def judge_file(a):
    """Judge the case of a file once, in this process; prints its violations as JSON."""
    from awsim import check, seam

    seam.install()
    with open(a.file) as f:
        r = json.load(f)
    c = get_check(r["property"])
    check.warm_up()
    if a.fingerprint:
        print("JUDGED " + json.dumps(c.fingerprint(r["case"])))
        return 0
    print("JUDGED " + json.dumps([[v.kind, v.msg] for v in c.judge(r["case"])]))
    return 0


def judged(path, hs, fingerprint=False):
    p = subprocess.run([PY, os.path.abspath(__file__), "judge", *(["--fingerprint"] if fingerprint else []), path],
                       env=env_for(hs), capture_output=True, text=True, timeout=600)
    for line in p.stdout.splitlines():
        if line.startswith("JUDGED "):
            return json.loads(line[7:])
    raise RuntimeError(f"judging {path} failed: {p.stderr[-2000:]}")


# --------------------------------------------------------------------------- check
def save(pid, tier, seed, f, hs, n):
    d = os.path.join(ROOT, "work", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{f['kind'].replace(':', '-')}-{seed}-{n}.json")
    doc = {"property": pid, "kind": f["kind"], "msg": f["msg"], "tier": tier, "seed": seed, "hash_seed": hs,
           "where": f.get("where"), "case": f["case"]}
    for k in ("first_msg", "shrink_tries", "original_size", "size"):
        if k in f:
            doc[k] = f[k]
    with open(path, "w") as fp:
        json.dump(doc, fp, indent=1, sort_keys=True)
    return path


def cmd_check(a):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier
    pid = a.id
    c = get_check(pid)
    from awsim import check

    tmp = tempfile.mkdtemp(prefix="awsim-run-")
    procs = []
    try:
        for k in range(WORKERS):
            out = os.path.join(tmp, f"{k}.json")
            hs = hash_seed(seed, k)
            cmd = [PY, os.path.abspath(__file__), "worker", pid, "--tier", tier, "--seed", str(seed), "--shard", str(k),
                   "--nshards", str(WORKERS), "--deadline", str(a.deadline or SOFT[tier]), "--out", out,
                   "--scale", str(a.scale)]
            err = open(os.path.join(tmp, f"{k}.err"), "w+")
            procs.append((k, hs, out, err, subprocess.Popen(cmd, env=env_for(hs), stdout=err, stderr=err, cwd=ROOT)))
        results = []
        bad = []
        for k, hs, out, err, p in procs:
            try:
                rc = p.wait(max(1.0, HARD[tier] - (time.monotonic() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = -9
            if rc != 0 or not os.path.exists(out):
                err.seek(0)
                bad.append(f"worker {k}: exit {rc}: {err.read()[-1500:]}")
                continue
            with open(out) as f:
                results.append((k, hs, json.load(f)))
    finally:
        for _k, _h, _o, err, p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
            err.close()
        for n in os.listdir(tmp):
            os.unlink(os.path.join(tmp, n))
        os.rmdir(tmp)

    lines = []
    unreproduced = []
    kinds = set()
    for k, hs, r in results:
        for f in r["found"]:
            if f["kind"] in kinds or len(lines) >= 3:
                continue
            ok = None
            for case, msg in ((f["case"], f["msg"]),) + (((f["original"], f.get("first_msg", f["msg"])),) if "original" in f else ()):
                path = save(pid, tier, seed, dict(f, case=case, msg=msg), hs, len(lines))
                vs = judged(path, hs)
                if [f["kind"], msg] in vs:
                    ok = path
                    break
                if any(x[0] == f["kind"] for x in vs):
                    path = save(pid, tier, seed, dict(f, case=case, msg=next(m for x, m in vs if x == f["kind"])), hs, len(lines))
                    ok = path
                    break
            if ok is None:
                unreproduced.append({"kind": f["kind"], "msg": f["msg"], "where": f.get("where"), "file": path})
                continue
            kinds.add(f["kind"])
            lines.append((f["kind"], json.load(open(ok))["msg"], ok))
    # the same cases under different hash seeds must give the same results
    if c.paired:
        by: dict[str, list] = {}
        for k, hs, r in results:
            for w, fp in r["prints"].items():
                by.setdefault(w, []).append((hs, fp))
        differ = [(w, l) for w, l in sorted(by.items()) if len({fp for _, fp in l}) > 1]
        from awsim.check import case_at

        for w, l in differ[:4]:
            if "hashseed" in kinds:
                break
            case = case_at(c, seed, w)
            h1 = l[0][0]
            h2 = next(h for h, fp in l if fp != l[0][1])
            small = shrink_cross(pid, case, h1, h2)
            f = {"kind": "hashseed", "msg": "the result depends on the interpreter's hash seed", "case": small, "where": w}
            path = save(pid, tier, seed, f, [h1, h2], len(lines))
            if judged(path, h1, True) != judged(path, h2, True):
                kinds.add("hashseed")
                lines.append(("hashseed", f["msg"], path))
            else:
                unreproduced.append({"kind": "hashseed", "where": w})

    wall = time.monotonic() - t0
    ev = evidence(c, tier, seed, results, wall, lines, unreproduced, bad)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    cov = ev["coverage"]
    print(f"{pid} {tier}: {cov['evaluations']} cases, {cov['simulated_runs']} simulated runs, "
          f"{cov['distinct_nontrivial']} distinct non-trivial, {wall:.0f} s")
    knowns: collections.Counter = collections.Counter()
    for _k, _h, r in results:
        knowns.update(r["known"])
    listed = [x for x in check.known(ROOT) if x["property"] == pid]
    for x in listed:
        print(f"KNOWN-FINDING: property={pid} {x['what']} (met {knowns[x['id']]} times in this run)")
    for kind, msg, path in lines:
        print(f"  {kind}: {msg[:600]}")
        print(f"VIOLATION property={pid} replay={path}")
    for x in unreproduced:
        print(f"  not reproduced, not reported: {json.dumps(x)[:400]}", file=sys.stderr)
    if lines:
        return 1
    for b in bad:
        print(b, file=sys.stderr)
    if bad:
        return 2
    return 0


def shrink_cross(pid, case, h1, h2):
    """Drop faults and host files while the results still differ between the two hash seeds."""
    from awsim import check

    d = tempfile.mkdtemp(prefix="awsim-x-")
    path = os.path.join(d, "c.json")

    def same(cand):
        with open(path, "w") as f:
            json.dump({"property": pid, "case": cand}, f)
        try:
            return judged(path, h1, True) != judged(path, h2, True)
        except (RuntimeError, subprocess.TimeoutExpired):
            return False

    try:
        return check.shrink(case, same, budget=24, seconds=40)[0]
    finally:
        if os.path.exists(path):
            os.unlink(path)
        os.rmdir(d)


REAL = ["all of auditwheel (src/auditwheel, unmodified, imported from /repo)", "pyelftools", "packaging",
        "Python's zipfile, tempfile, shutil, pathlib, subprocess and csv code above the operating system calls",
        "patchelf (real binary, on the simulated file's bytes)", "strip (real binary for x86; identity for other machines)"]
STUB = ["kernel file system (in-memory, with permissions, links, capacity and handles)", "clocks", "process identity, current directory, environment, umask",
        "random numbers and temporary names (seeded)", "tar (Python's tarfile on the simulated disk)",
        "dpkg, rpm, apk, apt-file (answer from the host's package table)", "the musl loader (prints its version)"]


def evidence(c, tier, seed, results, wall, lines, unreproduced, bad):
    tot: collections.Counter = collections.Counter()
    fired: collections.Counter = collections.Counter()
    outcomes: collections.Counter = collections.Counter()
    tools: collections.Counter = collections.Counter()
    probes: collections.Counter = collections.Counter()
    sites, distinct, scheds, samples = set(), set(), set(), []
    cpu = 0.0
    for _k, _h, r in results:
        s = r["stats"]
        for n in ("runs", "ops", "sim_ns", "cases", "worlds"):
            tot[n] += s[n]
        fired.update(s["fired"])
        outcomes.update(s["outcomes"])
        tools.update(s["tools"])
        probes.update(s["probes"])
        sites |= set(s["sites"])
        distinct |= set(s["distinct"])
        scheds |= set(s["schedules"])
        samples += s["samples"][:1]
        cpu += r["wall"]
    cov = {
        "evaluations": tot["cases"],
        "distinct_nontrivial": len(sites) if c.count_sites else len(distinct),
        "rule": c.rule,
        "samples": samples[:3],
        "worlds": tot["worlds"],
        "simulated_runs": tot["runs"],
        "runs_per_hour": int(tot["runs"] / max(wall, 0.1) * 3600),
        "seeds_per_hour": int(tot["cases"] / max(wall, 0.1) * 3600),
        "simulated_operations": tot["ops"],
        "simulated_seconds": round(tot["sim_ns"] / 1e9, 3),
        "faults_injected": dict(sorted(fired.items())),
        "distinct_fault_sites": len(sites),
        "distinct_interleavings": len(scheds),
        "process_outcomes": dict(sorted(outcomes.items())),
        "tool_runs": dict(sorted(tools.items())),
        "probes": dict(sorted(probes.items())),
        "components_real": REAL,
        "components_stub": STUB,
        "hash_seeds": sorted({h for _k, h, _r in results}),
        "unreproduced": unreproduced,
        "worker_errors": [b[:400] for b in bad],
        "violation_kinds": [k for k, _m, _p in lines],
    }
    return {"property": c.id, "tier": tier, "seed": seed, "level": c.level, "coverage": cov,
            "assumptions": [*BASE_ASSUMPTIONS, *c.assumptions], "wall_s": round(wall, 1), "violations": len(lines)}


BASE_ASSUMPTIONS = [
    "the simulated kernel behaves as Linux does for the calls auditwheel and the standard library make",
    "the search is seeded sampling: silence means that no sampled case violates the property",
]


# --------------------------------------------------------------------------- replay
def cmd_replay(a):
    with open(a.file) as f:
        r = json.load(f)
    hs = r["hash_seed"]
    if isinstance(hs, list):
        x, y = (judged(a.file, h, True) for h in hs)
        hit = x != y
        print(f"{r['kind']}: {r['msg']}" if hit else "not reproduced")
    else:
        vs = judged(a.file, hs)
        hit = [r["kind"], r["msg"]] in vs
        for k, m in vs:
            print(f"{k}: {m}")
        if not hit:
            print("not reproduced" + (" exactly" if any(k == r["kind"] for k, _ in vs) else ""))
    if hit:
        print(f"VIOLATION property={r['property']} replay={a.file}")
    return 1 if hit else 0


# --------------------------------------------------------------------------- selftest
def cmd_selftest(a):
    """The same cases in two processes with the same hash seed, in opposite orders: the same traces."""
    outs = []
    for order in ("forward", "backward"):
        p = subprocess.run([PY, os.path.abspath(__file__), "traces", order, "--n", str(a.n)], env=env_for(5),
                           capture_output=True, text=True, timeout=1200)
        if p.returncode != 0:
            print(p.stderr[-3000:])
            return 2
        outs.append(dict(line.split(" ", 1) for line in p.stdout.splitlines() if line.startswith("T")))
    bad = [k for k in outs[0] if outs[0][k] != outs[1].get(k)]
    print(f"selftest: {len(outs[0])} runs repeated, {len(bad)} differ {bad[:5]}")
    return 1 if bad or not outs[0] else 0


def cmd_traces(a):
    import random

    from awsim import check, checks, seam

    seam.install()
    check.warm_up()
    todo = []
    for cid in ("C01", "C10", "C12", "C13"):
        c = checks.ALL[cid]()
        for i in range(a.n):
            rng = random.Random(f"self/{cid}/{i}")
            spec = c.world(rng)
            if spec is None:
                continue
            todo += [(f"T{cid}/{i}/{j}", case, cid == "C10") for j, case in enumerate(c.cases(spec, rng, 3))]
    if a.order == "backward":
        todo.reverse()
    for name, case, multi in todo:
        s = check.simulate(case["spec"], faults=case.get("faults", ()), seed=case.get("seed", 0),
                           schedule=case.get("schedule"), sequential=not multi, capacity=case.get("capacity"))
        print(name, check.digest([s.trace, s.schedule_out, [str(p.outcome) for p in s.procs],
                                  [p.stdout.getvalue() for p in s.procs], [p.stderr.getvalue() for p in s.procs],
                                  check.disk(s.vfs)]))
    return 0


def cmd_setup(a):
    import shutil

    missing = [t for t in ("patchelf", "strip") if not any(os.path.exists(os.path.join(d, t)) for d in ("/opt/venv/bin", "/usr/bin", "/bin"))]
    if missing or not shutil.which(PY):
        print(f"missing: {missing} {PY}")
        return 1
    p = subprocess.run([PY, "-c", "import elftools, packaging, jsonschema"], env=env_for(1))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    print("ready")
    return p.returncode


def main():
    if os.path.exists(VENV) and sys.prefix != os.path.dirname(os.path.dirname(VENV)):
        os.execv(VENV, [VENV, os.path.abspath(__file__), *sys.argv[1:]])
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    p = sub.add_parser("check")
    p.add_argument("id")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    p.add_argument("--scale", type=float, default=1.0)
    p.add_argument("--deadline", type=float, default=0)
    p = sub.add_parser("worker")
    p.add_argument("id")
    p.add_argument("--tier")
    p.add_argument("--seed", type=int)
    p.add_argument("--shard", type=int)
    p.add_argument("--nshards", type=int)
    p.add_argument("--deadline", type=float)
    p.add_argument("--scale", type=float)
    p.add_argument("--out")
    p = sub.add_parser("judge")
    p.add_argument("--fingerprint", action="store_true")
    p.add_argument("file")
    p = sub.add_parser("replay")
    p.add_argument("file")
    p = sub.add_parser("selftest")
    p.add_argument("--n", type=int, default=12)
    p = sub.add_parser("traces")
    p.add_argument("order")
    p.add_argument("--n", type=int)
    sub.add_parser("setup")
    a = ap.parse_args()
    return {"check": cmd_check, "worker": worker, "judge": judge_file, "replay": cmd_replay, "selftest": cmd_selftest,
            "traces": cmd_traces, "setup": cmd_setup}[a.cmd](a)


if __name__ == "__main__":
    sys.exit(main())
