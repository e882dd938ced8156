"""The checks, one class per property."""

from __future__ import annotations

import copy
import json
import os
import posixpath
import random
import re

from . import core, gen, oracle as O, plan, seam, vfs, world
from .check import Check, Ref, canon, dated, digest, dumps, reference, simulate, whls, STATS


# --------------------------------------------------------------------------- shared pieces
def not_exempt(t) -> bool:
    """Operations whose failure is documented to be only warned about are not failed."""
    kind, label = t[1], t[2]
    return not (plan.is_conf(kind, label) or plan.is_musl(label) or plan.is_pkg(label) or plan.is_libc(kind, label))


def not_exempt_k1(t) -> bool:
    """The same, with the operation of known finding K1."""
    return plan.is_libc(t[1], t[2]) or not_exempt(t)


def not_conf(t) -> bool:
    kind, label = t[1], t[2]
    return not (plan.is_conf(kind, label) or plan.is_musl(label) or plan.is_libc(kind, label))


def add_old_outputs(spec, rng, chance):
    """Older files under the names the run will publish, and other files in the wheel directory."""
    ref = reference(spec)
    pre = []
    for d in ref.dirs:
        todo = [n for n in ref.outs[d] if n not in ref.before[d] and rng.random() < chance]
        if rng.random() < chance / 2:
            todo.append("bystander-1.0-py3-none-any.whl")
        if todo:
            pre.append({"path": d, "dir": True, "uid": 1000})
            for n in todo:
                pre.append({"path": f"{d}/{n}", "text": f"older {n}\n" * 3, "uid": 1000, "mode": rng.choice([0o644, 0o600, 0o444])})
    if pre:
        spec["files"] = [*spec["files"], *pre]
    return spec


def sizes(ref) -> int:
    """Roughly what a run writes, in bytes."""
    n = 0
    for d in ref.dirs:
        for b in ref.outs[d].values():
            try:
                n += len(b) + sum(len(x[0]) for x in O.members(b).values())
            except Exception:  # noqa: BLE001
                n += len(b)
    return n or 4000


def fault_case(spec, rng, ref, kinds, ok=not_exempt, capacity=True, many=0.25):
    """One case: a few faults at operations of the reference run, or a full disk."""
    if capacity and rng.random() < 0.08:
        return {"spec": spec, "seed": 0, "faults": [], "capacity": rng.randrange(max(1, int(sizes(ref) * 1.3)))}
    n = 1 if rng.random() > many else rng.randint(2, 3)
    fs = []
    for _ in range(n):
        f = plan.make(rng, ref.trace, kinds, ok)
        if f:
            fs.append(f)
    if rng.random() < 0.25:
        f = plan.make(rng, ref.trace, ["short"], ok)
        if f:
            fs.append(f)
    return {"spec": spec, "seed": 0, "faults": fs} if fs else None


def run_case(case, ref=None, invariants=(), sequential=True):
    return simulate(case["spec"], faults=case.get("faults", ()), seed=case.get("seed", 0),
                    schedule=case.get("schedule"), invariants=invariants, sequential=sequential,
                    capacity=case.get("capacity"))


def earlier(spec):
    """When wheels of one name follow each other in a batch: the batch without the later ones."""
    for i, p in enumerate(spec["procs"]):
        seen: dict = {}
        for k, x in enumerate(p["argv"]):
            if x.endswith(".whl"):
                seen.setdefault(posixpath.basename(x), []).append(k)
        for n in range(1, max(map(len, seen.values()), default=1)):
            drop = {k for ks in seen.values() for k in ks[n:]}
            q = dict(p, argv=[x for k, x in enumerate(p["argv"]) if k not in drop])
            yield dict(spec, procs=[*spec["procs"][:i], q, *spec["procs"][i + 1:]])


def whl_monitor(ref, spec, kinds=None):
    """Every *.whl in a wheel directory is an old file or a finished output."""
    allowed = {}
    for d in ref.dirs:
        for n, b in ref.before[d].items():
            allowed.setdefault((d, n), set()).add(("raw", b))
    dates = {}
    for p in spec["procs"]:
        if "wheel_dir" in p:
            dates[p["wheel_dir"]] = dates.get(p["wheel_dir"], True) and dated(p)
    outs: dict = {}
    for r in [ref, *(reference(x) for x in earlier(spec))]:
        for d in r.dirs:
            for n, b in r.outs[d].items():
                outs.setdefault((d, n), set()).add(canon(b, dates[d]))
    last: dict = {}

    def check(s):
        for d in ref.dirs:
            try:
                node = s.vfs.get(d)
            except OSError:
                continue
            if node.kind != "d":
                continue
            for n, x in node.children.items():
                if not n.endswith(".whl"):
                    continue
                if x.kind == "l":
                    return f"{d}/{n} became a symbolic link"
                if x.kind != "f":
                    return f"{d}/{n} is a directory"
                b = bytes(x.data)
                if last.get((d, n)) == b:
                    continue
                if ("raw", b) not in allowed.get((d, n), ()) and (
                        (d, n) not in outs or canon(b, dates[d]) not in outs[d, n]):
                    old = " in place of an older wheel" if n in ref.before[d] else ""
                    what = "empty" if not b else ("damaged" if O.archive_ok(b) else "different from the complete output")
                    return f"{n} in the wheel directory is {what}{old}"
                last[d, n] = b
            for n in ref.before[d]:
                if n not in node.children:
                    return f"{n} vanished from the wheel directory"
        return None

    return check


def outputs_differ(ref, s, spec, sbom=True, names=None):
    """First difference between the published wheels and the reference's, or None."""
    for d in ref.dirs:
        dts = all(dated(p) for p in spec["procs"] if p.get("wheel_dir") == d)
        now = whls(s.vfs, d)
        for n in sorted({*now, *ref.after[d]}):
            if n not in now:
                return f"{n} is missing from the wheel directory"
            if n not in ref.after[d]:
                return f"{n} was published, the undisturbed run does not publish it"
            if canon(now[n], dts, sbom) != canon(ref.after[d][n], dts, sbom) and now[n] != ref.after[d][n]:
                return f"{n} differs from the output of the undisturbed run: {first_diff(ref.after[d][n], now[n], dts)}"
    return None


def first_diff(a: bytes, b: bytes, dates=True) -> str:
    try:
        ma, mb = O.members(a), O.members(b)
    except Exception as exc:  # noqa: BLE001
        return f"damaged ({type(exc).__name__})"
    for n in sorted({*ma, *mb}):
        if n not in mb:
            return f"{n} is missing"
        if n not in ma:
            return f"{n} is extra"
        if ma[n][0] != mb[n][0]:
            return f"{n} has other contents"
        if ma[n][1] != mb[n][1]:
            return f"{n} has mode {mb[n][1]:o} instead of {ma[n][1]:o}"
        if dates and ma[n][2] != mb[n][2]:
            return f"{n} has date {mb[n][2]} instead of {ma[n][2]}"
        if ma[n][3] != mb[n][3]:
            return f"{n} is compressed differently"
    if list(ma) != list(mb):
        return "the members are in another order"
    return "same members, other bytes"


def easy(rng, **k):
    return gen.Gen(rng, **{**gen.EASY, **k})


def mixed_repair_world(rng, batch=0.12, pure=0.07, **opts):
    g = easy(rng)
    g.o.update(opts)
    x = rng.random()
    if x < pure:
        return g.pure_world()
    if x < pure + batch:
        return g.batch_world()
    return g.repair_world()


def how(case) -> str:
    """The faults of a case in words (stable)."""
    out = []
    for f in case.get("faults", ()):
        out.append(f"{f['k']}{' ' + f['e'] if 'e' in f else ''} {f.get('when', '')} {f['op']} {f['label']}#{f['nth']}".replace("  ", " "))
    if case.get("capacity") is not None:
        out.append(f"disk full after {case['capacity']} more bytes")
    return "; ".join(out) or "no fault"


# --------------------------------------------------------------------------- C01
class C01(Check):
    id = "C01"
    count_sites = True
    technique = "deterministic simulation; seeded crash, errno, tool, short-write and full-disk injection; wheel directory checked after every operation"
    rule = ("case = one repair (single, batch or pure wheel) with 1-4 injected faults or a full disk; non-trivial = distinct "
            "(operation, site class, fault) that fired")
    worlds = {"quick": 300, "thorough": 4800}
    per_world = 9

    def world(self, rng):
        spec = mixed_repair_world(rng)
        return add_old_outputs(spec, rng, 0.45)

    def cases(self, spec, rng, n):
        ref = reference(spec)
        yield {"spec": spec, "seed": 0, "faults": []}
        late = [t for t in ref.trace if any(t[2].startswith(d) for d in ref.dirs)]
        for _ in range(n - 1):
            ok = not_exempt
            if late and rng.random() < 0.35:
                ok = lambda t: not_exempt(t) and any(t[2].startswith(d) for d in ref.dirs)
            c = fault_case(spec, rng, ref, ["errno", "errno", "errno", "kill", "kill", "kill", "intr", "mem", "tool", "short"], ok)
            if c:
                yield c

    def judge(self, case):
        spec = case["spec"]
        ref = reference(spec)
        s = run_case(case, invariants=[whl_monitor(ref, spec)])
        out = []
        if s.violation:
            out.append(self.v("partial", f"{s.violation['msg']} ({how(case)})"))
        p = s.procs[0]
        if world.ok(p) and ref.ok[0] and not out:
            d = outputs_differ(ref, s, spec)
            if d:
                out.append(self.v("incomplete", f"exit 0 but {d} ({how(case)})"))
        if p.outcome.get("status") == "exit" and p.outcome.get("code") == 0 and not ref.ok[0] and not out:
            d = outputs_differ(ref, s, spec)
            if d:
                out.append(self.v("incomplete", f"exit 0 but {d} ({how(case)})"))
        return out


# --------------------------------------------------------------------------- C02
def protect(ref, spec):
    """A monitor of everything outside the temporary directories."""
    tmps = {p.get("tmpdir", "/tmp") for p in spec["procs"]}
    wds = [p["wheel_dir"] for p in spec["procs"] if "wheel_dir" in p]
    outs = {f"{d}/{n}" for d in ref.dirs for n in ref.outs[d]}
    made = set()
    for d in wds:
        while d not in ("/", ""):
            made.add(d)
            d = posixpath.dirname(d)

    def start(s):
        base = {}

        def rec(n, path, put):
            for name, c in n.children.items():
                q = f"{path}/{name}"
                if q in tmps:
                    continue
                put(q, c)
                if c.kind == "d":
                    rec(c, q, put)

        def state(c):
            if c.kind == "f":
                return ("f", c.mode, c.uid, c.mtime_ns, bytes(c.data))
            if c.kind == "l":
                return ("l", c.target)
            return ("d", c.mode, c.uid)

        def fill(q, c):
            base[q] = state(c)
        rec(s.vfs.root, "", fill)

        def same(c, b):
            if c.kind == "f":
                return b[0] == "f" and c.mode == b[1] and c.uid == b[2] and c.mtime_ns == b[3] and c.data == b[4]
            return state(c) == b

        def check(sim):
            seen = set()
            bad = []

            def look(q, c):
                seen.add(q)
                b = base.get(q)
                if b is not None:
                    if q not in outs and not same(c, b):
                        bad.append(f"{q} was modified")
                elif q not in made and not any(q.startswith(d + "/") for d in wds):
                    bad.append(f"{q} was created")
            rec(sim.vfs.root, "", look)
            if bad:
                return sorted(bad)[0]
            gone = [q for q in base if q not in seen and q not in outs]
            return f"{min(gone)} was removed" if gone else None

        return check

    start.factory = True
    return start


class C02(Check):
    id = "C02"
    count_sites = True
    technique = "deterministic simulation with fault injection; every file outside the temporary directory compared after every operation"
    rule = ("case = a repair, show or lddtree command, or two concurrent ones, with injected faults; non-trivial = distinct "
            "(operation, site class, fault) that fired")
    worlds = {"quick": 290, "thorough": 4640}
    per_world = 8

    def world(self, rng):
        x = rng.random()
        if x < 0.12:
            return easy(rng).show_world()
        if x < 0.18:
            g = easy(rng)
            spec = g.base()
            cand = [f["path"] for f in spec["files"] if "elf" in f]
            spec["procs"] = [{"argv": ["lddtree", g.pick(cand)], "env": {}, "cwd": "/work"}]
            return spec
        spec = mixed_repair_world(rng)
        if rng.random() < 0.15:
            # links among what the run touches: the input, the wheel directory
            w = spec["wheels"][0]
            name = w["path"].rsplit("/", 1)[1]
            w["aliases"] = [f"/work/links/{name}"]
            a = spec["procs"][0]["argv"]
            for i, x in enumerate(a):
                if x.endswith(name):
                    a[i] = f"/work/links/{name}"
        return add_old_outputs(spec, rng, 0.35)

    def cases(self, spec, rng, n):
        ref = reference(spec)
        yield {"spec": spec, "seed": 0, "faults": []}
        for _ in range(n - 1):
            if rng.random() < 0.12:
                s2 = dict(spec, procs=[*spec["procs"], copy.deepcopy(spec["procs"][0])])
                yield {"spec": s2, "seed": rng.randrange(1 << 30), "faults": [], "multi": 1}
                continue
            c = fault_case(spec, rng, ref, ["errno", "errno", "kill", "intr", "mem", "tool", "tool", "short"], lambda t: True)
            if c:
                yield c

    def judge(self, case):
        spec = case["spec"]
        ref = reference(spec)
        s = run_case(case, invariants=[protect(ref, spec)], sequential=not case.get("multi"))
        if s.violation:
            return [self.v("touched", f"{s.violation['msg']} ({how(case)})")]
        return []


# --------------------------------------------------------------------------- C03
class C03(Check):
    id = "C03"
    count_sites = True
    technique = "deterministic simulation; seeded errno/tool/memory/short-transfer/full-disk injection; published wheels compared with the undisturbed run"
    rule = ("case = one repair with 1-4 injected faults; non-trivial = distinct (operation, site class, fault) that fired")
    worlds = {"quick": 300, "thorough": 4800}
    per_world = 10

    def world(self, rng):
        return mixed_repair_world(rng, batch=0.05, pure=0.04, strip=rng.choice([0.2, 0.7]))

    def cases(self, spec, rng, n):
        ref = reference(spec)
        for _ in range(n):
            if rng.random() < 0.1:
                c = fault_case(spec, rng, ref, ["tool", "tool", "errno"], lambda t: plan.is_pkg(t[2]), capacity=False)
                if c:
                    c["pkg"] = 1
                    yield c
                continue
            c = fault_case(spec, rng, ref, ["errno"] * 5 + ["tool"] * 2 + ["mem", "intr", "short"], not_exempt_k1)
            if c:
                yield c

    def judge(self, case):
        spec = case["spec"]
        ref = reference(spec)
        s = run_case(case)
        if not world.ok(s.procs[0]):
            return []
        if not ref.ok[0]:
            return [self.v("accepted", f"succeeds where the undisturbed run fails with {ref.outcomes[0]} ({how(case)})")]
        pkg = any(plan.is_pkg(f["label"]) for f in s.faults if f["hits"])
        d = outputs_differ(ref, s, spec, sbom=not pkg)
        if d:
            return [self.v("degraded", f"exit 0 but {d} ({how(case)})")]
        return []


# --------------------------------------------------------------------------- wheels published under disturbance
def published(ref, s):
    """(directory, name, bytes) of every wheel a run has published"""
    for d in ref.dirs:
        for n, b in sorted(whls(s.vfs, d).items()):
            if ref.before[d].get(n) != b:
                yield d, n, b


def disturb(rng, spec, ref, ok=not_exempt):
    """A disturbance which the run may well survive."""
    x = rng.random()
    fs = []
    if x < 0.55:
        for _ in range(rng.randint(1, 3)):
            f = plan.make(rng, ref.trace, ["short", "short", "jump"], lambda t: True)
            if f:
                fs.append(f)
    elif x < 0.85:
        f = plan.make(rng, ref.trace, ["errno", "errno", "tool", "intr", "kill", "mem"], ok)
        if f:
            fs.append(f)
    else:
        return {"spec": spec, "seed": 0, "faults": [], "capacity": rng.randrange(max(1, int(sizes(ref) * 1.2)))}
    return {"spec": spec, "seed": 0, "faults": fs}


class Published(Check):
    """Base of the checks that look into published wheels."""

    worlds = {"quick": 1000, "thorough": 16000}
    per_world = 4

    def cases(self, spec, rng, n):
        yield {"spec": spec, "seed": 0, "faults": []}
        ref = reference(spec)
        for _ in range(n - 1):
            yield disturb(rng, spec, ref)

    def expectations(self, spec):
        """output name -> Expect, for all wheels of the first process"""
        p = spec["procs"][0]
        key = dumps(spec)
        if getattr(self, "_key", None) != key:
            self._key = key
            self._exp = [O.expect(spec, p, w) for w in spec["wheels"]]
        return self._exp

    def one(self, e, name, data, case, s):
        raise NotImplementedError

    def judge(self, case):
        spec = case["spec"]
        ref = reference(spec)
        s = run_case(case)
        exps: dict[str, list] = {}
        for e in self.expectations(spec):
            if e.kind != "refuse":
                exps.setdefault(e.out_name, []).append(e)
        out = []
        for _d, n, b in published(ref, s):
            if n not in exps:
                out += self.unexpected(n, case)
                continue
            # of two inputs with one output name the later one wins, if the run gets that far
            cand = exps[n][-1:] if world.ok(s.procs[0]) else exps[n]
            found = None
            for e in cand:
                try:
                    vs = self.one(e, n, b, case, s)
                except Exception as exc:  # noqa: BLE001 - a wheel the oracle cannot even read
                    if O.archive_ok(b) is None:
                        raise
                    vs = [self.v("damaged", f"{n} does not read back: {type(exc).__name__}")]
                if found is None or len(vs) < len(found):
                    found = vs
            out += [self.v(v.kind, f"{n}: {v.msg} ({how(case)})") for v in found]
        return out + self.overall(case, s, ref)

    def unexpected(self, name, case):
        return []

    def overall(self, case, s, ref):
        return []


def repair_world(rng, **k):
    x = rng.random()
    g = gen.Gen(rng, **({**gen.EASY, **k} if x < 0.8 else k))
    if rng.random() < 0.1:
        return g.batch_world()
    return g.repair_world()


class C04(Published):
    id = "C04"
    technique = "deterministic simulation; RECORD of every published wheel recomputed, under short transfers, errors, full disks, host changes mid-run and concurrent runs"
    rule = "case = one repair with disturbances; non-trivial = distinct published wheels whose RECORD was checked"
    worlds = {"quick": 380, "thorough": 6080}
    per_world = 5

    def world(self, rng):
        return repair_world(rng, strip=0.3, max_files=6)

    def cases(self, spec, rng, n):
        yield {"spec": spec, "seed": 0, "faults": []}
        ref = reference(spec)
        for i in range(n - 1):
            x = rng.random()
            if x < 0.35 and ref.trace:
                # a host library is replaced while the run is under way
                libs = [f for f in spec["files"] if "elf" in f]
                f = libs[rng.randrange(len(libs))]
                ts = [t for t in ref.trace if plan.real_op(t) and t[2].startswith("$T")]
                if not ts:
                    continue
                t = ts[rng.randrange(len(ts))]
                from . import elfgen

                new = elfgen.build(dict(f["elf"], tag=f["elf"].get("tag", "") + " upgraded" * rng.randint(1, 40)))
                yield {"spec": spec, "seed": 0, "faults": [plan.base(t, k="mutate", what={"act": "write", "path": f["path"], "hex": new.hex()})],
                       "any": 1}
            elif x < 0.5:
                s2 = dict(spec, procs=[*spec["procs"], copy.deepcopy(spec["procs"][0])])
                if rng.random() < 0.5:
                    s2["procs"][1]["argv"] = ["-v", *[a for a in s2["procs"][1]["argv"] if a not in ("-v", "--strip")]]
                yield {"spec": s2, "seed": rng.randrange(1 << 30), "faults": [], "any": 1, "multi": 1}
            else:
                yield disturb(rng, spec, ref)

    def judge(self, case):
        spec = case["spec"]
        ref = reference(dict(spec, procs=spec["procs"][:1]))
        s = run_case(case, sequential=not case.get("multi"))
        out = []
        pure = {e.out_name for e in self.expectations(dict(spec, procs=spec["procs"][:1])) if e.kind == "copy"}
        for _d, n, b in published(ref, s):
            if n in pure:
                continue
            STATS.distinct.add(digest(b))
            out += [self.v(v.kind, f"{n}: {v.msg} ({how(case)})") for v in O.check_record(b)]
        return out


class C05(Published):
    id = "C05"
    technique = "deterministic simulation; members of every published wheel compared with the input's, ELF files by an independent reader, shims by executing them"
    rule = "case = one repair with disturbances; non-trivial = distinct published wheels compared"
    worlds = {"quick": 400, "thorough": 6400}

    def world(self, rng):
        if rng.random() < 0.05:
            return easy(rng).pure_world()
        return repair_world(rng, strip=0.25, script=0.4, max_files=7)

    def one(self, e, name, data, case, s):
        STATS.distinct.add(digest(data))
        return O.check_payload(e, data)


class C06(Published):
    id = "C06"
    technique = "deterministic simulation; the dynamic loader's search re-enacted inside every published wheel against the reference resolution of the host"
    rule = "case = one repair with disturbances; non-trivial = distinct published wheels with at least one grafted library"
    worlds = {"quick": 450, "thorough": 7200}
    per_world = 3

    def world(self, rng):
        return repair_world(rng, inwheel=0.45, exclude=0.2, cycle=0.15, rpcopy=0.6, max_ext=3)

    def one(self, e, name, data, case, s):
        if O.grafted(e) if e.plan else False:
            STATS.distinct.add(digest(data))
        return O.check_graft(e, data)

    def overall(self, case, s, ref):
        out = []
        if len(case["spec"]["wheels"]) == 1 and world.ok(s.procs[0]):
            e = self.expectations(case["spec"])[0]
            if e.kind == "refuse" and e.why.startswith("library "):
                out.append(self.v("notfound", f"succeeds although {e.why} ({how(case)})"))
        return out


class C07(Published):
    id = "C07"
    technique = "deterministic simulation; tags of every published wheel checked against policy tables, symbol versions, architectures and ISA notes by a reference model; acceptance decided by the model"
    rule = "case = one repair with disturbances; non-trivial = distinct (file name tags, verdict) pairs reached"
    worlds = {"quick": 760, "thorough": 12160}
    per_world = 3

    def world(self, rng):
        if rng.random() < 0.5:
            more = rng.choice([{}, {"py2": 0.6, "max_ext": 4}, {**gen.EASY, "rpisa": 0.4, "rpdir": 0.88, "rpcopy": 1, "rporder": 1, "max_ext": 4}])
            if rng.random() < 0.15:
                # system libraries that only some policies allow, for later machines
                g = gen.Gen(rng, **{**gen.EASY, "plat": 0.85, "partial": 0.85, "sysisa": 0.7,
                                    "plats": ["manylinux1", "manylinux_2_12", "manylinux2014", "manylinux_2_24"]})
                return g.repair_world(arch="x86_64", libc="glibc")
            g = gen.Gen(rng, **{"plat": 0.6, "too_recent": 0.04, "black": 0.05, "isa": 0.06, "levels": [5, 3, 1], "exclude": 0.05, **more})
            return g.repair_world()
        return repair_world(rng, plat=0.5, isa=0.05, black=0.03)

    def cases(self, spec, rng, n):
        yield {"spec": spec, "seed": 0, "faults": []}
        ref = reference(spec)
        for _ in range(n - 1):
            yield {**disturb(rng, spec, ref)}

    def one(self, e, name, data, case, s):
        STATS.distinct.add(digest([name[:-4].rsplit("-", 1)[1], e.plan.a.overall.name if e.plan else ""]))
        return O.check_tags(e, name, data)

    def unexpected(self, name, case):
        return [self.v("unexpected", f"{name} was published, which the wheel does not satisfy ({how(case)})")]

    def overall(self, case, s, ref):
        out = []
        spec = case["spec"]
        p = s.procs[0]
        exps = self.expectations(spec)
        if any(e.kind == "refuse" for e in exps):
            if world.ok(p):
                e = next(e for e in exps if e.kind == "refuse")
                out.append(self.v("accepted", f"exit 0 for {e.in_name}, to be refused: {e.why} ({how(case)})"))
            STATS.distinct.add(digest([[e.why for e in exps]]))
        elif not case["faults"] and case.get("capacity") is None and not world.ok(p):
            out.append(self.v("refused", f"{exps[0].in_name} is refused, the model accepts it: {world.outcome(p)}; "
                              f"{s.procs[0].stderr.getvalue()[-200:]}"))
        return out


class C16(Published):
    id = "C16"
    technique = "deterministic simulation of the package managers with failing, missing and partial queries; the SBOM compared with the simulated package database"
    rule = "case = one repair with failing package queries; non-trivial = distinct published wheels with an SBOM expected or present"
    worlds = {"quick": 620, "thorough": 9920}
    per_world = 4

    def world(self, rng):
        return repair_world(rng, mgr=rng.choice(["dpkg", "dpkg", "rpm", "apk", "apt-file"]), rpcopy=0.5, prior=0.3)

    def cases(self, spec, rng, n):
        yield {"spec": spec, "seed": 0, "faults": []}
        ref = reference(spec)
        for _ in range(n - 1):
            if rng.random() < 0.75:
                c = fault_case(spec, rng, ref, ["tool", "tool", "tool", "errno"], lambda t: plan.is_pkg(t[2]), capacity=False, many=0.5)
                if c:
                    yield c
            else:
                yield disturb(rng, spec, ref)

    def one(self, e, name, data, case, s):
        degraded = any(plan.is_pkg(f["label"]) for f in s.faults if f["hits"])
        if O.expected_components(e) if e.plan else False:
            STATS.distinct.add(digest(data))
        return O.check_sbom(e, name, data, degraded)


# --------------------------------------------------------------------------- C08
class C08(Check):
    id = "C08"
    paired = True
    technique = "deterministic simulation; the same repair under different directory orders, clocks, hash seeds, temporary names, transfer sizes, time zones, directories and neighbours; outputs compared byte by byte"
    rule = "case = one wheel and host under 3-5 environments (and, across the two processes of a pair, two hash seeds); non-trivial = distinct outputs compared"
    worlds = {"quick": 150, "thorough": 2400}
    per_world = 3

    def world(self, rng):
        g = easy(rng, cycle=0.1, rpcopy=0.5, mgr=rng.choice([None, "dpkg", "rpm", "apk", "apt-file"]), noepoch=0.2, max_files=6)
        if rng.random() < 0.05:
            return g.pure_world()
        return g.repair_world()

    def variant(self, rng, spec, ref):
        v = {"knobs": gen.Gen(rng).knobs(), "seed": rng.randrange(1 << 30)}
        v["knobs"]["umask"] = spec["knobs"].get("umask", 0o022)
        if rng.random() < 0.4:
            v["tmpdir"] = rng.choice(["/var/tmp", "/home/u/t m p", "/scratch/deep/er"])
        if rng.random() < 0.4:
            v["cwd"] = rng.choice(["/home/u", "/work/dist", "/"])
        if rng.random() < 0.4:
            v["env"] = {"TZ": rng.choice(["JST-9", "EST5EDT,M3.2.0,M11.1.0", "UTC+7", "XXX-13:45"]), "LANG": rng.choice(["C", "de_DE.UTF-8"]),
                        "COLUMNS": "40"}
        if rng.random() < 0.4:
            v["faults"] = [f for f in (plan.make(rng, ref.trace, ["short", "short", "jump"], lambda t: True) for _ in range(3)) if f]
        if rng.random() < 0.3:
            v["leftover"] = rng.choice(["stale output", "temp files"])
        return v

    def cases(self, spec, rng, n):
        ref = reference(spec)
        if not ref.ok[0]:
            return
        for _ in range(n):
            yield {"spec": spec, "variants": [self.variant(rng, spec, ref) for _ in range(rng.randint(2, 4))]}

    def run(self, case, v):
        spec = copy.deepcopy(case["spec"])
        spec["knobs"] = v.get("knobs", {})
        p = spec["procs"][0]
        p.setdefault("env", {}).update(v.get("env", {}))
        if v.get("tmpdir"):
            p["tmpdir"] = v["tmpdir"]
            spec["files"] = [*spec["files"], {"path": v["tmpdir"], "dir": True, "uid": 1000}]
        a = p["argv"]
        if v.get("cwd"):
            for i, x in enumerate(a):
                if x.endswith(".whl") or i and a[i - 1] == "-w":
                    a[i] = posixpath.normpath(posixpath.join("/work", x))
            if "-w" not in a:
                i = a.index("repair") + 1
                a[i:i] = ["-w", p["wheel_dir"]]
            p["cwd"] = v["cwd"]
        if v.get("leftover") == "temp files":
            spec["files"] = [*spec["files"], {"path": f"{p['wheel_dir']}", "dir": True, "uid": 1000},
                             {"path": f"{p['wheel_dir']}/.auditwheel-abc/x", "text": "left", "uid": 1000},
                             {"path": "/tmp/tmpabcdefgh/pkg/x.so", "text": "left", "uid": 1000}]
        s = simulate(spec, faults=v.get("faults", ()), seed=v.get("seed", 0))
        ref = reference(case["spec"])
        out = {}
        for _d, n, b in published(ref, s):
            out[n] = b
        return world.ok(s.procs[0]), out

    def judge(self, case):
        ref = reference(case["spec"])
        if not ref.ok[0]:
            return []
        dts = dated(case["spec"]["procs"][0])
        want = {n: b for d in ref.dirs for n, b in ref.outs[d].items()}
        out = []
        for v in case["variants"]:
            ok, got = self.run(case, v)
            tell = ", ".join(f"{k}={dumps(x)[:120]}" for k, x in sorted(v.items()) if k != "seed")
            if not ok:
                out.append(self.v("fails", f"fails in another environment ({tell})"))
                continue
            if sorted(got) != sorted(want):
                out.append(self.v("names", f"publishes {sorted(got)} instead of {sorted(want)} ({tell})"))
                continue
            for n in want:
                STATS.distinct.add(digest(want[n]))
                if canon(got[n], dts) != canon(want[n], dts):
                    out.append(self.v("bytes", f"{n} is not reproducible: {first_diff(want[n], got[n], dts)} ({tell})"))
        return out[:1]

    def fingerprint(self, case):
        ref = reference(case["spec"])
        dts = dated(case["spec"]["procs"][0])
        return digest([[n, str(canon(b, dts))] for d in ref.dirs for n, b in sorted(ref.outs[d].items())])


# --------------------------------------------------------------------------- C09
def split_procs(spec):
    """The batch as separate commands on the same host, one after another."""
    p = spec["procs"][0]
    files = [a for a in p["argv"] if a.endswith(".whl")]
    rest = [a for a in p["argv"] if not a.endswith(".whl")]
    return dict(spec, procs=[dict(p, argv=[*rest, f]) for f in files])


class C09(Check):
    id = "C09"
    technique = "deterministic simulation of whole batches in one process, of histories of commands in one process, and of the same commands in separate processes; outputs compared"
    rule = "case = a batch (with or without a fault in one wheel) or a history of commands; non-trivial = distinct batches with at least two wheels processed"
    worlds = {"quick": 130, "thorough": 2080}
    per_world = 5

    def world(self, rng):
        g = easy(rng, plat=0.08)
        spec = g.batch_world()
        if len(spec["wheels"]) < 2:
            return None
        if rng.random() < 0.3:
            r = spec["wheels"]
            rng.shuffle(r)
        return spec

    def cases(self, spec, rng, n):
        yield {"spec": spec, "mode": "batch", "faults": []}
        ref = reference(spec)
        for _ in range(n - 1):
            x = rng.random()
            if x < 0.45:
                c = fault_case(spec, rng, ref, ["errno", "errno", "tool", "mem", "intr"], capacity=False)
                if c:
                    yield {**c, "mode": "batch"}
            elif x < 0.6:
                s2 = copy.deepcopy(spec)
                a = s2["procs"][0]["argv"]
                fs = [x for x in a if x.endswith(".whl")]
                rng.shuffle(fs)
                s2["procs"][0]["argv"] = [x for x in a if not x.endswith(".whl")] + fs
                yield {"spec": s2, "mode": "batch", "faults": []}
            else:
                # a history of commands in one process
                p = spec["procs"][0]
                fs = [a for a in p["argv"] if a.endswith(".whl")]
                steps = []
                host = [f["path"] for f in spec["files"] if "elf" in f]
                for _ in range(rng.randint(2, 5)):
                    y = rng.random()
                    f = fs[rng.randrange(len(fs))]
                    if y < 0.5:
                        steps.append([*[a for a in p["argv"] if not a.endswith(".whl")], f])
                    elif y < 0.85:
                        steps.append(["show", "--json", f])
                    else:
                        steps.append(["lddtree", host[rng.randrange(len(host))]])
                yield {"spec": spec, "mode": "history", "steps": steps}

    def judge(self, case):
        return self.history(case) if case["mode"] == "history" else self.batch(case)

    def batch(self, case):
        spec = case["spec"]
        p = spec["procs"][0]
        sep = split_procs(spec)
        ind = reference(sep)  # separate processes, one after another
        d = p["wheel_dir"]
        s = run_case(case)
        got = whls(s.vfs, d)
        before = ind.before[d]
        dts = dated(p)
        ok = world.ok(s.procs[0])
        faulted = bool(case.get("faults"))
        # what each separate command leaves behind, up to the first failure
        n_ok = next((i for i, x in enumerate(ind.ok) if not x), len(ind.ok))
        prefixes = self.prefixes(sep)
        out = []
        if n_ok >= 2:
            STATS.distinct.add(digest([sorted(prefixes[n_ok]), case.get("faults", [])]))
        if not faulted:
            if ok != all(ind.ok):
                out.append(self.v("status", f"the batch {'succeeds' if ok else 'fails'}, the separate commands give {ind.ok}: "
                                  f"{world.outcome(s.procs[0])}"))
            want = prefixes[n_ok]
            e = self.differ(want, got, dts)
            if e:
                out.append(self.v("outputs", f"the batch leaves other wheels than separate commands: {e}"))
        else:
            if ok and not all(ind.ok):
                out.append(self.v("status", f"the batch succeeds ({how(case)})"))
            if ok:
                e = self.differ(prefixes[len(ind.ok)], got, dts)
                if e:
                    out.append(self.v("outputs", f"the batch leaves other wheels than separate commands: {e} ({how(case)})"))
            elif not any(self.differ(w, got, dts) is None for w in prefixes[: n_ok + 1]):
                out.append(self.v("prefix", f"a failed batch leaves {sorted(set(got) - set(before))}, which is not what some "
                                  f"number of its first wheels gives ({how(case)})"))
        return out

    def prefixes(self, sep):
        """contents of the wheel directory after 0, 1, 2, ... separate commands"""
        d = sep["procs"][0]["wheel_dir"]
        key = dumps(sep)
        c = self.__dict__.setdefault("_pre", {})
        if key not in c:
            c.clear()
            out = [dict(reference(sep).before[d])]
            s = world.make_sim(sep)
            for p in sep["procs"]:
                from .check import go

                q = world.add_proc(s, p)
                go(s, [q])
                out.append(whls(s.vfs, d))
            c[key] = out
        return c[key]

    @staticmethod
    def differ(want, got, dts):
        for n in sorted({*want, *got}):
            if n not in got:
                return f"{n} is missing"
            if n not in want:
                return f"{n} is extra"
            if want[n] != got[n] and canon(want[n], dts) != canon(got[n], dts):
                return f"{n}: {first_diff(want[n], got[n], dts)}"
        return None

    def history(self, case):
        """The same commands in one process and in a process each."""
        spec = case["spec"]
        base = spec["procs"][0]
        d = base["wheel_dir"]
        procs = [dict(base, argv=a) for a in case["steps"]]
        sep = reference(dict(spec, procs=procs))
        log = []

        def entry(p):
            from auditwheel.main import main
            import sys

            for a in case["steps"]:
                p.stdout.seek(0)
                p.stdout.truncate()
                sys.argv[:] = ["auditwheel", *a]
                try:
                    rc = main() or 0
                except SystemExit as exc:
                    rc = exc.code if isinstance(exc.code, int) else (0 if exc.code is None else 1)
                except Exception as exc:  # noqa: BLE001
                    rc = 1
                    p.outcome["exc"] = type(exc).__name__
                log.append((rc == 0, p.stdout.getvalue() if a[0] == "show" else ""))
            return 0

        s = simulate(dict(spec, procs=[dict(base, argv=case["steps"][0])]), entries=[entry])
        if not world.ok(s.procs[0]):
            return [self.v("history", f"the process ends with {world.outcome(s.procs[0])}")]
        STATS.distinct.add(digest(case["steps"]))
        want = [(sep.ok[i], sep.stdout[i] if a[0] == "show" else "") for i, a in enumerate(case["steps"])]
        for i, (x, y) in enumerate(zip(want, log)):
            if x[0] != y[0]:
                return [self.v("historystatus", f"step {i} {case['steps'][i]} {'succeeds' if y[0] else 'fails'} only after other commands in the same process")]
            if x[1] != y[1]:
                return [self.v("historyshow", f"step {i} {case['steps'][i]} reports something else after other commands in the same process")]
        e = self.differ(sep.after[d], whls(s.vfs, d), dated(base))
        if e:
            return [self.v("historyout", f"commands in one process leave other wheels than in separate ones: {e}")]
        return []


# --------------------------------------------------------------------------- C10
class C10(Check):
    id = "C10"
    technique = "deterministic simulation of 2-4 concurrent auditwheel processes; a seeded scheduler picks the interleaving of their operations, with kills"
    rule = "case = 2-4 processes under one interleaving, with or without kills; non-trivial = distinct interleavings executed"
    worlds = {"quick": 84, "thorough": 1344}
    per_world = 6

    def world(self, rng):
        g = easy(rng)
        spec = g.base()
        same = rng.random() < 0.4
        n = rng.choices([2, 3, 4], [6, 3, 1])[0]
        if same:
            w = g.wheel()
            spec["wheels"] = [w]
            p = g.repair_argv([w])
            spec["procs"] = [copy.deepcopy(p) for _ in range(n)]
        else:
            ws = [g.wheel(i) if rng.random() < 0.9 else g.pure_wheel(i) for i in range(n)]
            spec["wheels"] = ws
            ps = [g.repair_argv([w]) for w in ws]
            for i, (p, w) in enumerate(zip(ps, ws)):
                if w["name"].startswith(("pure", "Pure")):
                    p["argv"].insert(p["argv"].index("repair") + 1, "--allow-pure-python-wheel")
            for p in ps[1:]:
                self.set_dir(p, ps[0]["wheel_dir"])
            spec["procs"] = ps
        if rng.random() < 0.15:
            w = spec["wheels"][0]
            spec["procs"].append({"argv": ["show", "--json", w["path"]], "env": dict(spec["procs"][0]["env"]), "cwd": "/work"})
        return spec

    @staticmethod
    def set_dir(p, d):
        a = p["argv"]
        if "-w" in a:
            a[a.index("-w") + 1] = d
        else:
            i = a.index("repair") + 1
            a[i:i] = ["-w", d]
        p["wheel_dir"] = d

    def alone(self, spec):
        """Each process alone on the initial host."""
        return [reference(dict(spec, procs=[p])) for p in spec["procs"]]

    def cases(self, spec, rng, n):
        refs = self.alone(spec)
        for _ in range(n):
            fs = []
            if rng.random() < 0.45:
                for _ in range(rng.randint(1, 2)):
                    i = rng.randrange(len(refs))
                    f = plan.make(rng, refs[i].trace, ["kill", "kill", "kill", "errno", "intr"], not_exempt)
                    if f:
                        f["proc"] = i
                        fs.append(f)
            yield {"spec": spec, "seed": rng.randrange(1 << 30), "faults": fs, "sw": rng.choice([0.02, 0.1, 0.3, 0.7])}

    def judge(self, case):
        spec = case["spec"]
        refs = self.alone(spec)
        dirs = sorted({p["wheel_dir"] for p in spec["procs"] if "wheel_dir" in p})
        v0 = O.host_vfs(spec)
        before = {d: whls(v0, d) for d in dirs}
        allowed = {}
        for p, r in zip(spec["procs"], refs):
            for d in r.dirs:
                for n, b in r.outs[d].items():
                    allowed.setdefault((d, n), set()).add(canon(b, dated(p)))
        flags = {(d, n): {dated(p) for p in spec["procs"] if p.get("wheel_dir") == d} for (d, n) in allowed}
        last = {}

        def monitor(s):
            for d in dirs:
                try:
                    node = s.vfs.get(d)
                except OSError:
                    continue
                for n, x in node.children.items():
                    if not n.endswith(".whl") or x.kind != "f":
                        continue
                    b = bytes(x.data)
                    if last.get((d, n)) == b:
                        continue
                    if before[d].get(n) != b and not any(canon(b, f) in allowed.get((d, n), ()) for f in flags.get((d, n), ())):
                        return f"{n} in the wheel directory is not what any of the processes publishes alone"
                    last[d, n] = b
                for n in before[d]:
                    if n not in node.children:
                        return f"{n} vanished"
            return None

        s = world.make_sim(spec, faults=case["faults"], seed=case["seed"], schedule=case.get("schedule"))
        s.switch_prob = case.get("sw", 0.15)
        s.invariants = [monitor]
        for p in spec["procs"]:
            world.add_proc(s, p)
        from .check import go

        go(s, s.procs, sequential=False)
        case_sched = s.schedule_out
        if "schedule" not in case:
            self.last_schedule = case_sched
        STATS.distinct.add(digest(s.schedule_out))
        out = []
        if s.violation:
            out.append(self.v("torn", f"{s.violation['msg']} ({how(case)})"))
        hit = {f.get("proc", 0) for f in s.faults if f["hits"]}
        for i, (p, q, r) in enumerate(zip(spec["procs"], s.procs, refs)):
            if i in hit:
                continue
            if world.ok(q) != r.ok[0]:
                out.append(self.v("status", f"process {i} ends with {world.outcome(q)}, alone with {r.outcomes[0]} ({how(case)})"))
                continue
            if q.stdout.getvalue() != r.stdout[0]:
                out.append(self.v("stdout", f"process {i} prints something else than alone"))
            if not r.ok[0]:
                continue
            for d in r.dirs:
                now = whls(s.vfs, d)
                for n in r.outs[d]:
                    if n not in now:
                        out.append(self.v("lost", f"process {i} succeeded but {n} is not in the wheel directory ({how(case)})"))
        return out

    def with_schedule(self, case):
        """The case with its schedule written out."""
        self.judge({k: v for k, v in case.items() if k != "schedule"})
        return {**case, "schedule": [list(x) for x in self.last_schedule]}


# --------------------------------------------------------------------------- C11
class C11(Check):
    id = "C11"
    count_sites = True
    technique = "deterministic simulation; failures, interrupts and allocation failures at seeded operations; directories compared after the process has ended"
    rule = "case = one repair, show or lddtree command (or library use) with injected failures; non-trivial = distinct (operation, site class, fault) that fired"
    worlds = {"quick": 360, "thorough": 5760}
    per_world = 10

    def world(self, rng):
        x = rng.random()
        if x < 0.15:
            return gen.Gen(rng).show_world()
        if x < 0.2:
            g = easy(rng)
            spec = g.base()
            cand = [f["path"] for f in spec["files"] if "elf" in f]
            spec["procs"] = [{"argv": ["lddtree", g.pick(cand)], "env": {}, "cwd": "/work"}]
            return spec
        if x < 0.3:
            return gen.Gen(rng).repair_world()
        return mixed_repair_world(rng)

    def cases(self, spec, rng, n):
        ref = reference(spec)
        yield {"spec": spec, "seed": 0, "faults": [], "lib": 1}
        for _ in range(n - 1):
            c = fault_case(spec, rng, ref, ["errno"] * 4 + ["intr", "intr", "mem", "tool"], lambda t: True)
            if c:
                if rng.random() < 0.3:
                    c["lib"] = 1
                yield c

    def judge(self, case):
        spec = case["spec"]
        entries = None
        if case.get("lib"):
            # used as a library: the caller goes on after the failure
            def entry(p):
                from auditwheel.main import main

                try:
                    p.outcome["rc"] = main()
                except SystemExit:
                    pass
                except (Exception, KeyboardInterrupt):  # noqa: BLE001
                    pass
                return 0

            entries = [entry] * len(spec["procs"])
        s = simulate(spec, faults=case.get("faults", ()), seed=0, capacity=case.get("capacity"), entries=entries)
        p = s.procs[0]
        if p.outcome.get("status") in ("killed", "stuck") or p.outcome.get("late"):
            return []
        fired = [f for f in s.faults if f["hits"]]
        if any(f.get("cleanup") for f in fired):
            return []  # the clean-up itself was made to fail
        if any(f["k"] in ("intr", "mem") and f["op"] == "mkdir" for f in fired):
            return []  # between mkdir's success and its registration nothing can clean up
        tmp = spec["procs"][0].get("tmpdir", "/tmp")
        out = []
        left = sorted(s.vfs.listdir(tmp)) if s.vfs.exists(tmp) else []
        if left:
            out.append(self.v("tmp", f"{len(left)} entries are left in the temporary directory ({how(case)})"))
        v0 = O.host_vfs(spec)
        for d in sorted({posixpath.dirname(w["path"]) for w in spec["wheels"]} | {p0["wheel_dir"] for p0 in spec["procs"] if "wheel_dir" in p0} | {"/work", "/home/u", "/"}):
            now = set(s.vfs.listdir(d)) if s.vfs.exists(d) else set()
            was = set(v0.listdir(d)) if v0.exists(d) else set()
            # directories of the wheel directory's path may be new
            new = {n for n in now - was if not n.endswith(".whl")
                   and not any((q["wheel_dir"] + "/").startswith(posixpath.join(d, n) + "/") for q in spec["procs"] if "wheel_dir" in q)}
            if new:
                out.append(self.v("residue", f"{sorted(re.sub('-[a-z0-9_]{8}$', '-*', x) for x in new)} left in {d} ({how(case)})"))
        if case.get("lib") and not any(f["op"] == "chdir" for f in fired):
            want = spec["procs"][0].get("cwd", "/work")
            if p.final_cwd != want:
                out.append(self.v("cwd", f"the current directory is {p.final_cwd and p.final_cwd[:5]} afterwards instead of {want} ({how(case)})"))
        return out


# --------------------------------------------------------------------------- C12
_schema = None


def schema():
    global _schema
    if _schema is None:
        import jsonschema

        with open(os.path.join(seam.SRC, "auditwheel", "show-schema.json"), encoding="utf-8") as f:
            _schema = jsonschema.Draft202012Validator(json.load(f))
    return _schema


class C12(Check):
    id = "C12"
    technique = "deterministic simulation of show against a reference model of the verdict; seeded faults on every operation must give the same output or a failure"
    rule = "case = one show command, fault-free or with 1-3 faults; non-trivial = distinct verdicts (JSON documents or texts)"
    worlds = {"quick": 850, "thorough": 13600}
    per_world = 5

    def world(self, rng):
        x = rng.random()
        o = {} if x < 0.5 else dict(too_recent=0.03, black=0.06, isa=0.06, levels=[4, 3, 1])
        if x > 0.85:
            o = gen.EASY
        elif rng.random() < 0.2:
            o["zlib"] = 0.7
        g = gen.Gen(rng, **o)
        if rng.random() < 0.06:
            spec = g.base()
            w = g.pure_wheel()
            spec["wheels"] = [w]
            pr = g.show_argv(w)
            if g.p(0.6):
                pr["argv"].insert(1, "--allow-pure-python-wheel")
            spec["procs"] = [pr]
        elif rng.random() < 0.12:
            spec = self.repaired(g)
        else:
            spec = g.show_world()
        if "--json" not in spec["procs"][0]["argv"] and rng.random() < 0.6:
            spec["procs"][0]["argv"].insert(0, "-v")
        if rng.random() < 0.2:
            hostile(g, spec)
        return spec

    def promise(self, spec, ok, out):
        """The verdict on the output of a repair is at least the tags that the repair put into its name."""
        if not spec.get("promise") or "--json" not in spec["procs"][0]["argv"]:
            return []
        name = posixpath.basename(spec["wheels"][0]["path"])
        prio = {n: p["priority"] for lc in ("glibc", "musl") for p in gen.policy_data(lc) for n in [p["name"], *p["aliases"]]}
        tag = lambda t: prio.get(re.sub(r"_(?:" + "|".join(gen.ARCH) + r"|armv8l|i386)$", "", t), 0)
        want = max(map(tag, spec["promise"]), default=0)
        try:
            got = json.loads(out)["overall_tag"]
        except (ValueError, KeyError):
            got = None
        if not ok or got is None or tag(got) < want:
            return [self.v("promise", f"a repair made {name}; show says {got}")]
        return []

    def repaired(self, g):
        """A wheel that a repair made, shown on the same host or on one without the libraries it grafted."""
        spec = g.repair_world()
        ref = reference(spec)
        outs = [(d, n, b) for d in ref.dirs for n, b in sorted(ref.outs[d].items())]
        if not ref.ok[0] or not outs:
            return g.show_world()
        d, n, b = g.pick(outs)
        pr = spec["procs"][0]
        libs = {f["path"] for f in spec["files"] if "elf" in f and f["elf"].get("tag", "").startswith("host ")}
        if g.p(0.5):
            spec["files"] = [f for f in spec["files"] if f["path"] not in libs]
        plain = not any(a.startswith(("--exclude", "--disable")) for a in pr["argv"])
        was = [posixpath.basename(w["path"]) for w in spec["wheels"]]
        w = {"path": f"{d}/{n}", "raw": b.hex(), "members": []}
        spec["wheels"] = [w]
        env = {k: x for k, x in pr["env"].items() if "LIBRARY_PATH" in k}
        spec["procs"] = [g.show_argv(w)]
        if plain and g.p(0.7):
            spec["procs"][0]["env"] = env
            if g.libc != "android" and spec["procs"][0]["env"] == env:
                had = {t for x in was for t in x[:-4].rsplit("-", 1)[1].split(".")}
                spec["promise"] = [t for t in n[:-4].rsplit("-", 1)[1].split(".") if t not in had]
        return spec

    def cases(self, spec, rng, n):
        yield {"spec": spec, "seed": 0, "faults": []}
        ref = reference(spec)
        for _ in range(n - 1):
            c = fault_case(spec, rng, ref, ["errno"] * 5 + ["mem", "short", "tool", "jump"])
            if c:
                yield c

    def judge(self, case):
        spec = case["spec"]
        s = run_case(case)
        p = s.procs[0]
        ok = world.ok(p)
        out = p.stdout.getvalue()
        if not case["faults"] and case.get("capacity") is None:
            STATS.distinct.add(digest(re.sub(r'"wheel": .*', "", out)))
            return self.promise(spec, ok, out) + [
                self.v(v.kind, v.msg) for v in O.check_show(spec, spec["procs"][0], spec["wheels"][0], ok, out, schema())]
        ref = reference(spec)
        if ok and not ref.ok[0]:
            return [self.v("faultok", f"succeeds where the undisturbed run fails ({how(case)})")]
        if (ok or out) and out != ref.stdout[0] and not (not ok and ref.stdout[0].startswith(out)):
            if '"error"' in out and not ok:
                return []
            return [self.v("faultdiff", f"reports another verdict ({how(case)})")]
        return []


# --------------------------------------------------------------------------- C13
def hostile(g, spec):
    """Odd but legal host layouts: link loops, dangling links, links to directories."""
    r = g.r
    names = sorted({posixpath.basename(f["path"]) for f in spec["files"] if "elf" in f and ".so" in f["path"]})
    have = {f["path"] for f in spec["files"]}
    search = [*g.search, *g.env_dirs]
    for _ in range(r.randint(1, 4)):
        n = g.pick(names)
        d = g.pick(search)
        p = g.at(f"{d}/{n}")
        if p in have:
            continue
        x = r.random()
        if x < 0.35:
            spec["files"].append({"path": p, "link": n})  # a link to itself
        elif x < 0.55:
            spec["files"] += [{"path": p, "link": f"/loop/{n}"}, {"path": f"/loop/{n}", "link": p}]
            have.add(f"/loop/{n}")
        elif x < 0.8:
            spec["files"].append({"path": p, "link": "/no/such/file"})
        else:
            src = g.pick([q for q in sorted(have) if posixpath.basename(q) == n] or ["/nowhere/x"])
            chain = f"/chain/{n}"
            if chain not in have:
                spec["files"] += [{"path": p, "link": f"../../../../..{chain}"}, {"path": chain, "link": src}]
                have.add(chain)
        have.add(p)
    seen = set()
    spec["files"][:] = [f for f in spec["files"] if not (f["path"] in seen or seen.add(f["path"]))]


class C13(Check):
    id = "C13"
    technique = "deterministic simulation of lddtree over generated hosts against a reference model of the loader's search; step bound for termination; seeded faults"
    rule = "case = lddtree on one file of a generated host; non-trivial = distinct resolution results"
    worlds = {"quick": 2400, "thorough": 38400}
    per_world = 4

    def world(self, rng):
        g = gen.Gen(rng, **{**gen.EASY, "cycle": 0.3, "rpcopy": 0.6, **rng.choice([{}, {"rpdir": 0.3, "librp": 0.4}])})
        spec = g.base(nlibs=rng.randint(2, 9))
        g.o = dict(g.o, max_ext=2)
        if rng.random() < 0.75:
            hostile(g, spec)
        env = {}
        if g.env_dirs:
            a = list(g.env_dirs)
            rng.shuffle(a)
            if len(a) > 1 and rng.random() < 0.5:
                env = {"LD_LIBRARY_PATH": a[0], "AUDITWHEEL_LD_LIBRARY_PATH": a[1]}
            else:
                env = {g.pick(["LD_LIBRARY_PATH", "AUDITWHEEL_LD_LIBRARY_PATH"]): ":".join([*a, *rng.choice([[], ["/nowhere"], [g.pick(g.search)]])])}
        for f in spec["files"]:
            # both tags at once, and odd spellings
            e = f.get("elf")
            if e and rng.random() < 0.08:
                e["rpath"], e["runpath"] = rng.choice(["/rp/x", "$ORIGIN/../lib"]), rng.choice(["/rp/y/lib", "/rp/y/lib:/nowhere", "/nowhere"])
            elif e and rng.random() < 0.1:
                e[rng.choice(["rpath", "runpath"])] = rng.choice(
                    ["/rp/x/:/rp//y/lib", "$ORIGIN/", "${ORIGIN}/../lib64", "/rp/x/../y/lib", "$ORIGIN/.:/rp/x:/rp/x", "/usr/lib/../lib64"])
        if g.libc == "glibc" and rng.random() < 0.3:
            self.confs(g, spec)
        seen = set()
        spec["files"] = [f for f in spec["files"] if not (f["path"] in seen or seen.add(f["path"]))]
        cand = [f["path"] for f in spec["files"] if "elf" in f]
        targets = rng.sample(cand, min(len(cand), 3))
        # an executable and a symbolic link as starting points
        e = dict(rng.choice([f for f in spec["files"] if "elf" in f])["elf"])
        e = dict(e, interp=gen.ARCH[spec["arch"]][3] if g.libc == "glibc" else "/lib/ld-musl-x.so.1", tag="prog")
        if rng.random() < 0.5:
            e.pop("runpath", None), e.pop("rpath", None)
            e[rng.choice(["rpath", "rpath", "runpath"])] = rng.choice(["/rp/x:/rp/y/lib", "/rp/y/lib:/rp/x", "/rp/x", "$ORIGIN:/rp/y/lib"])
        if g.libc != "android":
            if rng.random() < 0.3 and g.libs:
                # a loader of its own, which also searches its own directory
                d = rng.choice(["/opt/ld/lib", "/opt/ld/lib64", "/lib64"])
                e["interp"] = f"{d}/{posixpath.basename(e['interp'])}"
                L = rng.choice(g.libs)
                f = next((f for f in spec["files"] if f["path"] == L["real"]), None)
                if f and "elf" in f:
                    if rng.random() < 0.7:
                        spec["files"] = [x for x in spec["files"] if not x["path"].endswith("/" + L["soname"]) and x is not f]
                    spec["files"].append({"path": g.at(rng.choice(["", "/usr"]) + f"{d}/{L['soname']}"), "elf": dict(f["elf"], tag="by the loader")})
                    if L["soname"] not in e.get("needed", ()):
                        e["needed"] = [*e.get("needed", ()), L["soname"]]
                    if rng.random() < 0.6:
                        spec["files"].append({"path": g.at(e["interp"]), "mode": 0o755, "elf": {"arch": spec["arch"], "soname": posixpath.basename(e["interp"])}})
            have = {}
            for x in [*spec["files"], {"path": "/work/prog", "elf": e, "mode": 0o755}]:
                have.setdefault(x["path"], x)
            spec["files"] = list(have.values())
            targets = [x for x in targets if x in have]
            targets.append("/work/prog")
        spec["targets"] = targets
        spec["tenv"] = env
        spec["ldpaths"] = ":".join(rng.sample(g.search, min(2, len(g.search)))) if rng.random() < 0.1 or g.libc == "android" else None
        return spec

    @staticmethod
    def confs(g, spec):
        """More involved loader configuration."""
        r = g.r
        spec["files"] = [f for f in spec["files"] if f["path"] != "/etc/ld.so.conf"]
        dirs = [f"/opt/c{i}/lib" for i in range(4)]
        libs = [f for f in spec["files"] if "elf" in f and "/opt/" not in f["path"]]
        for d in dirs:
            if libs and g.p(0.7):
                f = g.pick(libs)
                spec["files"].append({"path": f"{d}/{posixpath.basename(f['path'])}",
                                      "elf": dict(f["elf"], tag=f"{d} copy")})
        lines = []
        for d in dirs:
            x = r.random()
            if x < 0.3:
                lines.append(d + g.pick(["", "  # c", "/", "\t", "#c", "#"]))
            elif x < 0.6:
                n = f"ld.so.conf.d/{g.pick('abc')}{dirs.index(d)}.conf"
                spec["files"].append({"path": f"/etc/{n}", "text": f"\n#x\n{d}\n" + ("include more/*.conf\n" if g.p(0.3) else "")})
                lines.append(f"include {n}")
            elif x < 0.8:
                spec["files"].append({"path": f"/etc/ld.so.conf.d/more/{g.pick('xy')}.conf", "text": f"{d}"})
                lines.append(g.pick(["include ld.so.conf.d/more/*.conf", "include /etc/ld.so.conf.d/more/?.conf", "include   ld.so.conf.d/more/*.conf"]))
            else:
                lines.append(f"include /etc/none/*.conf")
        if g.p(0.5):
            lines.append("include ld.so.conf.d/*.conf")
        r.shuffle(lines)
        spec["files"].append({"path": "/etc/ld.so.conf", "text": "\n".join(lines) + "\n"})

    def cases(self, spec, rng, n):
        for t in spec["targets"]:
            argv = ["lddtree", *(["--ldpaths", spec["ldpaths"]] if spec["ldpaths"] else []), t]
            s2 = {k: v for k, v in spec.items() if k not in ("targets", "tenv", "ldpaths")}
            s2["procs"] = [{"argv": argv, "env": spec["tenv"], "cwd": "/work"}]
            yield {"spec": s2, "seed": 0, "faults": [], "target": t}
            if rng.random() < 0.4:
                ref = reference(s2)
                c = fault_case(s2, rng, ref, ["errno", "errno", "short", "mem"], capacity=False)
                if c:
                    yield {**c, "target": t}

    @staticmethod
    def document(text):
        try:
            return json.loads(text[text.index("{\n"): text.rindex("}") + 1])
        except ValueError:
            return None

    def judge(self, case):
        spec = case["spec"]
        s = run_case(case)
        p = s.procs[0]
        if p.outcome.get("status") == "stuck":
            return [self.v("stuck", f"does not terminate ({how(case)})")]
        ok = world.ok(p)
        text = p.stderr.getvalue()
        if case["faults"]:
            if ok:
                ref = reference(spec)
                if self.document(text) != self.document(ref.stderr[0]):
                    return [self.v("faultdiff", f"another tree is reported ({how(case)})")]
            return []
        try:
            O.expect_tree(spec, spec["procs"][0], case["target"])
            want_ok = True
        except O.R.Refuse:
            want_ok = False
        if ok != want_ok:
            return [self.v("status", f"lddtree {'succeeds' if ok else 'fails'}: {world.outcome(p)}")]
        if not ok:
            return []
        doc = self.document(text)
        if doc is None:
            return [self.v("nodoc", "no document is printed")]
        STATS.distinct.add(digest(doc))
        return [self.v(v.kind, v.msg) for v in O.check_tree(spec, spec["procs"][0], case["target"], doc)]


# --------------------------------------------------------------------------- C14
class C14(Check):
    id = "C14"
    technique = "deterministic simulation of crash-and-retry histories on one disk, and of repairing the result again"
    rule = "case = 1-3 killed or failed attempts followed by a clean one on the same disk, then a repair of the result; non-trivial = distinct histories of faults that fired"
    worlds = {"quick": 160, "thorough": 2560}
    per_world = 6

    def world(self, rng):
        spec = mixed_repair_world(rng, batch=0.1, plat=rng.choice([0.25, 0.8]))
        return add_old_outputs(spec, rng, 0.2)

    def cases(self, spec, rng, n):
        ref = reference(spec)
        for i in range(n):
            attempts = []
            for _ in range(rng.randint(1, 3)):
                c = fault_case(spec, rng, ref, ["kill", "kill", "kill", "errno", "tool", "intr", "mem"], capacity=False, many=0.1)
                if c:
                    attempts.append(c["faults"])
            yield {"spec": spec, "attempts": attempts, "again": int(i % 3 == 0)}

    def judge(self, case):
        from .check import go

        spec = case["spec"]
        ref = reference(spec)
        p = spec["procs"][0]
        faults = []
        for i, fs in enumerate(case["attempts"]):
            faults += [dict(f, proc=i) for f in fs]
        s = world.make_sim(spec, faults=faults, seed=0)
        for _ in case["attempts"]:
            go(s, [world.add_proc(s, p)])
        q = world.add_proc(s, p)
        go(s, [q])
        STATS.distinct.add(digest([[f["op"], f["label"], f["nth"], f["k"]] for f in s.faults if f["hits"]]))
        tell = " / ".join(how({"faults": fs}) for fs in case["attempts"])
        if world.ok(q) != ref.ok[0]:
            return [self.v("retry", f"after {tell}: the retry ends with {world.outcome(q)}, a first run with {ref.outcomes[0]}")]
        out = []
        if ref.ok[0]:
            d = outputs_differ(ref, s, spec)
            if d and "--strip" in p["argv"]:
                # a wheel replaced in place is stripped a second time
                ins = {w["path"] for w in spec["wheels"]}
                for wd in ref.dirs:
                    for n, b in whls(s.vfs, wd).items():
                        if f"{wd}/{n}" in ins and n in ref.after[wd] and self.stripped(b) == self.stripped(ref.after[wd][n]):
                            s.vfs.put(f"{wd}/{n}", ref.after[wd][n])
                d = outputs_differ(ref, s, spec)
            if d:
                out.append(self.v("retrydiff", f"after {tell}: {d}"))
        if case.get("again") and ref.ok[0] and not out:
            out += self.again(case, s, ref)
        return out

    @staticmethod
    def stripped(b):
        """A wheel's members; of ELF files what strip preserves (running strip again rewrites the rest)."""
        out = [None]
        try:
            for n, m in O.members(b).items():
                d = dyn(m[0]) if m[0][:4] == b"\x7fELF" else None
                if not n.endswith(".dist-info/RECORD"):
                    out.append((n, d or digest(m[0]), m[1]))
        except Exception:  # noqa: BLE001
            out.append(digest(b))
        return out

    def again(self, case, s, ref):
        """Repair the published wheels again with the same options."""
        from .check import go

        spec = case["spec"]
        p = copy.deepcopy(spec["procs"][0])
        d = p["wheel_dir"]
        env = O.proc_env(p)
        o = O.R.parse_args(p["argv"], env)
        if not ref.outs[d]:
            return []
        if any(b.startswith("/") for a, b in zip(p["argv"], p["argv"][1:]) if a == "--exclude"):
            return []  # excluded by its place on the host: that is found through the rpath which repairing removes
        out = []
        for n, b in sorted(ref.outs[d].items()):
            if n == "" or f"{d}/{n}" in [w["path"] for w in spec["wheels"]]:
                continue
            argv = []
            skip = False
            for a in p["argv"]:
                if skip:
                    skip = False
                    continue
                if a == "-w":
                    skip = True
                    continue
                if a.endswith(".whl"):
                    continue
                argv.append(a)
            argv += ["-w", "/work/again", f"{d}/{n}"]
            q = world.add_proc(s, dict(p, argv=argv, wheel_dir="/work/again"))
            go(s, [q])
            if not world.ok(q):
                out.append(self.v("again", f"repairing the repaired {n} fails: {world.outcome(q)} {q.stderr.getvalue()[-200:]}"))
                continue
            got = whls(s.vfs, "/work/again")
            if list(got) != [n]:
                out.append(self.v("againname", f"repairing the repaired {n} gives {list(got)}"))
            else:
                a, c = canon(b, False), canon(got[n], False)
                if sorted(map(str, a[1:])) != sorted(map(str, c[1:])):
                    out.append(self.v("againdiff", f"repairing the repaired {n} changes it: {first_diff(b, got[n], False)}"))
            for n2 in got:
                s.vfs.unlink(f"/work/again/{n2}", s.vfs.root, 0)
        return out


# --------------------------------------------------------------------------- C15
SONAMES = ["liba.so.1", "libb.so.2", "libc.so.6", "libz.so.1", "libm.so.6", "libpython3.11.so.1.0", "libq-1a2b3c4d.so.3"]


def dyn(data):
    """What patchelf edits, or None when the file is no ELF."""
    from . import elfread

    try:
        e = elfread.parse(data)
    except elfread.BadElf:
        return None
    return {"soname": e.soname, "needed": list(e.needed), "rpath": e.rpath, "runpath": e.runpath}


class Edits:
    """Reference model of the queued edits of one file."""

    def __init__(self):
        self.soname = None
        self.rpath = None
        self.clear = False
        self.removed = []
        self.replaced = []

    def any(self):
        return self.soname is not None or self.rpath is not None or self.clear or bool(self.removed or self.replaced)

    def apply(self, d, android):
        d = {k: (list(v) if isinstance(v, list) else v) for k, v in d.items()}
        if self.soname is not None:
            d["soname"] = self.soname
        m = dict(reversed(self.replaced))
        d["needed"] = [m.get(n, n) for n in d["needed"] if n not in self.removed]
        if self.rpath is not None:
            d["rpath"], d["runpath"] = (None, self.rpath) if android else (self.rpath, None)
        elif self.clear:
            d["rpath"] = d["runpath"] = None
        return d


class C15(Check):
    id = "C15"
    technique = "deterministic simulation of seeded call histories on ElfPatcher against a reference model, with real patchelf runs made to fail, tear or not start"
    rule = "case = one history of 4-30 calls over several files, aliases and renames, some with failing patchelf runs; non-trivial = distinct histories with at least one effective edit applied"
    worlds = {"quick": 3600, "thorough": 57600}
    per_world = 4

    DIRS = ["/work/w/pkg", "/work/w/pkg/sub", "/work/w/pkg.libs"]

    def world(self, rng):
        g = easy(rng)
        g.arch = rng.choice(["x86_64", "x86_64", "aarch64", "i686", "s390x"])
        x = rng.random()
        platform = (f"android_{rng.choice([21, 23, 24, 33])}_{g.arch}" if x < 0.25
                    else rng.choice([f"linux_{g.arch}", f"manylinux_2_17_{g.arch}", ""]))
        variant = rng.choices(["patchelf", "lief-patchelf", "none"], [8, 2, 1])[0]
        files, aliases, names = [], {}, []
        for i in range(rng.randint(2, 5)):
            d = rng.choice(self.DIRS)
            p = f"{d}/{rng.choice(['m', 'lib', 'Ext', 'x y'])}{i}.so"
            e = {"arch": g.arch, "needed": rng.sample(SONAMES, rng.randint(0, 4)), "tag": f"f{i}"}
            if rng.random() < 0.6:
                e["soname"] = f"lib{i}.so"
            y = rng.random()
            if y < 0.25:
                e["rpath"] = rng.choice(["$ORIGIN/../pkg.libs", "/opt/x:/opt/y", "$ORIGIN"])
            elif y < 0.5:
                e["runpath"] = rng.choice(["$ORIGIN/../pkg.libs", "/opt/x:/opt/y", "$ORIGIN"])
            f = {"path": p, "elf": e, "uid": 1000, "mode": 0o755}
            z = rng.random()
            if z < 0.04:
                f = {"path": p, "text": "#!/bin/sh\n", "uid": 1000}
            elif z < 0.08:
                f["uid"], f["mode"] = 0, 0o444
            files.append(f)
            names.append(p)
        links = []
        for i, p in enumerate(list(names)):
            if rng.random() < 0.5:
                a = f"{rng.choice(self.DIRS)}/alias{i}.so"
                links.append({"path": a, "link": rng.choice([p, posixpath.relpath(p, posixpath.dirname(a))]), "uid": 1000})
                aliases[a] = p
        links.append({"path": "/work/w/dirlink", "link": "pkg", "uid": 1000})
        spec = {"libc": "glibc", "arch": g.arch, "host": {"tools": ["patchelf", "lief-patchelf", "strip", "tar"], "mgr": None},
                "files": [*[{"path": d, "dir": True, "uid": 1000} for d in self.DIRS],
                          {"path": "/work/w", "dir": True, "uid": 1000}, *files, *links],
                "wheels": [], "procs": [{"argv": [], "env": {}, "cwd": "/work"}],
                "platform": platform, "variant": variant}
        return spec

    def cases(self, spec, rng, n):
        for _ in range(n):
            hist = self.history(spec, rng)
            case = {"spec": spec, "hist": hist, "faults": []}
            yield case
            if rng.random() < 0.5:
                s, _ = self.run(case)
                spawns = [t for t in s.trace if t[1] == "spawn" and "--version" not in t[2]]
                if spawns:
                    fs = []
                    for _ in range(rng.randint(1, 2)):
                        t = rng.choice(spawns)
                        fs.append(plan.tool_fault(rng, t) if rng.random() < 0.75 else plan.errno_fault(rng, t))
                    yield {"spec": spec, "hist": hist, "faults": fs}

    def history(self, spec, rng):
        real = [f["path"] for f in spec["files"] if "elf" in f or "text" in f]
        alias = [f["path"] for f in spec["files"] if "link" in f and not f["path"].endswith("dirlink")]
        moved = 0
        hist = []
        cwd = "/work"

        def path():
            x = rng.random()
            p = rng.choice(real + alias) if x < 0.95 else "/work/w/pkg/none.so"
            y = rng.random()
            if y < 0.15 and p.startswith("/work/w/pkg/"):
                p = "/work/w/dirlink/" + p[len("/work/w/pkg/"):]
            elif y < 0.3:
                p = posixpath.relpath(p, cwd)
            elif y < 0.4:
                p = posixpath.dirname(p) + "/./" + posixpath.basename(p)
            elif y < 0.45:
                p = posixpath.dirname(p) + "/../" + posixpath.basename(posixpath.dirname(p)) + "/" + posixpath.basename(p)
            return p

        for _ in range(rng.randint(3, 24)):
            x = rng.random()
            if x < 0.14:
                hist.append(["soname", path(), rng.choice(SONAMES)])
            elif x < 0.32:
                k = rng.choice([0, 1, 1, 1, 2, 3])
                hist.append(["replace", path(), [[rng.choice(SONAMES), f"lib{rng.randint(0, 5)}-{rng.randrange(16**4):04x}.so"] if rng.random() < 0.85
                                                 else rng.sample(SONAMES, 2) for _ in range(k)]])
            elif x < 0.46:
                hist.append(["remove", path(), rng.sample(SONAMES, rng.choice([0, 1, 1, 2]))])
            elif x < 0.6:
                hist.append(["rpath", path(), rng.choice(["$ORIGIN", "$ORIGIN/../pkg.libs", "/opt/a:$ORIGIN/x"])])
            elif x < 0.67:
                hist.append(["clear", path()])
            elif x < 0.78:
                hist.append(["get", path()])
            elif x < 0.84:
                cand = [p for p in real if "/moved" not in p]
                if cand:
                    old = rng.choice(cand)
                    new = f"{rng.choice(self.DIRS)}/moved{moved}.so"
                    moved += 1
                    hist.append(["move", old, new])
                    real.append(new)
            elif x < 0.89:
                cwd = rng.choice(["/work", "/work/w", *self.DIRS])
                hist.append(["chdir", cwd])
            elif x < 0.92:
                hist.append(["reset", rng.choice(real)])
            else:
                hist.append(["apply"])
        for _ in range(rng.randint(1, 2)):
            hist.append(["apply"])
            if rng.random() < 0.4:
                hist.append(["reset", rng.choice(real)])
                hist.append(["apply"])
        return hist

    def run(self, case):
        """The history on the real patcher: the log of answers and of file contents."""
        from .check import go

        spec = case["spec"]
        s = world.make_sim(spec, faults=case.get("faults", ()), seed=0)
        log = []
        v = s.vfs
        first = {}

        def files():
            out = {}
            for d in self.DIRS:
                for n in v.listdir(d):
                    node = v.get(d).children[n]
                    if node.kind == "f":
                        out[f"{d}/{n}"] = bytes(node.data)
            return out

        first.update(files())

        def entry(p):
            from pathlib import Path

            from auditwheel.patcher import ElfPatcher

            pt = ElfPatcher.get_patcher(spec["variant"], platform=spec["platform"])
            for st in case["hist"]:
                val = exc = None
                before = files() if st[0] == "apply" else None
                n0 = {id(f): f["hits"] for f in s.faults}
                try:
                    if st[0] == "soname":
                        pt.set_soname(Path(st[1]), st[2])
                    elif st[0] == "replace":
                        pt.replace_needed(Path(st[1]), *[tuple(x) for x in st[2]])
                    elif st[0] == "remove":
                        pt.remove_needed(Path(st[1]), *st[2])
                    elif st[0] == "rpath":
                        pt.set_rpath(Path(st[1]), st[2])
                    elif st[0] == "clear":
                        pt.clear_rpath(Path(st[1]))
                    elif st[0] == "get":
                        val = pt.get_rpath(Path(st[1]))
                    elif st[0] == "move":
                        if os.path.lexists(st[1]) and not os.path.lexists(st[2]):
                            os.rename(st[1], st[2])
                            with open(st[1], "w") as f:
                                f.write("#!/usr/bin/python\n")
                            pt.update_elf_path(Path(st[1]), Path(st[2]))
                    elif st[0] == "chdir":
                        os.chdir(st[1])
                    elif st[0] == "reset":
                        if st[1] in first and v.exists(st[1]):
                            v.get(st[1]).data[:] = first[st[1]]
                    elif st[0] == "apply":
                        pt.apply_updates()
                except core.HarnessError:
                    raise
                except Exception as e:  # noqa: BLE001
                    exc = type(e).__name__
                hit = any(f["hits"] > n0[id(f)] for f in s.faults)
                log.append((val, exc, before, files() if st[0] == "apply" else None, hit))
            return 0

        q = world.add_proc(s, spec["procs"][0], entry=entry)
        go(s, [q])
        return s, log

    def judge(self, case):
        spec = case["spec"]
        s, log = self.run(case)
        if not world.ok(s.procs[0]):
            if not log and any(f["hits"] for f in s.faults):
                return []  # no patcher without its program
            return [self.v("raised", f"the history ends with {world.outcome(s.procs[0])}")]
        android = spec["platform"].startswith("android")
        api = int(spec["platform"].split("_")[1]) if android else 99
        none = spec["variant"] == "none"
        v = world.make_sim(spec).vfs  # names are resolved on a disk of our own
        q: dict[str, Edits] = {}
        maybe: dict[str, Edits] = {}  # edits a failed apply may or may not have left queued
        cwd = "/work"
        applied = 0
        data = None

        def find(p):
            try:
                n = v.get(p, v.get(cwd))
            except OSError:
                return None
            return v.path_of(n) if n.kind == "f" else None

        def content(p):
            return bytes(v.get(p).data)

        for i, (st, (val, exc, before, after, hit)) in enumerate(zip(case["hist"], log)):
            op = st[0]
            tell = f"step {i} {' '.join(map(str, st))}"
            if op == "chdir":
                cwd = st[1]
                continue
            if op == "move":
                if not v.exists(st[1]) or v.exists(st[2]):
                    continue
                v.rename(st[1], st[2], v.root, 0)
                v.put(st[1], b"#!/usr/bin/python\n", mode=0o644, uid=1000)
                for m in (q, maybe):
                    if st[1] in m:
                        m[st[2]] = m.pop(st[1])
                continue
            if op == "reset":
                if v.exists(st[1]) and st[1] in (b0 := self.first(spec)):
                    v.get(st[1]).data[:] = b0[st[1]]
                continue
            if op == "apply":
                if {p: b for p, b in before.items()} != {p: content(p) for p in before}:
                    bad = next(p for p in before if before[p] != content(p))
                    return [self.v("early", f"{tell}: {bad} was changed before apply_updates")]
                out = self.judge_apply(tell, case, v, q, maybe, before, after, exc, hit, android, none)
                if out:
                    return out
                if exc is None and any(before[p] != after[p] for p in before):
                    applied += 1
                for p, b in after.items():
                    v.get(p).data[:] = b
                if exc is None or none:
                    q, maybe = {}, {}
                else:
                    for p, e in q.items():
                        if before[p] == after[p]:
                            maybe[p] = e
                    q = {}
                continue
            p = find(st[1])
            if p is None:
                if exc is None:
                    return [self.v("missing", f"{tell}: a file that does not exist is accepted")]
                continue
            if p in maybe:
                # the interface does not say whether a failed apply keeps the edits
                if op == "get" or exc is not None:
                    continue
                return []
            e = q.get(p, Edits())
            refuse = False
            if op == "soname":
                want = lambda: setattr(e, "soname", st[2])
            elif op == "replace":
                refuse = any(n in e.removed for pr in st[2] for n in pr)
                want = lambda: e.replaced.extend(map(tuple, st[2]))
            elif op == "remove":
                refuse = any(n in st[2] for pr in e.replaced for n in pr)
                want = lambda: e.removed.extend(st[2])
            elif op == "rpath":
                refuse = api < 24
                want = lambda: setattr(e, "rpath", st[2])
            elif op == "clear":
                want = lambda: setattr(e, "clear", True)
            else:
                if e.rpath is not None:
                    ans = e.rpath
                elif e.clear:
                    ans = ""
                else:
                    d = dyn(content(p))
                    if none or d is None or hit:
                        if exc is None and not none:
                            return [self.v("getfail", f"{tell}: answers {val!r} although patchelf fails")]
                        continue
                    ans = d["runpath"] or d["rpath"] or ""
                if hit:
                    if exc is None and val != ans:
                        return [self.v("getfail", f"{tell}: answers {val!r} although patchelf fails")]
                    continue
                if exc is not None or val != ans:
                    return [self.v("get", f"{tell}: get_rpath gives {val if exc is None else exc!r} instead of {ans!r}")]
                continue
            if refuse:
                if exc is None:
                    return [self.v("conflict", f"{tell}: accepted although it conflicts with a queued edit")]
                continue
            if exc is not None:
                return [self.v("refused", f"{tell}: refused with {exc}")]
            want()
            q[p] = e
        if applied:
            STATS.distinct.add(digest([case["hist"], case["faults"], spec["variant"], android]))
        return []

    def first(self, spec):
        return {f["path"]: world.content(f) for f in spec["files"] if "elf" in f or "text" in f}

    def judge_apply(self, tell, case, v, q, maybe, before, after, exc, hit, android, none):
        eff = {p: e for p, e in q.items() if e.any()}
        if none:
            if before != after:
                return [self.v("none", f"{tell}: the patcher 'none' changed a file")]
            if bool(eff) != (exc is not None):
                return [self.v("nonestatus", f"{tell}: the patcher 'none' {'refuses to do nothing' if exc else 'accepts edits'}")]
            return []
        cannot = [p for p in eff if dyn(before[p]) is None or not v.may(v.get(p), 1000, 6)]
        if cannot and exc is None:
            return [self.v("applyok", f"{tell}: apply_updates succeeds although {cannot[0]} cannot be edited")]
        if hit and exc is None:
            return [self.v("applyok", f"{tell}: apply_updates succeeds although patchelf failed ({how(case)})")]
        if exc is not None and not cannot and not hit and not any(e.any() for e in maybe.values()):
            return [self.v("applyfail", f"{tell}: apply_updates fails with {exc}")]
        ambiguous = self.ambiguous
        for p in before:
            if after.get(p) == before[p]:
                e = eff.get(p)
                if e is not None and exc is None and dyn(before[p]) is not None and not ambiguous(e):
                    if e.apply(dyn(before[p]), android) != dyn(before[p]):
                        return [self.v("lost", f"{tell}: the edits queued for {p} were not made")]
                continue
            e = eff.get(p) or maybe.get(p)
            if e is None or not e.any():
                return [self.v("other", f"{tell}: {p} was changed although nothing is queued for it"
                                        + (" any more" if case["faults"] else ""))]
            if ambiguous(e):
                continue
            have = dyn(after[p])
            want = e.apply(dyn(before[p]), android) if dyn(before[p]) else None
            if have != want:
                if hit and exc is not None:
                    continue  # torn by the failing run
                return [self.v("wrong", f"{tell}: {p} has {have} instead of {want}")]
        return []

    @staticmethod
    def ambiguous(e):
        """Replacements whose combined meaning the interface does not settle."""
        olds = [a for a, _ in e.replaced]
        return len(olds) != len(set(olds)) or any(b in olds for _, b in e.replaced) or any(a == b for a, b in e.replaced)



ALL = {c.id: c for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16)}
