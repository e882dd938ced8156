"""World specification (plain JSON) -> simulated host, wheels and processes."""

from __future__ import annotations

import base64
import csv
import hashlib
import io
import os
import zipfile

from . import core, elfgen, vfs

TOOLS_DIR = "/usr/bin"


def content(m: dict) -> bytes:
    if "elf" in m:
        return elfgen.build(m["elf"])
    if "hex" in m:
        return bytes.fromhex(m["hex"])
    if "rep" in m:  # [text, count]: bulky content kept small in the specification
        return (m["rep"][0].encode() + b"\n") * m["rep"][1]
    return m.get("text", "").encode("utf-8", "surrogateescape")


def record_hash(data: bytes) -> str:
    return "sha256=" + base64.urlsafe_b64encode(hashlib.sha256(data).digest()).rstrip(b"=").decode()


def build_wheel(w: dict) -> bytes:
    """The archive of a wheel specification (``members`` in archive order, RECORD made up)."""
    buf = io.BytesIO()
    rows = []
    blobs = []
    for m in w["members"]:
        data = b"" if m["name"].endswith("/") or m.get("record") else content(m)
        blobs.append(data)
        if m.get("record"):
            rows.append((m["name"], "", ""))
        elif not m["name"].endswith("/") and not m.get("unrecorded"):
            rows.append((m["name"], "", "") if m.get("nohash") else (m["name"], record_hash(data), str(len(data))))
    with zipfile.ZipFile(buf, "w") as z:
        for m, data in zip(w["members"], blobs):
            name = m["name"]
            zi = zipfile.ZipInfo(name, date_time=tuple(m.get("date", (2020, 2, 3, 4, 5, 6))))
            zi.create_system = 3
            if name.endswith("/"):
                zi.external_attr = ((0o40000 | m.get("mode", 0o755)) << 16) | 0x10
                z.writestr(zi, b"")
                continue
            zi.external_attr = 0 if m.get("noattr") else (0o100000 | m.get("mode", 0o644)) << 16
            zi.compress_type = zipfile.ZIP_STORED if m.get("stored") else zipfile.ZIP_DEFLATED
            if m.get("record"):
                out = io.StringIO(newline="")
                wr = csv.writer(out, lineterminator="\n")
                wr.writerows(rows)
                data = out.getvalue().encode()
            z.writestr(zi, data)
    return buf.getvalue()


def populate(v: vfs.VFS, spec: dict) -> None:
    v.makedirs("/tmp").mode = 0o1777
    v.get("/tmp").mode = 0o777
    for t in spec["host"].get("tools", ("patchelf", "strip", "tar")):
        v.put(f"{TOOLS_DIR}/{t}", f"#!sim:{t}\n".encode(), mode=0o755)
    for f in spec.get("files", ()):
        put(v, f)
    for w in spec.get("wheels", ()):
        raw = bytes.fromhex(w["raw"]) if "raw" in w else build_wheel(w)
        n = v.put(w["path"], raw, mode=w.get("mode", 0o644), uid=w.get("uid", 1000))
        n.mtime_ns = w.get("mtime_ns", 1_600_000_000_000_000_000)
        for extra in w.get("aliases", ()):  # symlinks to the wheel
            v.putlink(extra, w["path"], uid=1000)


def put(v: vfs.VFS, f: dict) -> None:
    p = f["path"]
    if f.get("dir"):
        n = v.makedirs(p, uid=f.get("uid", 0))
        n.mode = f.get("mode", 0o755)
        n.uid = f.get("uid", 0)
    elif "link" in f:
        v.putlink(p, f["link"], uid=f.get("uid", 0))
    else:
        n = v.put(p, content(f), mode=f.get("mode", 0o644), uid=f.get("uid", 0))
        n.mtime_ns = f.get("mtime_ns", 1_500_000_000_000_000_000)


BASE_ENV = {"PATH": "/usr/bin:/bin", "HOME": "/home/u", "LANG": "C.UTF-8"}


def make_sim(spec: dict, *, faults=(), schedule=None, seed=0, **kw) -> core.Sim:
    k = spec.get("knobs", {})
    v = vfs.VFS(dir_order=k.get("dir_order", "sorted"), salt=k.get("salt", 0))
    s = core.Sim(
        v, seed=seed, faults=faults, schedule=schedule,
        start_ns=k.get("start_ns", 1_700_000_000_000_000_000),
        tick_ns=k.get("tick_ns", 1000), bufsize=k.get("bufsize", 8192), host=dict(spec["host"]),
        max_ops=k.get("max_ops", 600_000 if any(f.get("sticky") for f in faults) else 60_000), **kw,
    )
    populate(v, spec)
    s.knobs = k
    for i, m in enumerate(k.get("mounts", ())):
        v.mount(m, 100 + i)
    if k.get("capacity_extra") is not None:
        v.capacity = v.used() + k["capacity_extra"]
    return s


def add_proc(s: core.Sim, p: dict, entry=None) -> core.Proc:
    env = dict(BASE_ENV)
    env.update(p.get("env", {}))
    env = {k: x for k, x in env.items() if x is not None}
    k = s.knobs
    proc = s.spawn(
        ["auditwheel", *p["argv"]] if "argv" in p else ["auditwheel"],
        cwd=s.vfs.get(p.get("cwd", "/work")), environ=env, uid=p.get("uid", k.get("uid", 1000)),
        umask=p.get("umask", k.get("umask", 0o022)), tmpdir=p.get("tmpdir", "/tmp"), entry=entry,
    )
    if k.get("pid"):
        proc.pid = k["pid"]  # containers: every run is process 1 of its own
    return proc


def run_spec(spec: dict, *, faults=(), schedule=None, seed=0, invariants=(), sequential=True, **kw):
    """Build the world and run its processes: one after another, or interleaved."""
    s = make_sim(spec, faults=faults, schedule=schedule, seed=seed, **kw)
    s.invariants = list(invariants)
    procs = [add_proc(s, p) for p in spec["procs"]]
    if sequential:
        for p in procs:
            s.run([p])
    else:
        s.run(procs)
    return s


def outcome(p: core.Proc) -> tuple:
    o = p.outcome
    return (o.get("status"), o.get("code"), o.get("exc"), o.get("msg"))


def ok(p: core.Proc) -> bool:
    return p.outcome.get("status") == "exit" and p.outcome.get("code") == 0


def read_zip(data: bytes) -> dict[str, tuple]:
    """name -> (data, mode bits, date, compress type); raises zipfile.BadZipFile when damaged."""
    out = {}
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        for zi in z.infolist():
            if zi.filename in out:
                raise zipfile.BadZipFile(f"duplicate member {zi.filename}")
            out[zi.filename] = (z.read(zi), zi.external_attr >> 16, zi.date_time, zi.compress_type)
    return out
