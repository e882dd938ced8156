"""Judgements over published wheels, written against the reference model only."""

from __future__ import annotations

import base64
import collections
import csv
import fnmatch
import functools
import hashlib
import io
import json
import os
import posixpath
import re
import zipfile
from email.parser import Parser
from urllib.parse import quote

from . import elfread, refmodel as R, tools, vfs as vfs_mod, world

V = collections.namedtuple("V", "prop kind msg")


class Expect:
    """What a fault-free repair of one wheel must do."""

    __slots__ = ("kind", "why", "plan", "out_name", "o", "w", "in_name", "in_data", "host", "spec", "wd", "env")


def proc_env(p: dict) -> dict:
    env = dict(world.BASE_ENV)
    env.update(p.get("env", {}))
    return {k: x for k, x in env.items() if x is not None}


@functools.lru_cache(maxsize=64)
def _input_cache(key):
    return {}


def host_vfs(spec) -> vfs_mod.VFS:
    v = vfs_mod.VFS()
    world.populate(v, spec)
    return v


def expect(spec, p: dict, w: dict, o: dict | None = None) -> Expect:
    """``w``: the wheel specification; ``p``: the process that repairs it."""
    v = host_vfs(spec)
    e = Expect()
    e.env = proc_env(p)
    e.o = o or R.parse_args(p["argv"], e.env)
    e.w, e.spec = w, spec
    e.in_name = w["path"].rsplit("/", 1)[1]
    e.in_data = v.read(w["path"])
    e.wd = posixpath.normpath(posixpath.join(p.get("cwd", "/work"), e.o["wheel_dir"]))
    e.plan = e.why = e.out_name = None
    try:
        e.plan = R.repair_plan(v, spec["host"], e.env, e.in_name, e.in_data, e.o, spec.get("arch"))
        e.kind = "repair"
        e.out_name = e.plan.out_name
        d = e.o["lib_sdir"]
        if "/" in d and any(any(not R.LIBPYTHON.match(n) for n in x) for x in e.plan.files.values()):
            top = posixpath.normpath(wheel_base(e.in_name) + posixpath.dirname(d))
            names = {posixpath.dirname(m["name"].rstrip("/")) for m in w["members"]}
            names |= {m["name"].rstrip("/") for m in w["members"] if m["name"].endswith("/")}
            if not any(n == top or n.startswith(top + "/") for n in names):
                e.kind, e.why = "refuse", "no parent for the library directory"
        if e.kind == "repair":
            for by in e.plan.files.values():
                for n, r in by.items():
                    if r is not None and "." not in posixpath.basename(r):
                        e.kind, e.why = "refuse", "library without an extension"
    except R.NotPlatform as exc:
        _a, pure = R.filename_arch(e.in_name)
        if pure and e.o["pure"]:
            e.kind, e.out_name = "copy", e.in_name
        else:
            e.kind, e.why = "refuse", str(exc)
    except R.Refuse as exc:
        e.kind, e.why = "refuse", str(exc)
    if e.plan is not None:
        e.host = e.plan.a.host
    return e


def wheel_base(name: str) -> str:
    return name.split("-", 1)[0]


# --------------------------------------------------------------------------- archive
def members(data: bytes) -> dict[str, tuple]:
    return world.read_zip(data)


def dist_info(names) -> str:
    c = {n.split("/", 1)[0] for n in names if re.match(r"[^/]+\.dist-info/", n)}
    return c.pop() if len(c) == 1 else ""


def archive_ok(data: bytes) -> str | None:
    try:
        members(data)
    except Exception as exc:  # noqa: BLE001 - any damage
        return f"{type(exc).__name__}: {exc}"
    return None


def check_record(data: bytes) -> list[V]:
    out = []
    bad = lambda kind, msg: out.append(V("C04", kind, msg))
    try:
        m = members(data)
    except Exception as exc:  # noqa: BLE001
        bad("damaged", f"the archive does not read back: {type(exc).__name__}: {exc}")
        return out
    di = dist_info(m)
    if not di or f"{di}/RECORD" not in m:
        bad("norecord", "no RECORD")
        return out
    if f"{di}/RECORD.jws" in m or f"{di}/RECORD.p7s" in m and f"{di}/RECORD.jws" in m:
        bad("signature", "stale RECORD.jws is still there")
    try:
        rows = list(csv.reader(io.StringIO(m[f"{di}/RECORD"][0].decode(), newline="")))
    except (UnicodeDecodeError, csv.Error) as exc:
        bad("unreadable", f"RECORD: {exc}")
        return out
    rows = [r for r in rows if r]
    seen = collections.Counter(r[0] for r in rows)
    for n, c in seen.items():
        if c > 1:
            bad("duplicate", f"RECORD lists {n} {c} times")
    files = {n for n in m if not n.endswith("/")}
    for n in sorted(files - set(seen)):
        bad("missing", f"RECORD does not list {n}")
    for n in sorted(set(seen) - files):
        bad("extra", f"RECORD lists {n}, which is not in the archive")
    for r in rows:
        if r[0] == f"{di}/RECORD":
            if any(r[1:]):
                bad("self", "RECORD has a hash for itself")
            continue
        if r[0] not in m:
            continue
        if len(r) != 3 or r[1] != world.record_hash(m[r[0]][0]):
            bad("hash", f"wrong hash for {r[0]}")
        elif r[2] != str(len(m[r[0]][0])):
            bad("size", f"wrong size for {r[0]}")
    return out


# --------------------------------------------------------------------------- expectations
def graft_name(e: Expect, real: str) -> str:
    h = hashlib.sha256(e.host.data(real)).hexdigest()[:8]
    b = posixpath.basename(real)
    base, ext = b.split(".", 1)
    return b if base.endswith("-" + h) else f"{base}-{h}.{ext}"


def lib_dir(e: Expect) -> str:
    return posixpath.normpath(wheel_base(e.in_name) + e.o["lib_sdir"])


def is_script(fn: str) -> bool:
    p = fn.split("/")
    return len(p) == 3 and p[0].endswith(".data") and p[1] == "scripts"


def moved(e: Expect, fn: str) -> str:
    """Where an ELF of the input is in the output."""
    if e.plan.files.get(fn) and is_script(fn):
        return f"{wheel_base(e.in_name)}.scripts/{posixpath.basename(fn)}"
    return fn


def grafted(e: Expect) -> dict[str, set[str]]:
    """host file -> names of the wheel's files whose closure brought it in"""
    out: dict[str, set[str]] = {}
    for fn, ext in e.plan.files.items():
        for n, real in ext.items():
            if real is not None and not R.LIBPYTHON.match(n):
                out.setdefault(real, set()).add(fn)
    return out


def renames(e: Expect, fn: str) -> dict[str, str]:
    return {n: graft_name(e, r) for n, r in e.plan.files.get(fn, {}).items()
            if r is not None and not R.LIBPYTHON.match(n)}


# --------------------------------------------------------------------------- ELF comparison
def same_elf(a: elfread.Elf, b: elfread.Elf, ren: dict, dropped: set, new_soname=None) -> list[str]:
    """Differences between a file and its patched version other than the allowed ones."""
    out = []
    if (a.bits, a.le, a.machine, a.flags, a.osabi, a.etype) != (b.bits, b.le, b.machine, b.flags, b.osabi, b.etype):
        out.append("ELF header changed")
    if sorted(a.defined) != sorted(b.defined):
        out.append("exported symbols changed")
    if sorted(a.undef) != sorted(b.undef):
        out.append("undefined symbols changed")
    va = {ren.get(k, k): sorted(x) for k, x in a.verneed.items()}
    vb = {k: sorted(x) for k, x in b.verneed.items()}
    if va != vb:
        out.append(f"versioned symbols changed from {va} to {vb}")
    if a.interp != b.interp:
        out.append("interpreter changed")
    if a.isa != b.isa:
        out.append("ISA property changed")
    want = [ren.get(n, n) for n in a.needed if n not in dropped]
    if sorted(want) != sorted(b.needed):
        out.append(f"dependencies are {b.needed} instead of {want}")
    elif want != b.needed:
        out.append(f"dependencies are reordered: {b.needed} instead of {want}")
    if (new_soname or a.soname) != b.soname:
        out.append(f"soname is {b.soname} instead of {new_soname or a.soname}")
    return out


def tag_of(data: bytes) -> bytes | None:
    m = re.search(rb"\xa7awsim-tag:([^\0]*)\0", data)
    return m.group(1) if m else None


def stripped_of(data: bytes) -> bytes:
    if data[:4] == b"\x7fELF" and data[18:20] in (b"\x3e\x00", b"\x03\x00"):
        rc, _o, _e, new = tools._real("strip", ["-s"], data)
        return new if rc == 0 else data
    return data


# --------------------------------------------------------------------------- payload
def parse_headers(b: bytes):
    msg = Parser().parsestr(b.decode("utf-8", "surrogateescape"))
    return [(k, v) for k, v in msg.items()], msg.get_payload()


def check_payload(e: Expect, data: bytes) -> list[V]:
    out = []
    bad = lambda kind, msg: out.append(V("C05", kind, msg))
    try:
        m = members(data)
    except Exception as exc:  # noqa: BLE001
        bad("damaged", f"{type(exc).__name__}: {exc}")
        return out
    src = members(e.in_data)
    if e.kind == "copy":
        if data != e.in_data:
            bad("copy", "the copy of a pure wheel differs from it")
        return out
    di = dist_info(src)
    ldir = lib_dir(e)
    sdir = wheel_base(e.in_name) + ".scripts"
    grafts = grafted(e)
    gnames = {f"{ldir}/{graft_name(e, r)}" for r in grafts}
    allowed_new = set(gnames) | {f"{di}/sboms/auditwheel.cdx.json"}
    for n, (b, attr, _d, _c) in src.items():
        if n.endswith("/") or n in (f"{di}/RECORD", f"{di}/RECORD.jws"):
            continue
        if n not in m:
            bad("lost", f"{n} is not in the output")
            continue
        ob, oattr = m[n][0], m[n][1]
        if attr:
            want = (attr & 0o777) | 0o600
            if (oattr & 0o777) != want:
                bad("mode", f"{n} has permissions {oattr & 0o777:o} instead of {want:o}")
        elif (oattr & 0o600) != 0o600:
            bad("mode", f"{n} has permissions {oattr & 0o777:o}")
        if n == f"{di}/WHEEL":
            h1, p1 = parse_headers(b)
            h2, p2 = parse_headers(ob)
            k1 = [x for x in h1 if x[0].lower() != "tag"]
            k2 = [x for x in h2 if x[0].lower() != "tag"]
            if p1 != p2:
                bad("wheelbody", f"the body of WHEEL changed from {p1!r} to {p2!r}")
            if ("-any" in "".join(x[1] for x in h1 if x[0].lower() == "tag")
                    and "-any" not in "".join(x[1] for x in h2 if x[0].lower() == "tag")):
                # no longer "any": a platform wheel
                k1 = [("Root-Is-Purelib", "False") if x[0] == "Root-Is-Purelib" else x for x in k1]
            if sorted(k1) != sorted(k2):
                bad("wheelheaders", f"WHEEL headers changed from {k1} to {k2}")
            if not e.o["update"] and b != ob:
                bad("wheelfile", "WHEEL was rewritten with --no-update-tags")
            continue
        if n == f"{di}/sboms/auditwheel.cdx.json":
            continue
        ext = e.plan.files.get(n)
        if ext:
            if is_script(n):
                out += check_shim(e, n, ob)
                n2 = moved(e, n)
                allowed_new.add(n2)
                if n2 not in m:
                    bad("lostscript", f"{n2} is not in the output")
                    continue
                ob = m[n2][0]
                if attr and (m[n2][1] & 0o777) != ((attr & 0o777) | 0o600):
                    bad("mode", f"{n2} has permissions {m[n2][1] & 0o777:o}")
            try:
                ea, eb = elfread.parse(b), elfread.parse(ob)
            except elfread.BadElf as exc:
                bad("badelf", f"{n} is not a valid ELF file any more: {exc}")
                continue
            drop = {x for x in ext if R.LIBPYTHON.match(x)}
            for d in same_elf(ea, eb, renames(e, n), drop):
                bad("elf", f"{n}: {d}")
            if tag_of(b) != tag_of(ob):
                bad("elfdata", f"{n}: its data changed")
            if e.o["strip"] and ".symtab" in eb.section_names and b[18:20] in (b"\x3e\x00", b"\x03\x00"):
                bad("unstripped", f"{n} still has a symbol table")
        elif e.o["strip"] and n in e.plan.files:
            if ob != stripped_of(b):
                bad("content", f"{n} is not the stripped file")
        elif ob != b:
            bad("content", f"{n} changed")
    for n in m:
        if n.endswith("/"):
            # directories: of the input, or of a file of the output
            if not any(x.startswith(n) for x in src) and not any(x.startswith(n) and not x.endswith("/") for x in m) \
                    and n not in (ldir + "/", f"{di}/sboms/", sdir + "/"):
                bad("extra", f"{n} is new")
            continue
        if n not in src and n not in allowed_new:
            bad("extra", f"{n} is new")
    return out


def check_shim(e: Expect, n: str, text: bytes) -> list[V]:
    """Run the shim against a stand-in of its interpreter and see what it starts."""
    calls = []

    class Os:
        path = posixpath

        @staticmethod
        def execv(p, a):
            calls.append((p, list(a)))

        @staticmethod
        def execvp(p, a):
            calls.append((p, list(a)))

    class Sc:
        @staticmethod
        def get_path(k):
            return "/PLATLIB" if k == "platlib" else "/ELSEWHERE"

        @staticmethod
        def get_paths():
            return {"platlib": "/PLATLIB"}

    class Sy:
        argv = ["tool", "a b", "--c"]
        prefix = "/P"

        @staticmethod
        def exit(*a):
            raise SystemExit(*a)

    def imp(name, *a, **k):
        r = {"os": Os, "sys": Sy, "sysconfig": Sc}.get(name)
        if r is None:
            return __import__(name, *a, **k)
        return r

    try:
        src = text.decode()
        if not src.startswith("#!python\n"):
            return [V("C05", "shim", f"{n}: the shim does not start with #!python")]
        import builtins

        g = {"__name__": "__main__", "__builtins__": {**vars(builtins), "__import__": imp}}
        exec(compile(src, n, "exec", dont_inherit=True), g)  # noqa: S102 - generated by the code under test
    except BaseException as exc:  # noqa: BLE001
        return [V("C05", "shim", f"{n}: the shim fails: {type(exc).__name__}: {exc}")]
    want = [("/PLATLIB/" + moved(e, n), Sy.argv)]
    if calls != want:
        return [V("C05", "shim", f"{n}: the shim starts {calls} instead of {want}")]
    return []


# --------------------------------------------------------------------------- grafting
def rpath_entries(x: elfread.Elf) -> list[str]:
    s = x.runpath if x.runpath is not None else x.rpath
    return s.split(":") if s else []


def expand(entry: str, where: str) -> str | None:
    """Directory inside the wheel an rpath entry of the file ``where`` names; None: outside."""
    d = posixpath.dirname(where)
    if entry.startswith(("$ORIGIN", "${ORIGIN}")):
        rest = entry[len("${ORIGIN}"):] if entry.startswith("${") else entry[len("$ORIGIN"):]
        if rest and not rest.startswith("/"):
            return None
        p = posixpath.normpath((d or ".") + "/" + rest.lstrip("/")) if rest.strip("/") else (d or ".")
        p = posixpath.normpath(p)
        return None if p == ".." or p.startswith("../") else p
    return None


def load(m: dict, where: str, soname: str, elf: elfread.Elf) -> str | None:
    """Which member the dynamic loader finds for a dependency, by the file's own rpath."""
    for en in rpath_entries(elf):
        d = expand(en, where)
        if d is None:
            continue
        c = soname if d == "." else f"{d}/{soname}"
        if c in m and elfread.is_elf(m[c][0]):
            x = elfread.parse(m[c][0])
            if (x.machine, x.bits, x.le) == (elf.machine, elf.bits, elf.le):
                return c
    return None


def check_graft(e: Expect, data: bytes) -> list[V]:
    out = []
    bad = lambda kind, msg: out.append(V("C06", kind, msg))
    if e.kind != "repair":
        return out
    m = members(data)
    src = members(e.in_data)
    ldir = lib_dir(e)
    grafts = grafted(e)
    gname = {r: f"{ldir}/{graft_name(e, r)}" for r in grafts}
    for x in sorted(set(gname.values()) - set(m)):
        bad("notgrafted", f"{x} is missing")
    for n in m:
        if n.startswith(ldir + "/") and n not in src and n not in gname.values() and not n.endswith("/"):
            bad("needless", f"{n} was grafted needlessly")
    pol = e.plan.target
    allowed = lambda n: n in pol.white or R.loader_name(n)
    android = e.plan.a.libc == "android"

    # the wheel's own files
    for fn, ext in e.plan.files.items():
        out_fn = moved(e, fn)
        if out_fn not in m or fn not in src:
            continue
        if not ext:
            continue
        a = elfread.parse(src[fn][0])
        try:
            b = elfread.parse(m[out_fn][0])
        except elfread.BadElf as exc:
            bad("badelf", f"{out_fn}: {exc}")
            continue
        t = e.plan.a.full.get(fn) or e.plan.a.nonpy[fn]
        for en in rpath_entries(b):
            if expand(en, out_fn) is None:
                bad("rpath", f"{out_fn}: rpath entry {en} is outside the wheel")
        if not android and b.runpath is not None and b.rpath is not None:
            bad("rpath", f"{out_fn}: both RPATH and RUNPATH")
        if out_fn == fn:
            kept = [en for en in dict.fromkeys(rpath_entries(a)) if expand(en, fn) is not None]
            if [en for en in rpath_entries(b) if en in kept] != kept:
                bad("rpathkept", f"{fn}: of the rpath entries {kept} inside the wheel, {rpath_entries(b)} is what remains")
        for n in a.needed:
            if R.LIBPYTHON.match(n) and n in ext:
                if n in b.needed:
                    bad("libpython", f"{out_fn} still depends on {n}")
            elif n in ext:
                new = graft_name(e, ext[n])
                if new not in b.needed:
                    bad("unnamed", f"{out_fn} does not ask for {new} (was {n})")
                    continue
                got = load(m, out_fn, new, b)
                if got != gname[ext[n]]:
                    bad("unresolved", f"{out_fn}: {new} is loaded from {got} instead of {gname[ext[n]]}")
            else:
                if n not in b.needed:
                    bad("dropped", f"{out_fn} no longer asks for {n}")
                lib = t.libs.get(n)
                if lib is not None and R.in_wheel(lib.real) and not allowed(n):
                    rel = lib.real[len(R.W) + 1:]
                    if load(src, fn, n, a) == rel and load(m, out_fn, n, b) != moved(e, rel):
                        bad("inwheel", f"{out_fn}: {n} was found at {rel}, now at {load(m, out_fn, n, b)}")
        for lib in b.verneed:
            if lib not in b.needed and all(x in a.needed for x in a.verneed):
                bad("verneed", f"{out_fn} asks for versions of {lib}, on which it does not depend")

    # the grafted libraries
    for real, who in grafts.items():
        name = gname[real]
        if name not in m:
            continue
        hd = e.host.data(real)
        a = elfread.parse(hd)
        try:
            b = elfread.parse(m[name][0])
        except elfread.BadElf as exc:
            bad("badelf", f"{name}: {exc}")
            continue
        if tag_of(hd) != tag_of(m[name][0]):
            bad("wrongcopy", f"{name} is not a copy of {real}")
        if b.soname != posixpath.basename(name):
            bad("soname", f"{name} has the soname {b.soname}")
        for en in rpath_entries(b):
            if expand(en, name) is None:
                bad("rpath", f"{name}: rpath entry {en} is outside the wheel")
        removed = {n for n in a.needed if R.LIBPYTHON.match(n) and not android}
        for n in removed:
            if n in b.needed:
                bad("libpython", f"{name} still depends on {n}")
        best = None
        for fn in sorted(who):
            ren = renames(e, fn)
            errs = []
            for n in a.needed:
                if n in removed:
                    continue
                if n in ren:
                    want = f"{ldir}/{ren[n]}"
                    if ren[n] not in b.needed:
                        errs.append(("unnamed", f"{name} does not ask for {ren[n]} (was {n})"))
                    elif load(m, name, ren[n], b) != want:
                        errs.append(("unresolved", f"{name}: {ren[n]} is loaded from {load(m, name, ren[n], b)}"))
                elif n not in b.needed:
                    errs.append(("dropped", f"{name} no longer asks for {n}"))
            for d in same_elf(a, b, ren, removed, posixpath.basename(name)):
                if not d.startswith("dependencies"):
                    errs.append(("copyelf", f"{name}: {d}"))
            if best is None or len(errs) < len(best):
                best = errs
        for k, msg in best or ():
            bad(k, msg)
        if len(b.needed) != len([n for n in a.needed if n not in removed]):
            bad("needed", f"{name} depends on {b.needed}; the host library on {a.needed}")
        for lib in b.verneed:
            if lib not in b.needed and all(x in a.needed for x in a.verneed):
                bad("verneed", f"{name} asks for versions of {lib}, on which it does not depend")
        if e.o["strip"] and ".symtab" in b.section_names and hd[18:20] in (b"\x3e\x00", b"\x03\x00"):
            bad("unstripped", f"{name} still has a symbol table")
    return out


# --------------------------------------------------------------------------- tags
def check_tags(e: Expect, name: str, data: bytes) -> list[V]:
    out = []
    bad = lambda kind, msg: out.append(V("C07", kind, msg))
    if e.kind != "repair":
        return out
    m = members(data)
    di = dist_info(m)
    a = e.plan.a
    if name != e.out_name:
        bad("name", f"published as {name} instead of {e.out_name}")
        return out
    if e.o["update"]:
        parts = name[:-4].split("-")
        py, abi, plat = parts[-3].split("."), parts[-2].split("."), parts[-1].split(".")
        want = {f"{x}-{y}-{z}" for x in py for y in abi for z in plat}
        h, _ = parse_headers(m[f"{di}/WHEEL"][0])
        got = [v for k, v in h if k.lower() == "tag"]
        if set(got) != want:
            bad("wheeltags", f"WHEEL has the tags {sorted(got)}, the file name {sorted(want)}")
        if len(set(got)) != len(got):
            bad("duptags", f"WHEEL repeats a tag: {got}")
        for t in e.plan.replaced:
            if t in plat:
                bad("linux", f"the generic tag {t} is still there")
        for t in e.plan.abis:
            if t not in plat:
                bad("missingtag", f"{t} is not among the tags {plat}")
    elif name != e.in_name:
        bad("name", f"{name} with --no-update-tags")
    # every tag the repair vouches for, against every ELF file of the output
    claimed = [p for p in a.pols if p.prio > 0 and ({p.name, *p.aliases} & set(e.plan.abis))]
    elfs = {}
    for n, x in m.items():
        if n.endswith("/") or not elfread.is_elf(x[0]) or n.endswith(".py"):
            continue
        try:
            el = elfread.parse(x[0])
        except elfread.BadElf as exc:
            bad("badelf", f"{n}: {exc}")
            continue
        if elfread.arch_of(el) == R.base_arch(a.arch):
            elfs[n] = el
    if not elfs:
        bad("noelf", "no ELF file of the claimed architecture")
    gset = {f"{lib_dir(e)}/{graft_name(e, r)}" for r in grafted(e)}
    for p in claimed:
        if not any(t.endswith("_" + R.base_arch(a.arch)) or a.libc == "android" for t in (p.name, *p.aliases)):
            bad("arch", f"{p.name} for {a.arch}")
        for n, el in elfs.items():
            own = [fn for fn in e.plan.files if moved(e, fn) == n]
            if not own and n not in gset:
                continue  # a file auditwheel does not judge (another libc, not in RECORD)
            for lib, vers in R.versioned(el).items():
                for s in vers:
                    pre = s.partition("_")[0]
                    if pre in p.syms and s not in p.syms[pre]:
                        bad("symbol", f"{n} needs {s} of {lib}, which {p.name} does not allow")
            if own and own[0] in a.full:
                fpe = sorted({x for x, _b, ty in el.undef if ty in (0, 2)} & {"PyFPE_jbuf", "PyFPE_dummy", "PyFPE_counter"})
                if fpe:
                    bad("fpe", f"{n} uses {fpe}, which a Python without fpectl does not have")
            if a.libc != "android":
                allowed = lambda x: x in p.white or R.loader_name(x)
            if n in gset or own and own[0] in a.full:
                if not e.o["no_isa"]:
                    lvl = R.Plat(el).ext
                    if lvl is not None:
                        bad("isa", f"{n} needs x86-64-v{lvl}")
                for k in set(p.black) & set(el.needed):
                    if not own:
                        continue
                    und = {x for x, b, _t in el.undef if b != 2}
                    hit = p.black[k] & und
                    if hit:
                        bad("blacklist", f"{n} uses {sorted(hit)} of {k}")
    return out


# --------------------------------------------------------------------------- SBOM
def expected_components(e: Expect) -> list[tuple]:
    """(name, version, purl, host file) of the packages that own grafted libraries"""
    host = e.spec["host"]
    mgr = host.get("mgr")
    if not mgr or host.get("distro") is None and not e.host.v.exists("/etc/os-release"):
        return []
    typ = {"dpkg": "deb", "rpm": "rpm", "apk": "apk", "apt-file": "deb"}[mgr]
    text = e.host.v.read("/etc/os-release").decode()
    distro = re.search(r'^ID="?([^"\n]*)', text, re.M)
    if not distro or not distro[1]:
        return []
    q = lambda s: quote(s, safe="")
    out = []
    for real in sorted(grafted(e)):
        own = host.get("pkgs", {}).get(real)
        if own:
            name, ver = own[0], own[1]
            if mgr == "rpm" and "-" not in ver:
                ver += "-1"
            out.append((name, ver, f"pkg:{typ}/{q(distro[1])}/{q(name)}@{q(ver)}", real))
    return out


def kept_components(data: bytes) -> list[tuple]:
    """the packages that the SBOM of an earlier repair lists"""
    try:
        return [((c["name"], c["version"], c["purl"]), c["bom-ref"]) for c in json.loads(data)["components"][1:]]
    except (ValueError, KeyError, TypeError):
        return []


def check_sbom(e: Expect, name: str, data: bytes, degraded=False) -> list[V]:
    out = []
    bad = lambda kind, msg: out.append(V("C16", kind, msg))
    if e.kind != "repair":
        return out
    m = members(data)
    di = dist_info(m)
    path = f"{di}/sboms/auditwheel.cdx.json"
    want = collections.Counter(c[:3] for c in expected_components(e))
    src = members(e.in_data)
    if path not in m:
        if want and not degraded:
            bad("absent", f"no SBOM although the packages {sorted(x[0] for x in want)} own grafted libraries")
        return out
    if path in src and m[path][0] == src[path][0] and (degraded or not want):
        return out
    kept = kept_components(src[path][0]) if path in src else []
    try:
        d = json.loads(m[path][0])
    except ValueError as exc:
        bad("json", f"the SBOM is not JSON: {exc}")
        return out
    try:
        if (d["bomFormat"], type(d["version"])) != ("CycloneDX", int) or not re.fullmatch(r"1\.\d", d["specVersion"]):
            bad("format", "not a CycloneDX document")
        comps = d["components"]
        for c in comps:
            if not {"type", "name", "version", "purl", "bom-ref"} <= set(c) or c["type"] != "library":
                bad("component", f"incomplete component {c}")
        refs = [c["bom-ref"] for c in comps]
        if len(set(refs)) != len(refs):
            bad("refs", "bom-refs are not unique")
        first = comps[0]
        p = name[:-4].split("-")
        q = lambda s: quote(s, safe="")
        purl = f"pkg:pypi/{q(p[0])}@{q(p[1])}?file_name={q(name)}"
        if (first["name"], first["version"]) != (p[0], p[1]):
            bad("wheel", f"the first component is {first['name']} {first['version']}")
        if first["purl"] != purl:
            bad("wheelpurl", f"the first component's URL is {first['purl']} instead of {purl}")
        if d["metadata"]["component"] != first:
            bad("metadata", "metadata.component is not the first component")
        got = collections.Counter((c["name"], c["version"], c["purl"]) for c in comps[1:])
        got.subtract(x for x, _ref in kept)
        for x in sorted(x for x in got if got[x] < 0):
            bad("dropped", f"the SBOM lacks {x}, which the SBOM of the earlier repair names")
        if not {x for _x, x in kept} <= set(refs):
            bad("droppedref", "the SBOM lacks components of the SBOM of the earlier repair")
        got = +got
        for x in sorted((got - want)):
            bad("wrong", f"the SBOM names {x}")
        if not degraded:
            for x in sorted((want - got)):
                bad("missing", f"the SBOM lacks {x}")
        if not got and (not want or not degraded):
            bad("empty", "an SBOM without packages")
        deps = {x["ref"]: x.get("dependsOn", []) for x in d["dependencies"]}
        if len(deps) != len(d["dependencies"]) or set(deps) != set(refs):
            bad("dependencies", "the dependencies do not list every component once")
        elif sorted(deps[refs[0]]) != sorted(refs[1:]):
            bad("dependson", "the wheel does not depend on every package")
    except (KeyError, TypeError, IndexError, AttributeError) as exc:
        bad("structure", f"malformed SBOM: {type(exc).__name__}: {exc}")
    return out


def check_all(e: Expect, name: str, data: bytes, degraded=False) -> list[V]:
    if e.kind == "copy":
        return check_payload(e, data)
    r = check_record(data)
    if any(v.kind == "damaged" for v in r):
        return r
    return [*r, *check_payload(e, data), *check_graft(e, data), *check_tags(e, name, data),
            *check_sbom(e, name, data, degraded)]


# --------------------------------------------------------------------------- show
def expect_show(spec, p, w):
    """(exit status is 0, JSON document or None, lines of text or None); None status: do not know"""
    v = host_vfs(spec)
    env = proc_env(p)
    o = R.parse_args(p["argv"], env)
    name = w["path"].rsplit("/", 1)[1]
    arch, pure = R.filename_arch(name)
    libc = R.filename_libc(name)
    try:
        a = R.analyze(v, spec["host"], env, name, v.read(w["path"]), ldpaths=o["ldpaths"], no_isa=o["no_isa"],
                      arch=arch, libc=libc)
    except R.NotPlatform:
        if pure and o["pure"]:
            return True, {"version": 1, "wheel": name, "pure": True}, None
        return False, {"error": None}, None
    except R.Refuse:
        return False, None, None
    ext = {p.name: ({}, {}) for p in a.pols}
    for fn in a.full:
        for q in a.pols:
            libs, black = a.refs[fn][q.name]
            ext[q.name][0].update(libs)
            for k, b in black.items():
                ext[q.name][1].setdefault(k, set()).update(b)
    linux, highest = a.pols[0], a.pols[-1]
    up = {}
    for q in a.pols:
        if q.prio > a.overall.prio:
            en = {}
            if ext[q.name][0]:
                en["libs_to_eliminate"] = sorted(ext[q.name][0])
            if ext[q.name][1]:
                en["blacklisted_symbols"] = {k: sorted(b) for k, b in ext[q.name][1].items()}
            if en:
                up[q.name] = en
    doc = {
        "version": 1, "wheel": name, "pure": False, "overall_tag": a.overall.name, "sym_tag": a.sym.name,
        "pyfpe": a.fpe is linux, "ucs2": a.ucs is linux, "unsupported_isa": a.machine is linux,
        "versioned_symbols": {k: sorted(s) for k, s in a.symbols.items()},
        "external_libs": dict(ext[highest.name][0].items()),
        "policy_upgrades": up,
    }
    text = [f'{name} is consistent with the following platform tag: "{a.overall.name}".']
    quiet = o["v"] < 1

    def rest():
        if a.fpe is linux:
            text.append("This wheel uses the PyFPE_jbuf function, which is not compatible with the manylinux/musllinux")
            if quiet:
                return
        if a.ucs is linux:
            text.append("This wheel is compiled against a narrow unicode (UCS2) version of Python")
            if quiet:
                return
        if a.machine is linux:
            text.append("This wheel depends on unsupported ISA extensions.")
            if quiet:
                return
        if not a.symbols:
            text.append("The wheel references no external versioned symbols")
        else:
            text.append("The wheel references external versioned symbols in these")
            for k, s in a.symbols.items():
                text.append(f"{k} with versions {{{', '.join(repr(x) for x in sorted(s))}}}")
        if a.sym.prio < highest.prio:
            text.append(f'This constrains the platform tag to "{a.sym.name}".')
            if quiet:
                return
        libs = ext[a.pols[1].name][0]  # the lowest policy above generic linux
        if not libs:
            text.append("The wheel requires no external shared libraries! :)")
        else:
            text.append("The following external shared libraries are required by the wheel: "
                        + " ".join(json.dumps(dict(sorted(libs.items())), indent=4).split()))
        for q in a.pols:
            if q.prio > a.overall.prio:
                if ext[q.name][0]:
                    text.append(f"In order to achieve the tag platform tag {q.name!r} the following shared library "
                                f"dependencies will need to be eliminated: {', '.join(sorted(ext[q.name][0]))}")
                if ext[q.name][1]:
                    text.append(f"In order to achieve the tag platform tag {q.name!r} the following black-listed "
                                "symbol dependencies will need to be eliminated:")
                    for k, b in sorted(ext[q.name][1].items()):
                        text.append(f"From {k}: {', '.join(sorted(b))}")
    rest()
    return True, doc, text


SHOW_MARKS = ("is consistent with", "This wheel uses the PyFPE", "narrow unicode", "unsupported ISA", "references no external",
              "references external versioned", "This constrains the platform", "requires no external shared",
              "external shared libraries are required", "shared library dependencies will need",
              "black-listed symbol dependencies will need")


def check_show(spec, p, w, ok: bool, stdout: str, schema=None) -> list[V]:
    out = []
    bad = lambda kind, msg: out.append(V("C12", kind, msg))
    want_ok, doc, text = expect_show(spec, p, w)
    if ok != want_ok:
        bad("status", f"show {'succeeds' if ok else 'fails'}, should {'succeed' if want_ok else 'fail'}")
        return out
    js = "--json" in p["argv"]
    if merged(spec):
        stdout = re.sub(r"(?<![\w/.-])/lib(64)?/", r"/usr/lib\1/", stdout)
    if js and stdout.strip():
        try:
            got = json.loads(stdout)
        except ValueError:
            bad("json", "the output is not JSON")
            return out
        if schema is not None:
            for er in schema.iter_errors(got):
                bad("schema", f"the output does not conform to the schema: {er.message[:200]}")
                break
        if doc is not None and "error" not in doc:
            for k in sorted({*doc, *got}):
                if got.get(k, "(absent)") != doc.get(k, "(absent)"):
                    bad("json:" + k, f"{k} is {json.dumps(got.get(k))[:400]}, should be {json.dumps(doc.get(k))[:400]}")
        elif doc is not None and not isinstance(got.get("error"), str):
            bad("error", "no error in the output")
    elif js and want_ok:
        bad("nothing", "nothing is printed")
    elif want_ok and text is not None:
        flat = " ".join(stdout.split())
        flat = re.sub(r"\{('[^{}]*')\}", lambda m: "{" + ", ".join(sorted(m[1].split(", "))) + "}", flat)
        flat = re.sub(r"frozenset\(\{", "{", flat)
        for t in text:
            if " ".join(t.split()) not in flat:
                bad("text", f"the output lacks: {t[:300]}")
                break
        for mk in SHOW_MARKS:
            n = flat.count(mk)
            m = sum(t.count(mk) for t in text)
            if n != m:
                bad("textextra", f"the output says '{mk}' {n} times instead of {m}")
                break
    return out


# --------------------------------------------------------------------------- lddtree
def expect_tree(spec, p, path):
    """The document lddtree prints for a file on the host."""
    v = host_vfs(spec)
    env = proc_env(p)
    o = R.parse_args(p["argv"], env)
    h = R.Host(v, env, o["ldpaths"], cwd=p.get("cwd", "/work"))
    real = h.real(path)
    t = R.ldd(h, path)
    return t, real


def merged(spec) -> bool:
    """/lib is a link to /usr/lib: two names of the same file"""
    return any(f["path"] == "/lib" and "link" in f for f in spec["files"])


def check_tree(spec, p, path, doc) -> list[V]:
    out = []
    if merged(spec):
        doc = json.loads(re.sub(r'"realpath": "/lib(64)?/', r'"realpath": "/usr/lib\1/', json.dumps(doc)))
    bad = lambda kind, msg: out.append(V("C13", kind, msg))
    t, real = expect_tree(spec, p, path)
    if doc.get("realpath") != real:
        bad("realpath", f"the real path of {path} is given as {doc.get('realpath')}, not {real}")
    if list(doc.get("needed", ())) != list(t.needed):
        bad("needed", f"dependencies {doc.get('needed')} instead of {list(t.needed)}")
    libs = doc.get("libraries", {})
    if sorted(libs) != sorted(t.libs):
        bad("names", f"libraries {sorted(libs)} instead of {sorted(t.libs)}")
        return out
    for n, x in sorted(t.libs.items()):
        g = libs[n]
        want = re.sub(r"^/lib(64)?/", r"/usr/lib\1/", x.real) if x.real and merged(spec) else x.real
        if want is not None and not host_vfs(spec).exists(want):
            continue  # the interpreter, which may be missing
        if g.get("realpath") != want:
            bad("library", f"{n} is resolved to {g.get('realpath')} instead of {x.real}")
        elif x.real is not None and list(g.get("needed", ())) != list(x.needed):
            bad("libneeded", f"{n} needs {g.get('needed')} instead of {list(x.needed)}")
    for k, want in (("rpath", t.rpath), ("runpath", t.runpath)):
        if sorted(doc.get(k, ())) != sorted(want) or list(doc.get(k, ())) != list(want):
            bad(k, f"{k} is {doc.get(k)} instead of {list(want)}")
    if (doc.get("interpreter") or None) != t.interp:
        bad("interpreter", f"interpreter {doc.get('interpreter')} instead of {t.interp}")
    return out
