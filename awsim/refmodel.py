"""Reference model: what auditwheel should decide about a wheel on a host.

Written from the documentation, PEP 600 and the dynamic loader's rules, over the
independent ELF reader and frozen copies of the policy tables; it shares no code
with auditwheel.  It sees the host as a VFS and the wheel unpacked at ``W``.
"""

from __future__ import annotations

import csv
import fnmatch
import io
import os
import re
import zipfile

from . import elfread, gen, vfs as vfs_mod

W = "/tmp/W"
LIBPYTHON = re.compile(r"^libpython\d+\.\d+m?.so(\.\d)*$")
ARCHS = ["aarch64", "arm64_v8a", "armv7l", "i686", "loongarch64", "ppc64", "ppc64le", "riscv64", "s390x",
         "x86_64", "x86_64_v2", "x86_64_v3", "x86_64_v4"]
SYSV_LIKE = {0, 3}  # ELFOSABI_NONE/SYSV and GNU/LINUX


class Refuse(Exception):
    """auditwheel must end with a non-zero status."""


class NotPlatform(Refuse):
    """The wheel holds no ELF file of a known architecture."""


def base_arch(a: str) -> str:
    if a.startswith("arm64"):
        return "aarch64"
    return "x86_64" if a.startswith("x86_64") else a


class Plat:
    """Identity and architecture of an ELF file."""

    def __init__(self, e: elfread.Elf):
        self.osabi, self.bits, self.le, self.machine = e.osabi, e.bits, e.le, e.machine
        self.arch = elfread.arch_of(e)
        self.ext = None  # x86-64 level above the baseline
        self.bad_isa = False
        if self.arch == "x86_64" and e.isa is not None:
            d = e.isa & ~1
            if d & 8:
                self.ext = 4
            elif d & 4:
                self.ext = 3
            elif d & 2:
                self.ext = 2
            elif d:
                self.bad_isa = True

    def compatible(self, o: "Plat") -> bool:
        return (
            (self.osabi == o.osabi or {self.osabi, o.osabi} <= SYSV_LIKE)
            and (self.bits, self.le, self.machine) == (o.bits, o.le, o.machine)
        )


class Lib:
    __slots__ = ("soname", "path", "real", "plat", "needed")

    def __init__(self, soname, path=None, real=None, plat=None, needed=()):
        self.soname, self.path, self.real, self.plat, self.needed = soname, path, real, plat, needed


class Tree:
    __slots__ = ("path", "plat", "needed", "libs", "libc", "interp", "rpath", "runpath")


class Host:
    """The host as the model sees it."""

    def __init__(self, v: vfs_mod.VFS, env: dict, ldpaths_arg: str | None, cwd=W):
        self.v = v
        self.env = env
        self.arg = ldpaths_arg
        self.cwd = cwd

    def isdir(self, p):
        try:
            return self.v.get(p).kind == "d"
        except OSError:
            return False

    def real(self, path: str) -> str | None:
        """Canonical path of an existing file."""
        try:
            return self.v.path_of(self.v.get(path))
        except OSError:
            return None

    def data(self, path: str) -> bytes:
        return self.v.read(path)

    def split(self, s: str | None, origin: str | None = None) -> list[str]:
        if not s:
            return []
        out = []
        for e in s.split(":"):
            if e == "":
                e = self.cwd
            elif "$ORIGIN" in e or "${ORIGIN}" in e:
                if origin is None:
                    raise Refuse("$ORIGIN without a file")
                e = e.replace("${ORIGIN}", origin).replace("$ORIGIN", origin)
            else:
                e = "/" + e
            e = os.path.normpath(e).replace("//", "/")
            if e not in out:
                out.append(e)
        return [e for e in out if self.isdir(e)]

    def conf(self, path="/etc/ld.so.conf", depth=0) -> list[str]:
        out = []
        try:
            text = self.v.read(path).decode()
        except OSError:
            return []
        for line in text.split("\n"):
            line = line.split("#", 1)[0].strip()
            if not line:
                continue
            words = line.split()
            if words[0] == "include" and len(words) > 1:
                for pat in words[1:]:
                    if not pat.startswith("/"):
                        pat = os.path.dirname(path) + "/" + pat
                    d, b = os.path.split(pat)
                    try:
                        names = sorted(self.v.get(d).children)
                    except OSError:
                        names = []
                    for n in names:
                        if fnmatch.fnmatchcase(n, b) and (not n.startswith(".") or b.startswith(".")):
                            out += self.conf(d + "/" + n, depth + 1)
            else:
                out.append(os.path.normpath("/" + line).replace("//", "/"))
        return out

    def default_paths(self, libc):
        """(env, conf) directories for a loader."""
        env = ":".join(filter(None, (self.env.get("AUDITWHEEL_LD_LIBRARY_PATH"),
                                     self.env.get("LD_LIBRARY_PATH"))))
        if self.arg is not None:
            return self.split(self.env.get("AUDITWHEEL_LD_LIBRARY_PATH", "")), self.split(self.arg)
        e = self.split(env)
        if libc == "musl":
            names = [n for n in (self.v.get("/etc").children if self.v.exists("/etc") else ())
                     if fnmatch.fnmatchcase(n, "ld-musl-*.path")]
            if names:
                return e, [x.strip() for x in self.v.read("/etc/" + names[0]).decode().replace("\n", ":").split(":") if x.strip()]
            return e, ["/lib", "/usr/local/lib", "/usr/lib"]
        c = []
        for p in self.conf():
            if p not in c and self.isdir(p):
                c.append(p)
        return e, [*c, "/lib", "/lib64", "/usr/lib", "/usr/lib64"]

    def find(self, plat: Plat, soname: str, dirs: list[str]):
        for d in dirs:
            p = os.path.join(d, soname)
            r = self.real(p)
            if r is None or self.v.get(r).kind != "f":
                continue
            e = elfread.parse(self.data(r))
            if plat.compatible(Plat(e)):
                return r, p
        return None, None


def libc_hint(interp, needed, name):
    """Which C library a file is linked against; raises when it says both."""
    libc = None
    if interp:
        libc = "musl" if os.path.basename(interp).startswith("ld-musl-") else "glibc"
    for n in needed:
        if n.startswith(("libc.musl-", "ld-musl-")):
            if libc == "glibc":
                raise Refuse("both C libraries")
            libc = "musl"
        elif n == "libc.so.6" or n.startswith(("ld-linux-", "ld64.so.")):
            if libc == "musl":
                raise Refuse("both C libraries")
            libc = "glibc"
    if libc is None:
        if name.endswith(("-arm-linux-musleabihf.so", "-linux-musl.so")):
            libc = "musl"
        elif name.endswith(("-arm-linux-gnueabihf.so", "-linux-gnu.so")):
            stem = name[:-3].split(".")[-1].split("-")
            if stem[0] == "cpython" and stem[1].startswith(tuple(f"3{m}" for m in range(11, 100))):
                libc = "glibc"
    return libc


def ldd(h: Host, path: str, exclude=()) -> Tree:
    """Dependency tree of the file at ``path`` (absolute)."""
    libs: dict[str, Lib] = {}

    def visit(real, first, ctx):
        e = elfread.parse(h.data(real))
        plat = Plat(e)
        t = Tree()
        t.path, t.plat, t.interp, t.libc = real, plat, None, None
        origin = os.path.dirname(real)
        t.rpath, t.runpath = h.split(e.rpath, origin), h.split(e.runpath, origin)
        if e.runpath is not None:
            t.rpath = []
        if first:
            interp = None
            if e.interp:
                interp = os.path.normpath("/" + e.interp).replace("//", "/")
                n = os.path.basename(interp)
                libs[n] = Lib(n, interp, h.real(interp) or interp, plat)
            t.interp = interp
            t.libc = libc_hint(interp, e.needed, os.path.basename(real))
            # the search path is chosen before the file's dependencies are known when it names a loader
            early = None
            if interp:
                early = "musl" if os.path.basename(interp).startswith("ld-musl-") else "glibc"
            env, conf = h.default_paths(early or t.libc)
            idirs = []
            if interp:
                d = os.path.dirname(interp)
                idirs = [d, "/usr" + d]
            ctx = (t.rpath, t.runpath, env, conf, idirs)
        mrp, mrun, env, conf, idirs = ctx
        dirs = [*mrp, *t.rpath, *t.runpath, *env, *mrun, *conf, *idirs]
        dropped = set()
        for n in e.needed:
            if n in libs or n in dropped:
                continue
            if any(fnmatch.fnmatch(n, x) for x in exclude):
                dropped.add(n)
                continue
            if LIBPYTHON.match(n):
                libs[n] = Lib(n)
                continue
            r, p = h.find(plat, n, dirs)
            if r is not None and any(fnmatch.fnmatch(r, x) for x in exclude):
                dropped.add(n)
                continue
            libs[n] = Lib(n, p, r)
            if r is None:
                continue
            sub = visit(r, False, ctx)
            libs[n] = Lib(n, p, r, sub.plat, sub.needed)
        t.needed = tuple(n for n in e.needed if n not in dropped)
        return t

    t = visit(path, True, None)
    t.libs = libs
    return t


# --------------------------------------------------------------------------- policies
class Policy:
    __slots__ = ("name", "base", "aliases", "prio", "syms", "white", "black")


MUSL_ARCH = {"x86_64": "x86_64", "i686": "x86", "aarch64": "aarch64", "s390x": "s390x", "ppc64le": "ppc64le",
             "armv7l": "armv7", "riscv64": "riscv64", "loongarch64": "loongarch64"}


def policies(libc: str, arch: str, wheel_name: str, host: dict, has_musl: bool) -> list[Policy]:
    """Policies that apply, worst (generic linux) first."""
    out = []
    ba = base_arch(arch)
    for p in gen.policy_data(libc):
        if p["name"] != "linux" and arch not in p["symbol_versions"]:
            continue
        q = Policy()
        q.base = p["name"]
        q.name = f"{p['name']}_{ba}"
        q.aliases = [f"{a}_{ba}" for a in p["aliases"]]
        q.prio = p["priority"]
        q.syms = {} if p["name"] == "linux" else {
            k: {f"{k}_{x}" for x in v} for k, v in p["symbol_versions"][ba].items()}
        q.white = set(p["lib_whitelist"])
        if libc == "musl" and "libc.so" in q.white:
            q.white.discard("libc.so")
            q.white.add(f"libc.musl-{MUSL_ARCH[ba]}.so.1")
        q.black = {k: set(v) for k, v in p["blacklist"].items()}
        out.append(q)
    out.sort(key=lambda p: p.prio)
    if libc == "musl":
        ver = host.get("musl_version") if has_musl else None
        m = re.match(r"(\d+)\.(\d+)\.\d+", ver or "")
        if m:
            out = [p for p in out if p.base in ("linux", f"musllinux_{m[1]}_{m[2]}")]
        else:
            out = out[:2]
        if len(out) != 2:
            raise Refuse("unknown musl version")
    elif libc == "android":
        plats = wheel_platforms(wheel_name)
        if len(plats) != 1:
            raise Refuse("several Android tags")
        lvl = android_level(plats[0])
        for p in out:
            if p.base.startswith("android") and android_level(p.base) <= lvl:
                p.name = plats[0]
                p.aliases = []
                out = [out[0], p]
                break
        else:
            raise Refuse("no Android policy")
    return out


def android_level(t):
    m = re.match(r"android_(\d+)", t)
    if not m:
        raise Refuse("invalid tag")
    return int(m[1])


def wheel_platforms(name: str) -> list[str]:
    return sorted(set(name[:-4].split("-")[-1].split(".")))


def filename_arch(name: str):
    """(architecture or None, pure)"""
    found, missed, pure = set(), False, True
    for t in wheel_platforms(name):
        if t == "any":
            missed = True
            continue
        pure = False
        a = [x for x in ARCHS if t.endswith("_" + x)]
        if a:
            found |= {base_arch(x) for x in a}
        else:
            missed = True
    if len(found) != 1 or missed:
        return None, pure and not found
    return found.pop(), False


def filename_libc(name: str):
    found = set()
    for t in wheel_platforms(name):
        for pre, lc in (("manylinux", "glibc"), ("musllinux", "musl"), ("android", "android")):
            if t.startswith(pre):
                found.add(lc)
    return found.pop() if len(found) == 1 else None


def loader_name(n: str) -> bool:
    return "ld-linux" in n or n in ("ld64.so.2", "ld64.so.1")


def versioned(e: elfread.Elf) -> dict[str, set[str]]:
    return {lib: set(v) for lib, v in e.verneed.items()
            if not (lib.startswith("ld-linux") or lib in ("ld64.so.2", "ld64.so.1"))}


def sym_policy(pols, syms: dict[str, set[str]]) -> Policy:
    req: dict[str, set[str]] = {}
    for v in syms.values():
        for s in v:
            req.setdefault(s.partition("_")[0], set()).add(s)
    for p in reversed(pols):
        if all(v <= p.syms[k] for k, v in req.items() if k in p.syms):
            return p
    raise AssertionError


class Analysis:
    pass


def unpack(v: vfs_mod.VFS, data: bytes) -> list[str]:
    """Unpack a wheel at W; returns RECORD's rows in order."""
    rec = None
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        for zi in z.infolist():
            if zi.filename.endswith("/"):
                v.makedirs(f"{W}/{zi.filename.rstrip('/')}")
                continue
            b = z.read(zi)
            v.put(f"{W}/{zi.filename}", b)
            if re.fullmatch(r"[^/]+\.dist-info/RECORD", zi.filename):
                rec = b.decode()
    if rec is None:
        raise Refuse("no RECORD")
    return [r[0] for r in csv.reader(rec.splitlines())]


def is_pyext(name: str, e: elfread.Elf):
    mod = name.split(".", 1)[0]
    f = {"init" + mod: 2, "PyInit_" + mod: 3, "_cffi_pypyinit_" + mod: 2}
    for n, _bind, typ in e.defined:
        if n in f and typ == 2:
            return f[n]
    return None


def analyze(v: vfs_mod.VFS, host: dict, env: dict, wheel_name: str, wheel: bytes, *, exclude=(),
            ldpaths=None, no_isa=False, repair=False, base=None, arch=None, libc=None) -> Analysis:
    """The verdict for a wheel; ``v`` is a private copy of the host's disk, modified.

    Raises Refuse when the command has to fail before reaching a verdict.
    """
    rows = unpack(v, wheel)
    if libc == "android" and ldpaths is None:
        ldpaths = ""
    h = Host(v, env, ldpaths)
    has_musl = sum(fnmatch.fnmatchcase(n, "libc.musl-*.so.1") for n in
                   (v.get("/lib").children if v.exists("/lib") else ())) == 1
    pols = None
    full: dict[str, Tree] = {}
    nonpy: dict[str, Tree] = {}
    refs: dict[str, dict] = {}
    syms: dict[str, set] = {}
    ucs2 = fpe = platform_wheel = purelib = False

    for fn in rows:
        name = os.path.basename(fn)
        if name.endswith(".py") or not v.exists(f"{W}/{fn}"):
            continue
        data = v.read(f"{W}/{fn}")
        if data[:4] != b"\x7fELF":
            continue
        if "purelib" in fn.split("/")[:-1]:
            purelib = True
        if purelib:
            continue
        e = elfread.parse(data)
        t = ldd(h, f"{W}/{fn}", exclude)
        a = t.plat.arch
        if a is None:
            continue
        if arch is None:
            arch = a
        elif a != base_arch(arch):
            continue
        if t.libc is not None:
            if libc is None:
                libc = t.libc
            elif libc != t.libc:
                continue
        if pols is None and libc is not None:
            pols = policies(libc, arch, wheel_name, host, has_musl)
        platform_wheel = True
        for k, s in versioned(e).items():
            syms.setdefault(k, set()).update(s)
        py = is_pyext(name, e)
        if py:
            if pols is None:
                raise Refuse("no libc for an extension")
            full[fn] = t
            fpe |= any(n in ("PyFPE_jbuf", "PyFPE_dummy", "PyFPE_counter") and ty in (0, 2) for n, _b, ty in e.undef)
            if py == 2:
                ucs2 |= any("PyUnicodeUCS2_" in n and ty == 2 for n, _b, ty in e.undef)
            refs[fn] = ext_refs(h, pols, libc, t)
        else:
            nonpy[fn] = t
    if purelib:
        raise Refuse("shared library in purelib")
    if not platform_wheel:
        raise NotPlatform("not a platform wheel")

    # a library the wheel carries is loaded by somebody else's loader
    resolved = [t for t in (*full.values(), *nonpy.values()) if all(x.real is not None for x in t.libs.values())]
    for fn in list(nonpy):
        t = nonpy[fn]
        if all(x.real is not None for x in t.libs.values()):
            continue
        ref = next((c for c in resolved if any(x.real == t.path for x in c.libs.values())), None)
        if ref is None:
            continue
        new: dict[str, Lib] = {}
        seen = set(t.libs)
        for n, x in t.libs.items():
            if x.real is None and n in ref.libs:
                new[n] = ref.libs[n]
                todo = set(new[n].needed) - seen
                while todo:
                    cur = set(todo)
                    seen |= cur
                    for m in cur:
                        if m in ref.libs:
                            new[m] = ref.libs[m]
                            todo |= set(new[m].needed)
                    todo -= seen
            else:
                new[n] = x
        t2 = Tree()
        for s in Tree.__slots__:
            setattr(t2, s, getattr(t, s))
        t2.libs = new
        nonpy[fn] = t2

    needed_anywhere = {n for t in (*full.values(), *nonpy.values()) for n in t.needed}
    if pols is None:
        libc = "musl" if has_musl else "glibc"
        pols = policies(libc, arch, wheel_name, host, has_musl)
    for fn, t in nonpy.items():
        if os.path.basename(fn) not in needed_anywhere:
            full[fn] = t
        refs[fn] = ext_refs(h, pols, libc, t)

    # merge
    ext = {p.name: ({}, {}) for p in pols}
    for fn in full:
        for p in pols:
            for k, b in refs[fn][p.name][1].items():
                ext[p.name][1].setdefault(k, set()).update(b)
            ext[p.name][0].update(refs[fn][p.name][0])
    ext_libs: dict[str, set[str]] = {}  # file -> names; a name can stand for several files
    for fn in refs:
        for p in pols[1:]:
            for n, r in refs[fn][p.name][0].items():
                if r is not None:
                    ext_libs.setdefault(r, set()).add(n)
    ext_syms: dict[str, dict[str, set[str]]] = {}
    for r, names in ext_libs.items():
        for n in names:
            for k, x in versioned(elfread.parse(v.read(r))).items():
                ext_syms.setdefault(n, {}).setdefault(k, set()).update(x)
    best = None
    for p in pols[1:]:
        s = {k: set(x) for k, x in syms.items()}
        for n in ext[p.name][0]:
            for k, x in ext_syms.get(n, {}).items():
                s.setdefault(k, set()).update(x)
        q = sym_policy(pols, s)
        if q.prio > p.prio:
            q = p
        if best is None or q.prio > best[0].prio:
            best = (q, s)
    r = Analysis()
    r.host, r.pols, r.libc, r.arch = h, pols, libc, arch
    r.full, r.nonpy, r.refs, r.ext = full, nonpy, refs, ext
    r.sym, r.symbols = best
    linux, highest = pols[0], pols[-1]
    top = lambda ok: max((p for p in pols if ok(p)), key=lambda p: p.prio, default=linux)
    r.refpol = top(lambda p: not ext[p.name][0])
    r.black = top(lambda p: not ext[p.name][1])
    if base is None or base == "auto":
        counts = [len(ext[p.name][0]) for p in pols if p is not linux]
    else:
        counts = [len(ext[p.name][0]) for p in pols if any(n.startswith(base + "_") for n in [p.name, *p.aliases])]
    g = min(counts, default=0)
    r.graft = top(lambda p: len(ext[p.name][0]) <= g)
    r.machine = highest
    if not no_isa:
        r.machine = machine_policy(pols, full, set().union(*ext_libs.values()))
    r.ucs = linux if ucs2 else highest
    r.fpe = linux if fpe else highest
    cand = [r.sym, r.ucs, r.fpe, r.black, r.machine]
    if base is not None:
        cand.append(r.graft)
    if not repair:
        cand.append(r.refpol)
    r.overall = min(cand, key=lambda p: p.prio)
    return r


def machine_policy(pols, full, ext_names):
    todo: dict[str, tuple] = {}

    def ext(plat):
        if plat.arch is None or plat.bad_isa:
            raise Refuse("unknown ISA")
        return plat.ext

    for fn, t in full.items():
        if fn in todo:
            continue
        todo[fn] = (None, ext(t.plat))
        for x in t.libs.values():
            if x.soname not in ext_names or x.real is None or x.real in todo:
                continue
            todo[x.real] = (x.soname, ext(x.plat))
    res = pols[-1]
    for soname, lvl in todo.values():
        if lvl is None:
            continue
        if soname is not None:
            f = max((p for p in pols if soname in p.white), key=lambda p: p.prio, default=pols[0])
            if f.prio > pols[0].prio:
                if f.prio < res.prio:
                    res = f
                continue
        res = pols[0]
    return res


def in_wheel(real: str | None) -> bool:
    return real is not None and (real == W or real.startswith(W + "/"))


def ext_refs(h: Host, pols, libc, t: Tree) -> dict:
    """policy name -> ({soname: real path or None}, {lib: black-listed symbols used})"""
    und = None
    out = {}
    for p in pols:
        if p.prio == 0:
            out[p.name] = ({}, {})
            continue

        def keep(n):
            if loader_name(n) or n in p.white:
                return False
            return not (libc == "android" and LIBPYTHON.match(n))

        black = {}
        for k in set(p.black) & set(t.needed):
            if und is None:
                und = {n for n, b, _t in elfread.parse(h.data(t.path)).undef if b != 2} | {"*"}
            hit = p.black[k] & und
            if hit:
                black[k] = set(hit)
        libs, todo = set(), [n for n in t.needed if keep(n)]
        while todo:
            n = todo.pop()
            if n in libs:
                continue
            libs.add(n)
            todo += [d for d in t.libs[n].needed if keep(d) and d not in libs]
        out[p.name] = ({n: t.libs[n].real for n in libs if not in_wheel(t.libs[n].real)}, black)
    return out


# --------------------------------------------------------------------------- commands
def parse_args(argv: list[str], env: dict) -> dict:
    """The command lines the generators make (not a general parser)."""
    o = {"cmd": None, "v": 0, "plat": env.get("AUDITWHEEL_PLAT") or "auto", "z": None, "strip": False,
         "only_plat": False, "update": True, "lib_sdir": ".libs", "exclude": [], "no_isa": False,
         "ldpaths": None, "wheel_dir": "wheelhouse/", "files": [], "json": False, "pure": False,
         "patcher": env.get("AUDITWHEEL_PATCHER") or "patchelf"}
    i = 0
    val = {"--plat": "plat", "-z": "z", "-L": "lib_sdir", "--ldpaths": "ldpaths", "-w": "wheel_dir",
           "--patcher": "patcher"}
    flag = {"--strip": ("strip", True), "--only-plat": ("only_plat", True), "--no-update-tags": ("update", False),
            "--disable-isa-ext-check": ("no_isa", True), "--json": ("json", True),
            "--allow-pure-python-wheel": ("pure", True)}
    while i < len(argv):
        a = argv[i]
        if a == "-v":
            o["v"] += 1
        elif a in val:
            i += 1
            o[val[a]] = argv[i]
        elif a == "--exclude":
            i += 1
            o["exclude"].append(argv[i])
        elif a in flag:
            o[flag[a][0]] = flag[a][1]
        elif o["cmd"] is None:
            o["cmd"] = a
        else:
            o["files"].append(a)
        i += 1
    return o


class Plan:
    """What repair must do with one wheel."""


def repair_plan(v, host, env, name: str, wheel: bytes, o: dict, detect_arch: str) -> Plan:
    """Raises Refuse when the command has to fail."""
    arch, _pure = filename_arch(name)
    req = None
    base = o["plat"]
    for a in ARCHS:
        if base.endswith("_" + a):
            base, req = base[: -len(a) - 1], a
            break
    if arch is not None and req is not None and arch != req:
        raise Refuse("another architecture was asked for")
    arch = arch or req
    libc = filename_libc(name)
    for pre, lc in (("manylinux", "glibc"), ("musllinux", "musl"), ("android", "android")):
        if base.startswith(pre):
            if libc is None:
                libc = lc
            if libc != lc:
                raise Refuse("another libc was asked for")
    a = analyze(v, host, env, name, wheel, exclude=o["exclude"], ldpaths=o["ldpaths"], no_isa=o["no_isa"],
                repair=True, base=base, arch=arch, libc=libc)
    pols = a.pols
    if base == "auto":
        plat = pols[1].name if a.overall is pols[0] else a.overall.name
    else:
        plat = f"{base}_{a.arch}"
    m = [p for p in pols if p.name == plat or plat in p.aliases]
    if len(m) != 1:
        raise Refuse("no such policy for this wheel")
    want = m[0]
    for lim in (a.sym, a.ucs, a.fpe, a.black, a.machine):
        if want.prio > lim.prio:
            raise Refuse("policy cannot be met")
    abis = [want.name, *want.aliases]
    if not o["only_plat"] and want.prio < a.overall.prio:
        abis = [a.overall.name, *a.overall.aliases, *abis]
    r = Plan()
    r.a, r.want, r.abis = a, want, abis
    r.target = next(p for p in pols if p.name == abis[0])
    # what has to be grafted, per file
    r.grafts = {}
    r.files = {}
    for fn, by in a.refs.items():
        ext = by[abis[0]][0]
        r.files[fn] = ext
        for n, real in ext.items():
            if LIBPYTHON.match(n):
                continue
            if real is None:
                raise Refuse(f"library {n} not found")
            r.grafts.setdefault(n, set()).add(real)
    if o["patcher"] != "none" and o["patcher"] not in host.get("tools", ("patchelf",)):
        raise Refuse("the patcher is not installed")
    if o["patcher"] == "none" and any(r.files.values()):
        raise Refuse("the none patcher cannot patch")
    if a.libc == "android" and any(r.files.values()) and android_level(want.name) < 24:
        raise Refuse("RUNPATH needs API level 24")
    repl = []
    if not abis[0].startswith("linux"):
        if abis[0].startswith(("manylinux_", "musllinux_")):
            repl = ["linux_" + "_".join(abis[0].split("_")[3:])]
        else:
            repl = ["linux_" + "_".join(abis[0].split("_")[1:])]
    r.out_name = name
    r.replaced = repl
    if o["update"]:
        tags = [t for t in wheel_platforms(name) if t not in repl]
        tags = sorted(dict.fromkeys([*tags, *abis]))
        if "any" in tags and len(tags) > 1:
            tags.remove("any")
        r.out_name = name[:-4].rsplit("-", 1)[0] + "-" + ".".join(tags) + ".whl"
    r.tags = wheel_platforms(r.out_name)
    return r
