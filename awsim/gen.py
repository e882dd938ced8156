"""Random worlds: hosts, wheels and commands, as plain JSON specifications."""

from __future__ import annotations

import json
import os
import random
import re

HERE = os.path.dirname(__file__)

WORDS = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota", "kappa", "mu", "nu",
         "omega-2.0", "pi_x", "rho++", "sigma.core", "tau", "Upsilon", "Alpha"]

# file names of extension modules end with these
EXT_SUFFIXES = [".cpython-311-{gnu}.so", ".cpython-311-{gnu}.so", ".abi3.so", ".abi3.so", ".so", ".so",
                ".pypy310-pp73-{gnu}.so", ".pyx.so", ".py.so", ".cpython-313t-{gnu}.so", ".x.so.1"]

ARCH = {
    # arch: (machine, bits, triplet, glibc loader, musl suffix)
    "x86_64": ("x86_64", 64, "x86_64-linux-gnu", "/lib64/ld-linux-x86-64.so.2", "x86_64"),
    "i686": ("i686", 32, "i386-linux-gnu", "/lib/ld-linux.so.2", "x86"),
    "aarch64": ("aarch64", 64, "aarch64-linux-gnu", "/lib/ld-linux-aarch64.so.1", "aarch64"),
    "armv7l": ("armv7l", 32, "arm-linux-gnueabihf", "/lib/ld-linux-armhf.so.3", "armv7"),
    "ppc64le": ("ppc64le", 64, "powerpc64le-linux-gnu", "/lib64/ld64.so.2", "ppc64le"),
    "s390x": ("s390x", 64, "s390x-linux-gnu", "/lib/ld64.so.1", "s390x"),
    "riscv64": ("riscv64", 64, "riscv64-linux-gnu", "/lib/ld-linux-riscv64-lp64d.so.1", "riscv64"),
    "loongarch64": ("loongarch64", 64, "loongarch64-linux-gnu",
                    "/lib64/ld-linux-loongarch-lp64d.so.1", "loongarch64"),
}

_POL: dict = {}


def policy_data(libc: str) -> list:
    if libc not in _POL:
        name = {"glibc": "manylinux", "musl": "musllinux", "android": "android"}[libc]
        with open(os.path.join(HERE, "policydata", f"{name}-policy.json"), encoding="utf-8") as f:
            _POL[libc] = json.load(f)
    return _POL[libc]


_VERS: dict = {}


def _vkey(v: str):
    return [int(x) if x.isdigit() else 10**6 for x in re.split(r"[._]", v)]


def versions(arch: str, prefix: str) -> list[str]:
    """All versions of a symbol prefix any glibc policy of the architecture knows, oldest first."""
    key = (arch, prefix)
    if key not in _VERS:
        s = set()
        for p in policy_data("glibc"):
            s |= set(p["symbol_versions"].get(arch, {}).get(prefix, ()))
        _VERS[key] = sorted(s, key=_vkey)
    return _VERS[key]


# worlds in which repair nearly always succeeds
EASY = {"levels": [1, 0, 0], "plat": 0.1, "too_recent": 0, "private": 0, "black": 0, "isa": 0, "purelib": 0,
        "exclude": 0.08}


# Names of payload files that a tool might be tempted to treat specially, or to mangle
ODD_NAMES = [
    "{pk}/__pycache__/a.cpython-311.pyc", "{pk}/.hidden/.dot", "{pk}/.gitignore", ".gitkeep", "{pk}/a b/c  d.txt",
    "{pk}/-dash", "-top", "{pk}/back\\slash.txt", "{pk}/it's.txt", "{pk}/com,ma.txt", "{pk}/RECORD", "{pk}/WHEEL",
    "{pk}/METADATA", "{pk}/%41%2e.txt", "{pk}/tests/x.dist-info/RECORD", "{pk}/x.dist-info", "{pk}/UPPER.TXT",
    "{pk}/upper.txt", "{pk}/nested.whl", "{pk}/nested.tar.bz2", "{pk}/libx.la", "{pk}/libx.a", "{pk}/.so",
    "{pk}/lib.so.d/readme", "{pk}/a/b/c/d/e/f/g/h.txt", "{pk}/file~", "{pk}/x.tmp", "{pk}/.auditwheel-x", "{pk}/tmpabc",
    "{pk}/RECORD.jws", "{di}/RECORD.p7s", "{di}/top_level.txt", "{di}/INSTALLER", "{di}/sub/RECORD",
    "{di}/sboms/auditwheel.json", "{pk}/tab\there", "{pk}/trailing ", "{pk}/\N{GREEK SMALL LETTER MU}\u0301.txt",
    "{nv}.data/headers/x.h", "{nv}.data/scripts/sub/tool", "{nv}.data/platlib/{pk}_p.py", "{nv}.data/data/lib/x.txt",
    "{name}.scripts/other", "{name}.libs/README", "{pk}/libs/x.txt", "conftest.py", "setup.py", "{pk}/$ORIGIN/x",
    "{pk}/{{b}}race", "{pk}/star*.txt", "{pk}/[x].txt", "{pk}/core", "{pk}/a.py/b.txt", "{pk}/x.egg-info/PKG-INFO",
    "{pk}/node_modules/m/i.js", "{pk}/.DS_Store", "{pk}/Thumbs.db", "{pk}/.git/HEAD", "{pk}/CVS/Root", "{pk}/l\N{LINE SEPARATOR}s.txt",
    "{pk}/new\nline.txt", "{pk}/v\x0bt\x85.txt",
    "{pk}/x.orig", "{pk}/x.bak", "{pk}/x.debug", "{pk}/py.typed", "{pk}/_x.pyi", "{pk}/test.pyc", "{pk}/x.so.py",
]


class Gen:
    def __init__(self, rng: random.Random, **opt):
        self.r = rng
        self.o = opt

    def p(self, x: float) -> bool:
        return self.r.random() < x

    def pick(self, seq):
        return seq[self.r.randrange(len(seq))]

    # ---------------------------------------------------------------- symbols
    def glibc_syms(self, level: str) -> list[str]:
        """A few versioned glibc symbols; ``level`` bounds how recent they are."""
        vs = versions(self.arch, "GLIBC")
        if level == "old":
            hi = max(1, len(vs) // 8)
        elif level == "mid":
            hi = max(1, len(vs) // 2)
        else:
            hi = len(vs)
        n = self.r.randint(1, 3)
        out = {self.pick(vs[:hi]) for _ in range(n)}
        return ["GLIBC_" + v for v in sorted(out, key=_vkey)]

    def sym(self, names):
        """An undefined symbol, now and then a weak one."""
        s = self.pick(names)
        return [s, "weak", "func"] if self.p(0.25) else s

    def system_needs(self, level=None):
        """(needed, verneed, undefined symbols) on the C library and friends."""
        level = level or self.r.choices(["old", "mid", "any"], self.o.get("levels", [12, 2, 1]))[0]
        if self.libc == "musl":
            need = [f"libc.musl-{ARCH[self.arch][4]}.so.1"]
            undef = []
            if self.p(0.1):
                need.append("libz.so.1")
                if self.p(0.3):
                    undef.append(self.sym(["inflate_table", "zcalloc", "deflate"]))
            return need, {}, undef
        if self.libc == "android":
            return self.r.sample(["libc.so", "libm.so", "libdl.so", "liblog.so"], self.r.randint(1, 3)), {}, []
        need = ["libc.so.6"]
        ver = {"libc.so.6": self.glibc_syms(level)}
        undef = ["malloc"]
        if self.p(0.25):
            need.append("libm.so.6")
            ver["libm.so.6"] = ["GLIBC_" + versions(self.arch, "GLIBC")[0]]
        if self.p(0.15):
            need.append("libpthread.so.0")
        if self.p(0.15):
            need.append("libstdc++.so.6")
            vs = versions(self.arch, "GLIBCXX")
            ver["libstdc++.so.6"] = ["GLIBCXX_" + self.pick(vs[: max(1, len(vs) // (1 if level == "any" else 3))])]
        if self.p(0.1):
            need.append("libgcc_s.so.1")
            vs = versions(self.arch, "GCC")
            if vs:
                ver["libgcc_s.so.1"] = ["GCC_" + self.pick(vs[: max(1, len(vs) // 2)])]
        if self.p(self.o.get("zlib", 0.12)):
            need.append("libz.so.1")
            vs = versions(self.arch, "ZLIB")
            if vs and self.p(0.5):
                ver["libz.so.1"] = ["ZLIB_" + self.pick(vs)]
            if self.p(0.3):
                undef += [self.sym([x]) for x in self.r.sample(["zcalloc", "inflate_fast", "deflate", "gzflags"], self.pick([1, 1, 2]))]
        if self.p(self.o.get("partial", 0.06)):
            need.append("libexpat.so.1")
        if self.p(self.o.get("partial", 0.04)) and self.arch == "x86_64":
            need.append("libmvec.so.1")
        if self.p(0.1):
            need.append(os.path.basename(ARCH[self.arch][3]))
            if self.p(0.5):
                ver[need[-1]] = ["GLIBC_" + versions(self.arch, "GLIBC")[0]]
            if self.p(0.2):
                # the loader only
                return need[-1:], {k: v for k, v in ver.items() if k == need[-1]}, undef
        if self.p(self.o.get("too_recent", 0.008)):
            ver["libc.so.6"].append("GLIBC_2.99")
        if self.p(self.o.get("private", 0.006)):
            ver["libc.so.6"].append("GLIBC_PRIVATE")
        if self.p(self.o.get("black", 0.015)):
            undef.append(self.sym(["__cxa_thread_atexit_impl", "pthread_getattr_default_np", "__issignaling"]))
        if self.p(0.05):
            # the same symbol name, but only weakly referenced
            undef.append(["__issignalingf", "weak", "func"])
        self.r.shuffle(need)
        return need, ver, undef

    # ---------------------------------------------------------------- host
    def host(self):
        r = self.r
        arch, libc = self.arch, self.libc
        mach, bits, trip, loader, musl = ARCH[arch]
        files = [
            {"path": "/work", "dir": True, "uid": 1000},
            {"path": "/home/u", "dir": True, "uid": 1000},
            {"path": "/work/dist", "dir": True, "uid": 1000},
        ]
        host = {"machine": mach, "bits": f"{bits}bit", "pkgs": {}, "tools": ["patchelf", "strip", "tar"]}
        if self.p(0.7):
            host["tools"].append("lief-patchelf")
        mgr = self.o.get("mgr") or self.pick([None, "dpkg", "dpkg", "rpm", "apk", "apt-file"])
        if mgr:
            host["tools"] += ["apt", "apt-file"] if mgr == "apt-file" else [mgr]
            if mgr == "apt-file" and self.p(0.5):
                host["tools"].append("dpkg")  # which does not know the libraries
            elif self.p(0.15):
                host["tools"].append(self.pick([t for t in ("rpm", "dpkg", "apk") if t != mgr]))
            host["mgr"] = mgr
            files.append({"path": "/etc/os-release",
                          "text": f'NAME="X"\nID={self.pick(["debian", "fedora", "alpine", "al2"])}\nVERSION_ID="9"\n'})
        dirs = ["/usr/lib64", "/usr/lib", "/lib64", "/lib"]
        self.merged = libc != "android" and self.p(self.o.get("merged", 0.25))
        if self.merged:
            # /lib and /lib64 are links
            files += [{"path": "/usr/lib", "dir": True}, {"path": "/usr/lib64", "dir": True},
                      {"path": "/lib", "link": self.pick(["usr/lib", "/usr/lib"])}, {"path": "/lib64", "link": "usr/lib64"}]
        conf_dirs = [f"/usr/lib/{trip}", "/usr/local/lib", "/opt/vendor/lib", "/opt/other-1.2/lib64"]
        r.shuffle(conf_dirs)
        conf_dirs = conf_dirs[: r.randint(0, 3)]
        if libc == "glibc":
            if conf_dirs:
                style = r.random()
                if style < 0.5:
                    files.append({"path": "/etc/ld.so.conf",
                                  "text": self.pick(["# loader\ninclude ld.so.conf.d/*.conf\n\n",
                                                     "include\tld.so.conf.d/*.conf",
                                                     " include  /etc/ld.so.conf.d/[abc]*.conf\tld.so.conf.d/[xyz]*.conf # all\n",
                                                     "include /etc/none/*.conf ld.so.conf.d/*.conf\n"])})
                    for i, d in enumerate(conf_dirs):
                        files.append({"path": f"/etc/ld.so.conf.d/{self.pick('abcxyz')}{i}.conf",
                                      "text": f"# c\n{d}{self.pick(['   # trailing', '# trailing', '', ' ', '#'])}\n"})
                    if self.p(0.3):
                        files.append({"path": "/etc/ld.so.conf.d/README", "text": "/nowhere\n"})
                elif style < 0.8:
                    files.append({"path": "/etc/ld.so.conf", "text": "\n".join(conf_dirs) + "\n"})
                else:
                    files.append({"path": "/etc/ld.so.conf",
                                  "text": conf_dirs[0] + "\ninclude /etc/sub/*.conf\n"})
                    files.append({"path": "/etc/sub/z.conf", "text": "\n".join(conf_dirs[1:]) + "\n"})
            search = [*conf_dirs, *dirs]
        elif libc == "musl":
            files.append({"path": self.at(f"/lib/libc.musl-{musl}.so.1"), "mode": 0o755,
                          "elf": {"arch": arch, "soname": f"libc.musl-{musl}.so.1", "tag": "awsim-exec:musl"}})
            host["musl_version"] = self.pick(["1.1.24", "1.2.4", "1.2.5"])
            search = ["/lib", "/usr/local/lib", "/usr/lib"]
            if self.p(0.3):
                search = ["/lib", "/usr/lib", "/opt/musl/lib"]
                files.append({"path": f"/etc/ld-musl-{musl}.path", "text": self.pick([":".join(search) + "\n", "\n".join(search) + "\n", ":".join(search),
                                                 "\n".join([*search[:1], "", ":".join(search[1:]), ""])])})
            conf_dirs = []
        else:
            search = ["/ndk/lib", "/ndk/lib2"]
            conf_dirs = []
        self.search = search
        self.conf_dirs = conf_dirs
        # system libraries
        if libc == "glibc":
            sysdir = self.at(self.pick(["/lib64", "/usr/lib64", "/usr/lib"] + [d for d in conf_dirs if trip in d]))
            self.sysdir = sysdir

            def syslib(n, **k):
                if arch == "x86_64" and self.p(self.o.get("sysisa", self.o.get("isa", 0.02))):
                    k["isa"] = self.pick([1, 2, 4, 7, 8, 18])
                files.append({"path": f"{sysdir}/{n}",
                              "elf": {"arch": arch, "soname": n, "tag": "sys " + n, **k}})

            for n in ("libc.so.6", "libm.so.6", "libpthread.so.0", "libgcc_s.so.1"):
                syslib(n)
            syslib("libstdc++.so.6", needed=["libm.so.6", "libc.so.6"],
                   verneed={"libc.so.6": ["GLIBC_" + versions(arch, "GLIBC")[0]]})
            syslib("libz.so.1", needed=["libc.so.6"], verneed={"libc.so.6": self.glibc_syms("old")})
            syslib("libexpat.so.1", needed=["libc.so.6"], verneed={"libc.so.6": self.glibc_syms("old")})
            if arch == "x86_64":
                syslib("libmvec.so.1", needed=["libm.so.6"])
            if self.p(0.7):
                files.append({"path": self.at(loader), "mode": 0o755,
                              "elf": {"arch": arch, "soname": os.path.basename(loader)}})
        elif libc == "musl":
            files.append({"path": "/usr/lib/libz.so.1", "elf": {"arch": arch, "soname": "libz.so.1"}})
        else:
            for n in ("libc.so", "libm.so", "libdl.so", "liblog.so"):
                files.append({"path": f"/ndk/lib/{n}", "elf": {"arch": arch, "soname": n, "tag": "sys " + n}})
        self.files = files
        self.host_spec = host
        return host

    def at(self, path):
        """where a file of the host really is"""
        return "/usr" + path if self.merged and re.match(r"/lib(64)?(/|$)", path) else path

    def host_libs(self, n):
        """The libraries wheels may need: a dependency graph spread over the search path."""
        r = self.r
        words = r.sample(WORDS, n)
        libs = []
        for i, w in enumerate(words):
            style = r.random()
            if self.libc == "android":
                soname = fname = f"lib{w}.so"
            elif style < 0.6:
                soname = f"lib{w}.so.{r.randint(0, 12)}"
                fname = soname + self.pick(["", ".1", ".2.3", ".10.0.1"])
            elif style < 0.8:
                soname = fname = f"lib{w}.so"
            else:
                soname = f"lib{w}-{r.randint(1, 9)}.so"
                fname = soname
            libs.append({"soname": soname, "fname": fname})
        self.env_dirs = []
        for i, L in enumerate(libs):
            deps = []
            for j in range(i + 1, n):
                if self.p(0.35):
                    deps.append(libs[j]["soname"])
            if i and self.p(self.o.get("cycle", 0.06)):
                deps.append(libs[r.randrange(i)]["soname"])
            need, ver, undef = self.system_needs(None if self.p(0.3) else "old")
            place = r.random()
            if place < 0.12 and self.libc != "android":
                d = self.pick(["/env/one", "/env/two"])
                if d not in self.env_dirs:
                    self.env_dirs.append(d)
            elif place < 0.12 + self.o.get("rpdir", 0.08):
                d = "/rp/" + self.pick(["x", "y/lib"])
            else:
                d = self.at(self.pick(self.search))
            L["dir"] = d
            elf = {"arch": self.arch, "needed": [*deps, *need], "verneed": ver,
                   "undef": undef, "defined": [f"{L['soname'].split('.')[0]}_fn"],
                   "tag": f"host {d}/{L['fname']}"}
            if not (L["fname"] == L["soname"] and self.p(0.03)):
                elf["soname"] = L["soname"]
            if self.arch == "x86_64" and self.p(self.o.get("isa", 0.02)):
                elf["isa"] = self.pick([1, 2, 3, 4, 7, 8, 15, 16, 18])
            if self.libc != "android" and self.p(0.03):
                elf["needed"].append(self.pick(["libpython3.11.so.1.0", "libpython3.9.so.1.0"]))
            if self.p(self.o.get("librp", 0.1)):
                rp = self.pick(["$ORIGIN", "/rp/x:/rp/y/lib", "/rp/y/lib:/rp/x", "$ORIGIN/../lib", "/nowhere"])
                elf["runpath" if self.p(0.5) else "rpath"] = rp
                if self.p(0.2):
                    elf["rpath" if "runpath" in elf else "runpath"] = self.pick(["/nowhere", "$ORIGIN", "/rp/x"])
            L["elf"] = elf
            mode = self.pick([0o644, 0o755, 0o755, 0o555, 0o444])
            real = f"{d}/{L['fname']}"
            if self.p(0.12):
                # the library's file lives elsewhere; the search path has a link to it
                store = f"/store/{self.pick(['p1', 'p2'])}/lib/{L['fname']}"
                if self.p(0.4):
                    # in another directory of the search path
                    other = self.at(self.pick(self.search))
                    if other != d:
                        store = f"{other}/{L['fname']}"
                self.files.append({"path": store, "elf": elf, "mode": mode})
                self.files.append({"path": real, "link": store if self.p(0.5) else
                                   os.path.relpath(store, os.path.dirname(real))})
                L["real"] = store
            else:
                self.files.append({"path": real, "elf": elf, "mode": mode})
                L["real"] = real
            if L["fname"] != L["soname"]:
                self.files.append({"path": f"{d}/{L['soname']}", "link": L["fname"]})
            if self.p(0.08):
                # a decoy for another architecture, and sometimes a second copy, elsewhere
                other = self.pick([a for a in ("x86_64", "i686", "aarch64", "s390x", "ppc64") if a != self.arch])
                self.files.append({"path": f"{self.at(self.pick(self.search))}/{L['soname']}",
                                   "elf": {"arch": other, "soname": L["soname"]}})
            if d.startswith("/rp") and self.p(self.o.get("rpcopy", 0.3)):
                # the same soname behind another rpath
                other = "/rp/y/lib" if d == "/rp/x" else "/rp/x"
                self.files.append({"path": f"{other}/{L['soname']}",
                                   "elf": self.vary(elf, deps, f"{other} copy of {L['soname']}")})
                if self.arch == "x86_64" and self.p(self.o.get("rpisa", 0.02)):
                    self.files[-1]["elf"]["isa"] = self.pick([1, 2, 4, 7, 8, 18])
            if self.p(0.06):
                e2 = self.vary(elf, deps, f"second copy of {L['soname']}")
                self.files.append({"path": f"{self.at(self.pick(self.search))}/{L['soname']}", "elf": e2})
            if self.host_spec.get("mgr") and self.p(0.7):
                self.host_spec["pkgs"][L["real"]] = self.package(L["soname"])
        # duplicates of a path: the first one wins
        seen = set()
        out = []
        for f in self.files:
            if f["path"] in seen:
                continue
            seen.add(f["path"])
            out.append(f)
        self.files[:] = out
        self.libs = libs
        return libs

    def vary(self, elf, deps, tag):
        """Another build of a library."""
        e = dict(elf, tag=tag)
        if self.p(0.5):
            need, ver, undef = self.system_needs(None if self.p(0.5) else "old")
            e.update(needed=[*(d for d in deps if self.p(0.7)), *need], verneed=ver, undef=undef)
            if self.arch == "x86_64" and self.p(self.o.get("isa", 0.02) * 2):
                e["isa"] = self.pick([1, 2, 4, 7, 8, 18])
        return e

    def package(self, soname):
        """[name, version] of a package in the manner of the host's package manager"""
        r = self.r
        known = list(self.host_spec["pkgs"].values())
        if known and self.p(0.25):
            return list(self.pick(known))  # a package has more than one library
        stem = re.sub(r"[^a-z0-9+]", "", soname.split(".")[0].lower())
        name = stem + self.pick(["", "1", "6", "-dev", "-1.2-0", "-libs-core"])
        for x in known:
            if x[0] == name:
                return list(x)
        if self.host_spec["mgr"] == "apk":
            return [name, f"{r.randint(0, 9)}.{r.randint(0, 20)}{self.pick(['', '.1', 'a', '_rc1', '_p20200101'])}-r{r.randint(0, 12)}"]
        if self.host_spec["mgr"] == "rpm":
            return [name, f"{r.randint(0, 9)}.{r.randint(0, 20)}-{r.randint(1, 5)}{self.pick(['', '.el8', '.fc40_1'])}"]
        return [name, self.pick(["", "", "1:"]) + f"{r.randint(0, 9)}.{r.randint(0, 20)}-{r.randint(1, 5)}"
                + self.pick(["", "ubuntu1", "+deb12u1", "~bpo1"])]

    # ---------------------------------------------------------------- wheels
    def wheel(self, idx=0, libs=None):
        r = self.r
        libs = self.libs if libs is None else libs
        arch, libc = self.arch, self.libc
        name = self.pick(["pkg", "my_pkg", "Foo", "a.b", "zlibx", "p_9"]) + (str(idx) if idx else "")
        ver = self.pick(["1.0", "2.3.4", "0.1.dev0", "1.0+local.1", "2021.1"])
        build = self.pick(["", "", "", "-1", "-2a"])
        pyabi = self.pick(["cp311-cp311", "cp312-cp312", "cp38-abi3", "py3-none", "py2.py3-none", "pp310-pypy310_pp73"])
        if libc == "android":
            api = self.o.get("api") or self.pick([21, 24, 24, 26, 27, 33])
            plat = f"android_{api}_" + ("arm64_v8a" if arch == "aarch64" else arch)
            self.plat_tag = plat
        elif self.p(0.88):
            plat = f"linux_{arch}"
        elif libc == "glibc" and self.p(0.7) and arch in ("x86_64", "i686"):
            plat = f"manylinux_2_28_{arch}"
        else:
            plat = f"linux_{arch}" if libc == "musl" else f"manylinux_2_31_{arch}"
        if libc == "glibc" and self.p(0.04):
            plat = ".".join(sorted({plat, *(f"{x}_{arch}" for x in self.pick([
                ["linux", "manylinux_2_31"], ["manylinux2014", "manylinux_2_17"], ["linux", "manylinux_2_17", "manylinux2014"],
                ["manylinux_2_28", "manylinux_2_34"]]))}))
        fname = f"{name}-{ver}{build}-{pyabi}-{plat}.whl"
        distinfo = f"{name}-{ver}.dist-info"
        members = []

        def add(n, **k):
            if any(m["name"] == n for m in members):
                return None
            m = {"name": n, **k}
            members.append(m)
            return m

        sub = self.pick([name, name, f"{name}/sub/deep"])
        pk = name.replace(".", "/")
        if self.p(0.3):
            add(f"{pk}/")
        add(f"{pk}/__init__.py", text="x = 1\n")
        gnu = {"glibc": f"{ARCH[arch][2]}", "musl": "x86_64-linux-musl", "android": "x86_64-linux-android"}[libc]
        next_ = r.randint(1, self.o.get("max_ext", 2))
        inwheel = []
        libdir = f"{pk}/{self.pick(['lib', '_native', 'a/b'])}"
        if self.p(self.o.get("inwheel", 0.3)):
            for k in range(r.randint(1, 2)):
                inwheel.append(f"libinner{k}.so")
        for k, inner in enumerate(inwheel):
            need, v, u = self.system_needs("old")
            dep = [L["soname"] for L in libs if self.p(0.3)]
            if k and self.p(0.6):
                dep.append(inwheel[0])
            e = {"arch": arch, "needed": [*dep, *need], "verneed": v, "undef": u, "soname": inner,
                 "defined": [f"inner{k}"], "tag": f"wheel {name} {inner}"}
            if self.p(0.7):
                e["rpath" if self.p(0.6) else "runpath"] = self.pick(["$ORIGIN", "$ORIGIN:/opt/vendor/lib", "${ORIGIN}"])
            add(f"{libdir}/{inner}", elf=e, mode=self.pick([0o755, 0o644]))
        for k in range(next_):
            mod = self.pick(["_ext", "core", "fast"]) + str(k)
            d = self.pick([pk, pk, sub.replace(".", "/"), ""])
            fn = f"{d}/{mod}" if d else f"{name.replace('.', '_')}_{mod}"
            mod = os.path.basename(fn)
            suffix = self.pick(EXT_SUFFIXES).format(gnu=gnu)
            need, v, u = self.system_needs()
            deps = [L["soname"] for L in libs if self.p(0.5)]
            if not deps and libs and self.p(0.8):
                deps = [libs[0]["soname"]]
            rp = []
            for inner in inwheel:
                if self.p(0.6):
                    deps.append(inner)
                    rp.append("$ORIGIN/" + os.path.relpath(libdir, os.path.dirname(fn) or "."))
            if self.p(0.25):
                rp.insert(r.randint(0, len(rp)), self.pick(["/rp/x", "/rp/y/lib", "/opt/vendor/lib", "$ORIGIN"]))
            if self.p(0.12):
                for en in r.sample(["$ORIGIN/$LIB", "$ORIGIN/../${LIB}", "$LIB", "$LIB/x", "some/lib", "$ORIGIN/${PLATFORM}", "$PLATFORM/x",
                                    "$ORIGIN/..", "$ORIGIN/../..", "$ORIGIN/../../../../..", "$ORIGIN/sub/../lib", "${ORIGIN}/./lib/", ""],
                                   r.randint(1, 3)):
                    rp.insert(r.randint(0, len(rp)), en)
            if any(L["dir"].startswith("/rp") for L in libs) and self.p(0.8):
                rps = sorted({L["dir"] for L in libs if L["dir"].startswith("/rp")})
                if self.p(self.o.get("rporder", 0.3)):
                    rps = ["/rp/x", "/rp/y/lib"]
                    r.shuffle(rps)
                rp += rps
            self.r.shuffle(deps)
            e = {"arch": arch, "needed": [*deps, *need] if self.p(0.7) else [*need, *deps], "verneed": v, "undef": u,
                 "defined": [("PyInit_" if self.p(1 - self.o.get("py2", 0.05)) else "init") + mod], "tag": f"wheel {name} {fn}"}
            if rp:
                e["rpath" if self.p(0.6) else "runpath"] = ":".join(rp)
                if self.p(0.05):
                    e.setdefault("runpath", self.pick(["/nowhere", ":".join(rp[1:])]))
            if libc != "android" and self.p(0.06):
                e["needed"].insert(r.randint(0, len(e["needed"])), "libpython3.11.so.1.0")
            if self.p(0.2):
                e["soname"] = os.path.basename(fn) + suffix
            if self.p(0.03):
                e["undef"].append(self.pick(["PyFPE_jbuf", "PyFPE_dummy"]))
            if self.p(0.08):
                # its own copy of a function some policies do not allow to import
                own = self.pick(["zcalloc", "gzflags", "inflate_table", "__cxa_thread_atexit_impl"])
                if own not in [x if isinstance(x, str) else x[0] for x in e["undef"]]:
                    e["defined"].append(own)
            if e["defined"][0].startswith("init") and self.p(0.4):
                e["undef"].append("PyUnicodeUCS2_AsUTF8String")
            if arch == "x86_64" and self.p(self.o.get("isa", 0.02)):
                e["isa"] = self.pick([1, 2, 3, 5, 6, 8, 16, 17, 18, 20, 24])
            add(fn + suffix, elf=e, mode=self.pick([0o755, 0o755, 0o644, 0o555, 0o700, 0o777, 0o2755, 0o511]))
        if self.p(self.o.get("script", 0.2)) and libc != "android":
            need, v, u = self.system_needs("old")
            names = ["tool0", "tool1"]
            if self.p(0.15):
                names = self.pick([["a/tool", "b/tool"], ["tool", "sub/tool"], ["sub/deep/tool", "tool.py"]])
            for k in range(r.randint(1, 2)):
                deps = [L["soname"] for L in libs if self.p(0.5 if k == 0 else 0.3)]
                add(f"{name}-{ver}.data/scripts/{names[k]}", mode=0o755,
                    elf={"arch": arch, "needed": [*deps, *need], "verneed": v, "undef": u, "tag": f"tool{k}",
                         "interp": ARCH[arch][3] if libc == "glibc" else f"/lib/ld-musl-{ARCH[arch][4]}.so.1"})
        if self.p(0.2):
            add(f"{name}-{ver}.data/scripts/run.py", text="#!python\nprint(1)\n", mode=0o755)
        if self.p(0.12):
            need, v, u = self.system_needs("old")
            deps = [L["soname"] for L in libs if self.p(0.3)]
            add(f"{pk}/plugins/plug.so", elf={"arch": arch, "needed": [*deps, *need], "verneed": v, "undef": u,
                                              "tag": "plug"}, mode=0o755)
        if self.p(self.o.get("foreign", 0.04)):
            add(f"{pk}/data/other.so", elf={"arch": self.pick(["i686", "mips64", "s390x", "armel"]),
                                            "needed": ["libc.so.6"]})
        if self.p(self.o.get("purelib", 0.02)):
            add(f"{name}-{ver}.data/purelib/{pk}/bad.so", elf={"arch": arch, "needed": ["libc.so.6"]})
        if self.p(self.o.get("odd", 0.3)):
            for n in r.sample(ODD_NAMES, r.randint(1, 2)):
                n = n.format(pk=pk, di=distinfo, nv=f"{name}-{ver}", name=name)
                add(n, text=f"odd {n}\n", mode=self.pick([0o644, 0o755, 0o664, 0o640, 0o666, 0o777, 0o622, 0o4755, 0o1644, 0o060, 0]))
        if self.p(self.o.get("case", 0.06)):
            # names that some orders take to be the same
            for n in self.pick([("Case.txt", "case.txt", "CASE.txt"), ("x10.txt", "x9.txt", "x09.txt"),
                                ("s\u00df.txt", "ss.txt"), ("\u00e9.txt", "e\u0301.txt"), ("D/x", "d/x"),
                                ("a.txt", "a .txt", "a")]):
                add(f"{pk}/odd/{n}", text=f"case {n}\n")
        for _ in range(r.randint(0, self.o.get("max_files", 3))):
            kind = r.randrange(9)
            if kind == 0:
                add(f"{pk}/data/empty.bin", text="", mode=self.pick([0o644, 0o600]))
            elif kind == 1:
                add(f"{pk}/daté/ünï cödé,\"q\".txt", text="é\n", mode=0o664)
            elif kind == 2:
                add(f"{pk}/notelf.so", text="\x7fELX not an elf\n", mode=0o755)
            elif kind == 3:
                add(f"{pk}/big.bin", rep=["0123456789abcdef" * 4, r.randint(50, 400)], stored=self.p(0.3))
            elif kind == 4:
                add(f"{pk}/ro/locked.txt", text="locked\n", mode=self.pick([0o444, 0o400, 0o555]))
            elif kind == 5:
                add(f"{pk}/noattr.txt", text="no attributes\n", noattr=True)
            elif kind == 6:
                add(f"{pk}/emptydir/")
            elif kind == 7:
                add(f"{pk}/script.sh", text="#!/bin/sh\n", mode=self.pick([0o755, 0o750, 0o711, 0o777, 0o731]))
            else:
                add(f"{pk}/mod{r.randint(0, 9)}.py", text="y = 2\n" * r.randint(1, 9))
        if self.p(0.08):
            add(f"{pk}/_vendor/six-1.0.dist-info/METADATA", text="Metadata-Version: 2.1\nName: six\nVersion: 1.0\n")
            add(f"{pk}/_vendor/six-1.0.dist-info/WHEEL", text="Wheel-Version: 1.0\nTag: py3-none-linux_x86_64\n")
            add(f"{pk}/_vendor/six-1.0.dist-info/RECORD", text="six.py,,\n")
        if self.p(0.15):
            add(f"{name}-{ver}.data/data/share/{name}/x.txt", text="share\n")
        add(f"{distinfo}/METADATA", text=f"Metadata-Version: 2.1\nName: {name}\nVersion: {ver}\n"
            + self.pick(["", "\nA description.\n\nTag: not-a-tag\n", "Summary: é ü\n"]))
        tags = [f"{a}-{b}-{c}" for a in pyabi.split("-")[0].split(".") for b in [pyabi.split("-")[1]]
                for c in plat.split(".")]
        self.r.shuffle(tags)
        wtext = "Wheel-Version: 1.0\nGenerator: gen (1.2)\n"
        wtext += "Root-Is-Purelib: false\n"
        wtext += "".join(f"Tag: {t}\n" for t in tags)
        if build:
            wtext += f"Build: {build[1:]}\n"
        if self.p(0.15):
            wtext += "X-Custom: keep me, please\n"
        add(f"{distinfo}/WHEEL", text=wtext + self.pick(["", "\n"]))
        if self.p(0.2):
            add(f"{distinfo}/licenses/LICENSE", text="free\n")
        if self.p(0.15):
            add(f"{distinfo}/RECORD.jws", text='{"sig": "x"}\n', unrecorded=True)
        if self.p(0.1):
            add(f"{distinfo}/sboms/other.cdx.json", text='{"bomFormat": "CycloneDX"}\n')
        if self.p(self.o.get("prior", 0.06)):
            add(f"{distinfo}/sboms/auditwheel.cdx.json", text=self.prior_sbom(name, ver, fname))
        if self.p(0.1):
            add(f"{distinfo}/entry_points.txt", text="[console_scripts]\na = b:c\n")
        if self.p(0.15):
            r.shuffle(members)
        if self.p(0.04):
            self.pick(members)["nohash"] = True
        add(f"{distinfo}/RECORD", record=True)
        return {"path": f"/work/dist/{fname}", "members": members, "name": name, "ver": ver}

    def prior_sbom(self, name, ver, fname):
        """the SBOM of an earlier repair of the wheel, sometimes a file of that name that is no such thing"""
        if self.p(0.15):
            return self.pick(["", "not JSON", "[]", "{}", '{"components": 3}', '{"components": [{"bom-ref": "x"}, {"name": "y"}]}'])
        wheel = {"type": "library", "bom-ref": f"pkg:pypi/{name}@{ver}?file_name={fname}", "name": name, "version": ver,
                 "purl": f"pkg:pypi/{name}@{ver}?file_name={fname}"}
        comps = []
        for i in range(self.r.randint(0, 3)):
            k, kv = f"libkept{self.r.choice([i, i, 0])}", self.pick(["1.0-1", "2:3.4", "0.1+b~1"])
            purl = f"pkg:deb/debian/{k}@{kv.replace(':', '%3A').replace('+', '%2B')}"
            comps.append({"type": "library", "bom-ref": f"{purl}#{i:064x}", "name": k, "version": kv, "purl": purl})
        refs = [c["bom-ref"] for c in comps]
        doc = {"bomFormat": "CycloneDX", "specVersion": "1.4", "version": 1,
               "metadata": {"component": wheel, "tools": [{"name": "auditwheel", "version": "6.0.0"}]},
               "components": [wheel, *comps],
               "dependencies": [{"ref": wheel["bom-ref"], "dependsOn": refs}, *({"ref": x} for x in refs)]}
        return json.dumps(doc, indent=self.pick([None, 2]))

    # ---------------------------------------------------------------- commands
    def repair_argv(self, wheels):
        r = self.r
        argv = []
        env = {}
        if self.p(0.15):
            argv.append("-v")
        argv.append("repair")
        if self.libc == "glibc" and self.p(self.o.get("plat", 0.25)):
            names = []
            for p in policy_data("glibc"):
                if p["name"] == "linux" or self.arch not in p["symbol_versions"]:
                    continue
                names += [p["name"], *p["aliases"]]
            names = self.o.get("plats") or names
            plat = f"{self.pick(names)}_{self.arch}"
            own = [t for t in wheels[0]["path"][:-4].rsplit("-", 1)[1].split(".") if t.startswith("manylinux")]
            if own and self.p(0.4):
                plat = self.pick(own)
            if self.p(0.2):
                env["AUDITWHEEL_PLAT"] = plat
            else:
                argv += ["--plat", plat]
        if self.p(0.2):
            argv += ["-z", str(r.randint(0, 9))]
        if self.p(0.05):
            env["AUDITWHEEL_ZIP_COMPRESSION_LEVEL"] = str(r.randint(0, 9))
        if self.p(self.o.get("patcher", 0.05)):
            pt = self.pick(["patchelf", "lief-patchelf", "lief-patchelf", "none"])
            if self.p(0.4):
                env["AUDITWHEEL_PATCHER"] = pt
                if self.p(0.3):
                    argv += ["--patcher", self.pick(["patchelf", "lief-patchelf"])]
            else:
                argv += ["--patcher", pt]
        if self.p(self.o.get("strip", 0.15)):
            argv.append("--strip")
        if self.p(0.12):
            argv.append("--only-plat")
        if self.p(self.o.get("noupdate", 0.08)):
            argv.append("--no-update-tags")
        if self.p(0.15):
            argv += ["-L", self.pick(["_libs", ".dylibs", "/.libs", ".libs.d"])]
        if self.p(self.o.get("exclude", 0.15)) and self.libs:
            L = self.pick(self.libs)
            argv += ["--exclude", self.pick([L["soname"], L["soname"].split(".so")[0] + ".so*", L["dir"] + "/*"][:2 if self.merged else 3])]
        if self.p(0.05):
            argv.append("--disable-isa-ext-check")
        if self.libc == "android":
            argv += ["--ldpaths", ":".join(self.search)]
        elif self.p(self.o.get("ldpaths", 0.06)):
            argv += ["--ldpaths", ":".join([*self.search, *self.env_dirs])]
        wd = self.o.get("wheel_dir") or self.pick(["out", "out", "/work/a/b/wheels", None, "dist"])
        if wd:
            argv += ["-w", wd]
        cwd = "/work"
        paths = [w["path"] if self.p(0.3) else os.path.relpath(w["path"], cwd) for w in wheels]
        argv += paths
        if self.env_dirs and self.p(0.85):
            v = ":".join(self.env_dirs) + self.pick(["", "", "", ":/nowhere"])
            env[self.pick(["LD_LIBRARY_PATH", "AUDITWHEEL_LD_LIBRARY_PATH"])] = v
            if self.p(0.15):
                a, b = r.sample(self.env_dirs, len(self.env_dirs)), r.sample(self.env_dirs, r.randint(0, len(self.env_dirs)))
                env.update({"LD_LIBRARY_PATH": ":".join(a), "AUDITWHEEL_LD_LIBRARY_PATH": ":".join(b)})
        if not self.p(self.o.get("noepoch", 0.15)):
            env["SOURCE_DATE_EPOCH"] = self.pick(["1600000000", "1600000001", "315532800", "0", "1600000000", "-5", "+1000000000"])
        return {"argv": argv, "env": env, "cwd": cwd, "wheel_dir": os.path.normpath(os.path.join(cwd, wd or "wheelhouse"))}

    def show_argv(self, wheel):
        argv = ["show"]
        if self.p(0.7):
            argv.append("--json")
        if self.p(0.08):
            argv.append("--disable-isa-ext-check")
        if self.libc == "android":
            argv += ["--ldpaths", ":".join(self.search)]
        elif self.p(0.1):
            argv += ["--ldpaths", ":".join([*self.search, *self.env_dirs])]
        argv.append(wheel["path"] if self.p(0.5) else os.path.relpath(wheel["path"], "/work"))
        env = {}
        if self.env_dirs and self.p(0.85):
            env[self.pick(["LD_LIBRARY_PATH", "AUDITWHEEL_LD_LIBRARY_PATH"])] = ":".join(self.env_dirs)
        return {"argv": argv, "env": env, "cwd": "/work"}

    def knobs(self):
        return {
            "dir_order": self.pick(["sorted", "reverse", "creation", "hash", "hash"]),
            "salt": self.r.randrange(1 << 30),
            "bufsize": self.pick([8192, 8192, 512, 64, 65536]),
            "start_ns": self.pick([1_700_000_000, 1_000_000_000, 4_000_000_000, 1_709_210_096, 0]) * 10**9,
            "tick_ns": self.pick([1000, 1000, 10**6, 3 * 10**9]),
            "uid": self.pick([1000, 1000, 0]),
            "umask": self.pick([0o022, 0o022, 0o002, 0o077]),
            "pid": self.pick([None, None, 1]),
            "mounts": self.pick([[], [], ["/tmp"], ["/tmp", "/work"]]),
        }

    # ---------------------------------------------------------------- whole worlds
    def base(self, arch=None, libc=None, nlibs=None):
        r = self.r
        self.arch = arch or r.choices(list(ARCH), [60, 8, 10, 5, 5, 5, 4, 3])[0]
        self.libc = libc or r.choices(["glibc", "musl", "android"], [82, 12, 6])[0]
        if self.libc == "musl" and self.arch == "loongarch64":
            self.arch = "x86_64"
        if self.libc == "android" and self.arch not in ("x86_64", "aarch64"):
            self.arch = "x86_64"
        self.host()
        self.host_libs(r.choices([0, 1, 2, 3, 4, 5, 6], [3, 15, 22, 22, 18, 12, 8])[0] if nlibs is None else nlibs)
        return {"host": self.host_spec, "files": self.files, "wheels": [], "procs": [], "knobs": self.knobs(),
                "arch": self.arch, "libc": self.libc}

    def repair_world(self, **kw):
        spec = self.base(**kw)
        w = self.wheel()
        if self.libc != "android" and self.p(self.o.get("anyname", 0.03)):
            w = self.any_name(w)
        spec["wheels"] = [w]
        spec["procs"] = [self.repair_argv([w])]
        return spec

    def pure_wheel(self, idx=0):
        """A wheel without ELF files: auditwheel refuses it, or copies it when asked to."""
        r = self.r
        name = self.pick(["pure", "Pure_x"]) + (str(idx) if idx else "")
        tag = self.pick(["any", "any", f"linux_{self.arch}"])
        fname = f"{name}-1.0-py3-none-{tag}.whl"
        ms = [{"name": f"{name}/__init__.py", "text": "x = 1\n" * r.randint(1, 400)},
              {"name": f"{name}/data.bin", "rep": ["0123456789abcdef" * 4, r.randint(1, 900)], "stored": self.p(0.5)},
              {"name": f"{name}-1.0.dist-info/METADATA", "text": f"Name: {name}\nVersion: 1.0\n"},
              {"name": f"{name}-1.0.dist-info/WHEEL", "text": f"Wheel-Version: 1.0\nTag: py3-none-{tag}\n"},
              {"name": f"{name}-1.0.dist-info/RECORD", "record": True}]
        return {"path": f"/work/dist/{fname}", "members": ms, "name": name, "ver": "1.0", "pure": True}

    def pure_world(self):
        spec = self.base(nlibs=0)
        w = self.pure_wheel()
        spec["wheels"] = [w]
        pr = self.repair_argv([w])
        if self.p(0.85):
            pr["argv"].insert(pr["argv"].index("repair") + 1, "--allow-pure-python-wheel")
        spec["procs"] = [pr]
        return spec

    def batch_world(self, n=None, mixed=True):
        """Several wheels for one command, some of them refused or of another architecture."""
        r = self.r
        spec = self.base()
        n = n or r.choices([2, 3, 4], [5, 4, 2])[0]
        ws = []
        for i in range(n):
            x = r.random()
            if mixed and x < (0.08 if not ws or not ws[-1].get("pure") else 0.4):
                w = self.pure_wheel(i)
            elif mixed and i and x < 0.25 and self.libc == "glibc":
                w = self.other_arch_wheel(i)
            elif mixed and self.libc != "android" and x < 0.29:
                w = self.other_libc_wheel(i)
            elif mixed and x < 0.36:
                keep = self.o
                self.o = dict(keep, too_recent=0.5, levels=[1, 0, 0])
                w = self.wheel(i)
                self.o = keep
            elif i and x < 0.43 and not ws[0].get("pure"):
                w = dict(ws[0], path="/work/dist2/" + ws[0]["path"].rsplit("/", 1)[1], again=True)
                if self.p(0.5):
                    w = dict(w, members=[m for m in w["members"] if "/data" not in m["name"]])
            else:
                w = self.wheel(i)
            odds = 0.5 if ws and ws[-1].get("alt") else 0.12
            if i and self.libc != "android" and not w.get("again") and not w.get("nolibc") and not w.get("pure") and self.p(odds):
                w = self.any_name(w)
            ws.append(w)
        seen = set()
        ws = [w for w in ws if not (w["path"] in seen or seen.add(w["path"]))]
        spec["wheels"] = ws
        pr = self.repair_argv(ws)
        if any(w.get("pure") for w in ws) and self.p(0.7):
            pr["argv"].insert(pr["argv"].index("repair") + 1, "--allow-pure-python-wheel")
        spec["procs"] = [pr]
        return spec

    @staticmethod
    def any_name(w):
        """The same wheel under a name and with tags that tell neither architecture nor libc."""
        head, _, base = w["path"].rpartition("/")
        parts = base[:-4].split("-")
        parts[-1] = "any"
        ms = []
        for m in w["members"]:
            if m["name"].endswith(".dist-info/WHEEL") and m["name"].count("/") == 1:
                lines = m["text"].split("\n")
                lines = ["-".join([*x.split("-")[:2], "any"]) if x.startswith("Tag: ") else x for x in lines]
                lines = [x for i, x in enumerate(lines) if not (x.startswith("Tag: ") and x in lines[:i])]
                m = dict(m, text="\n".join(lines))
            ms.append(m)
        return dict(w, path=f"{head}/{'-'.join(parts)}.whl", members=ms)

    def other_arch_wheel(self, idx):
        """A wheel for another architecture whose libraries the host also has."""
        keep = self.arch, self.search
        self.arch = self.pick([a for a in ("i686", "aarch64", "x86_64") if a != self.arch])
        d = f"/alt/{self.arch}"
        soname = f"libalt{self.pick('abc')}.so.{self.r.randint(1, 3)}"
        have = {f["path"] for f in self.files}
        for n, extra in (("libc.so.6", {}), (soname, {"needed": ["libc.so.6"], "verneed": {"libc.so.6": self.glibc_syms("old")}})):
            if f"{d}/{n}" not in have:
                self.files.append({"path": f"{d}/{n}", "mode": 0o755,
                                   "elf": {"arch": self.arch, "soname": n, "tag": f"{self.arch} {n}", **extra}})
        name = f"alt{idx}"
        m = [{"name": f"{name}/__init__.py", "text": ""},
             {"name": f"{name}/_m.so", "mode": 0o755,
              "elf": {"arch": self.arch, "needed": [soname, "libc.so.6"],
                      "verneed": {"libc.so.6": ["GLIBC_" + versions(self.arch, "GLIBC")[0]]},
                      "undef": ["malloc"], "defined": ["PyInit__m"], "tag": f"wheel {name}", "rpath": d}},
             {"name": f"{name}-1.dist-info/METADATA", "text": f"Metadata-Version: 2.1\nName: {name}\nVersion: 1\n"},
             {"name": f"{name}-1.dist-info/WHEEL",
              "text": f"Wheel-Version: 1.0\nRoot-Is-Purelib: false\nTag: cp311-cp311-linux_{self.arch}\n"},
             {"name": f"{name}-1.dist-info/RECORD", "record": True}]
        w = {"path": f"/work/dist/{name}-1-cp311-cp311-linux_{self.arch}.whl", "members": m, "name": name, "ver": "1",
             "alt": True}
        self.arch, self.search = keep
        return w

    def other_libc_wheel(self, idx):
        """A wheel whose name tells the C library the host does not have, and whose extension needs none."""
        plat = {"glibc": "musllinux_1_2", "musl": "manylinux_2_28"}[self.libc] + "_" + self.arch
        name = f"nolibc{idx}"
        ms = [{"name": f"{name}/_m.so", "mode": 0o755,
               "elf": {"arch": self.arch, "needed": [], "undef": ["PyErr_Clear"], "defined": ["PyInit__m"],
                       "tag": f"wheel {name}"}},
              {"name": f"{name}-1.dist-info/METADATA", "text": f"Metadata-Version: 2.1\nName: {name}\nVersion: 1\n"},
              {"name": f"{name}-1.dist-info/WHEEL",
               "text": f"Wheel-Version: 1.0\nRoot-Is-Purelib: false\nTag: cp311-cp311-{plat}\n"},
              {"name": f"{name}-1.dist-info/RECORD", "record": True}]
        return {"path": f"/work/dist/{name}-1-cp311-cp311-{plat}.whl", "members": ms, "name": name, "ver": "1",
                "nolibc": True}

    def show_world(self, **kw):
        spec = self.base(**kw)
        w = self.wheel()
        spec["wheels"] = [w]
        spec["procs"] = [self.show_argv(w)]
        return spec
