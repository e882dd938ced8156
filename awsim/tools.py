"""Programs the simulated processes start.

patchelf and strip are the real binaries, run on a scratch copy of the file and
memoised on (program, arguments, contents); tar is Python's tarfile over the
simulated disk; the package managers and the musl loader are stubs answering
from the world specification.
"""

from __future__ import annotations

import errno
import hashlib
import io
import os
import shutil
import stat
import subprocess
import tempfile

from . import core
from .core import HarnessError
from .vfs import err

_memo: dict[tuple, tuple] = {}
_scratch = None


def _real_tool(name):
    for d in ("/opt/venv/bin", "/usr/bin", "/bin"):
        if os.path.exists(os.path.join(d, name)):
            return os.path.join(d, name)
    raise HarnessError(f"{name} is not installed")


def scratch() -> str:
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        _scratch = (os.getpid(), tempfile.mkdtemp(prefix="awsim-", dir=base))
        import atexit

        atexit.register(shutil.rmtree, _scratch[1], ignore_errors=True)
    return _scratch[1]


def resolve(s, p, prog, env, cwd):
    """Kernel/execvp lookup of a program on the simulated disk -> its Node."""
    v = s.vfs
    base = v.get(os.fspath(cwd), p.cwd, p.uid) if cwd else p.cwd
    if "/" in prog:
        cands = [prog]
    else:
        path = (env or p.environ).get("PATH", "/usr/bin:/bin")
        cands = [os.path.join(d, prog) for d in path.split(":")]
    last = errno.ENOENT
    for c in cands:
        try:
            _, _, n = v.walk(c, base, p.uid)
        except OSError as exc:
            last = exc.errno
            continue
        if n is None or n.kind != "f":
            continue
        if not v.may(n, p.uid, 1):
            last = errno.EACCES
            continue
        return n
    raise err(last, prog)


def run(s, p, node, argv, inp, env, cwd, hit):
    """Run the tool; ``hit`` may carry a tool fault.  Returns (rc, stdout, stderr)."""
    head = bytes(node.data[:64]).split(b"\n")[0].decode(errors="replace")
    if head.startswith("\x7fELF") and b"awsim-exec:" in node.data:
        name = bytes(node.data).split(b"awsim-exec:")[1].split(b"\0")[0].decode().split()[0]
    elif head.startswith("#!sim:"):
        name = head[6:]
    else:
        raise err(errno.ENOEXEC, argv[0])
    h = HANDLERS.get(name)
    if h is None:
        raise HarnessError(f"no simulated program {name}")
    base = s.vfs.get(os.fspath(cwd), p.cwd, p.uid) if cwd else p.cwd
    saved, p.cwd = p.cwd, base
    sim_cur, s.cur = s.cur, None  # tool internals use the real interpreter functions
    try:
        fault = hit if hit is not None and hit["k"] == "tool" else None
        if fault is not None and fault.get("effect", "none") == "none":
            return fault["rc"], b"", b"simulated failure\n"
        before = None
        tgt = None
        if fault is not None and fault["effect"] == "torn":
            try:
                _, _, tgt = s.vfs.walk(argv[-1], p.cwd, p.uid)
                before = bytes(tgt.data) if tgt is not None and tgt.kind == "f" else None
            except OSError:
                tgt = None
        rc, out, er = h(s, p, argv, inp)
        s.tool_runs.append((p.idx, name, tuple(argv), rc))
        if fault is not None:
            if fault["effect"] == "torn" and before is not None and tgt is not None and bytes(tgt.data) != before:
                del tgt.data[int(len(tgt.data) * fault.get("frac", 0.5)):]
            return fault["rc"], out, b"simulated failure\n"
        return rc, out, er
    finally:
        s.cur = sim_cur
        p.cwd = saved


def _file(s, p, path, write):
    try:
        _, _, n = s.vfs.walk(path, p.cwd, p.uid)
    except OSError:
        return None
    if n is None or n.kind != "f":
        return None
    if not s.vfs.may(n, p.uid, 6 if write else 4):
        return None
    return n


def _real(tool, args, data: bytes):
    """Run a real single-file tool on ``data``; (rc, stdout, stderr, new data)."""
    key = (tool, tuple(args), hashlib.sha256(data).digest())
    r = _memo.get(key)
    if r is None:
        f = os.path.join(scratch(), "target.so")
        with open(f, "wb") as fp:
            fp.write(data)
        os.chmod(f, 0o755)
        pr = subprocess.run([_real_tool(tool), *args, f], capture_output=True, check=False,
                            env={"PATH": "/usr/bin:/bin", "LC_ALL": "C"}, timeout=60)
        with open(f, "rb") as fp:
            new = fp.read()
        r = (pr.returncode, pr.stdout, pr.stderr.replace(f.encode(), b"<file>"), new)
        os.unlink(f)
        if len(_memo) > 20000:
            _memo.clear()
        _memo[key] = r
    return r


def t_patchelf(s, p, argv, inp):
    if argv[1:] == ["--version"]:
        return 0, s.host.get("patchelf_version", "patchelf 0.19.1\n").encode(), b""
    path = argv[-1]
    readonly = any(a.startswith("--print") for a in argv)
    n = _file(s, p, path, not readonly)
    if n is None:
        return 1, b"", f"open: cannot open '{path}'\n".encode()
    if argv[1:-1] == ["--print-rpath"]:
        pass
    rc, out, er, new = _real("patchelf", argv[1:-1], bytes(n.data))
    if rc == 0 and not readonly and new != bytes(n.data):
        n.data = bytearray(new)
        n.mtime_ns = s.now_ns
        s.vfs.generation += 1
    return rc, out, er


def t_strip(s, p, argv, inp):
    path = argv[-1]
    n = _file(s, p, path, True)
    if n is None:
        return 1, b"", f"strip: '{path}': Permission denied or no such file\n".encode()
    data = bytes(n.data)
    if data[:4] == b"\x7fELF" and data[18:20] in (b"\x3e\x00", b"\x03\x00"):
        rc, out, er, new = _real("strip", argv[1:-1], data)
    else:
        rc, out, er, new = 0, b"", b"", data  # foreign architecture: stub
    if rc == 0 and new != data:
        n.data = bytearray(new)
        n.mtime_ns = s.now_ns
        s.vfs.generation += 1
    return rc, out, er


def t_tar(s, p, argv, inp):
    # tar xjf ARCHIVE -C DIR
    import tarfile

    if argv[1] not in ("xjf", "-xjf") or argv[3] != "-C":
        raise HarnessError(f"tar {argv[1:]} is not simulated")
    n = _file(s, p, argv[2], False)
    if n is None:
        return 2, b"", b"tar: cannot open\n"
    try:
        top = s.vfs.get(argv[4], p.cwd, p.uid)
    except OSError:
        return 2, b"", b"tar: cannot chdir\n"
    base = s.vfs.path_of(top)
    try:
        with tarfile.open(fileobj=io.BytesIO(bytes(n.data)), mode="r:bz2") as t:
            for m in t.getmembers():
                dst = base + "/" + m.name
                if m.isdir():
                    s.vfs.makedirs(dst, uid=p.uid)
                elif m.issym():
                    s.vfs.putlink(dst, m.linkname, uid=p.uid)
                else:
                    s.vfs.put(dst, t.extractfile(m).read(), mode=m.mode & ~p.umask, uid=p.uid)
    except (tarfile.TarError, OSError, EOFError) as exc:
        return 2, b"", f"tar: {exc}\n".encode()
    return 0, b"", b""


def _owner(s, path, mgr):
    """(package, version) owning a path on the simulated host."""
    return s.host.get("pkgs", {}).get(path) if s.host.get("mgr") == mgr else None


def t_dpkg(s, p, argv, inp):
    if argv[1] == "--version":
        return 0, b"Debian 'dpkg' package management program version 1.21\n", b""
    if argv[1] == "-S":
        o = _owner(s, argv[2], "dpkg")
        if o is None:
            return 1, b"", f"dpkg-query: no path found matching pattern {argv[2]}\n".encode()
        return 0, f"{o[0]}:{s.host.get('deb_arch', 'amd64')}: {argv[2]}\n".encode(), b""
    if argv[1] == "-s":
        for name, ver in s.host.get("pkgs", {}).values() if s.host.get("mgr") == "dpkg" else ():
            if name == argv[2]:
                return 0, (
                    f"Package: {name}\nStatus: install ok installed\nPriority: optional\n"
                    f"Maintainer: Nobody <nobody@example.org>\nVersion: {ver}\nDescription: x\n"
                ).encode(), b""
        return 1, b"", b"dpkg-query: package is not installed\n"
    raise HarnessError(f"dpkg {argv[1:]} is not simulated")


def _listed(s):
    """Everything apt-file knows: the owned files, and others whose path contains theirs."""
    for path, (name, _v) in sorted(s.host.get("pkgs", {}).items()):
        yield f"{name}-dbg", f"/usr/lib/debug{path}", None
        yield name, path, path
        yield f"{name}-other", f"{path}.bak", None


def t_apt_file(s, p, argv, inp):
    if argv[1:] == ["--version"]:
        return 2, b"", b"Unknown option: version\n"
    if argv[1:] != ["search", "--from-file", "-"]:
        raise HarnessError(f"apt-file {argv[1:]} is not simulated")
    pats = [x for x in (inp or b"").decode().split("\n") if x]
    if s.host.get("mgr") != "apt-file":
        return 1, b"", b""
    hits = [f"{name}: {path}\n" for name, path, _o in _listed(s) if any(x in path for x in pats)]
    return (0 if hits else 1), "".join(hits).encode(), b"Finding relevant cache files to search ...\n"


def t_apt(s, p, argv, inp):
    if argv[1:] == ["--version"]:
        return 0, b"apt 2.6.1 (amd64)\n", b""
    if argv[1] == "show":
        for name, ver in s.host.get("pkgs", {}).values():
            if name == argv[2]:
                return 0, f"Package: {name}\nVersion: {ver}\nPriority: optional\n".encode(), b"WARNING\n"
        return 100, b"", b"N: Unable to locate package\n"
    raise HarnessError(f"apt {argv[1:]} is not simulated")


def t_rpm(s, p, argv, inp):
    if argv[1] == "--version":
        return 0, b"RPM version 4.14.3\n", b""
    if argv[1] == "-qf":
        o = _owner(s, argv[-1], "rpm")
        if o is None:
            return 1, f"file {argv[-1]} is not owned by any package\n".encode(), b""
        ver, _, rel = o[1].partition("-")
        return 0, f"{o[0]} {ver} {rel or '1'} x86_64".encode(), b""
    raise HarnessError(f"rpm {argv[1:]} is not simulated")


def t_apk(s, p, argv, inp):
    if argv[1] == "--version":
        return 0, b"apk-tools 2.14.0\n", b""
    if argv[1:3] == ["info", "--who-owns"]:
        o = _owner(s, argv[3], "apk")
        if o is None:
            return 1, b"", f"ERROR: {argv[3]}: Could not find owner package\n".encode()
        return 0, f"{argv[3]} is owned by {o[0]}-{o[1]}\n".encode(), b""
    raise HarnessError(f"apk {argv[1:]} is not simulated")


def t_musl(s, p, argv, inp):
    v = s.host.get("musl_version", "1.2.4")
    return 1, b"", (
        f"musl libc ({s.host.get('machine', 'x86_64')})\nVersion {v}\nDynamic Program Loader\n"
        "Usage: ld-musl [options] [--] pathname [args]\n"
    ).encode()


HANDLERS = {
    "patchelf": t_patchelf, "lief-patchelf": t_patchelf, "strip": t_strip, "tar": t_tar, "dpkg": t_dpkg, "rpm": t_rpm,
    "apt-file": t_apt_file, "apt": t_apt,
    "apk": t_apk, "musl": t_musl,
}
