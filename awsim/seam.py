"""The seam: every route from auditwheel to the operating system.

The functions of ``os``, ``io``/``builtins.open``, ``subprocess``, ``time``,
``tempfile``, ``random``, ``datetime`` and ``platform`` that auditwheel and the
standard library modules it uses go through are replaced once, at start-up, by
versions that act on the simulated disk while a simulated process is running and
are the originals otherwise.  No change to /repo is needed.
"""

from __future__ import annotations

import builtins
import datetime as datetime_mod
import errno
import functools
import hashlib
import importlib.machinery
import importlib.util
import io
import logging
import os
import platform as platform_mod
import random
import shutil
import struct
import subprocess
import sys
import tempfile
import time
import weakref

from . import core
from .core import HarnessError, SimKilled
from .vfs import Node, err

SRC = os.environ.get("AWSIM_SRC", "/repo/src")
PASS = tuple(
    dict.fromkeys(
        p.rstrip("/") + "/"
        for p in (
            SRC,
            "/repo/src",
            sys.prefix,
            sys.base_prefix + "/lib/python3",
            os.path.dirname(os.__file__),
            "/usr/lib/python3.12",
            "/usr/share/zoneinfo",
        )
    )
)
PASS_EXACT = tuple(p.rstrip("/") for p in PASS) + ("/usr/lib/python312.zip", "/usr/lib/python3")

real_os = {}
REAL_OPEN = io.open
REAL_POPEN = subprocess.Popen
REAL_DATETIME = datetime_mod.datetime


def _passthrough(path: str) -> bool:
    return path.startswith(PASS) or path in PASS_EXACT


def cur():
    s = core.SIM
    return None if s is None else s.cur


def to_str(path):
    path = os.fspath(path)
    return os.fsdecode(path) if isinstance(path, bytes) else path


# --------------------------------------------------------------------------- files
class Handle:
    """An open file description."""

    def __init__(self, node: Node, path: str, readable, writable, append, owner):
        self.node = node
        self.path = path
        self.pos = 0
        self.readable = readable
        self.writable = writable
        self.append = append
        self.owner = owner
        self.closed = False

    def read(self, n) -> bytes:
        s = core.SIM
        if self.owner.dead:
            raise SimKilled
        if not self.readable:
            raise err(errno.EBADF)
        if self.node.kind == "d":
            raise err(errno.EISDIR)
        hit = s.op("read", self.path)
        avail = bytes(self.node.data[self.pos : self.pos + n])
        if hit is not None and hit["k"] == "short" and len(avail) > 1:
            avail = avail[: max(1, int(len(avail) * hit.get("frac", 0.5)))]
            hit = None
        if hit is not None and hit["k"] == "flip" and avail:
            b = bytearray(avail)
            b[hit.get("at", 0) % len(b)] ^= hit.get("mask", 1) or 1
            avail = bytes(b)
            hit = None
        self.pos += len(avail)
        s.after(hit, self.path)
        return avail

    def write(self, b: bytes) -> int:
        s = core.SIM
        if s is None or self.owner.dead:
            return len(b)  # a dead process's user-space buffers go nowhere
        if not self.writable:
            raise err(errno.EBADF)
        hit = s.op("write", self.path)
        if self.append:
            self.pos = len(self.node.data)
        data = bytes(b)
        if hit is not None and hit["k"] == "short" and len(data) > 1:
            data = data[: max(1, int(len(data) * hit.get("frac", 0.5)))]
            hit = None
        elif hit is not None and hit["k"] in ("kill", "intr", "errno") and "frac" in hit:
            # torn write: part of the data reached the file before the failure
            part = data[: int(len(data) * hit["frac"])]
            if part:
                s.vfs.write_data(self.node, self.pos, part)
                self.pos += len(part)
            s.after(hit, self.path)
            raise HarnessError("torn write without a failure")
        n = s.vfs.write_data(self.node, self.pos, data)
        self.pos += n
        s.after(hit, self.path)
        return n

    def seek(self, pos, whence=0):
        if whence == 0:
            self.pos = pos
        elif whence == 1:
            self.pos += pos
        elif whence == 2:
            self.pos = len(self.node.data) + pos
        else:
            raise ValueError("whence")
        return self.pos

    def truncate(self, size):
        s = core.SIM
        if s is None or self.owner.dead:
            return
        hit = s.op("truncate", self.path)
        d = self.node.data
        if size < len(d):
            del d[size:]
        else:
            d.extend(b"\0" * (size - len(d)))
        s.vfs.generation += 1
        s.after(hit, self.path)

    def close(self):
        if self.closed:
            return
        self.closed = True
        s = core.SIM
        if s is None or self.owner.dead or s.cur is not self.owner:
            return
        hit = s.op("close", self.path)
        s.after(hit, self.path)


class SimRaw(io.RawIOBase):
    def __init__(self, handle: Handle, name, mode, fd=None, closefd=True):
        self._h = handle
        self.name = name
        self.mode = mode
        self._fd = fd
        self._closefd = closefd

    def readable(self):
        return self._h.readable

    def writable(self):
        return self._h.writable

    def seekable(self):
        return True

    def readinto(self, b):
        data = self._h.read(len(b))
        b[: len(data)] = data
        return len(data)

    def write(self, b):
        return self._h.write(bytes(b))

    def seek(self, pos, whence=0):
        return self._h.seek(pos, whence)

    def tell(self):
        return self._h.pos

    def truncate(self, size=None):
        if size is None:
            size = self._h.pos
        self._h.truncate(size)
        return size

    def fileno(self):
        p = self._h.owner
        if self._fd is None:
            self._fd = p.next_fd
            p.next_fd += 1
            p.fds[self._fd] = self._h
        return self._fd

    def isatty(self):
        return False

    def close(self):
        if self.closed:
            return
        super().close()
        if self._closefd:
            if self._fd is not None:
                self._h.owner.fds.pop(self._fd, None)
            self._h.close()


def _open_handle(path: str, flags: int, mode: int = 0o777) -> Handle:
    s = core.SIM
    p = s.cur
    acc = flags & os.O_ACCMODE
    want_read = acc in (os.O_RDONLY, os.O_RDWR)
    want_write = acc in (os.O_WRONLY, os.O_RDWR)
    kind = "open" if not want_write else ("creat" if flags & os.O_CREAT else "openw")
    hit = s.op(kind, path)
    if _passthrough(path):
        raise HarnessError(f"low-level open of a pass-through path: {path}")
    v = s.vfs
    if flags & os.O_CREAT:
        node = v.create(path, p.cwd, p.uid, mode & ~p.umask, bool(flags & os.O_EXCL), want_read,
                        want_write, bool(flags & os.O_TRUNC))
    else:
        _, _, node = v.walk(path, p.cwd, p.uid, follow=not flags & getattr(os, "O_NOFOLLOW", 0))
        if node is None:
            raise err(errno.ENOENT, path)
        if node.kind == "l":
            raise err(errno.ELOOP, path)
        if flags & getattr(os, "O_DIRECTORY", 0) and node.kind != "d":
            raise err(errno.ENOTDIR, path)
        v.open_existing(node, path, p.uid, want_read, want_write, bool(flags & os.O_TRUNC))
    h = Handle(node, path, want_read, want_write, bool(flags & os.O_APPEND), p)
    h.path = s.label(path)
    if not h.path.startswith(("/", "$")):
        h.path = path
    s.after(hit, path)
    return h


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True,
             opener=None):
    s = core.SIM
    if s is None or s.cur is None:
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    p = s.cur
    fd = None
    if isinstance(file, int):
        h = p.fds.get(file)
        if h is None:
            if file in (0, 1, 2):
                raise HarnessError("open of a standard stream")
            raise err(errno.EBADF, file)
        fd = file
        path = h.path
    else:
        path = to_str(file)
        if _passthrough(path):
            if set(mode) & set("wax+"):
                raise err(errno.EROFS, path)
            return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    updating = "+" in mode
    base = mode.replace("b", "").replace("t", "").replace("+", "").replace("U", "")
    if base not in ("r", "w", "a", "x"):
        raise ValueError(f"invalid mode: {mode!r}")
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take an encoding, errors or newline argument")
    if fd is None:
        flags = {
            "r": 0,
            "w": os.O_CREAT | os.O_TRUNC,
            "a": os.O_CREAT | os.O_APPEND,
            "x": os.O_CREAT | os.O_EXCL,
        }[base]
        flags |= os.O_RDWR if updating else (os.O_RDONLY if base == "r" else os.O_WRONLY)
        flags |= os.O_CLOEXEC
        if opener is not None:
            fd = opener(file, flags)
            h = p.fds.get(fd)
            if h is None:
                raise HarnessError("opener returned a real descriptor")
        else:
            h = _open_handle(path, flags, 0o666)
            if h.node.kind == "d":
                raise err(errno.EISDIR, path)
    if base == "a":
        h.pos = len(h.node.data)
    raw = SimRaw(h, file, mode.replace("t", ""), fd, closefd)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else s.bufsize
    if updating:
        buf = io.BufferedRandom(raw, size)
    elif base == "r":
        buf = io.BufferedReader(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
    text.mode = mode
    return text


# --------------------------------------------------------------------------- os
def _stat_result(n: Node):
    size = len(n.data) if n.kind == "f" else (len(n.target) if n.kind == "l" else 4096)
    m = n.mtime_ns
    return os.stat_result(
        (n.st_mode(), n.ino, n.dev, n.nlink, n.uid, n.uid, size, m // 10**9, m // 10**9, m // 10**9),
        {
            "st_atime": m / 1e9, "st_mtime": m / 1e9, "st_ctime": m / 1e9,
            "st_atime_ns": m, "st_mtime_ns": m, "st_ctime_ns": m,
            "st_blksize": 4096, "st_blocks": (size + 511) // 512, "st_rdev": 0,
        },
    )


def _target(path, follow=True):
    """Node for a path or virtual descriptor; no event."""
    s = core.SIM
    p = s.cur
    if isinstance(path, int):
        h = p.fds.get(path)
        if h is None:
            raise err(errno.EBADF)
        return h.node
    path = to_str(path)
    _, _, n = s.vfs.walk(path, p.cwd, p.uid, follow)
    if n is None:
        raise err(errno.ENOENT, path)
    return n


def _nodirfd(*fds):
    if any(f is not None for f in fds):
        raise HarnessError("dir_fd is not simulated")


def s_stat(path, *, dir_fd=None, follow_symlinks=True):
    _nodirfd(dir_fd)
    s = core.SIM
    hit = s.op("stat" if follow_symlinks else "lstat", path if not isinstance(path, int) else _fdname(path),
               may_fail=False)
    r = _stat_result(_target(path, follow_symlinks))
    s.after(hit)
    return r


def s_lstat(path, *, dir_fd=None):
    return s_stat(path, dir_fd=dir_fd, follow_symlinks=False)


def _fdname(fd):
    h = core.SIM.cur.fds.get(fd)
    return h.path if h is not None else f"fd{fd}"


def s_open(path, flags, mode=0o777, *, dir_fd=None):
    _nodirfd(dir_fd)
    h = _open_handle(to_str(path), flags, mode)
    p = core.SIM.cur
    fd = p.next_fd
    p.next_fd += 1
    p.fds[fd] = h
    return fd


def _h(fd) -> Handle:
    h = core.SIM.cur.fds.get(fd)
    if h is None:
        raise err(errno.EBADF)
    return h


def s_close(fd):
    h = _h(fd)
    del core.SIM.cur.fds[fd]
    h.close()


def s_read(fd, n):
    return _h(fd).read(n)


def s_write(fd, b):
    return _h(fd).write(bytes(b))


def s_lseek(fd, pos, how):
    return _h(fd).seek(pos, how)


def s_fstat(fd):
    s = core.SIM
    s.op("stat", _fdname(fd), may_fail=False)
    return _stat_result(_h(fd).node)


def s_ftruncate(fd, length):
    _h(fd).truncate(length)


def s_truncate(path, length):
    if isinstance(path, int):
        return s_ftruncate(path, length)
    h = _open_handle(to_str(path), os.O_WRONLY)
    h.truncate(length)
    return None


def s_fsync(fd):
    s = core.SIM
    hit = s.op("fsync", _fdname(fd))
    s.after(hit)


def s_access(path, mode, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
    _nodirfd(dir_fd)
    s = core.SIM
    s.op("access", path, may_fail=False)
    try:
        n = _target(path, follow_symlinks)
    except OSError:
        return False
    return s.vfs.may(n, s.cur.uid, mode & 7)


def s_chmod(path, mode, *, dir_fd=None, follow_symlinks=True):
    _nodirfd(dir_fd)
    s = core.SIM
    hit = s.op("chmod", path if not isinstance(path, int) else _fdname(path))
    n = _target(path, follow_symlinks)
    if s.cur.uid not in (0, n.uid):
        raise err(errno.EPERM, path)
    n.mode = mode & 0o7777
    s.vfs.generation += 1
    s.after(hit, path)


def s_fchmod(fd, mode):
    s_chmod(fd, mode)


def s_chown(path, uid, gid, *, dir_fd=None, follow_symlinks=True):
    _nodirfd(dir_fd)
    s = core.SIM
    s.op("chown", path if not isinstance(path, int) else _fdname(path))
    n = _target(path, follow_symlinks)
    if s.cur.uid != 0 and (uid not in (-1, n.uid) or n.uid != s.cur.uid):
        raise err(errno.EPERM, path)


def s_utime(path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
    _nodirfd(dir_fd)
    s = core.SIM
    hit = s.op("utime", path if not isinstance(path, int) else _fdname(path))
    n = _target(path, follow_symlinks)
    if s.cur.uid not in (0, n.uid):
        raise err(errno.EPERM, path)
    if ns is not None:
        n.atime_ns, n.mtime_ns = ns
    elif times is not None:
        n.atime_ns, n.mtime_ns = (int(t * 1e9) for t in times)
    else:
        n.atime_ns = n.mtime_ns = s.now_ns
    s.after(hit, path)


def s_readlink(path, *, dir_fd=None):
    _nodirfd(dir_fd)
    s = core.SIM
    s.op("readlink", path, may_fail=False)
    n = _target(path, False)
    if n.kind != "l":
        raise err(errno.EINVAL, path)
    return n.target


def _simple(kind, fn):
    def f(path, *a, dir_fd=None, **k):
        _nodirfd(dir_fd)
        s = core.SIM
        hit = s.op(kind, path)
        r = fn(s, s.cur, to_str(path), *a, **k)
        s.after(hit, path)
        return r

    return f


s_unlink = _simple("unlink", lambda s, p, path: s.vfs.unlink(path, p.cwd, p.uid))
s_rmdir = _simple("rmdir", lambda s, p, path: s.vfs.rmdir(path, p.cwd, p.uid))


def s_mkdir(path, mode=0o777, *, dir_fd=None):
    _nodirfd(dir_fd)
    s = core.SIM
    p = s.cur
    path = to_str(path)
    if os.path.dirname(path) == p.tmpdir and path not in p.labels:
        # a new temporary directory: its random name never enters a site label
        p.labels[path] = f"$T{p.ntemp}"
        p.ntemp += 1
    elif os.path.basename(path).startswith((".auditwheel", "tmp", ".tmp")) and mode == 0o700:
        ab = path if path.startswith("/") else (s.vfs.path_of(p.cwd) or "") + "/" + path
        if ab not in p.labels:
            p.labels[ab] = os.path.dirname(ab) + f"/$O{p.ntemp}"
            p.ntemp += 1
    hit = s.op("mkdir", path)
    s.vfs.mkdir(path, p.cwd, p.uid, mode & ~p.umask)
    s.after(hit, path)


def s_rename(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
    _nodirfd(src_dir_fd, dst_dir_fd)
    s = core.SIM
    hit = s.op("rename", dst)
    if _passthrough(to_str(src)) or _passthrough(to_str(dst)):
        raise err(errno.EXDEV, src)
    s.vfs.rename(to_str(src), to_str(dst), s.cur.cwd, s.cur.uid)
    s.after(hit, dst)


def s_symlink(src, dst, target_is_directory=False, *, dir_fd=None):
    _nodirfd(dir_fd)
    s = core.SIM
    hit = s.op("symlink", dst)
    s.vfs.symlink(to_str(src), to_str(dst), s.cur.cwd, s.cur.uid)
    s.after(hit, dst)


def s_link(src, dst, *, src_dir_fd=None, dst_dir_fd=None, follow_symlinks=True):
    _nodirfd(src_dir_fd, dst_dir_fd)
    s = core.SIM
    hit = s.op("link", dst)
    s.vfs.link(to_str(src), to_str(dst), s.cur.cwd, s.cur.uid, follow_symlinks)
    s.after(hit, dst)


def s_getcwd():
    s = core.SIM
    if s.cur.dead:
        raise SimKilled
    path = s.vfs.path_of(s.cur.cwd)
    if path is None:
        raise err(errno.ENOENT)
    return path


def s_chdir(path):
    s = core.SIM
    hit = s.op("chdir", path if not isinstance(path, int) else _fdname(path))
    n = _target(path)
    if n.kind != "d":
        raise err(errno.ENOTDIR, path)
    if not s.vfs.may(n, s.cur.uid, 1):
        raise err(errno.EACCES, path)
    s.cur.cwd = n
    s.after(hit, path)


def s_umask(mask):
    p = core.SIM.cur
    old, p.umask = p.umask, mask & 0o777
    return old


class SimDirEntry:
    def __init__(self, dirpath, name, node):
        self.name = name
        self.path = os.path.join(dirpath, name)
        self._node = node

    def __fspath__(self):
        return self.path

    def inode(self):
        return self._node.ino

    def is_symlink(self):
        return self._node.kind == "l"

    def _resolved(self, follow):
        if self._node.kind == "l" and follow:
            return _target(self.path)
        return self._node

    def is_dir(self, *, follow_symlinks=True):
        try:
            return self._resolved(follow_symlinks).kind == "d"
        except FileNotFoundError:
            return False

    def is_file(self, *, follow_symlinks=True):
        try:
            return self._resolved(follow_symlinks).kind == "f"
        except FileNotFoundError:
            return False

    def is_junction(self):
        return False

    def stat(self, *, follow_symlinks=True):
        return _stat_result(self._resolved(follow_symlinks))

    def __repr__(self):
        return f"<SimDirEntry {self.name!r}>"


class SimScandir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


def _readdir(path):
    s = core.SIM
    hit = s.op("scandir", path if not isinstance(path, int) else _fdname(path))
    n = _target(path)
    if n.kind != "d":
        raise err(errno.ENOTDIR, path)
    if not s.vfs.may(n, s.cur.uid, 4):
        raise err(errno.EACCES, path)
    names = s.vfs.order(n)
    s.after(hit, path)
    return n, names


def s_listdir(path="."):
    path = "." if path is None else path
    _, names = _readdir(path)
    return [os.fsencode(x) for x in names] if isinstance(path, bytes) else names


def s_scandir(path="."):
    path = "." if path is None else path
    n, names = _readdir(path)
    d = to_str(path) if not isinstance(path, int) else ""
    return SimScandir([SimDirEntry(d, name, n.children[name]) for name in names])


def s_urandom(n):
    return core.SIM.cur.rng.randbytes(n)


def _nosys(*a, **k):
    raise err(errno.ENOTSUP)


def s_sendfile(*a, **k):
    raise err(errno.EINVAL)


def s_listxattr(path=None, *, follow_symlinks=True):
    raise err(errno.ENOTSUP, path)


OS_FUNCS = {
    "stat": s_stat, "lstat": s_lstat, "open": s_open, "close": s_close, "read": s_read,
    "write": s_write, "lseek": s_lseek, "fstat": s_fstat, "ftruncate": s_ftruncate,
    "truncate": s_truncate, "fsync": s_fsync, "fdatasync": s_fsync, "access": s_access,
    "chmod": s_chmod, "fchmod": s_fchmod, "chown": s_chown, "lchown": s_chown, "utime": s_utime,
    "readlink": s_readlink, "unlink": s_unlink, "remove": s_unlink, "rmdir": s_rmdir,
    "mkdir": s_mkdir, "rename": s_rename, "replace": s_rename, "symlink": s_symlink,
    "link": s_link, "getcwd": s_getcwd, "chdir": s_chdir, "umask": s_umask,
    "listdir": s_listdir, "scandir": s_scandir, "urandom": s_urandom,
    "sendfile": s_sendfile, "copy_file_range": s_sendfile, "listxattr": s_listxattr,
    "getxattr": s_listxattr, "setxattr": _nosys, "getcwdb": lambda: os.fsencode(s_getcwd()),
    "getpid": lambda: core.SIM.cur.pid, "getuid": lambda: core.SIM.cur.uid,
    "geteuid": lambda: core.SIM.cur.uid,
}
# functions whose first argument decides between the simulated and the real disk
PATH_FIRST = {
    "stat", "lstat", "open", "truncate", "access", "chmod", "chown", "lchown", "utime", "readlink",
    "unlink", "remove", "rmdir", "mkdir", "listdir", "scandir", "chdir", "listxattr", "getxattr",
}
READ_ONLY_OK = {"stat", "lstat", "access", "readlink", "listdir", "scandir", "listxattr", "getxattr"}


def _wrap(name, fn):
    real = getattr(os, name)
    real_os[name] = real

    if name in PATH_FIRST:

        @functools.wraps(real)
        def w(*a, **k):
            s = core.SIM
            if s is None or s.cur is None:
                return real(*a, **k)
            if a and isinstance(a[0], (str, bytes, os.PathLike)):
                ps = to_str(a[0])
                if _passthrough(ps):
                    if name in READ_ONLY_OK or (name == "open" and not a[1] & (os.O_WRONLY | os.O_RDWR)):
                        return real(*a, **k)
                    raise err(errno.EROFS, ps)
            elif name == "utime" and a and isinstance(a[0], int) and a[0] < 10_000:
                raise err(errno.EBADF)
            return fn(*a, **k)

    elif name in ("read", "write", "close", "lseek", "fstat", "ftruncate", "fsync", "fdatasync", "fchmod"):

        @functools.wraps(real)
        def w(*a, **k):
            s = core.SIM
            if s is None or s.cur is None or (isinstance(a[0], int) and a[0] < 10_000):
                return real(*a, **k)
            return fn(*a, **k)

    else:

        @functools.wraps(real)
        def w(*a, **k):
            s = core.SIM
            if s is None or s.cur is None:
                return real(*a, **k)
            return fn(*a, **k)

    return w


# --------------------------------------------------------------------------- subprocess
class SimPopen:
    """A child process: runs a simulated tool to completion at spawn time."""

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                 preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
                 universal_newlines=None, startupinfo=None, creationflags=0, restore_signals=True,
                 start_new_session=False, pass_fds=(), *, user=None, group=None,
                 extra_groups=None, encoding=None, errors=None, text=None, umask=-1, pipesize=-1,
                 process_group=None):
        from . import tools

        s = core.SIM
        if shell:
            raise HarnessError("shell commands are not simulated")
        if isinstance(args, (str, bytes, os.PathLike)):
            args = [args]
        self.args = args
        argv = [to_str(a) for a in args]
        self.returncode = None
        self._text = bool(encoding or errors or text or universal_newlines)
        self._enc = (encoding or "utf-8", errors or "strict")
        self._want = (stdout, stderr)
        self._input = None
        self._argv = argv
        self._env = env
        self._cwd = cwd
        tool = os.path.basename(argv[0])
        lab = tool + ":" + (argv[-1] if len(argv) > 1 else "")
        p = s.cur
        target = argv[-1]
        shown = s.label(target) if "/" in target or "." in target else target
        lab = f"{tool}|{argv[1] if len(argv) > 1 and argv[1].startswith('-') else ''}|{shown}"
        self._hit = s.op("spawn", "/" + lab)
        self._program = tools.resolve(s, p, argv[0], env, cwd)
        self._ran = False
        self._tool = tool
        self.pid = 9000 + s.seq
        self.stdin = self.stdout = self.stderr = None
        self._stdin_mode = stdin
        self._out = self._errout = b""
        if stdin is not None and stdin not in (subprocess.DEVNULL, subprocess.PIPE):
            raise HarnessError("stdin redirection is not simulated")

    def _run(self, inp=None):
        from . import tools

        if self._ran:
            return
        self._ran = True
        s = core.SIM
        hit = self._hit
        rc, out, er = tools.run(s, s.cur, self._program, self._argv, inp, self._env, self._cwd, hit)
        self._rc, self._out, self._errout = rc, out, er
        s.op("wait", "/" + self._tool)
        s.after(hit if hit is not None and hit["k"] in ("kill", "intr") else None)
        self.returncode = rc
        so, se = self._want
        if so is None and out:
            s.cur.stdout.write(out.decode(errors="replace"))
        if se is None and er:
            s.cur.stderr.write(er.decode(errors="replace"))
        if se is subprocess.STDOUT:
            self._out += er

    def _conv(self, b):
        if not self._text:
            return b
        return b.decode(*self._enc).replace("\r\n", "\n")

    def communicate(self, input=None, timeout=None):
        if isinstance(input, str):
            input = input.encode()
        self._run(input)
        so, se = self._want
        return (
            self._conv(self._out) if so is subprocess.PIPE else None,
            self._conv(self._errout) if se is subprocess.PIPE else None,
        )

    def wait(self, timeout=None):
        self._run()
        return self.returncode

    def poll(self):
        self._run()
        return self.returncode

    def kill(self):
        if self.returncode is None:
            self.returncode = -9

    terminate = kill

    def send_signal(self, sig):
        self.kill()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.returncode is None and a[0] is None:
            self.wait()


class PopenSwitch(REAL_POPEN):
    """subprocess.Popen: simulated inside a simulated process, real elsewhere."""

    def __new__(cls, *a, **k):
        if cur() is not None:
            return SimPopen(*a, **k)
        return REAL_POPEN(*a, **k)

    def __init__(self, *a, **k):  # pragma: no cover - never reached
        pass


# --------------------------------------------------------------------------- clocks, randomness
class SimDateTime(REAL_DATETIME):
    @classmethod
    def now(cls, tz=None):
        if cur() is None:
            return super().now(tz)
        return cls.fromtimestamp(core.SIM.now_ns / 1e9, tz)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        if cur() is None:
            return super().utcnow()
        return cls.fromtimestamp(core.SIM.now_ns / 1e9, datetime_mod.timezone.utc).replace(tzinfo=None)


def _clock(real, fn):
    @functools.wraps(real)
    def w(*a):
        if cur() is None:
            return real(*a)
        return fn(*a)

    return w


def _install_time():
    t = time
    t.time = _clock(t.time, lambda: core.SIM.now_ns / 1e9)
    t.time_ns = _clock(t.time_ns, lambda: core.SIM.now_ns)
    t.perf_counter = _clock(t.perf_counter, lambda: (core.SIM.now_ns - core.SIM.start_ns) / 1e9)
    t.perf_counter_ns = _clock(t.perf_counter_ns, lambda: core.SIM.now_ns - core.SIM.start_ns)
    t.monotonic = _clock(t.monotonic, lambda: (core.SIM.now_ns - core.SIM.start_ns) / 1e9)
    t.monotonic_ns = _clock(t.monotonic_ns, lambda: core.SIM.now_ns - core.SIM.start_ns)
    t.process_time = _clock(t.process_time, lambda: (core.SIM.now_ns - core.SIM.start_ns) / 1e9)
    real_local, real_gm = t.localtime, t.gmtime
    t.localtime = _clock(real_local, lambda s=None: real_local(core.SIM.now_ns / 1e9 if s is None else s))
    t.gmtime = _clock(real_gm, lambda s=None: real_gm(core.SIM.now_ns / 1e9 if s is None else s))

    def sleep(secs):
        s = core.SIM
        s.op("sleep", "/clock", may_fail=False)
        s.now_ns += int(secs * 1e9)

    t.sleep = _clock(t.sleep, sleep)


# --------------------------------------------------------------------------- auditwheel modules
_code_cache: dict[str, object] = {}


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.path
        code = _code_cache.get(path)
        if code is None:
            with REAL_OPEN(path, "rb") as f:
                code = compile(f.read(), path, "exec", dont_inherit=True)
            _code_cache[path] = code
        return code

    def exec_module(self, module):
        # sorting a set of classes or other address-hashed objects must not depend on
        # memory addresses: such sets are put in a seeded order first
        module.__dict__["sorted"] = _seeded_sorted
        super().exec_module(module)


def _seeded_sorted(it, /, *, key=None, reverse=False):
    if isinstance(it, (set, frozenset)) and it and all(isinstance(x, type) for x in it):
        salt = core.SIM.vfs.salt if core.SIM is not None else 0
        it = sorted(it, key=lambda c: hashlib.blake2b(f"{salt}|{c.__qualname__}".encode(), digest_size=8).digest())
    return sorted(it, key=key, reverse=reverse)


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != "auditwheel" and not name.startswith("auditwheel."):
            return None
        base = os.path.join(SRC, *name.split("."))
        real_stat = real_os.get("stat", os.stat)

        def isfile(f):
            try:
                real_stat(f)
            except OSError:
                return False
            return True

        init = os.path.join(base, "__init__.py")
        if isfile(init):
            return importlib.util.spec_from_file_location(
                name, init, loader=_Loader(name, init), submodule_search_locations=[base]
            )
        if isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                name, base + ".py", loader=_Loader(name, base + ".py")
            )
        return None


def _is_aw(name: str) -> bool:
    return name == "auditwheel" or name.startswith("auditwheel.")


_TZ = [None]


def _set_tz(tz: str) -> None:
    """the time zone of the process that runs from now on"""
    if _TZ[0] != tz:
        _TZ[0] = tz
        os.putenv("TZ", tz)
        time.tzset()


def swap_in(p):
    for k, m in p.modules.items():
        sys.modules[k] = m
    p._saved = (
        os.environ._data,
        sys.argv,
        sys.stdout,
        sys.stderr,
        logging.root.handlers,
        logging.root.level,
        tempfile.tempdir,
        random.getstate(),
    )
    _set_tz(p.environ.get("TZ", "UTC0"))
    os.environ._data = p.environ_data if hasattr(p, "environ_data") else {
        os.fsencode(k): os.fsencode(v) for k, v in p.environ.items()
    }
    p.environ_data = os.environ._data
    sys.argv = p.argv
    sys.stdout, sys.stderr = p.stdout, p.stderr
    logging.root.handlers = p.log_handlers
    logging.root.setLevel(p.log_level)
    tempfile.tempdir = p.tmpdir
    if p.rand_state is None:
        random.seed(p.rng.getrandbits(64))
    else:
        random.setstate(p.rand_state)


def swap_out(p):
    p.modules = {k: sys.modules[k] for k in [k for k in sys.modules if k.startswith("auditwheel")] if _is_aw(k)}
    for k in p.modules:
        del sys.modules[k]
    p.log_handlers = logging.root.handlers
    p.log_level = logging.root.level
    p.rand_state = random.getstate()
    (
        os.environ._data,
        sys.argv,
        sys.stdout,
        sys.stderr,
        logging.root.handlers,
        level,
        tempfile.tempdir,
        st,
    ) = p._saved
    logging.root.setLevel(level)
    random.setstate(st)
    del p._saved


def auditwheel_main(p):
    from auditwheel.main import main

    return main()


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    # modules that must have captured the originals, or be complete, before the switch
    import argparse, ast, csv, fnmatch, glob, hashlib, inspect, json, textwrap, zipfile  # noqa: E401,F401
    import email.generator, email.parser  # noqa: E401,F401
    import importlib.metadata  # noqa: F401
    import urllib.parse  # noqa: F401
    import elftools.elf.elffile  # noqa: F401
    import packaging.utils  # noqa: F401
    import secrets, uuid  # noqa: E401,F401

    sys.path[:] = [x for x in sys.path if x]
    sys.meta_path.insert(0, _Finder)
    wrapped = {}
    for name, fn in OS_FUNCS.items():
        if hasattr(os, name):
            wrapped[name] = _wrap(name, fn)
    for group in ("supports_follow_symlinks", "supports_fd"):
        g = getattr(os, group)
        for name, w in wrapped.items():
            if real_os[name] in g:
                g.add(w)
    for name, w in wrapped.items():
        setattr(os, name, w)
    for bad in ("system", "posix_spawn", "posix_spawnp", "fork", "popen", "execv", "execve"):
        if hasattr(os, bad):
            real = getattr(os, bad)

            def guard(*a, _real=real, _name=bad, **k):
                if cur() is not None:
                    raise HarnessError(f"os.{_name} is not simulated")
                return _real(*a, **k)

            setattr(os, bad, guard)
    io.open = sim_open
    builtins.open = sim_open
    shutil._use_fd_functions = False
    for mod in list(sys.modules.values()):
        # "from os import x" / "from io import open" style captures in the standard library
        if mod is None or getattr(mod, "__name__", "") in ("os", "posix", "awsim.seam"):
            continue
        d = getattr(mod, "__dict__", None)
        if not d or not (getattr(mod, "__name__", "") in (
            "shutil", "tempfile", "pathlib", "glob", "zipfile", "random", "tarfile", "gzip", "bz2", "lzma",
            "genericpath", "posixpath", "secrets", "uuid", "fileinput", "linecache", "tokenize", "json",
            "configparser", "csv",
        ) or getattr(mod, "__name__", "").startswith(("elftools", "zipfile", "email", "importlib.metadata"))):
            continue
        for k, v in list(d.items()):
            if v is REAL_OPEN:
                d[k] = sim_open
            else:
                for name, real in real_os.items():
                    if v is real and name != "open":
                        d[k] = wrapped[name]
    subprocess.Popen = PopenSwitch
    datetime_mod.datetime = SimDateTime
    _install_time()

    real_names = tempfile._get_candidate_names

    def candidate_names():
        p = cur()
        if p is None:
            return real_names()
        if not hasattr(p, "_names"):
            p._names = p.temp_names()
        return p._names

    tempfile._get_candidate_names = candidate_names

    real_machine = platform_mod.machine
    platform_mod.machine = lambda: (
        core.SIM.host.get("machine", "x86_64") if cur() is not None else real_machine()
    )
    real_arch = platform_mod.architecture
    platform_mod.architecture = lambda *a, **k: (
        (core.SIM.host.get("bits", "64bit"), "ELF") if cur() is not None else real_arch(*a, **k)
    )
    real_calcsize = struct.calcsize

    def calcsize(fmt):
        if cur() is not None and fmt == "P":
            return 4 if core.SIM.host.get("bits") == "32bit" else 8
        return real_calcsize(fmt)

    struct.calcsize = calcsize

    # exit handlers belong to the process that registered them
    fin_init = weakref.finalize.__init__

    def finalize_init(self, obj, func, /, *args, **kwargs):
        fin_init(self, obj, func, *args, **kwargs)
        p = cur()
        if p is not None:
            p.finalizers.append(self)

    weakref.finalize.__init__ = finalize_init
