"""In-memory file system: the simulated disk.

POSIX semantics as far as auditwheel, the Python standard library and the
simulated tools need them: symbolic links, permission bits checked for an
unprivileged user, hard links, rename, a capacity limit, and directory
enumeration in an order the simulator decides.
"""

from __future__ import annotations

import errno
import hashlib
import os
import stat as st_


def err(code: int, path=None, path2=None) -> OSError:
    if path2 is not None:
        return OSError(code, os.strerror(code), path, None, path2)
    return OSError(code, os.strerror(code), path)


class Node:
    __slots__ = ("kind", "mode", "uid", "mtime_ns", "atime_ns", "ino", "nlink", "data", "target",
                 "children", "parent", "name", "blob_id", "dev")

    def __init__(self, kind, mode, uid, ino, now):
        self.kind = kind  # "f", "d", "l"
        self.mode = mode & 0o7777
        self.uid = uid
        self.ino = ino
        self.dev = 77
        self.nlink = 1
        self.mtime_ns = self.atime_ns = now
        self.data = bytearray() if kind == "f" else None
        self.target = None
        self.children = {} if kind == "d" else None
        self.parent = None
        self.name = ""

    def st_mode(self) -> int:
        return self.mode | {"f": st_.S_IFREG, "d": st_.S_IFDIR, "l": st_.S_IFLNK}[self.kind]


class VFS:
    def __init__(self, now=lambda: 1_700_000_000_000_000_000, dir_order="sorted", salt=0):
        self.now = now
        self._ino = 100
        self.dir_order = dir_order
        self.salt = salt
        self.capacity = None  # bytes, None: unlimited
        self.root = self._new("d", 0o755, 0)
        self.root.parent = self.root
        self.generation = 0  # bumped at every mutation

    # -- nodes
    def _new(self, kind, mode, uid):
        self._ino += 1
        return Node(kind, mode, uid, self._ino, self.now())

    def used(self) -> int:
        total = 0
        seen = set()
        stack = [self.root]
        while stack:
            n = stack.pop()
            if n.kind == "d":
                stack.extend(n.children.values())
            elif n.kind == "f" and n.ino not in seen:
                seen.add(n.ino)
                total += len(n.data)
        return total

    def path_of(self, node: Node) -> str | None:
        parts = []
        while node is not self.root:
            if node.parent is None:
                return None
            parts.append(node.name)
            node = node.parent
        return "/" + "/".join(reversed(parts))

    # -- permissions
    @staticmethod
    def may(node: Node, uid: int, want: int) -> bool:
        if uid == 0:
            return True
        bits = (node.mode >> 6) if node.uid == uid else node.mode
        return (bits & want) == want

    # -- lookup
    def walk(self, path: str, cwd: Node, uid: int, follow=True, orig=None, want_parent=False):
        """Resolve ``path``; returns (parent, name, node or None)."""
        orig = path if orig is None else orig
        if path == "":
            raise err(errno.ENOENT, orig)
        if "\0" in path:
            raise ValueError("embedded null byte")
        cur = self.root if path.startswith("/") else cwd
        trailing = path.endswith("/") and path.strip("/") != ""
        parts = [p for p in path.split("/") if p not in ("", ".")]
        if not parts:
            return cur.parent, cur.name, cur
        links = 0
        i = 0
        while i < len(parts):
            name = parts[i]
            last = i == len(parts) - 1
            if cur.kind != "d":
                raise err(errno.ENOTDIR, orig)
            if not self.may(cur, uid, 1):
                raise err(errno.EACCES, orig)
            if len(name.encode(errors="surrogateescape")) > 255:
                raise err(errno.ENAMETOOLONG, orig)
            if name == "..":
                nxt = cur.parent if cur.parent is not None else cur
                if last:
                    return nxt.parent, nxt.name, nxt
                cur = nxt
                i += 1
                continue
            nxt = cur.children.get(name)
            if nxt is None:
                if last:
                    return cur, name, None
                raise err(errno.ENOENT, orig)
            if nxt.kind == "l" and (not last or follow or trailing):
                links += 1
                if links > 40:
                    raise err(errno.ELOOP, orig)
                tparts = [p for p in nxt.target.split("/") if p not in ("", ".")]
                if nxt.target.startswith("/"):
                    cur = self.root
                parts = tparts + parts[i + 1 :]
                i = 0
                if not parts:
                    return cur.parent, cur.name, cur
                continue
            if last:
                if trailing and nxt.kind != "d":
                    raise err(errno.ENOTDIR, orig)
                return cur, name, nxt
            cur = nxt
            i += 1
        raise AssertionError

    def get(self, path, cwd=None, uid=0, follow=True) -> Node:
        _, _, n = self.walk(path, cwd or self.root, uid, follow)
        if n is None:
            raise err(errno.ENOENT, path)
        return n

    def exists(self, path, follow=True) -> bool:
        try:
            self.get(path, follow=follow)
        except OSError:
            return False
        return True

    # -- mutation (the system call layer)
    def _dirty(self, parent: Node):
        parent.mtime_ns = self.now()
        self.generation += 1

    def _link_in(self, parent, name, node):
        parent.children[name] = node
        node.name = name
        node.parent = parent
        if node.kind != "d" or not node.children:
            node.dev = parent.dev
        self._dirty(parent)

    def mount(self, path, dev):
        """The tree at ``path`` is a file system of its own."""
        stack = [self.makedirs(path)]
        while stack:
            n = stack.pop()
            n.dev = dev
            if n.kind == "d":
                stack.extend(n.children.values())

    def create(self, path, cwd, uid, mode, excl, want_read, want_write, trunc):
        parent, name, node = self.walk(path, cwd, uid)
        if node is not None:
            if excl:
                raise err(errno.EEXIST, path)
            return self.open_existing(node, path, uid, want_read, want_write, trunc)
        if excl:
            # O_EXCL does not follow a dangling link
            _p, _n, node2 = self.walk(path, cwd, uid, follow=False)
            if node2 is not None:
                raise err(errno.EEXIST, path)
        if parent.parent is None and parent is not self.root:
            raise err(errno.ENOENT, path)  # removed directory
        if not self.may(parent, uid, 3):
            raise err(errno.EACCES, path)
        node = self._new("f", mode, uid)
        self._link_in(parent, name, node)
        return node

    def open_existing(self, node, path, uid, want_read, want_write, trunc):
        if node.kind == "d":
            if want_write:
                raise err(errno.EISDIR, path)
            return node
        if want_read and not self.may(node, uid, 4):
            raise err(errno.EACCES, path)
        if want_write and not self.may(node, uid, 2):
            raise err(errno.EACCES, path)
        if trunc and want_write and node.data:
            node.data = bytearray()
            node.mtime_ns = self.now()
            self.generation += 1
        return node

    def mkdir(self, path, cwd, uid, mode):
        parent, name, node = self.walk(path.rstrip("/") or "/", cwd, uid, follow=False)
        if node is not None:
            raise err(errno.EEXIST, path)
        if parent.parent is None and parent is not self.root:
            raise err(errno.ENOENT, path)
        if not self.may(parent, uid, 3):
            raise err(errno.EACCES, path)
        node = self._new("d", mode, uid)
        node.nlink = 2
        self._link_in(parent, name, node)
        return node

    def unlink(self, path, cwd, uid):
        parent, name, node = self.walk(path, cwd, uid, follow=False)
        if node is None:
            raise err(errno.ENOENT, path)
        if node.kind == "d":
            raise err(errno.EISDIR, path)
        if not self.may(parent, uid, 3):
            raise err(errno.EACCES, path)
        del parent.children[name]
        node.nlink -= 1
        self._dirty(parent)

    def rmdir(self, path, cwd, uid):
        parent, name, node = self.walk(path, cwd, uid, follow=False)
        if node is None:
            raise err(errno.ENOENT, path)
        if node.kind != "d":
            raise err(errno.ENOTDIR, path)
        if node.children:
            raise err(errno.ENOTEMPTY, path)
        if not self.may(parent, uid, 3):
            raise err(errno.EACCES, path)
        del parent.children[name]
        node.parent = None
        self._dirty(parent)

    def rename(self, src, dst, cwd, uid):
        sp, sn, s = self.walk(src, cwd, uid, follow=False)
        if s is None:
            raise err(errno.ENOENT, src, dst)
        dp, dn, d = self.walk(dst.rstrip("/") if s.kind == "d" else dst, cwd, uid, follow=False)
        if s is d:
            return
        if not self.may(sp, uid, 3) or not self.may(dp, uid, 3):
            raise err(errno.EACCES, src, dst)
        if d is not None:
            if d.kind == "d":
                if s.kind != "d":
                    raise err(errno.EISDIR, src, dst)
                if d.children:
                    raise err(errno.ENOTEMPTY, src, dst)
                d.parent = None
            elif s.kind == "d":
                raise err(errno.ENOTDIR, src, dst)
            else:
                d.nlink -= 1
        if s.dev != dp.dev or s.dev != sp.dev:
            raise err(errno.EXDEV, src, dst)
        if s.kind == "d":
            n = dp
            while n is not self.root:
                if n is s:
                    raise err(errno.EINVAL, src, dst)
                n = n.parent
        del sp.children[sn]
        self._dirty(sp)
        self._link_in(dp, dn, s)

    def symlink(self, target, path, cwd, uid):
        parent, name, node = self.walk(path, cwd, uid, follow=False)
        if node is not None:
            raise err(errno.EEXIST, target, path)
        if not self.may(parent, uid, 3):
            raise err(errno.EACCES, target, path)
        node = self._new("l", 0o777, uid)
        node.target = target
        self._link_in(parent, name, node)
        return node

    def link(self, src, dst, cwd, uid, follow=True):
        _, _, s = self.walk(src, cwd, uid, follow=follow)
        if s is None:
            raise err(errno.ENOENT, src, dst)
        if s.kind == "d":
            raise err(errno.EPERM, src, dst)
        parent, name, node = self.walk(dst, cwd, uid, follow=False)
        if node is not None:
            raise err(errno.EEXIST, src, dst)
        if not self.may(parent, uid, 3):
            raise err(errno.EACCES, src, dst)
        if s.dev != parent.dev:
            raise err(errno.EXDEV, src, dst)
        # fs.protected_hardlinks: others' files only when one may read and write them
        if uid not in (0, s.uid) and not (s.kind == "f" and self.may(s, uid, 6)):
            raise err(errno.EPERM, src, dst)
        s.nlink += 1
        parent.children[name] = s
        self._dirty(parent)

    def write_data(self, node: Node, pos: int, b: bytes) -> int:
        """Raw write; returns the number of bytes accepted (short on a full disk)."""
        n = len(b)
        if self.capacity is not None:
            grow = max(0, pos + n - len(node.data))
            if grow:
                free = self.capacity - self.used()
                if grow > free:
                    n = n - grow + max(0, free)
                    if n <= 0:
                        raise err(errno.ENOSPC)
        if pos > len(node.data):
            node.data.extend(b"\0" * (pos - len(node.data)))
        node.data[pos : pos + n] = b[:n]
        node.mtime_ns = self.now()
        self.generation += 1
        return n

    # -- enumeration
    def order(self, node: Node) -> list[str]:
        names = sorted(node.children)
        if self.dir_order == "sorted":
            return names
        if self.dir_order == "reverse":
            return names[::-1]
        if self.dir_order == "creation":
            return list(node.children)
        where = self.path_of(node) or ""
        # a directory keeps its order while it is unchanged, like a hashed directory index;
        # names under a random temporary directory must not depend on the directory's name
        return sorted(
            names,
            key=lambda n: hashlib.blake2b(
                f"{self.salt}|{os.path.basename(where) if '/tmp' not in where else ''}|{n}".encode(
                    errors="surrogateescape"
                ),
                digest_size=8,
            ).digest(),
        )

    # -- convenience for world construction and oracles (no permission checks, no events)
    def makedirs(self, path, uid=0, mode=0o755) -> Node:
        cur = self.root
        for p in [p for p in path.split("/") if p]:
            nxt = cur.children.get(p)
            if nxt is None:
                nxt = self._new("d", mode, uid)
                self._link_in(cur, p, nxt)
            elif nxt.kind == "l":
                base = self.path_of(cur) or "/"
                nxt = self.get(os.path.join(base, nxt.target))
            cur = nxt
        return cur

    def put(self, path, data: bytes, mode=0o644, uid=0, mtime_ns=None) -> Node:
        parent = self.makedirs(os.path.dirname(path), uid=uid)
        node = self._new("f", mode, uid)
        node.data = bytearray(data)
        if mtime_ns is not None:
            node.mtime_ns = mtime_ns
        self._link_in(parent, os.path.basename(path), node)
        return node

    def putlink(self, path, target, uid=0) -> Node:
        parent = self.makedirs(os.path.dirname(path), uid=uid)
        node = self._new("l", 0o777, uid)
        node.target = target
        self._link_in(parent, os.path.basename(path), node)
        return node

    def read(self, path) -> bytes:
        n = self.get(path)
        if n.kind != "f":
            raise err(errno.EISDIR, path)
        return bytes(n.data)

    def listdir(self, path) -> list[str]:
        return sorted(self.get(path).children)

    def snapshot(self, top="/", skip=(), mtimes=False) -> dict[str, tuple]:
        """path -> (kind, mode, contents digest or link target) for everything under ``top``."""
        out = {}
        skip = tuple(skip)

        def rec(node, path):
            if path in skip:
                return
            if node.kind == "d":
                out[path] = ("d", node.mode, "")
                for name in sorted(node.children):
                    rec(node.children[name], path.rstrip("/") + "/" + name)
            elif node.kind == "l":
                out[path] = ("l", 0, node.target)
            else:
                dg = hashlib.sha256(node.data).hexdigest()
                out[path] = ("f", node.mode, dg, *((node.mtime_ns,) if mtimes else ()))

        try:
            top_node = self.get(top)
        except OSError:
            return out
        rec(top_node, top)
        return out
