"""Fault planning: choosing operations of a reference run and what goes wrong there."""

from __future__ import annotations

import re

ERRS = {
    "open": ["EIO", "EACCES", "EMFILE", "ENOMEM", "ESTALE"],
    "creat": ["EIO", "ENOSPC", "EMFILE", "EDQUOT", "EACCES", "EROFS"],
    "openw": ["EIO", "ENOSPC", "EMFILE", "EACCES", "ETXTBSY"],
    "read": ["EIO", "ESTALE"],
    "write": ["ENOSPC", "EIO", "EDQUOT"],
    "close": ["EIO", "ENOSPC", "EDQUOT"],
    "truncate": ["EIO", "ENOSPC"],
    "mkdir": ["ENOSPC", "EIO", "EDQUOT", "EROFS"],
    "rename": ["EIO", "ENOSPC", "EBUSY"],
    "chmod": ["EPERM", "EIO"],
    "chown": ["EPERM"],
    "utime": ["EPERM", "EIO"],
    "scandir": ["EIO", "EMFILE", "ENOMEM"],
    "unlink": ["EIO", "EBUSY"],
    "rmdir": ["EIO", "EBUSY"],
    "chdir": ["EIO", "ESTALE"],
    "symlink": ["EIO", "ENOSPC"],
    "link": ["EIO", "ENOSPC"],
    "fsync": ["EIO", "ENOSPC"],
    "spawn": ["ENOENT", "ENOMEM", "E2BIG", "EACCES"],
}
WEIGHT = {"creat": 3, "write": 4, "read": 3, "open": 4, "openw": 3, "mkdir": 3, "rename": 5, "chmod": 3, "scandir": 3,
          "close": 2, "spawn": 6, "utime": 2, "unlink": 1, "rmdir": 1, "chdir": 2}

PKG = ("/dpkg|", "/rpm|", "/apk|", "/apt|", "/apt-file|")


def is_pkg(label: str) -> bool:
    """A query of the package manager or of the distribution's name."""
    return label.startswith(PKG) or "os-release" in label


def is_conf(kind: str, label: str) -> bool:
    """Reading the loader's configuration, which may only be warned about."""
    return kind in ("open", "read", "scandir", "close") and (
        "ld.so.conf" in label or label in ("/etc", "//etc") or label.startswith(("/etc/sub", "//etc/sub", "/etc/ld-musl")))


def is_musl(label: str) -> bool:
    return "|" in label and ("musl" in label.split("|")[0])


def is_libc(kind: str, label: str) -> bool:
    """Looking for the musl loader: an error here is the known finding K1."""
    return kind == "scandir" and label in ("/lib", "//lib")


def by_purpose(rng, ts):
    """Narrow a list of operations down by what they are done for, each part of the command having the same chance."""
    depth = 1
    while True:
        groups: dict[str, list] = {}
        for t in ts:
            w = t[5].split("<")
            groups.setdefault(w[-depth] if len(w) >= depth else "", []).append(t)
        names = sorted(groups)
        n = names[rng.randrange(len(names))]
        ts = groups[n]
        if n == "":
            return ts
        depth += 1


def pick_site(rng, trace, ok):
    """One operation of the trace: by purpose, or kinds by weight, then labels evenly or operations evenly."""
    by: dict[str, list] = {}
    cand = [t for t in trace if ok(t)]
    x = rng.random()
    if x < 0.4 and cand:
        cand = by_purpose(rng, cand)
    for t in cand:
        by.setdefault(t[1], []).append(t)
    if not by:
        return None
    kinds = sorted(by)
    k = rng.choices(kinds, [WEIGHT.get(x, 1) for x in kinds])[0]
    ts = by[k]
    if 0.4 <= x < 0.75:
        labs = sorted({t[2] for t in ts})
        lab = labs[rng.randrange(len(labs))]
        ts = [t for t in ts if t[2] == lab]
    return ts[rng.randrange(len(ts))]


def base(t, **kw):
    return {"proc": t[0], "op": t[1], "label": t[2], "nth": t[3], **kw}


def errno_fault(rng, t):
    e = ERRS[t[1]]
    f = base(t, k="errno", e=e[rng.randrange(len(e))])
    if t[1] == "scandir" and t[2].startswith("$T") and rng.random() < 0.3:
        f["e"] = "EACCES"
    if t[1] == "write" and rng.random() < 0.5:
        f["frac"] = rng.choice([0.0, 0.25, 0.5, 0.9, 1.0])
        f["when"] = "after"
    elif t[1] == "close":
        f["when"] = "after"
    elif t[1] in ("creat", "mkdir", "rename") and rng.random() < 0.1:
        f["when"] = "after"
    if rng.random() < 0.25:
        f["sticky"] = 1
    return f


def tool_fault(rng, t):
    f = base(t, k="tool", rc=rng.choice([1, 1, 2, -9, -11, 127]))
    if t[2].startswith(("/patchelf|", "/strip|")) and "--print" not in t[2] and rng.random() < 0.5:
        f["effect"] = rng.choice(["torn", "done"])
        f["frac"] = rng.choice([0.0, 0.3, 0.8])
    if rng.random() < 0.2:
        f["sticky"] = 1
    return f


def kill_fault(rng, t, k="kill"):
    f = base(t, k=k, when=rng.choice(["before", "after"]))
    if t[1] not in ERRS or t[1] in ("chown",):
        f["when"] = "before"
    if t[1] == "write" and f["when"] == "after":
        f["frac"] = rng.choice([0.0, 0.3, 0.7, 1.0])
    return f


def short_fault(rng, t):
    return base(t, k="short", frac=rng.choice([0.01, 0.3, 0.5, 0.99]), **({"sticky": 1} if rng.random() < 0.5 else {}))


def mem_fault(rng, t):
    return base(t, k="mem")


def jump_fault(rng, t):
    return base(t, k="jump", ns=rng.choice([-86_400, -1, 3600, 400 * 86_400]) * 10**9)


def real_op(t) -> bool:
    """Not a site inside the interpreter's own import machinery."""
    return not t[2].startswith(("/verif", "/repo"))


def faultable(t) -> bool:
    return t[4] and t[1] in ERRS and real_op(t)


def make(rng, trace, kinds, ok=lambda t: True):
    """One fault of one of the ``kinds`` (weighted list), or None."""
    k = kinds[rng.randrange(len(kinds))]
    if k == "errno":
        t = pick_site(rng, trace, lambda t: faultable(t) and ok(t))
        return t and errno_fault(rng, t)
    if k == "tool":
        t = pick_site(rng, trace, lambda t: t[1] == "spawn" and ok(t))
        return t and tool_fault(rng, t)
    if k in ("kill", "intr"):
        if rng.random() < 0.5:
            ts = [t for t in trace if ok(t) and real_op(t)]
            t = ts[rng.randrange(len(ts))] if ts else None
        else:
            t = pick_site(rng, trace, lambda t: ok(t) and t[4] and real_op(t))
        return t and kill_fault(rng, t, k)
    if k == "mem":
        t = pick_site(rng, trace, lambda t: ok(t) and real_op(t))
        return t and mem_fault(rng, t)
    if k == "short":
        t = pick_site(rng, trace, lambda t: t[1] in ("read", "write") and ok(t))
        return t and short_fault(rng, t)
    if k == "jump":
        ts = [t for t in trace if ok(t)]
        return jump_fault(rng, ts[rng.randrange(len(ts))]) if ts else None
    raise ValueError(k)


def label_class(label: str) -> str:
    """A coarse name of a site, for counting distinct ones."""
    x = re.sub(r"\d+", "#", label)
    return re.sub(r"[-_.a-zA-Z0-9#+]+(?=\.(so|whl|txt|py))", "*", x)
