"""Independent ELF reader used by the oracles (program-header based, like a loader)."""

from __future__ import annotations

import functools
import struct


class BadElf(Exception):
    pass


class Elf:
    __slots__ = (
        "bits", "le", "machine", "flags", "needed", "soname", "rpath", "runpath",
        "verneed", "undef", "defined", "interp", "isa", "section_names", "has_dynamic", "osabi", "etype",
    )


_MACH = {
    (62, 64, True): "x86_64", (3, 32, True): "i686", (183, 64, True): "aarch64",
    (40, 32, True): "armv7l", (21, 64, True): "ppc64le", (21, 64, False): "ppc64",
    (22, 64, False): "s390x", (243, 64, True): "riscv64", (258, 64, True): "loongarch64",
}


def arch_of(elf: Elf) -> str | None:
    a = _MACH.get((elf.machine, elf.bits, elf.le))
    if a == "armv7l" and (
        (elf.flags & 0xFF000000) != 0x05000000 or not elf.flags & 0x400
    ):
        return None
    return a


def is_elf(data: bytes) -> bool:
    return data[:4] == b"\x7fELF"


@functools.lru_cache(maxsize=8192)
def parse(data: bytes) -> Elf:
    try:
        return _parse(data)
    except (struct.error, IndexError, UnicodeDecodeError) as exc:
        raise BadElf(str(exc)) from exc


def _parse(data: bytes) -> Elf:
    if data[:4] != b"\x7fELF":
        raise BadElf("magic")
    r = Elf()
    r.bits = {1: 32, 2: 64}.get(data[4]) or 0
    if not r.bits:
        raise BadElf("class")
    r.le = data[5] == 1
    r.osabi = data[7]
    e = "<" if r.le else ">"
    is64 = r.bits == 64
    if is64:
        (r.etype, r.machine, _, _, phoff, shoff, r.flags, _, phsz, nph, shsz, nsh, shstr) = struct.unpack_from(
            e + "HHIQQQIHHHHHH", data, 16
        )
    else:
        (r.etype, r.machine, _, _, phoff, shoff, r.flags, _, phsz, nph, shsz, nsh, shstr) = struct.unpack_from(
            e + "HHIIIIIHHHHHH", data, 16
        )
    loads, dyn, interp, notes = [], None, None, []
    for i in range(nph):
        o = phoff + i * phsz
        if is64:
            t, _f, off, va, _pa, fsz, _msz, _al = struct.unpack_from(e + "IIQQQQQQ", data, o)
        else:
            t, off, va, _pa, fsz, _msz, _f, _al = struct.unpack_from(e + "IIIIIIII", data, o)
        if off + fsz > len(data) and t in (1, 2, 3, 4):
            raise BadElf("segment beyond the end of the file")
        if t == 1:
            loads.append((va, off, fsz))
        elif t == 2:
            dyn = (off, fsz)
        elif t == 3:
            interp = data[off : off + fsz].split(b"\0")[0].decode()
        elif t == 4:
            notes.append((off, fsz))
    r.interp = interp
    r.isa = None
    for off, size in notes:
        end = off + size
        while off + 12 <= end:
            nsz, dsz, typ = struct.unpack_from(e + "III", data, off)
            name = data[off + 12 : off + 12 + nsz]
            d0 = off + 12 + nsz + (-nsz % 4)
            if typ == 5 and name.startswith(b"GNU"):
                p = d0
                al = 8 if is64 else 4
                while p + 8 <= d0 + dsz:
                    pt, psz = struct.unpack_from(e + "II", data, p)
                    if pt == 0xC0008002 and psz == 4:
                        r.isa = struct.unpack_from(e + "I", data, p + 8)[0]
                    p += 8 + psz
                    p += -psz % al
            off = d0 + dsz + (-dsz % 4)
    # sections (names only)
    r.section_names = []
    if nsh and shoff:
        def sh(i):
            o = shoff + i * shsz
            if is64:
                return struct.unpack_from(e + "IIQQQQIIQQ", data, o)
            return struct.unpack_from(e + "IIIIIIIIII", data, o)
        so = sh(shstr)[4]
        for i in range(nsh):
            n = sh(i)[0]
            r.section_names.append(data[so + n : data.index(b"\0", so + n)].decode())

    r.needed, r.soname, r.rpath, r.runpath = [], None, None, None
    r.verneed, r.undef, r.defined = {}, [], []
    r.has_dynamic = dyn is not None
    if dyn is None:
        return r

    def v2o(va):
        for lv, lo, sz in loads:
            if lv <= va < lv + sz:
                return va - lv + lo
        raise BadElf(f"address {va:#x} is not mapped")

    w = 8 if is64 else 4
    fmt = e + ("qQ" if is64 else "iI")
    tags = []
    o = dyn[0]
    while o + 2 * w <= dyn[0] + dyn[1]:
        t, v = struct.unpack_from(fmt, data, o)
        if t == 0:
            break
        tags.append((t, v))
        o += 2 * w
    d = dict(tags)
    if 5 not in d:
        return r
    stro = v2o(d[5])

    def s(off):
        if 10 in d and off >= d[10]:
            raise BadElf("string beyond DT_STRSZ")
        a = stro + off
        return data[a : data.index(b"\0", a)].decode()

    for t, v in tags:
        if t == 1:
            r.needed.append(s(v))
        elif t == 14:
            r.soname = s(v)
        elif t == 15:
            r.rpath = s(v)
        elif t == 29:
            r.runpath = s(v)
    if 0x6FFFFFFE in d:
        o = v2o(d[0x6FFFFFFE])
        for _ in range(d.get(0x6FFFFFFF, 0)):
            _v, cnt, f, aux, nxt = struct.unpack_from(e + "HHIII", data, o)
            lst = r.verneed.setdefault(s(f), [])
            ao = o + aux
            for _i in range(cnt):
                _h, _fl, _ot, nm, anx = struct.unpack_from(e + "IHHII", data, ao)
                lst.append(s(nm))
                ao += anx
            o += nxt
    if 6 in d and 4 in d:
        nsym = struct.unpack_from(e + "II", data, v2o(d[4]))[1]
        so = v2o(d[6])
        for i in range(1, nsym):
            if is64:
                nm, info, _ot, shndx, _val, _sz = struct.unpack_from(e + "IBBHQQ", data, so + 24 * i)
            else:
                nm, _val, _sz, info, _ot, shndx = struct.unpack_from(e + "IIIBBH", data, so + 16 * i)
            entry = (s(nm), info >> 4, info & 15)
            (r.undef if shndx == 0 else r.defined).append(entry)
    return r
