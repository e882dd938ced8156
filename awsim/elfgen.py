"""Synthesise small, well-formed ELF objects for the simulated hosts and wheels.

The objects are inert (they are never executed): what matters is that the
dynamic section, the version requirements, the symbol table, the notes and the
header describe what the world specification says, and that the real patchelf,
strip and pyelftools accept them.
"""

from __future__ import annotations

import functools
import json
import struct

ARCHES = {
    # name: (class bits, little endian, e_machine, e_flags)
    "x86_64": (64, True, 62, 0),
    "i686": (32, True, 3, 0),
    "aarch64": (64, True, 183, 0),
    "armv7l": (32, True, 40, 0x05000400),
    "armel": (32, True, 40, 0x05000200),  # soft float: not an armv7l ELF
    "ppc64le": (64, True, 21, 2),
    "ppc64": (64, False, 21, 1),
    "s390x": (64, False, 22, 0),
    "riscv64": (64, True, 243, 5),
    "loongarch64": (64, True, 258, 0x43),
    "mips64": (64, True, 8, 0x60000000),  # an architecture without policies
}

STB = {"global": 1, "weak": 2, "local": 0}
STT = {"notype": 0, "func": 2, "object": 1}


def _elf_hash(name: str) -> int:
    h = 0
    for c in name.encode():
        h = (h << 4) + c
        g = h & 0xF0000000
        if g:
            h ^= g >> 24
        h &= ~g & 0xFFFFFFFF
    return h


class _Strtab:
    def __init__(self) -> None:
        self.data = bytearray(b"\0")
        self.off: dict[str, int] = {"": 0}

    def add(self, s: str) -> int:
        if s not in self.off:
            self.off[s] = len(self.data)
            self.data += s.encode() + b"\0"
        return self.off[s]


def build(spec: dict) -> bytes:
    return _build(json.dumps(spec, sort_keys=True))


@functools.lru_cache(maxsize=4096)
def _build(key: str) -> bytes:
    """spec keys (all optional but arch):

    arch, needed [..], soname, rpath, runpath, verneed {lib: [sym..]},
    undef [name | [name, bind, type]], defined [name | [name, bind, type]],
    interp, isa (x86 ISA_1_NEEDED bits), pad (extra bytes), osabi, tag
    (a string stored in .rodata so that contents are distinguishable)
    """
    spec = json.loads(key)
    bits, le, machine, flags = ARCHES[spec["arch"]]
    e = "<" if le else ">"
    is64 = bits == 64
    word = e + ("Q" if is64 else "I")
    wsz = 8 if is64 else 4

    dynstr = _Strtab()
    needed = [dynstr.add(n) for n in spec.get("needed", [])]
    soname = dynstr.add(spec["soname"]) if spec.get("soname") else None
    rpath = dynstr.add(spec["rpath"]) if spec.get("rpath") is not None else None
    runpath = dynstr.add(spec["runpath"]) if spec.get("runpath") is not None else None

    # symbols
    def norm(entry, dflt_type):
        if isinstance(entry, str):
            return entry, "global", dflt_type
        return entry[0], entry[1], entry[2]

    syms = []  # name, bind, type, shndx marker
    for s in spec.get("undef", []):
        syms.append((*norm(s, "func"), 0))
    for s in spec.get("defined", []):
        syms.append((*norm(s, "func"), 1))
    for s in syms:
        dynstr.add(s[0])

    # version requirements
    verneed = spec.get("verneed", {})
    vers_blob = bytearray()
    vidx = 2
    libs = list(verneed)
    for li, lib in enumerate(libs):
        names = verneed[lib]
        vers_blob += struct.pack(
            e + "HHIII",
            1,
            len(names),
            dynstr.add(lib),
            16,
            0 if li == len(libs) - 1 else 16 + 16 * len(names),
        )
        for ni, name in enumerate(names):
            vers_blob += struct.pack(
                e + "IHHII",
                _elf_hash(name),
                0,
                vidx,
                dynstr.add(name),
                0 if ni == len(names) - 1 else 16,
            )
            vidx += 1

    sections: list[dict] = [
        {"name": "", "type": 0, "flags": 0, "data": b"", "align": 0},
    ]

    def sec(name, type_, flags_, data, align, **kw):
        sections.append(
            {"name": name, "type": type_, "flags": flags_, "data": bytes(data), "align": align, **kw}
        )
        return len(sections) - 1

    A, W, X = 2, 1, 4
    if spec.get("interp"):
        sec(".interp", 1, A, spec["interp"].encode() + b"\0", 1)
    if spec.get("isa") is not None:
        # NT_GNU_PROPERTY_TYPE_0 with GNU_PROPERTY_X86_ISA_1_NEEDED
        prop = struct.pack(e + "III", 0xC0008002, 4, spec["isa"])
        prop += b"\0" * (-len(prop) % wsz)
        note = struct.pack(e + "III", 4, len(prop), 5) + b"GNU\0" + prop
        sec(".note.gnu.property", 7, A, note, wsz)

    nsym = 1 + len(syms)
    hash_blob = struct.pack(e + "II", 1, nsym)
    hash_blob += struct.pack(e + "I", 1 if nsym > 1 else 0)
    chain = [0] * nsym
    for i in range(1, nsym):
        chain[i] = i + 1 if i + 1 < nsym else 0
    hash_blob += b"".join(struct.pack(e + "I", c) for c in chain)
    hash_i = sec(".hash", 5, A, hash_blob, 8, entsize=4)
    symsz = 24 if is64 else 16
    dynsym_i = sec(".dynsym", 11, A, b"\0" * symsz * nsym, 8, entsize=symsz, info=1)
    dynstr_i = sec(".dynstr", 3, A, b"", 1)
    versym_i = verneed_i = None
    if libs:
        versym_i = sec(".gnu.version", 0x6FFFFFFF, A, struct.pack(e + "H", 1) * nsym, 2, entsize=2)
        verneed_i = sec(".gnu.version_r", 0x6FFFFFFE, A, vers_blob, 8, info=len(libs))
    text_i = sec(".text", 1, A | X, b"\x90" * 16, 16)
    sec(".rodata", 1, A, b"\xa7awsim-tag:" + (spec.get("tag", "") or "x").encode() + b"\0", 1)
    ndyn = len(needed) + 16
    dyn_i = sec(".dynamic", 6, A | W, b"\0" * (2 * wsz) * ndyn, 8, entsize=2 * wsz)
    sec(".data", 1, A | W, b"\xaa" * (16 + spec.get("pad", 0)), 8)
    sec(".comment", 1, 0x30, b"awsim\0", 1, entsize=1)
    # static symbol table: what "strip -s" is expected to drop
    st = _Strtab()
    symtab_blob = b"\0" * symsz
    nm = st.add("awsim_local")
    if is64:
        symtab_blob += struct.pack(e + "IBBHQQ", nm, 2, 0, text_i, 0, 0)
    else:
        symtab_blob += struct.pack(e + "IIIBBH", nm, 0, 0, 2, 0, text_i)
    symtab_i = sec(".symtab", 2, 0, symtab_blob, 8, entsize=symsz, info=2)
    strtab_i = sec(".strtab", 3, 0, st.data, 1)
    sections[symtab_i]["link"] = strtab_i
    shstr = _Strtab()
    for s in sections:
        s["nameoff"] = shstr.add(s["name"])
    shstr_off = shstr.add(".shstrtab")
    sec(".shstrtab", 3, 0, shstr.data, 1)
    sections[-1]["nameoff"] = shstr_off

    sections[dynstr_i]["data"] = bytes(dynstr.data)
    sections[dynsym_i]["link"] = dynstr_i
    sections[hash_i]["link"] = dynsym_i
    sections[dyn_i]["link"] = dynstr_i
    if libs:
        sections[versym_i]["link"] = dynsym_i
        sections[verneed_i]["link"] = dynstr_i

    ehsz, phsz, shsz = (64, 56, 64) if is64 else (52, 32, 40)
    nph = 4 + (2 if spec.get("interp") else 0) + (1 if spec.get("isa") is not None else 0)
    pos = ehsz + phsz * nph
    page = 0x1000 if spec["arch"] in ("x86_64", "i686", "armv7l", "armel", "s390x", "riscv64") else 0x10000
    va_delta = 0
    rx_end = None
    for i, s in enumerate(sections[1:], 1):
        if i == dyn_i:
            rx_end = pos
            va_delta = page
        al = max(1, s["align"])
        pos += -pos % al
        s["off"] = pos
        s["addr"] = pos + va_delta if s["flags"] & A else 0
        pos += len(s["data"])
    rw_first = sections[dyn_i]
    rw_last = sections[dyn_i + 1]

    # fill in dynsym
    blob = bytearray(b"\0" * symsz)
    text_addr = sections[text_i]["addr"]
    for name, bind, typ, marker in syms:
        info = (STB[bind] << 4) | STT[typ]
        shndx = text_i if marker else 0
        val = text_addr if marker else 0
        if is64:
            blob += struct.pack(e + "IBBHQQ", dynstr.off[name], info, 0, shndx, val, 0)
        else:
            blob += struct.pack(e + "IIIBBH", dynstr.off[name], val, 0, info, 0, shndx)
    sections[dynsym_i]["data"] = bytes(blob)
    # dynamic
    dyn: list[tuple[int, int]] = [(1, n) for n in needed]
    if soname is not None:
        dyn.append((14, soname))
    if rpath is not None:
        dyn.append((15, rpath))
    if runpath is not None:
        dyn.append((29, runpath))
    dyn += [
        (4, sections[hash_i]["addr"]),
        (5, sections[dynstr_i]["addr"]),
        (6, sections[dynsym_i]["addr"]),
        (10, len(dynstr.data)),
        (11, symsz),
    ]
    if libs:
        dyn += [
            (0x6FFFFFF0, sections[versym_i]["addr"]),
            (0x6FFFFFFE, sections[verneed_i]["addr"]),
            (0x6FFFFFFF, len(libs)),
        ]
    dyn += [(0, 0)] * (ndyn - len(dyn))
    sections[dyn_i]["data"] = b"".join(struct.pack(word, t) + struct.pack(word, v) for t, v in dyn)

    shoff = pos + (-pos % 8)
    out = bytearray(shoff)

    def ph(type_, flags_, off, vaddr, size, align):
        if is64:
            return struct.pack(e + "IIQQQQQQ", type_, flags_, off, vaddr, vaddr, size, size, align)
        return struct.pack(e + "IIIIIIII", type_, off, vaddr, vaddr, size, size, flags_, align)

    phs = []
    if spec.get("interp"):
        phs.append(ph(6, 4, ehsz, ehsz, phsz * nph, 8))
        s = next(x for x in sections if x["name"] == ".interp")
        phs.append(ph(3, 4, s["off"], s["addr"], len(s["data"]), 1))
    phs.append(ph(1, 5, 0, 0, rx_end, page))
    rw_size = rw_last["off"] + len(rw_last["data"]) - rw_first["off"]
    phs.append(ph(1, 6, rw_first["off"], rw_first["addr"], rw_size, page))
    phs.append(ph(2, 6, rw_first["off"], rw_first["addr"], len(rw_first["data"]), 8))
    if spec.get("isa") is not None:
        s = next(x for x in sections if x["name"] == ".note.gnu.property")
        phs.append(ph(4, 4, s["off"], s["addr"], len(s["data"]), wsz))
    phs.append(ph(0x6474E551, 6, 0, 0, 0, 16))
    assert len(phs) == nph

    ident = b"\x7fELF" + bytes([2 if is64 else 1, 1 if le else 2, 1, spec.get("osabi", 0)]) + b"\0" * 8
    hdr = ident + struct.pack(
        e + ("HHIQQQIHHHHHH" if is64 else "HHIIIIIHHHHHH"),
        3,
        machine,
        1,
        text_addr if spec.get("interp") else 0,
        ehsz,
        shoff,
        flags,
        ehsz,
        phsz,
        nph,
        shsz,
        len(sections),
        len(sections) - 1,
    )
    out[: len(hdr)] = hdr
    p = b"".join(phs)
    out[ehsz : ehsz + len(p)] = p
    for s in sections[1:]:
        out[s["off"] : s["off"] + len(s["data"])] = s["data"]
    for s in sections:
        vals = (
            s["nameoff"],
            s["type"],
            s["flags"],
            s.get("addr", 0),
            s.get("off", 0),
            len(s["data"]),
            s.get("link", 0),
            s.get("info", 0),
            s["align"],
            s.get("entsize", 0),
        )
        out += struct.pack(e + ("IIQQQQIIQQ" if is64 else "IIIIIIIIII"), *vals)
    return bytes(out)
