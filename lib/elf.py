"""Writers for the inputs cargo-call-stack reads: linked ELF files, relocatable
objects with `.stack_sizes`, and `ar` archives.  Only what the tool looks at is
produced, with the layout the real toolchain uses."""
import struct

STT = {"notype": 0, "object": 1, "func": 2, "section": 3, "file": 4}
STB = {"local": 0, "global": 1, "weak": 2}
EM = {"arm": 40, "aarch64": 183, "riscv": 243, "x86_64": 62, "mips": 8}

# machine -> (bits, e_machine, rel kind)
ARCH = {
    "arm": (32, 40, "rel"),
    "riscv32": (32, 243, "rela"),
    "x86_64": (64, 62, "rela"),
    "riscv64": (64, 243, "rela"),
}

R_ABS = {"arm": 2, "riscv32": 1, "x86_64": 1, "riscv64": 2}


def uleb(n):
    out = bytearray()
    while True:
        b = n & 0x7F
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


class StrTab:
    def __init__(self):
        self.data = bytearray(b"\0")
        self.off = {b"": 0}

    def add(self, s):
        if isinstance(s, str):
            s = s.encode()
        if s not in self.off:
            self.off[s] = len(self.data)
            self.data += s + b"\0"
        return self.off[s]


class Elf:
    """e_type: 2 = executable, 1 = relocatable.
    sections: list of dicts(name, type, flags, addr, data, link, info, entsize, align)
    """

    def __init__(self, arch, e_type, entry=0):
        self.arch = arch
        self.bits, self.machine, self.relkind = ARCH[arch]
        self.e_type = e_type
        self.entry = entry
        self.sections = []  # index 0 is the null section
        self.symbols = []  # (name, value, size, type, bind, shndx)

    def section(self, name, data=b"", type_=1, flags=0, addr=0, link=0, info=0,
                entsize=0, align=1, nobits=0):
        self.sections.append(dict(name=name, type=type_, flags=flags, addr=addr,
                                  data=bytes(data), link=link, info=info,
                                  entsize=entsize, align=align, nobits=nobits))
        return len(self.sections)

    def symbol(self, name, value, size=0, type_="func", bind="global", shndx=1):
        self.symbols.append((name, value, size, STT[type_], STB[bind], shndx))
        return len(self.symbols)

    def symtab_bytes(self, strtab, order):
        b32 = self.bits == 32
        out = bytearray(16 if b32 else 24)
        for i in order:
            name, value, size, ty, bind, shndx = self.symbols[i]
            info = (bind << 4) | ty
            n = strtab.add(name)
            if b32:
                out += struct.pack("<IIIBBH", n, value & 0xFFFFFFFF, size, info, 0, shndx)
            else:
                out += struct.pack("<IBBHQQ", n, info, 0, shndx, value, size)
        return bytes(out)

    def build(self):
        b32 = self.bits == 32
        # locals first, as the ELF specification demands
        order = [i for i, s in enumerate(self.symbols) if s[4] == 0]
        nlocal = len(order) + 1
        order += [i for i, s in enumerate(self.symbols) if s[4] != 0]
        self.sym_index = {s: k + 1 for k, s in enumerate(order)}
        strtab = StrTab()
        symtab = self.symtab_bytes(strtab, order)
        secs = list(self.sections)
        symtab_idx = len(secs) + 1
        for s in secs:
            if callable(s["link"]):
                s["link"] = s["link"](symtab_idx)
            if callable(s.get("late")):
                s["data"] = s["late"](self)
        secs.append(dict(name=".symtab", type=2, flags=0, addr=0, data=symtab,
                         link=symtab_idx + 1, info=nlocal,
                         entsize=16 if b32 else 24, align=8, nobits=0))
        secs.append(dict(name=".strtab", type=3, flags=0, addr=0, data=bytes(strtab.data),
                         link=0, info=0, entsize=0, align=1, nobits=0))
        shstr = StrTab()
        for s in secs:
            shstr.add(s["name"])
        shstr.add(".shstrtab")
        secs.append(dict(name=".shstrtab", type=3, flags=0, addr=0, data=bytes(shstr.data),
                         link=0, info=0, entsize=0, align=1, nobits=0))
        ehsize = 52 if b32 else 64
        phs = []
        phentsize = 32 if b32 else 56
        if self.e_type == 2:
            phs = [s for s in secs if s["flags"] & 2 and s["type"] == 1]
        off = ehsize + phentsize * len(phs)
        body = bytearray()
        for s in secs:
            a = max(s["align"], 1)
            pad = -(off + len(body)) % a
            body += b"\0" * pad
            s["off"] = off + len(body)
            if s["type"] != 8:
                body += s["data"]
        pad = -(off + len(body)) % 8
        body += b"\0" * pad
        shoff = off + len(body)
        ident = b"\x7fELF" + bytes([1 if b32 else 2, 1, 1, 0]) + b"\0" * 8
        shnum = len(secs) + 1
        flags = {40: 0x05000200}.get(self.machine, 0)
        if b32:
            eh = ident + struct.pack("<HHIIIIIHHHHHH", self.e_type, self.machine, 1,
                                     self.entry, ehsize if phs else 0, shoff, flags, ehsize,
                                     phentsize if phs else 0, len(phs), 40, shnum, shnum - 1)
        else:
            eh = ident + struct.pack("<HHIQQQIHHHHHH", self.e_type, self.machine, 1,
                                     self.entry, ehsize if phs else 0, shoff, flags, ehsize,
                                     phentsize if phs else 0, len(phs), 64, shnum, shnum - 1)
        ph = bytearray()
        for s in phs:
            pf = 4 | (1 if s["flags"] & 4 else 0) | (2 if s["flags"] & 1 else 0)
            n = len(s["data"])
            if b32:
                ph += struct.pack("<IIIIIIII", 1, s["off"], s["addr"], s["addr"], n, n, pf, 4)
            else:
                ph += struct.pack("<IIQQQQQQ", 1, pf, s["off"], s["addr"], s["addr"], n, n, 8)
        sh = bytearray(40 if b32 else 64)
        for s in secs:
            n = shstr.off[s["name"].encode()]
            size = s["nobits"] if s["type"] == 8 else len(s["data"])
            if b32:
                sh += struct.pack("<IIIIIIIIII", n, s["type"], s["flags"], s["addr"], s["off"],
                                  size, s["link"], s["info"], s["align"], s["entsize"])
            else:
                sh += struct.pack("<IIQQQQIIQQ", n, s["type"], s["flags"], s["addr"], s["off"],
                                  size, s["link"], s["info"], s["align"], s["entsize"])
        return bytes(eh) + bytes(ph) + bytes(body) + bytes(sh)


def stack_sizes_object(arch, entries, thumb=False, one_section=False, extra=None):
    """A relocatable object with one function section and one `.stack_sizes`
    section (followed by its relocations) per entry, the way rustc/LLVM lay
    them out with -ffunction-sections.

    entries: list of (names, size): names all label the same address.
    one_section: put every function in one `.text` with a single `.stack_sizes`.
    """
    e = Elf(arch, 1)
    b32 = e.bits == 32
    e.symbol("crate.cgu.0", 0, 0, "file", "local", 0xFFF1)
    rela = e.relkind == "rela"
    word = 4 if b32 else 8
    tb = 1 if thumb else 0
    rtype = R_ABS[arch]

    def add_sizes(text_idx, items):
        # items: (offset, symbol ordinal, size)
        data = bytearray()
        rels = []
        for off, sym, size in items:
            rels.append((len(data), sym, off))
            # the tool reads the address out of the section data itself
            data += off.to_bytes(word, "little")
            data += uleb(size)
        e.section(".stack_sizes", bytes(data), 1, 0x80, link=text_idx)

        def late(elf):
            out = bytearray()
            for o, sym, off in rels:
                i = elf.sym_index[sym]
                if b32:
                    out += struct.pack("<II", o, (i << 8) | rtype)
                    if rela:
                        out += struct.pack("<i", off)
                else:
                    out += struct.pack("<QQ", o, (i << 32) | rtype)
                    if rela:
                        out += struct.pack("<q", off)
            return bytes(out)

        idx = e.section((".rela" if rela else ".rel") + ".stack_sizes", b"",
                        4 if rela else 9, 0x40, link=lambda s: s, info=len(e.sections),
                        entsize={(True, False): 8, (True, True): 12,
                                 (False, True): 24, (False, False): 16}[(b32, rela)], align=4 if b32 else 8)
        e.sections[idx - 1]["late"] = late

    if one_section:
        n = len(entries)
        idx = e.section(".text", b"\0" * (8 * n + 4), 1, 6, align=4)
        secsym = len(e.symbols)
        e.symbol("", 0, 0, "section", "local", idx)
        items = []
        for k, (names, size) in enumerate(entries):
            for j, nm in enumerate(names):
                e.symbol(nm, 8 * k + tb, 8, "func", "global", idx)
            items.append((8 * k, secsym, size))
        add_sizes(idx, items)
    else:
        for names, size in entries:
            idx = e.section(".text." + names[0], b"\0" * 8, 1, 6, align=4)
            secsym = len(e.symbols)
            e.symbol("", 0, 0, "section", "local", idx)
            for nm in names:
                e.symbol(nm, tb, 8, "func", "global", idx)
            if size is not None:
                add_sizes(idx, [(0, secsym, size)])
    if extra:
        for nm in extra:
            e.symbol(nm, 0, 0, "notype", "global", 0)
    return e.build()


def ar(members):
    """GNU/SysV archive: members is a list of (name, bytes)."""
    out = bytearray(b"!<arch>\n")
    longnames = bytearray()
    offs = {}
    for name, _ in members:
        if len(name) > 15:
            offs[name] = len(longnames)
            longnames += name.encode() + b"/\n"

    def hdr(name, size, mode=b"644"):
        return (name.ljust(16) + b"0".ljust(12) + b"0".ljust(6) + b"0".ljust(6)
                + mode.ljust(8) + str(size).encode().ljust(10) + b"`\n")

    # symbol table (empty) first, like a real rlib
    out += hdr(b"/", 4, b"0") + b"\0\0\0\0"
    if longnames:
        if len(longnames) % 2:
            longnames += b"\n"
        out += hdr(b"//", len(longnames), b"") + longnames
    for name, data in members:
        if name in offs:
            n = b"/" + str(offs[name]).encode()
        else:
            n = name.encode() + b"/"
        out += hdr(n, len(data)) + data
        if len(data) % 2:
            out += b"\n"
    return bytes(out)
