"""A synthetic linked program with known ground truth.

`Prog` describes functions (machine code items, LLVM-IR statements, stack-size
records, symbol names).  `files()` renders the build products the tool reads;
`expected()` says which call graph those products describe."""
import json
import os
import random

import armenc as A
import elf as E
import irgen as IR
from names import Namer

HERE = os.path.dirname(os.path.abspath(__file__))

THUMB = {"thumbv6m-none-eabi": False, "thumbv7m-none-eabi": True,
         "thumbv7em-none-eabi": True, "thumbv7em-none-eabihf": True}
OTHER = {"x86_64-unknown-none": "x86_64", "riscv32imac-unknown-none-elf": "riscv32",
         "armv7r-none-eabi": "arm", "x86_64-unknown-linux-gnu": "x86_64"}

FAMILIES = {
    "llvm.memcpy.": ("memcpy", "__aeabi_memcpy", "__aeabi_memcpy4", "__aeabi_memcpy8"),
    "llvm.memmove.": ("memmove", "__aeabi_memmove", "__aeabi_memmove4", "__aeabi_memmove8"),
    "llvm.memset.": ("memset", "__aeabi_memset", "__aeabi_memset4", "__aeabi_memset8",
                     "memclr", "__aeabi_memclr", "__aeabi_memclr4", "__aeabi_memclr8"),
}
# intrinsics that rustc emits and that need no library function
INLINE = ["llvm.dbg.value", "llvm.dbg.declare", "llvm.assume", "llvm.trap", "llvm.lifetime.start.p0",
          "llvm.lifetime.end.p0", "llvm.abs.i32", "llvm.bswap.i32", "llvm.ctlz.i64", "llvm.cttz.i32",
          "llvm.sadd.with.overflow.i32", "llvm.smul.with.overflow.i64", "llvm.ssub.with.overflow.i8",
          "llvm.uadd.sat.i32", "llvm.uadd.with.overflow.i32", "llvm.umax.i32", "llvm.umin.i64",
          "llvm.umul.with.overflow.i32", "llvm.usub.sat.i32", "llvm.usub.with.overflow.i32",
          "llvm.vector.reduce.add.v4i32", "llvm.experimental.noalias.scope.decl"]
MEMI = ["llvm.memcpy.p0.p0.i32", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i32",
        "llvm.memmove.p0.p0.i64", "llvm.memset.p0.i32", "llvm.memset.p0.i64"]

_corpus = None


def corpus():
    global _corpus
    if _corpus is None:
        c = json.load(open(os.path.join(HERE, "corpus.json")))
        for k in ("v6m_16", "v7m_16"):
            c[k] = {cl: [h for a, b in runs for h in range(a, b + 1)] for cl, runs in c[k].items()}
        _corpus = c
    return _corpus


def filler(rng, v7):
    """one instruction that neither branches nor touches SP or PC"""
    c = corpus()
    if v7 and rng.random() < 0.04:
        # system instructions share their encoding space with B (T3)
        return rng.choice([A.hw(0xF3BF, 0x8F5F), A.hw(0xF3BF, 0x8F4F), A.hw(0xF3BF, 0x8F6F), A.hw(0xF3BF, 0x8F2F),
                           A.hw(0xF3EF, 0x8010), A.hw(0xF380, 0x8810), A.hw(0xF3EF, 0x8308), A.hw(0xF383, 0x8811),
                           A.hw(0xF3AF, 0x8000), A.hw(0xF3AF, 0x8003), A.hw(0xF3AF, 0x8001), A.hw(0xF3EF, 0x8114)])
    if v7 and rng.random() < 0.4:
        return bytes.fromhex(rng.choice(c["v7m_32"]["plain"])[0])
    if not v7 and rng.random() < 0.05:
        return rng.choice([A.hw(0xF3BF, 0x8F5F), A.hw(0xF3BF, 0x8F4F), A.hw(0xF3BF, 0x8F6F),
                           A.hw(0xF3EF, 0x8010), A.hw(0xF380, 0x8810), A.hw(0xF3EF, 0x8308)])
    return A.hw(rng.choice(c["v7m_16" if v7 else "v6m_16"]["plain"]))


# where functions are of which the file has only the address (e.g. in the ROM of a chip)
ABS = "*ABS*"


class F:
    """one function (one address)"""

    def __init__(self, i):
        self.i = i
        self.names = []        # Name objects: FUNC symbols at this address
        self.notypes = []      # extra NOTYPE symbols at the same address
        self.code = []         # items, see encode()
        self.size = None       # None: true size;  int: value of st_size
        self.kind = "define"   # define | declare | none (no LLVM-IR for it)
        self.module = "app"    # app | cb
        self.ir_name = 0       # index of the name that the LLVM-IR uses
        self.sig = ("void", ())
        self.stmts = []        # IR statements, see ir()
        self.stack = None      # size recorded in .stack_sizes (None: no record)
        self.stack_src = "app"
        self.local = None      # what the tool must report (None: '?')
        self.mcalls = set()    # functions reached by BL/B in the machine code
        self.asm_branch = False # inline assembly with an indirect branch
        self.mindirect = False # machine-code indirect branch
        self.section = ".text"
        self.v7 = True
        self.bind = None
        self.variadic = False
        self.align4 = True
        self.gap = None
        self.no_tag = False
        self.alias_sigs = {}   # index of a name -> (kind, sig)
        self.outlined = False
        self.no_ir = False     # not referred to from the LLVM-IR
        self.pad = 0           # bytes lost to the alignment of the frame
        self.ir_alias = False  # emit `@other = alias ...` items for the other names

    @property
    def irname(self):
        return self.names[self.ir_name]


class Prog:
    def __init__(self, rng, target):
        self.rng = rng
        self.target = target
        self.thumb = target in THUMB
        self.v7 = THUMB.get(target, False)
        self.arch = "arm" if self.thumb else OTHER[target]
        self.fns = []
        self.undefined = []    # Name objects of undefined FUNC symbols
        self.namer = Namer(rng)
        self.base = rng.choice([0x8000, 0x0, 0x08000130, 0x400, 0x10000, 0x90000000, 0xFF000000]) if self.thumb else 0x201000
        self.extra_syms = []   # (name, value, size, type, bind, shndx)
        self.order = None
        self.gap = lambda: 0
        self.extra_items = []  # further IR items of the app module
        self.cb_items = []
        self.gced = []         # F objects with IR but not in the binary
        self.tag_suffix = rng.choice([None, None, None, 0, 0, 70000])
        self.data_after_text = None
        self.extra_sections = []
        self.binds = {}
        self.dtags = False     # superfluous mapping symbols
        self.section_base = {}
        self.typed = False     # typed pointers in the IR
        self.adjacent = set()  # sections that begin where the previous one ends
        self.padding = b"\xd4\xd4" if rng.random() < 0.5 else b"\x00\xbf"

    def fn(self, **kw):
        f = F(len(self.fns))
        f.v7 = self.v7
        for k, v in kw.items():
            setattr(f, k, v)
        if not f.names:
            f.names = [self.namer.any()]
        self.fns.append(f)
        return f

    # ------------------------------------------------------------ machine code
    def size_of(self, it):
        k = it[0]
        if k in ("raw", "data"):
            return len(it[1])
        if k == "bl":
            return 4
        if k in ("b", "lb"):
            return {"t1": 2, "t2": 2, "t3": 4, "t4": 4, "cbz": 2, "bl": 4}[it[2]]
        if k == "label":
            return 0
        if k == "align":
            return 0
        raise ValueError(k)

    def seq(self, section):
        return [i for i in (self.order or range(len(self.fns))) if self.fns[i].section == section]

    def section_names(self):
        names = []
        for f in self.fns:
            if f.section not in names:
                names.append(f.section)
        if ".text" not in names:
            names.append(".text")
        return sorted(names, key=lambda n: self.section_base[n])

    def layout(self):
        """assign addresses"""
        self.section_base[".text"] = self.base
        self.addr = {}
        self.bytesize = {}
        self.end = {}
        prev = None
        for name in self.section_names():
            if name in self.adjacent and prev and self.end[prev] > self.section_base[prev]:
                self.section_base[name] = (self.end[prev] + 1) & ~1
            assert prev is None or self.section_base[name] >= self.end[prev]
            prev = name
            addr = self.section_base[name]
            for i in self.seq(name):
                f = self.fns[i]
                if not self.thumb:
                    self.addr[i] = addr
                    n = 16 if not f.code else len(f.code[0][1])
                    self.bytesize[i] = n
                    addr += n
                    continue
                addr += f.gap if f.gap is not None else self.gap()
                if addr % 4:
                    addr += 4 - addr % 4 if (f.code and any(c[0] == "data" for c in f.code)) or f.align4 else 0
                self.addr[i] = addr
                n = 0
                for it in f.code:
                    if it[0] == "align" and (addr + n) % 4:
                        n += 2
                    n += self.size_of(it)
                self.bytesize[i] = n
                addr += n
            self.end[name] = addr

    def encode(self):
        """-> ({section: bytes}, {section: [(tag, addr)]})"""
        out, alltags = {}, {}
        for name in self.section_names():
            if name != ABS:
                out[name], alltags[name] = self.encode_section(name)
        return out, alltags

    def encode_section(self, name):
        text = bytearray()
        tags = []
        base = self.section_base[name]
        rng = random.Random(base)
        if not self.thumb:
            for i in self.seq(name):
                f = self.fns[i]
                text += b"".join(x[1] for x in f.code) if f.code else b"\0" * 16
            if self.arch == "x86_64" or rng.random() < 0.3:
                return bytes(text), []
            # the mapping symbols of ARM and RISC-V
            t = "$a" if self.arch == "arm" else "$x"
            for i in self.seq(name):
                if rng.random() < 0.8:
                    tags.append((t, self.addr[i]))
                if rng.random() < 0.2:
                    tags += [("$d", self.addr[i] + 4), (t, self.addr[i] + 8)]
            return bytes(text), tags
        mode = None
        for i in self.seq(name):
            f = self.fns[i]
            a0 = self.addr[i]
            if a0 - base - len(text) > 64:
                text += bytes(a0 - base - len(text))
            while base + len(text) < a0:
                text += self.padding if a0 - base - len(text) >= 2 else b"\0"
            labels = {}
            a = a0
            for it in f.code:
                if it[0] == "align" and a % 4:
                    a += 2
                if it[0] == "label":
                    labels[it[1]] = a
                a += self.size_of(it)
            a = a0
            if not (f.no_tag and mode == "$t"):
                mode = None
            for it in f.code:
                k = it[0]
                if k == "label":
                    continue
                if k == "align":
                    if a % 4:
                        if mode != "$t":
                            tags.append(("$t", a))
                            mode = "$t"
                        text += A.NOP
                        a += 2
                    continue
                want = "$d" if k == "data" else "$t"
                if want != mode or (self.dtags and rng.random() < 0.3):
                    tags.append((want, a))
                    mode = want
                if k in ("raw", "data"):
                    b = it[1]
                elif k == "bl":
                    b = A.bl(self.addr[it[1]] - (a + 4))
                elif k == "b":
                    b = self.branch(it[2], it[3] if len(it) > 3 else 0, self.addr[it[1]] - (a + 4))
                elif k == "lb":
                    b = self.branch(it[2], it[3] if len(it) > 3 else 0, labels[it[1]] - (a + 4))
                text += b
                a += len(b)
        return bytes(text), tags

    @staticmethod
    def branch(form, cond, off):
        if form == "t1":
            return A.bcc_t1(cond, off)
        if form == "t2":
            return A.b_t2(off)
        if form == "t3":
            return A.bcc_w(cond, off)
        if form == "t4":
            return A.bw(off)
        if form == "bl":  # a long branch on cores without B.W
            return A.bl(off)
        if form == "cbz":
            return A.cbz(cond & 7, off, cond >> 3 & 1)
        raise ValueError(form)

    # ------------------------------------------------------------------- files
    def ir_body(self, f):
        rng = self.rng
        out = []
        for s in f.stmts:
            out += IR.noise(rng, rng.choice([0, 0, 1, 2]))
            k = s[0]
            if k == "call":
                g = s[1]
                nm = (g.names[s[2]] if len(s) > 2 and s[2] is not None else g.irname).sym
                form = s[3] if len(s) > 3 else None
                out.append(IR.call(rng, g.sig[0], nm, g.sig[1], form=form))
            elif k == "icall":
                ret, params = s[1]
                if len(s) > 2 and s[2] and "%" in s[2]:
                    out.append(s[2])
                    continue
                out.append(IR.call(rng, ret, None, params, form=s[2] if len(s) > 2 else None))
            elif k == "undef":
                out.append(IR.call(rng, s[2][0], s[1].sym, s[2][1]))
            elif k in ("line", "form"):
                out.append(s[1])
            elif k == "asm":
                out.append(IR.asm(rng, s[1]))
            elif k == "intr":
                out.append(IR.call(rng, "void", s[1], ("i8*", "i8*", "i32", "i1") if self.typed else ("ptr", "ptr", "i32", "i1")))
            else:
                raise ValueError(k)
        out += IR.noise(rng, rng.choice([0, 0, 1]))
        return out

    def ir(self):
        IR.TYPED = self.typed
        app, cb = [], []
        for f in self.fns + self.gced:
            dst = app if f.module == "app" else cb
            if f.kind == "define":
                dst.append(IR.define(self.rng, f.irname.sym, f.sig[0], f.sig[1], self.ir_body(f)))
            elif f.kind == "declare":
                dst.append(IR.declare(self.rng, f.irname.sym, f.sig[0], f.sig[1], f.variadic))
            for j, (kind, sig) in f.alias_sigs.items():
                n = f.names[j].sym
                if kind == "define":
                    dst.append(IR.define(self.rng, n, sig[0], sig[1], []))
                else:
                    app.append(IR.declare(self.rng, n, sig[0], sig[1]))
            if f.ir_alias:
                for j, n in enumerate(f.names):
                    if j != f.ir_name and j not in f.alias_sigs:
                        dst.append(f"@{IR.quote(n.sym)} = {self.rng.choice(['', 'unnamed_addr ', 'weak dso_local unnamed_addr '])}"
                                   f"alias {(t := f.sig[0] + ' (' + ', '.join(f.sig[1]) + ')')}, {t + '*' if self.typed else 'ptr'} @{IR.quote(f.irname.sym)}")
        for n in self.undefined:
            if n.sym not in getattr(self, "undeclared", ()):
                app.append(IR.declare(self.rng, n.sym, "void", ()))
        intr = sorted({s[1] for f in self.fns for s in f.stmts if s[0] == "intr"})
        for n in intr:
            app.append(f"declare void @{n}(ptr noalias nocapture writeonly, ptr noalias nocapture readonly, i32, i1 immarg) #3")
        app += self.extra_items
        cb += self.cb_items
        self.rng.shuffle(app)
        self.rng.shuffle(cb)
        return IR.module(self.rng, app), IR.module(self.rng, cb, rich=False)

    def elf(self):
        e = E.Elf(self.arch, 2, self.base)
        text, tags = self.encode()
        e.section(".vector_table", b"\0" * 8, 1, 2,
                  addr=self.base - 0x100 if self.base >= 0x100 else 0x30000000, align=4)
        shndx = {ABS: 0xFFF1}
        for name in self.section_names():
            if name == ABS:
                continue
            shndx[name] = e.section(name, text[name], 1, random.Random(self.base + len(self.fns)).choice([7, 3]) if "data" in name else 6,
                                    addr=self.section_base[name], align=4)
        tx = shndx[".text"]
        end = self.end[".text"]
        if self.data_after_text is not None:
            ro = e.section(".rodata", self.data_after_text, 1, 2, addr=(end + 15) & ~15, align=4)
            if self.thumb:
                e.symbol("$d.9000", (end + 15) & ~15, 0, "notype", "local", ro)
        for (nm, addr, data, flags, tgs) in self.extra_sections:
            si = e.section(nm, data, 1, flags, addr=addr, align=4)
            for t, a in tgs:
                e.symbol(t, a, 0, "notype", "local", si)
        e.section(".bss", b"", 8, 3, addr=0x20000000, align=4, nobits=64)
        e.section(".debug_str", b"call void @foo()\0", 1, 0x30)
        e.section(".ARM.attributes" if self.arch == "arm" else ".comment", b"A\x11\0\0\0aeabi\0\x01\x07\0\0\0\x08\x01", 1, 0)
        syms = []
        k = 0
        for name, tl in tags.items():
            for t, a in tl:
                syms.append((t + (f".{k + self.tag_suffix}" if self.tag_suffix is not None else ""), a, 0, "notype", "local", shndx[name]))
                k += 1
        tb = 1 if self.thumb else 0
        for f in self.fns:
            size = self.bytesize[f.i] if f.size is None else f.size
            for j, n in enumerate(f.names):
                bind = self.binds.get((f.i, j)) or f.bind or ("local" if f.no_ir else None) or ("local" if n.dehashed and self.rng.random() < 0.7 else self.rng.choice(["global", "global", "weak"]))
                self.binds[f.i, j] = bind
                syms.append((n.sym, self.addr[f.i] + tb, size, "func", bind, shndx[f.section]))
            for n in f.notypes:
                syms.append((n, self.addr[f.i] + self.rng.choice([0, tb]), 0, "notype", "global", shndx[f.section]))
        for n in self.undefined:
            syms.append((n.sym + getattr(self, "versions", {}).get(n.sym, ""), 0, 0, "func", "global", 0))
        syms.append(("app.7rcbfp3g-cgu.0", 0, 0, "file", "local", 0xFFF1))
        syms.append(("__sbss", 0x20000000, 0, "notype", "global", 0xFFF1))
        syms.append(("_stack_start", 0x20010000, 0, "notype", "global", 0xFFF1))
        syms.append(("alloc_0123456789abcdef", 0x20000010, 7, "object", "local", tx))
        syms += [tuple(s) for s in self.extra_syms]
        if getattr(self, "shuffle_syms", True):
            # keep aliases of one address in generation order, shuffle the rest
            groups = {}
            for s in syms:
                groups.setdefault((s[1] & ~1) if s[3] in ("func",) else (id(s),), []).append(s)
            gl = list(groups.values())
            self.rng.shuffle(gl)
            syms = [s for g in gl for s in g]
        for s in syms:
            e.symbol(*s)
        return e.build()

    def stack_objects(self):
        """-> (app .o, [(member name, object bytes)])"""
        app, cb = [], []
        for f in self.fns + self.gced:
            if f.stack is None:
                continue
            syms = [f.irname.sym]
            if len(f.names) > 1 and f.kind == "define" and self.rng.random() < 0.6:
                # the object file defines the aliases as well
                syms = [n.sym for n in f.names]
                self.rng.shuffle(syms)
            ent = (syms, f.stack)
            if f.stack_src in ("app", "both"):
                app.append(ent)
            if f.stack_src in ("cb",):
                cb.append(ent)
            if f.stack_src == "both":
                cb.append(([f.irname.sym], f.cb_stack))
        app += getattr(self, "extra_app_stack", [])
        cb += getattr(self, "extra_cb_stack", [])
        self.rng.shuffle(app)
        self.rng.shuffle(cb)
        a = E.stack_sizes_object(self.arch, app, self.thumb,
                                 one_section=self.arch == "arm" and self.rng.random() < 0.3,
                                 extra=["memcpy", "__aeabi_memcpy"])
        members = [("lib.rmeta", b"rust\0\0\0\x08junk")]
        n = getattr(self, "nmembers", 0) or self.rng.randint(1, 3)
        for k in range(n):
            part = cb[k::n]
            members.append((f"compiler_builtins-4ab0cf07c8aa3e4e.compiler_builtins.c5336989-cgu.{k}.rcgu.o"
                            if self.rng.random() < 0.7 else f"compiler_builtins-{k}.o",
                            E.stack_sizes_object(self.arch, part, self.thumb)))
        members += getattr(self, "extra_members", [])
        return a, members

    def files(self):
        self.layout()
        ll, cbll = self.ir()
        obj, members = self.stack_objects()
        return dict(elf=self.elf(), ll=ll, obj=obj, cb_ll=cbll, rlib=E.ar(members))

    # ------------------------------------------------------------- ground truth
    def live(self, sym):
        for f in self.fns:
            for n in f.names:
                if n.sym == sym:
                    return f
            if sym in f.notypes:
                return f
        return None

    def expected(self):
        x = Expected()
        amb = {}
        for f in self.fns:
            n = self.canonical(f)
            if n.dehashed:
                amb[n.dehashed] = amb.get(n.dehashed, 0) + 1
        called = {s[1].sym for f in self.fns if f.kind == "define" for s in f.stmts if s[0] == "undef"}
        for n in self.undefined:
            if n.dehashed and n.sym in called:
                amb[n.dehashed] = amb.get(n.dehashed, 0) + 1
        untyped = any(f.kind == "none" and not f.outlined and not f.alias_sigs for f in self.fns)
        x.untyped = untyped
        for f in self.fns:
            n = self.canonical(f)
            label = n.dehashed if n.dehashed and amb[n.dehashed] == 1 else n.dem
            x.nodes[f.i] = (label, f.local)
            if any(u.dehashed and u.dehashed == n.dehashed for u in self.undefined if u.sym not in called):
                x.free_label.add(f.i)  # like a symbol that the program refers to but never calls
            x.direct[f.i] = set()
            x.sigs[f.i] = set()
            if self.thumb:
                x.direct[f.i] |= {g.i for g in f.mcalls}
        for f in self.fns:
            if f.kind != "define":
                if self.thumb and f.mindirect:
                    x.q.add(f.i)
                continue
            if f.asm_branch:
                x.q.add(f.i)
            for s in f.stmts:
                if s[0] == "call":
                    x.direct[f.i].add(s[1].i)
                elif s[0] == "form":
                    x.direct[f.i].add(s[2].i)
                elif s[0] == "icall":
                    x.sigs[f.i].add(s[1])
                elif s[0] == "intr":
                    fam = next((v for k, v in FAMILIES.items() if s[1].startswith(k)), ())
                    if self.thumb:
                        fam = ()
                    for name in fam:
                        g = self.live_func(name)
                        if g is not None:
                            x.direct[f.i].add(g.i)
                        elif any(n.sym == name for n in self.undefined):
                            x.undef.setdefault(f.i, set()).add(name)
                elif s[0] == "undef":
                    short = s[1].dehashed and amb[s[1].dehashed] == 1
                    x.undef.setdefault(f.i, set()).add(s[1].dehashed if short else s[1].dem)
                    if short:
                        x.undef_alt[s[1].dehashed] = s[1].dem
        for f in self.fns:
            for s in x.sigs[f.i]:
                x.ind.setdefault(f.i, {})[s] = {g.i for g in self.fns if s in self.sigs_of(g)}
        return x

    def live_func(self, sym):
        for f in self.fns:
            if any(n.sym == sym for n in f.names):
                return f
        return None

    @staticmethod
    def sigs_of(g):
        s = {sig for _, sig in g.alias_sigs.values()}
        if g.kind != "none":
            s.add(g.sig)
        return s

    def canonical(self, f):
        if len(f.names) > 1 or f.notypes:
            # with a stack-size record: the first name that's `define`-d in the
            # LLVM-IR, or else the name that has the record.  Otherwise the first
            if f.stack is not None:
                for j, n in enumerate(f.names):
                    if f.kind == "define" and j == f.ir_name or f.alias_sigs.get(j, ("",))[0] == "define":
                        return n
                return f.irname
        return f.names[0]


class Expected:
    def __init__(self):
        self.nodes = {}     # key -> (label, local)
        self.direct = {}    # key -> {key}
        self.undef = {}     # key -> {undefined symbol label}
        self.undef_alt = {}
        self.sigs = {}
        self.ind = {}       # key -> {sig: {key}}
        self.q = set()      # keys with a direct edge to an unknown function
        self.untyped = False
        self.free_label = set()


# --------------------------------------------------------------- code generator
def frame(rng, v7, kinds=None, maxsub=4096):
    """a prologue: -> (items, bytes of stack, epilogue items without return, lr_saved)"""
    regs = sorted(rng.sample(range(4, 8), rng.randint(0, 4)))
    lr = rng.random() < 0.8
    if not regs and not lr:
        regs = [4]
    items, total, epi = [], 0, []
    kinds = kinds or (["push"] if not v7 else ["push", "push", "stmdb", "str"])
    k = rng.choice(kinds)
    if k == "push":
        items.append(A.push(regs, lr))
        total += 4 * (len(regs) + lr)
        epi.insert(0, A.pop(regs, False) if regs else b"")
    elif k == "stmdb":
        regs = sorted(rng.sample(range(4, 12), rng.randint(2, 8)))
        lr = True
        items.append(A.stmdb_sp(regs, True))
        total += 4 * (len(regs) + 1)
    elif k == "str":
        items.append(rng.choice([A.str_pre_sp, A.str_pre_sp, A.str_post_sp])(rng.randint(4, 11), 4 * rng.randint(1, 63)))
        total += items[-1][0] if False else (int.from_bytes(items[-1][2:4], "little") & 0xFF)
    elif k == "subw3":
        n = 4 * rng.randint(1, 1023)
        items.append(A.subw_sp_t3(n))
        total += n
    elif k == "strd":
        n = 8 * rng.randint(1, 31)
        items.append(rng.choice([A.strd_pre_sp, A.strd_pre_sp, A.strd_post_sp])(4, 5, n))
        total += n
    # locals
    r = rng.random()
    if r < 0.35:
        n = 4 * rng.randint(1, 127)
        items.append(A.sub_sp_imm7(n))
        total += n
    elif r < 0.6 and v7:
        while True:
            n = 4 * rng.choice([rng.randint(1, 255), rng.randint(128, maxsub // 4), rng.choice([256, 260, 512, 1024, 4096, 0x4000, 0x10000])])
            enc = A.encode_modified_imm(n)
            if enc:
                break
        items.append(A.subw_sp_t2(rng.choice(enc)))
        total += n
    if v7 and rng.random() < 0.15:
        if rng.random() < 0.5:
            c = rng.randint(1, 8)
            items.append(A.vpush_d(rng.choice([0, 8]), c))
            total += 8 * c
        else:
            c = rng.randint(1, 16)
            items.append(A.vpush_s(rng.randint(0, 31 - c), c))
            total += 4 * c
    if rng.random() < 0.2:
        # hand-written assembly: another push, in any order
        more = sorted(rng.sample(range(8), rng.randint(1, 6)))
        items.append(A.push(more, False))
        total += 4 * len(more)
        rng.shuffle(items)
    return items, total, lr


def hostile_words(rng, n):
    """data that looks like instructions when decoded"""
    out = b""
    for _ in range(n):
        out += rng.choice([
            lambda: A.bl(rng.randrange(-0x1000, 0x1000) * 2), lambda: A.bw(rng.randrange(-0x1000, 0x1000) * 2),
            lambda: A.push([4, 5], True) + A.sub_sp_imm7(64), lambda: A.blx(3) + A.bx(4),
            lambda: A.subw_sp_t2(100), lambda: A.bcc_w(1, rng.randrange(-0x400, 0x400) * 2),
            lambda: A.b_t2(-rng.randrange(1, 900) * 2) + A.NOP, lambda: rng.getrandbits(32).to_bytes(4, "little"),
            lambda: b"\0\0\0\0", lambda: b"\xff\xff\xff\xff", lambda: A.hw(0xE800, 0xF000)])()
    return out


def pool_size(rng, n):
    """some tables are large"""
    return rng.randint(1, n) if rng.random() < 0.988 else rng.choice([130, 260, 520, 1030, 2100, 8300, 17000, 17000])


def gen_thumb_code(rng, prog, f, calls, tails=(), opts=None):
    """calls: [F] called with BL; tails: [F] reached with a tail branch.
    Fills f.code, f.mcalls; returns (stack bytes, gives_up, modifies_sp) where
    gives_up says the straight-line stack analysis cannot be exact."""
    o = dict(frame=None, fill=3, pool=0.3, local=0.3, cbz=0.1, loop=0.02, tail_forms=None, forms=None)
    o.update(opts or {})
    v7 = prog.v7
    it = f.code
    total = 0
    use_frame = o["frame"] if o["frame"] is not None else rng.random() < 0.7
    if use_frame:
        items, total, _ = frame(rng, v7, o.get("frame_kinds"))
        for k, b in enumerate(items):
            it.append(("raw", b))
            if rng.random() < 0.2:
                it.append(("raw", filler(rng, v7)))
    gives_up = False
    if rng.random() < o["loop"] and it:
        # back to the first instruction
        it.insert(0, ("label", "L0"))
        it += [("raw", filler(rng, v7)) for _ in range(rng.randint(0, 2))]
        it.append(("lb", "L0", rng.choice(["t1", "t2"] + (["t3", "t4"] if v7 else [])), rng.randrange(14)))
        it.append(("raw", filler(rng, v7)))
        gives_up = True
    if o.get("realign"):
        # an over-aligned frame
        rd, n = (rng.choice([4, 4, 5, 6, 9]) if v7 else rng.choice([4, 4, 5, 6])), rng.randint(3, 12)
        it.append(("raw", A.realign(rd, n, v7)))
        f.pad = (1 << n) - 8
        gives_up = use_frame = True
    if o.get("sp_unknown"):
        rm = rng.randint(0, 7)
        it.insert(rng.randint(0, len(it)), ("raw", rng.choice(
            [A.add_sp_reg(rm), A.mov_sp_reg(rm)]
            + ([A.hw(0xEBAD, 0x0D00 | rm), A.hw(0xEB0D, 0x0D00 | rm), A.hw(0xF8D0 | rm, 0xD000)] if v7 else []))))
        gives_up = use_frame = True
    body = [("bl", g.i) for g in calls]
    for g, form, cond in o.get("condtails", ()):  # conditional tail branches
        body.append(("b", g.i, form, cond))
    rng.shuffle(body)
    nlab = 0
    for b in body + [None]:
        for _ in range(rng.randint(0, o["fill"])):
            it.append(("raw", filler(rng, v7)))
        r = rng.random()
        if r < o["local"]:
            # a local branch, forwards or backwards
            nlab += 1
            lab = f"L{nlab}"
            form = rng.choice(["t1", "t2"] + (["t3", "t4"] if v7 else ["bl"]))
            cond = rng.randrange(14)
            gap = [("raw", filler(rng, v7)) for _ in range(rng.randint(1, 4))]
            if rng.random() < 0.5:
                it.append(("lb", lab, form, cond))
                it += gap + [("label", lab)]
            else:
                if form == "bl" and not it:  # a call of itself otherwise
                    it.append(("raw", filler(rng, v7)))
                it += [("label", lab)] + gap
                it.append(("lb", lab, form, cond))
            # a target that is inside the function makes the analysis give up
            gives_up = True
            # keep the target strictly inside the function
            it.append(("raw", filler(rng, v7)))
        elif v7 and r < o["local"] + o["cbz"]:
            nlab += 1
            lab = f"L{nlab}"
            it.append(("lb", lab, "cbz", rng.randrange(16)))
            if b is not None and b[0] == "bl" and rng.random() < 0.5:
                it.append(b)
                b = None
            else:
                it.append(("raw", A.NOP))
            it += [("raw", filler(rng, v7)) for _ in range(rng.randint(1, 3))] + [("label", lab)]
            it.append(("raw", filler(rng, v7)))
        if b is not None:
            it.append(b)
        if rng.random() < o["pool"] * 0.3:
            # inline data jumped over (jump tables and the like)
            it.append(("raw", filler(rng, v7)))
            if rng.random() < 0.5:
                it.append(("align",))
                it.append(("data", hostile_words(rng, pool_size(rng, 4))))
            else:
                # the table of TBB or TBH: half-words
                d = hostile_words(rng, 4)
                n = 2 * rng.randint(1, 7)
                it.append(("data", d[:n] if rng.random() < 0.5 else d[-n:]))
            it.append(("raw", filler(rng, v7)))
    if tails:
        g = tails[0]
        it.append(("b", g.i, (o["tail_forms"] or {}).get(g.i, "t4")))
    else:
        it.append(("raw", rng.choice([A.BX_LR, A.pop([4], True), A.udf(254), A.b_t2(-4)])))
        if it[-1][1] == A.b_t2(-4):
            gives_up = True
    if rng.random() < o["pool"]:
        d = hostile_words(rng, pool_size(rng, 6))
        if rng.random() < 0.8:
            it.append(("align",))
        else:
            d = d[2:] + d[:2] * rng.randint(0, 1)
        it.append(("data", d))
    f.mcalls |= set(calls) | set(tails) | {g for g, _, _ in o.get("condtails", ())}
    return total, gives_up, use_frame
