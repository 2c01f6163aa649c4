"""An interpreter for the Thumb code of real programs. It executes the text that
the disassembler prints, so it shares no decoding with the code under test."""
import math
import re
import struct
import subprocess


class Unsupported(Exception):
    pass


class Fault(Exception):
    pass


class Stop(Exception):
    pass


M32 = 0xFFFFFFFF
CONDS = "eq ne hs cs lo cc mi pl vs vc hi ls ge lt gt le al".split()
REG = {f"r{i}": i for i in range(13)}
REG.update(sp=13, lr=14, pc=15, ip=12, fp=11, sl=10, sb=9)

S_OPS = "mov mvn add adc sub sbc rsb and orr eor bic orn lsl lsr asr ror rrx mul".split()
OPS = S_OPS + ("cmp cmn tst teq movw movt adr addw subw mla mls umull smull umlal smlal umaal udiv sdiv clz rbit rev rev16 revsh "
               "uxtb uxth sxtb sxth uxtab uxtah sxtab sxtah ubfx sbfx bfi bfc ldr ldrb ldrh ldrsb ldrsh ldrd str strb strh strd "
               "ldm ldmdb stm stmdb push pop ldrex ldrexb ldrexh strex strexb strexh clrex b bl blx bx nop dmb dsb isb "
               "trap udf bkpt usat ssat smulbb smulbt smultb smultt smlabb smlabt smlatb smlatt smmul smmla smull smmulr pkhbt pkhtb smlal "
               "smlalbb uadd8 usub8 sel uqsub8 uqadd8 qadd qsub mrs msr cpsid cpsie yield wfi wfe").split()
MN = {}
for o in OPS:
    for s in (("", "s") if o in S_OPS else ("",)):
        for c in [""] + CONDS:
            MN.setdefault(o + s + c, []).append((o, bool(s), c or "al"))
# exact (unconditional) readings win: "bls" is b+ls (bl takes no s), "movs" is mov+s, "teq" is teq
for k, v in list(MN.items()):
    v.sort(key=lambda x: (x[2] != "al", -len(x[0])))
    MN[k] = v[0]
MN["bls"] = ("b", False, "ls")
MN["blt"] = ("b", False, "lt")
MN["ble"] = ("b", False, "le")
MN["blo"] = ("b", False, "lo")
MN["bleq"] = ("bl", False, "eq")
MN["svc"] = ("svc", False, "al")


def split_ops(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "[{":
            depth += 1
        if ch in "]}":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def imm(t):
    t = t.lstrip("#")
    return int(t, 0)


def reglist(t, pref="r"):
    t = t.strip("{}")
    out = []
    for x in split_ops(t):
        if "-" in x:
            a, b = x.split("-")
            if a[0] in "sd" and a[1:].isdigit():
                out += [(a[0], i) for i in range(int(a[1:]), int(b[1:]) + 1)]
            else:
                out += list(range(REG[a], REG[b] + 1))
        elif x[0] in "sd" and x[1:].isdigit():
            out.append((x[0], int(x[1:])))
        else:
            out.append(REG[x])
    return out


def disassemble(path, mattr=None):
    """-> {address: (size, mnemonic, operand text)} of all instructions"""
    cmd = ["llvm-objdump-18", "-d", path] + ([f"--mattr={mattr}"] if mattr else [])
    txt = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE).stdout.decode("utf-8", "replace")
    out = {}
    for l in txt.split("\n"):
        m = re.match(r"\s*([0-9a-f]+): ([0-9a-f ]+?)\s*\t(\S+)(?:\t(.*))?$", l)
        if not m:
            continue
        if m.group(3).startswith((".", "<")):
            continue
        size = len(m.group(2).replace(" ", "")) // 2
        ops = (m.group(4) or "").split(" @ ")[0].split("\t@")[0].strip()
        ops = re.sub(r"\s*@.*$", "", ops)
        ops = re.sub(r"<.*>$", "", ops).strip()
        out[int(m.group(1), 16)] = (size, m.group(3), ops)
    return out


class Emu:
    """memory and registers of one run"""

    def __init__(self, image, code, rng, stack_top=0x30000000, inputs=0x40000000):
        self.image = image          # list of (addr, bytes, writable)
        self.code = code            # disassembly
        self.rng = rng
        self.R = [0] * 16
        self.N = self.Z = self.C = self.V = 0
        self.S = [0] * 64           # 32-bit halves of the FP registers
        self.pages = {}
        self.ro = set()
        self.inputs = inputs
        self.stack_top = stack_top
        self.reserve = None
        for a, b, w in image:
            self._load(a, b)
        for a, b, w in image:
            if not w:
                for p in range(a >> 12, (a + max(len(b), 1) - 1 >> 12) + 1):
                    self.ro.add(p)
        for a, b, w in image:
            if w:
                for p in range(a >> 12, (a + max(len(b), 1) - 1 >> 12) + 1):
                    self.ro.discard(p)
        self.R[13] = stack_top
        self.compiled = {}
        self.steps = 0
        self.input_reads = 0
        self.nread = None

    def _load(self, a, b):
        for i in range(0, len(b)):
            p = a + i >> 12
            pg = self.pages.get(p)
            if pg is None:
                pg = self.pages[p] = bytearray(4096)
            pg[(a + i) & 4095] = b[i]

    def rd(self, a, n):
        a &= M32
        if a >> 12 == self.inputs >> 12:
            self.input_reads += 1
            v = self.rng(a, n)
            return v & ((1 << 8 * n) - 1)
        if a & 4095 <= 4096 - n:
            pg = self.pages.get(a >> 12)
            if pg is None:
                if a < 0x1000:
                    raise Fault(f"read of {a:#x}")
                pg = self.pages[a >> 12] = bytearray(4096)
            o = a & 4095
            return int.from_bytes(pg[o:o + n], "little")
        return sum(self.rd(a + i, 1) << 8 * i for i in range(n))

    def wr(self, a, v, n):
        a &= M32
        if a >> 12 == self.inputs >> 12:
            return
        if a & 4095 <= 4096 - n:
            p = a >> 12
            if p in self.ro or a < 0x1000:
                raise Fault(f"write to {a:#x}")
            pg = self.pages.get(p)
            if pg is None:
                pg = self.pages[p] = bytearray(4096)
            o = a & 4095
            pg[o:o + n] = (v & ((1 << 8 * n) - 1)).to_bytes(n, "little")
            return
        for i in range(n):
            self.wr(a + i, v >> 8 * i, 1)

    # ------------------------------------------------------------- helpers
    def cond(self, c):
        if c == "eq": return self.Z
        if c == "ne": return not self.Z
        if c in ("hs", "cs"): return self.C
        if c in ("lo", "cc"): return not self.C
        if c == "mi": return self.N
        if c == "pl": return not self.N
        if c == "vs": return self.V
        if c == "vc": return not self.V
        if c == "hi": return self.C and not self.Z
        if c == "ls": return not self.C or self.Z
        if c == "ge": return self.N == self.V
        if c == "lt": return self.N != self.V
        if c == "gt": return not self.Z and self.N == self.V
        if c == "le": return self.Z or self.N != self.V
        return True

    def nz(self, v):
        self.N = v >> 31
        self.Z = int(v == 0)

    def adc(self, a, b, c, s):
        r = a + b + c
        v = r & M32
        if s:
            self.nz(v)
            self.C = int(r > M32)
            self.V = int((~(a ^ b) & (a ^ v)) >> 31 & 1)
        return v

    def shift(self, kind, v, n):
        """-> (value, carry)"""
        if kind == "rrx":
            return (self.C << 31 | v >> 1), v & 1
        if n == 0:
            return v, self.C
        if kind == "lsl":
            return (v << n & M32, v >> (32 - n) & 1) if n <= 32 else (0, 0)
        if kind == "lsr":
            return (v >> n, v >> (n - 1) & 1) if n <= 32 else (0, 0)
        if kind == "asr":
            n = min(n, 32)
            sv = v - (1 << 32) if v >> 31 else v
            return sv >> n & M32, (sv >> (n - 1)) & 1
        n %= 32
        r = (v >> n | v << (32 - n)) & M32 if n else v
        return r, r >> 31

    # ---------------------------------------------------------- compilation
    def compile(self, pc):
        """-> closure() returning None (next) or the branch target"""
        size, mn, ops = self.code[pc]
        f = self._compile(pc, size, mn, ops)
        self.compiled[pc] = (f, size)
        return f, size

    def _compile(self, pc, size, mn, ops):
        R = self.R
        base = mn
        for suf in (".w", ".n"):
            if base.endswith(suf):
                base = base[:-2]
        o = split_ops(ops)
        if base.startswith("it") and re.fullmatch(r"it[te]{0,3}", base):
            return lambda: None
        if base.startswith("v"):
            return self._vfp(pc, base, o)
        if base in ("cbz", "cbnz"):
            rn, t = REG[o[0]], imm(o[1])
            if base == "cbz":
                return lambda: t if R[rn] == 0 else None
            return lambda: t if R[rn] != 0 else None
        if base in ("tbb", "tbh"):
            m = re.match(r"\[(\w+), (\w+)(?:, lsl #(?:0x)?1)?\]", o[0])
            rn, rm = REG[m.group(1)], REG[m.group(2)]
            sc = 2 if base == "tbh" else 1

            def tb():
                b = (pc + 4) if rn == 15 else R[rn]
                return pc + 4 + 2 * self.rd(b + sc * R[rm], sc)
            return tb
        if base not in MN:
            raise Unsupported(mn)
        op, s, c = MN[base]
        f = self._op(pc, size, op, s, o)
        if c != "al":
            g = f
            cond = self.cond
            return lambda: g() if cond(c) else None
        return f

    def rget(self, name, pc):
        """-> function returning the value of a register"""
        i = REG[name]
        if i == 15:
            v = (pc + 4) & M32
            return lambda: v
        R = self.R
        return lambda: R[i]

    def op2(self, toks, pc):
        """flexible second operand -> function returning (value, carry)"""
        t = toks[0]
        if t.startswith("#"):
            v = imm(t) & M32
            # a rotated modified immediate sets the carry
            rot = v > 0xFF and not _repl(v)
            return lambda: (v, v >> 31 if rot else self.C)
        g = self.rget(t, pc)
        if len(toks) == 1:
            return lambda: (g(), self.C)
        if toks[1] == "rrx":
            return lambda: self.shift("rrx", g(), 0)
        k, a = toks[1].split()
        if a.startswith("#"):
            n = imm(a)
            return lambda: self.shift(k, g(), n)
        h = self.rget(a, pc)
        return lambda: self.shift(k, g(), h() & 255)

    def setpc(self, v):
        return v & ~1

    def _op(self, pc, size, op, s, o):
        R = self.R
        A = self.adc
        if op in ("nop", "dmb", "dsb", "isb", "yield", "wfi", "wfe", "cpsid", "cpsie", "clrex", "msr"):
            if op == "msr" and "psp" not in o[0].lower() and "msp" in o[0].lower():
                raise Unsupported("msr msp")
            return lambda: None
        if op in ("trap", "udf", "bkpt", "svc"):
            def stop():
                raise Stop(op)
            return stop
        if op == "mrs":
            rd = REG[o[0]]

            def mrs():
                R[rd] = 0
            return mrs
        if op in ("mov", "mvn", "movw"):
            rd = REG[o[0]]
            src = self.op2(o[1:], pc)
            inv = op == "mvn"

            def mov():
                v, cy = src()
                if inv:
                    v ^= M32
                if s:
                    self.nz(v)
                    self.C = cy
                if rd == 15:
                    return v & ~1
                R[rd] = v
            return mov
        if op == "movt":
            rd, v = REG[o[0]], imm(o[1])

            def movt():
                R[rd] = R[rd] & 0xFFFF | v << 16
            return movt
        if op == "adr":
            rd = REG[o[0]]
            v = ((pc + 4) & ~3) + imm(o[1])

            def adr():
                R[rd] = v & M32
            return adr
        if op in ("add", "adc", "sub", "sbc", "rsb", "and", "orr", "eor", "bic", "orn", "addw", "subw"):
            rd = REG[o[0]]
            if len(o) == 2 or (len(o) == 3 and (o[2] == "rrx" or " " in o[2])):
                o = [o[0]] + o
            rn = self.rget(o[1], pc)
            src = self.op2(o[2:], pc)
            op = {"addw": "add", "subw": "sub"}.get(op, op)
            if op in ("add", "sub") and REG[o[1]] == 15 and o[2].startswith("#"):
                base = (pc + 4) & ~3
                rn = lambda: base

            def arith():
                v, cy = src()
                a = rn()
                if op == "add":
                    r = A(a, v, 0, s)
                elif op == "sub":
                    r = A(a, v ^ M32, 1, s)
                elif op == "adc":
                    r = A(a, v, self.C, s)
                elif op == "sbc":
                    r = A(a, v ^ M32, self.C, s)
                elif op == "rsb":
                    r = A(a ^ M32, v, 1, s)
                else:
                    r = a & v if op == "and" else a | v if op == "orr" else a ^ v if op == "eor" else a & ~v & M32 if op == "bic" else a | v ^ M32
                    if s:
                        self.nz(r)
                        self.C = cy
                if rd == 15:
                    return r & ~1
                R[rd] = r
            return arith
        if op in ("lsl", "lsr", "asr", "ror", "rrx"):
            rd = REG[o[0]]
            if op == "rrx":
                g = self.rget(o[1], pc)

                def rrx():
                    v, cy = self.shift("rrx", g(), 0)
                    R[rd] = v
                    if s:
                        self.nz(v)
                        self.C = cy
                return rrx
            if len(o) == 2:
                o = [o[0]] + o
            g = self.rget(o[1], pc)
            if o[2].startswith("#"):
                n = imm(o[2])
                h = lambda: n
            else:
                k = self.rget(o[2], pc)
                h = lambda: k() & 255

            def sh():
                v, cy = self.shift(op, g(), h())
                R[rd] = v
                if s:
                    self.nz(v)
                    self.C = cy
            return sh
        if op in ("cmp", "cmn", "tst", "teq"):
            g = self.rget(o[0], pc)
            src = self.op2(o[1:], pc)

            def cmp():
                v, cy = src()
                a = g()
                if op == "cmp":
                    A(a, v ^ M32, 1, True)
                elif op == "cmn":
                    A(a, v, 0, True)
                else:
                    self.nz(a & v if op == "tst" else a ^ v)
                    self.C = cy
            return cmp
        if op == "mul":
            rd = REG[o[0]]
            if len(o) == 2:
                o = o + [o[0]]
            a, b = REG[o[1]], REG[o[2]]

            def mul():
                v = R[a] * R[b] & M32
                R[rd] = v
                if s:
                    self.nz(v)
            return mul
        if op in ("mla", "mls", "smmla"):
            d, a, b, c = (REG[x] for x in o)
            if op == "mla":
                def f():
                    R[d] = (R[c] + R[a] * R[b]) & M32
            elif op == "mls":
                def f():
                    R[d] = (R[c] - R[a] * R[b]) & M32
            else:
                def f():
                    R[d] = ((sx(R[c], 32) << 32) + sx(R[a], 32) * sx(R[b], 32) >> 32) & M32
            return f
        if op in ("umull", "smull", "umlal", "smlal", "umaal"):
            lo, hi, a, b = (REG[x] for x in o)

            def mull():
                if op[0] == "s":
                    v = sx(R[a], 32) * sx(R[b], 32)
                else:
                    v = R[a] * R[b]
                if op in ("umlal", "smlal"):
                    v += R[hi] << 32 | R[lo]
                if op == "umaal":
                    v += R[hi] + R[lo]
                R[lo] = v & M32
                R[hi] = v >> 32 & M32
            return mull
        if op in ("udiv", "sdiv"):
            if len(o) == 2:
                o = [o[0]] + o
            d, a, b = (REG[x] for x in o)

            def div():
                x, y = R[a], R[b]
                if op == "sdiv":
                    x, y = sx(x, 32), sx(y, 32)
                if y == 0:
                    R[d] = 0
                else:
                    q = abs(x) // abs(y)
                    R[d] = (q if (x < 0) == (y < 0) else -q) & M32
            return div
        if op in ("smulbb", "smulbt", "smultb", "smultt", "smlabb", "smlabt", "smlatb", "smlatt"):
            r = [REG[x] for x in o]
            h = lambda v, k: sx(v >> 16 if k == "t" else v & 0xFFFF, 16)

            def smul():
                v = h(R[r[1]], op[4]) * h(R[r[2]], op[5])
                if op.startswith("smla"):
                    v += sx(R[r[3]], 32)
                R[r[0]] = v & M32
            return smul
        if op in ("smmul", "smmulr"):
            r = [REG[x] for x in o]

            def smmul():
                R[r[0]] = (sx(R[r[1]], 32) * sx(R[r[2]], 32) + (0x80000000 if op == "smmulr" else 0) >> 32) & M32
            return smmul
        if op in ("clz", "rbit", "rev", "rev16", "revsh"):
            d, a = REG[o[0]], REG[o[1]]

            def bits():
                v = R[a]
                if op == "clz":
                    R[d] = 32 - v.bit_length()
                elif op == "rbit":
                    R[d] = int(f"{v:032b}"[::-1], 2)
                elif op == "rev":
                    R[d] = int.from_bytes(v.to_bytes(4, "little"), "big")
                elif op == "rev16":
                    R[d] = (v & 0xFF00FF) << 8 | (v >> 8) & 0xFF00FF
                else:
                    R[d] = sx((v & 0xFF) << 8 | (v >> 8) & 0xFF, 16) & M32
            return bits
        if op in ("uxtb", "uxth", "sxtb", "sxth", "uxtab", "uxtah", "sxtab", "sxtah"):
            rot = 0
            if o[-1].startswith("ror"):
                rot = imm(o[-1].split()[1])
                o = o[:-1]
            d = REG[o[0]]
            acc = None
            if op[-2] == "a":
                acc = REG[o[1]]
                m = REG[o[2]]
            else:
                m = REG[o[-1]]
            w = 8 if op[-1] == "b" else 16
            sg = op[0] == "s"

            def ext():
                v = R[m]
                v = (v >> rot | v << (32 - rot)) & M32 if rot else v
                v &= (1 << w) - 1
                if sg:
                    v = sx(v, w)
                R[d] = (v + (R[acc] if acc is not None else 0)) & M32
            return ext
        if op in ("ubfx", "sbfx"):
            d, a, l, w = REG[o[0]], REG[o[1]], imm(o[2]), imm(o[3])

            def bfx():
                v = R[a] >> l & ((1 << w) - 1)
                R[d] = v if op == "ubfx" else sx(v, w) & M32
            return bfx
        if op == "bfi":
            d, a, l, w = REG[o[0]], REG[o[1]], imm(o[2]), imm(o[3])
            m = ((1 << w) - 1) << l

            def bfi():
                R[d] = R[d] & ~m & M32 | R[a] << l & m
            return bfi
        if op == "bfc":
            d, l, w = REG[o[0]], imm(o[1]), imm(o[2])
            m = ((1 << w) - 1) << l

            def bfc():
                R[d] = R[d] & ~m & M32
            return bfc
        if op in ("usat", "ssat"):
            d, n = REG[o[0]], imm(o[1])
            src = self.op2(o[2:], pc)

            def sat():
                v = sx(src()[0], 32)
                lo, hi = (0, (1 << n) - 1) if op == "usat" else (-(1 << n - 1), (1 << n - 1) - 1)
                R[d] = min(max(v, lo), hi) & M32
            return sat
        if op in ("qadd", "qsub"):
            d, a, b = (REG[x] for x in o)

            def q():
                v = sx(R[a], 32) + (sx(R[b], 32) if op == "qadd" else -sx(R[b], 32))
                R[d] = min(max(v, -(1 << 31)), (1 << 31) - 1) & M32
            return q
        if op in ("pkhbt", "pkhtb"):
            d, a = REG[o[0]], REG[o[1]]
            src = self.op2(o[2:], pc)

            def pkh():
                v = src()[0]
                R[d] = (R[a] & 0xFFFF | v & 0xFFFF0000) if op == "pkhbt" else (v & 0xFFFF | R[a] & 0xFFFF0000)
            return pkh
        if op in ("ldr", "ldrb", "ldrh", "ldrsb", "ldrsh", "str", "strb", "strh", "ldrex", "ldrexb", "ldrexh"):
            rd = REG[o[0]]
            addr = self.address(o[1:], pc)
            w = {"b": 1, "h": 2}.get(op[-1], 4)
            if op.startswith("ldr"):
                sg = op.startswith("ldrs")
                ex = "ex" in op

                def ld():
                    a = addr()
                    v = self.rd(a, w)
                    if sg:
                        v = sx(v, 8 * w) & M32
                    if ex:
                        self.reserve = a
                    if rd == 15:
                        return v & ~1
                    R[rd] = v
                return ld
            else:
                def st():
                    v = R[rd]
                    self.wr(addr(), v, w)
                return st
        if op in ("strex", "strexb", "strexh"):
            d, t = REG[o[0]], REG[o[1]]
            addr = self.address(o[2:], pc)
            w = {"b": 1, "h": 2}.get(op[-1], 4)

            def stx():
                a = addr()
                if self.reserve == a:
                    self.wr(a, R[t], w)
                    R[d] = 0
                else:
                    R[d] = 1
                self.reserve = None
            return stx
        if op in ("ldrd", "strd"):
            t, t2 = REG[o[0]], REG[o[1]]
            addr = self.address(o[2:], pc)
            if op == "ldrd":
                def ldrd():
                    a = addr()
                    x, y = self.rd(a, 4), self.rd(a + 4, 4)
                    R[t] = x
                    R[t2] = y
                return ldrd

            def strd():
                x, y = R[t], R[t2]
                a = addr()
                self.wr(a, x, 4)
                self.wr(a + 4, y, 4)
            return strd
        if op in ("push", "pop", "ldm", "stm", "ldmdb", "stmdb"):
            if op in ("push", "pop"):
                rn, wb, regs = 13, True, reglist(o[0])
                op = "stmdb" if op == "push" else "ldm"
            else:
                wb = o[0].endswith("!")
                rn, regs = REG[o[0].rstrip("!")], reglist(o[1])
            regs = sorted(regs)
            n = 4 * len(regs)
            load = op.startswith("ldm")
            db = op.endswith("db")

            def multi():
                a = (R[rn] - n if db else R[rn]) & M32
                new = (R[rn] - n if db else R[rn] + n) & M32
                if load:
                    vals = [self.rd(a + 4 * i, 4) for i in range(len(regs))]
                    if wb and rn not in regs:
                        R[rn] = new
                    t = None
                    for r, v in zip(regs, vals):
                        if r == 15:
                            t = v & ~1
                        else:
                            R[r] = v
                    return t
                vals = [R[r] for r in regs]
                for i, v in enumerate(vals):
                    self.wr(a + 4 * i, v, 4)
                if wb:
                    R[rn] = new
            return multi
        if op == "b":
            t = imm(o[0])
            return lambda: t
        if op == "bl":
            t = imm(o[0])
            ret = pc + size

            def bl():
                R[14] = ret | 1
                self.call = True
                return t
            return bl
        if op in ("bx", "blx"):
            g = self.rget(o[0], pc)
            link = op == "blx"
            ret = pc + size

            def bx():
                t = g()
                if link:
                    R[14] = ret | 1
                    self.call = True
                return t & ~1
            return bx
        raise Unsupported(op)

    def address(self, toks, pc):
        R = self.R
        t = toks[0]
        wb = t.endswith("!")
        t = t.rstrip("!")
        if not t.startswith("["):
            raise Unsupported("address " + t)
        p = split_ops(t[1:-1])
        rn = REG[p[0]]
        off = None
        if len(p) > 1:
            if p[1].startswith("#"):
                n = imm(p[1])
                off = lambda: n
            else:
                neg = p[1].startswith("-")
                rm = REG[p[1].lstrip("-")]
                sh = imm(p[2].split()[1]) if len(p) > 2 else 0
                off = (lambda: -(R[rm] << sh)) if neg else (lambda: R[rm] << sh)
        if rn == 15:
            b = (pc + 4) & ~3
            if off is None:
                return lambda: b
            return lambda: (b + off()) & M32
        if len(toks) > 1:
            n = imm(toks[1])

            def post():
                a = R[rn]
                R[rn] = (a + n) & M32
                return a
            return post
        if off is None:
            return lambda: R[rn]
        if wb:
            def pre():
                R[rn] = (R[rn] + off()) & M32
                return R[rn]
            return pre
        return lambda: (R[rn] + off()) & M32

    # -------------------------------------------------------------- FP subset
    def _vfp(self, pc, base, o):
        R, S = self.R, self.S
        parts = base.split(".")
        name = parts[0]
        cond = "al"
        if name not in VNAMES:
            for c in CONDS:
                if name.endswith(c) and name[:-2] in VNAMES:
                    name, cond = name[:-2], c
                    break
            else:
                raise Unsupported(base)

        def regs(x):
            """-> (index of the first 32-bit half, halves)"""
            if x[0] == "s":
                return int(x[1:]), 1
            if x[0] == "d":
                return 2 * int(x[1:]), 2
            raise Unsupported(x)
        ty = parts[1] if len(parts) > 1 else None

        def getf(x):
            i, n = regs(x)
            if n == 1:
                return lambda: struct.unpack("<f", S[i].to_bytes(4, "little"))[0]
            return lambda: struct.unpack("<d", (S[i] | S[i + 1] << 32).to_bytes(8, "little"))[0]

        def setf(x):
            i, n = regs(x)
            if n == 1:
                def f(v):
                    try:
                        S[i] = int.from_bytes(struct.pack("<f", v), "little")
                    except OverflowError:
                        S[i] = 0x7F800000 if v > 0 else 0xFF800000
                return f

            def g(v):
                b = int.from_bytes(struct.pack("<d", v), "little")
                S[i], S[i + 1] = b & M32, b >> 32
            return g
        if name in ("vpush", "vpop", "vstm", "vldm", "vstmia", "vldmia", "vstmdb", "vldmdb"):
            if name in ("vpush", "vpop"):
                rn, wb, l = 13, True, reglist(o[0])
                db, load = name == "vpush", name == "vpop"
            else:
                wb = o[0].endswith("!")
                rn, l = REG[o[0].rstrip("!")], reglist(o[1])
                db, load = name.endswith("db"), name.startswith("vldm")
            halves = []
            for k, i in l:
                halves += [i] if k == "s" else [2 * i, 2 * i + 1]
            n = 4 * len(halves)

            def f():
                a = R[rn] - n if db else R[rn]
                for k, h in enumerate(halves):
                    if load:
                        S[h] = self.rd(a + 4 * k, 4)
                    else:
                        self.wr(a + 4 * k, S[h], 4)
                if wb:
                    R[rn] = (R[rn] - n if db else R[rn] + n) & M32
        elif name in ("vldr", "vstr"):
            i, n = regs(o[0])
            addr = self.address(o[1:], pc)

            def f():
                a = addr()
                for k in range(n):
                    if name == "vldr":
                        S[i + k] = self.rd(a + 4 * k, 4)
                    else:
                        self.wr(a + 4 * k, S[i + k], 4)
        elif name == "vmov":
            if len(o) == 2 and o[0] in REG:
                d = REG[o[0]]
                i, _ = regs(o[1])

                def f():
                    R[d] = S[i]
            elif len(o) == 2 and o[1] in REG:
                m = REG[o[1]]
                i, _ = regs(o[0])

                def f():
                    S[i] = R[m]
            elif len(o) == 3 and o[2][0] == "d":
                a, b = REG[o[0]], REG[o[1]]
                i, _ = regs(o[2])

                def f():
                    R[a], R[b] = S[i], S[i + 1]
            elif len(o) == 3 and o[0][0] == "d":
                a, b = REG[o[1]], REG[o[2]]
                i, _ = regs(o[0])

                def f():
                    S[i], S[i + 1] = R[a], R[b]
            elif len(o) == 2 and o[1].startswith("#"):
                v = float(o[1][1:])
                st = setf(o[0])

                def f():
                    st(v)
            elif len(o) == 2:
                i, n = regs(o[0])
                j, _ = regs(o[1])

                def f():
                    for k in range(n):
                        S[i + k] = S[j + k]
            else:
                raise Unsupported("vmov " + str(o))
        elif name in ("vadd", "vsub", "vmul", "vdiv", "vnmul", "vmla", "vmls", "vfma", "vfms", "vminnm", "vmaxnm"):
            if ty not in ("f32", "f64"):
                raise Unsupported(base)
            if len(o) == 2:
                o = [o[0]] + o
            st, ga, gb, gd = setf(o[0]), getf(o[1]), getf(o[2]), getf(o[0])

            def f():
                a, b = ga(), gb()
                try:
                    if name == "vadd":
                        v = a + b
                    elif name == "vsub":
                        v = a - b
                    elif name == "vmul":
                        v = a * b
                    elif name == "vnmul":
                        v = -(a * b)
                    elif name == "vdiv":
                        v = a / b
                    elif name == "vminnm":
                        v = min(a, b)
                    elif name == "vmaxnm":
                        v = max(a, b)
                    elif name in ("vmla", "vfma"):
                        v = gd() + a * b
                    else:
                        v = gd() - a * b
                except ZeroDivisionError:
                    v = math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
                st(v)
        elif name in ("vneg", "vabs", "vsqrt"):
            st, g = setf(o[0]), getf(o[1])

            def f():
                v = g()
                st(-v if name == "vneg" else abs(v) if name == "vabs" else math.sqrt(v) if v >= 0 else math.nan)
        elif name in ("vcmp", "vcmpe"):
            ga = getf(o[0])
            if o[1].startswith("#"):
                gb = lambda: 0.0
            else:
                gb = getf(o[1])

            def f():
                a, b = ga(), gb()
                self.fp = (0, 0, 1, 1) if a != a or b != b else (0, 1, 1, 0) if a == b else (1, 0, 0, 0) if a < b else (0, 0, 1, 0)
        elif name == "vmrs":
            if o[0] not in ("APSR_nzcv", "apsr_nzcv"):
                raise Unsupported("vmrs " + o[0])

            def f():
                self.N, self.Z, self.C, self.V = self.fp
        elif name == "vcvt" and len(parts) == 3:
            to, fr = parts[1], parts[2]
            if fr in ("f32", "f64") and to in ("f32", "f64"):
                st, g = setf(o[0]), getf(o[1])

                def f():
                    st(g())
            elif fr in ("f32", "f64"):
                i, _ = regs(o[0])
                g = getf(o[1])
                lo, hi = (0, M32) if to == "u32" else (-(1 << 31), (1 << 31) - 1)

                def f():
                    v = g()
                    S[i] = 0 if v != v else int(min(max(v, lo), hi)) & M32
            else:
                st = setf(o[0])
                i, _ = regs(o[1])

                def f():
                    st(float(S[i] if fr == "u32" else sx(S[i], 32)))
        else:
            raise Unsupported(base)
        if cond != "al":
            return lambda: f() if self.cond(cond) else None
        return f

    # ----------------------------------------------------------------- running
    def run(self, entry, monitor, limit):
        """-> reason why the run ended"""
        R = self.R
        pc = entry
        R[14] = 0xFFFFFFFF
        comp = self.compiled
        self.call = False
        monitor.start(pc, R[13])
        try:
            while self.steps < limit:
                self.steps += 1
                c = comp.get(pc)
                if c is None:
                    if pc not in self.code:
                        raise Fault(f"execution of {pc:#x}, which is not an instruction")
                    c = self.compile(pc)
                t = c[0]()
                if t is None:
                    nxt = pc + c[1]
                    monitor.step(pc, nxt, R[13])
                elif self.call:
                    self.call = False
                    monitor.call(pc, pc + c[1], t, R[13])
                    nxt = t
                else:
                    if t == pc:
                        return "endless loop"
                    monitor.jump(pc, t, R[13])
                    nxt = t
                pc = nxt
            return "limit"
        except Stop as e:
            return "stop: " + str(e)
        except Fault as e:
            return f"fault at {pc:#x}: {e}"
        except Unsupported as e:
            return f"unsupported: {e}"
        finally:
            monitor.finish()


def _repl(v):
    b = v & 0xFF
    return v in (b, b << 16 | b, b << 24 | b << 16 | b << 8 | b) or (b == 0 and v >> 16 == (v & 0xFFFF))


VNAMES = set("vpush vpop vstm vldm vstmia vldmia vstmdb vldmdb vldr vstr vmov vadd vsub vmul vdiv vnmul vmla vmls vfma vfms vminnm "
             "vmaxnm vneg vabs vsqrt vcmp vcmpe vmrs vcvt".split())


def sx(v, n):
    return v - (1 << n) if v >> (n - 1) & 1 else v
