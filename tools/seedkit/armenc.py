"""Thumb / Thumb-2 encoders (from the ARMv6-M and ARMv7-M reference manuals),
independent of the decoder under test."""
import struct


def hw(*xs):
    return b"".join(struct.pack("<H", x & 0xFFFF) for x in xs)


def _fits(off, bits):
    return -(1 << (bits - 1)) <= off < (1 << (bits - 1))


def bl(off):
    """BL T1; off is relative to the instruction address + 4"""
    return _b25(off, 0xD000)


def bw(off):
    """B.W T4"""
    return _b25(off, 0x9000)


def _b25(off, top):
    assert off % 2 == 0 and _fits(off, 25), off
    s = (off >> 24) & 1
    i1 = (off >> 23) & 1
    i2 = (off >> 22) & 1
    imm10 = (off >> 12) & 0x3FF
    imm11 = (off >> 1) & 0x7FF
    j1 = (i1 ^ 1) ^ s
    j2 = (i2 ^ 1) ^ s
    return hw(0xF000 | s << 10 | imm10, top | j1 << 13 | j2 << 11 | imm11)


def bcc_w(cond, off):
    """B.W T3 (conditional)"""
    assert off % 2 == 0 and _fits(off, 21) and cond < 14, off
    s = (off >> 20) & 1
    j2 = (off >> 19) & 1
    j1 = (off >> 18) & 1
    imm6 = (off >> 12) & 0x3F
    imm11 = (off >> 1) & 0x7FF
    return hw(0xF000 | s << 10 | cond << 6 | imm6, 0x8000 | j1 << 13 | j2 << 11 | imm11)


def b_t2(off):
    assert off % 2 == 0 and _fits(off, 12), off
    return hw(0xE000 | (off >> 1) & 0x7FF)


def bcc_t1(cond, off):
    assert off % 2 == 0 and _fits(off, 9) and cond < 14, off
    return hw(0xD000 | cond << 8 | (off >> 1) & 0xFF)


def cbz(rn, off, nz=0):
    assert 0 <= off < 128 and off % 2 == 0
    return hw(0xB100 | nz << 11 | ((off >> 6) & 1) << 9 | ((off >> 1) & 0x1F) << 3 | rn)


def bx(rm):
    return hw(0x4700 | rm << 3)


def blx(rm):
    return hw(0x4780 | rm << 3)


def push(regs, lr=False):
    return hw(0xB400 | (0x100 if lr else 0) | sum(1 << r for r in regs))


def pop(regs, pc=False):
    return hw(0xBC00 | (0x100 if pc else 0) | sum(1 << r for r in regs))


def sub_sp_imm7(n):
    assert n % 4 == 0 and n < 512
    return hw(0xB080 | n >> 2)


def add_sp_imm7(n):
    assert n % 4 == 0 and n < 512
    return hw(0xB000 | n >> 2)


def encode_modified_imm(v):
    """ThumbExpandImm inverse: every imm12 that expands to v"""
    out = []
    if v < 256:
        out.append(v)
    b = v & 0xFF
    if v == (b << 16 | b) and b:
        out.append(0x100 | b)
    b2 = (v >> 8) & 0xFF
    if v == (b2 << 24 | b2 << 8) and b2:
        out.append(0x200 | b2)
    if v == b * 0x01010101 and b:
        out.append(0x300 | b)
    for rot in range(8, 32):
        x = ((v << rot) | (v >> (32 - rot))) & 0xFFFFFFFF
        if 0x80 <= x <= 0xFF:
            out.append(rot << 7 | (x & 0x7F))
    return out


def subw_sp_t2(imm12, setflags=0):
    """SUB{S}.W sp, sp, #<const> (T2), imm12 = modified immediate field"""
    return hw(0xF1AD | ((imm12 >> 11) & 1) << 10 | setflags << 4,
              ((imm12 >> 8) & 7) << 12 | 0xD00 | imm12 & 0xFF)


def subw_sp_t3(n):
    """SUBW sp, sp, #imm12 (T3)"""
    assert 0 <= n < 4096
    return hw(0xF2AD | ((n >> 11) & 1) << 10, ((n >> 8) & 7) << 12 | 0xD00 | n & 0xFF)


def addw_sp_t4(n):
    return hw(0xF20D | ((n >> 11) & 1) << 10, ((n >> 8) & 7) << 12 | 0xD00 | n & 0xFF)


def stmdb_sp(regs, lr=False):
    m = sum(1 << r for r in regs) | (0x4000 if lr else 0)
    return hw(0xE92D, m)


def vpush_d(d, n):
    return hw(0xED2D | ((d >> 4) & 1) << 6, (d & 15) << 12 | 0xB00 | 2 * n)


def vpush_s(s, n):
    return hw(0xED2D | (s & 1) << 6, (s >> 1) << 12 | 0xA00 | n)


def str_pre_sp(rt, n):
    """STR rt, [sp, #-n]! (T4)"""
    assert 0 <= n < 256
    return hw(0xF84D, rt << 12 | 0xD00 | n)


def strd_pre_sp(rt, rt2, n):
    assert n % 4 == 0 and n < 1024
    return hw(0xE96D, rt << 12 | rt2 << 8 | n >> 2)


def add_sp_reg(rm):
    """ADD sp, rm (T2)"""
    return hw(0x4485 | rm << 3)


def mov_sp_reg(rm):
    return hw(0x4685 | rm << 3)


def realign(rd, n, v7):
    """clear the low n bits of SP, the way LLVM does it"""
    out = hw(0x4600 | rd >> 3 << 7 | 0xD << 3 | rd & 7)
    if v7:
        out += hw(0xF36F, rd << 8 | n - 1)
    else:
        out += hw(0x0800 | n << 6 | rd << 3 | rd, n << 6 | rd << 3 | rd)
    return out + hw(0x4680 | rd << 3 | 5)


def ldr_lit(rt, off):
    """LDR rt, [pc, #off]"""
    assert off % 4 == 0 and 0 <= off < 1024
    return hw(0x4800 | rt << 8 | off >> 2)


NOP = hw(0xBF00)
BX_LR = hw(0x4770)
NOP_W = hw(0xF3AF, 0x8000)


def udf(n=0):
    return hw(0xDE00 | n)


def is32(h):
    return (h >> 11) in (0b11101, 0b11110, 0b11111)
