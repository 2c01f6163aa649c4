"""Systematic sweeps over instruction encodings and branch distances."""
import random

import armenc as A
import oracle
import runner
import synth
import tool
import world
from names import Name

TV6, TV7 = "thumbv6m-none-eabi", "thumbv7em-none-eabihf"


def prog(target, seed):
    rng = random.Random(seed)
    p = world.Prog(rng, target)
    p.base = 0x10000
    p.shuffle_syms = True
    return rng, p


def add(p, name, code, local, calls=(), kind="none", **kw):
    f = p.fn(names=[Name(name, name, None)], kind=kind, **kw)
    f.code = code
    f.local = local
    f.mcalls = set(calls)
    return f


def check(p, target, what, cats, replay, nkeys=None):
    files = p.files()
    x = p.expected()
    pr = tool.FakeProject(target=target)
    rec = dict(evals=len(p.fns), keys=[], bad=[], seen={what: len(p.fns)}, replay=replay)
    try:
        pr.populate(**files)
        r, g, bad = synth.run_and_parse(pr, synth.BIN)
        if g is not None:
            bad += oracle.compare(p, x, g)
            rec["keys"] = [runner.key(target, what, f.names[0].sym) for f in p.fns[:4000]] if nkeys is None else nkeys
        for c, t in bad:
            if c in cats or c in ("fails", "format"):
                rec["bad"].append((f"{replay['pid']}:{c}", f"[{target} sweep {what}] {t}"))
        rec["bad"] = rec["bad"][:8]
        rec["sample"] = f"sweep {what} on {target}: {len(p.fns)} functions"
    finally:
        pr.remove()
    return rec


def enc_chunk(arg):
    """every non-branch encoding: it is a call to `callee` away from the end of
    its function, so a mis-measured instruction loses or invents that call"""
    pid, cats, target, seed, items = arg
    rng, p = prog(target, seed)
    callee = add(p, "callee", [("raw", A.BX_LR)], 0)
    for h in items:
        b = A.hw(h) if isinstance(h, int) else bytes.fromhex(h)
        n = f"i{b.hex()}"
        add(p, n, [("raw", b), ("bl", 0), ("raw", A.BX_LR)], 0, [callee])
    p.order = [i for i in range(1, len(p.fns))]
    rng.shuffle(p.order)
    # keep everything reachable: callee in the middle
    p.order.insert(len(p.order) // 2, 0)
    return check(p, target, f"{8 * len(A.hw(0))}-bit" if False else "plain encodings", cats,
                 dict(kind="sweep-enc", pid=pid, target=target, seed=seed, items=len(items)))


def enc_jobs(pid, cats, seed, frac=1.0):
    c = world.corpus()
    jobs = []
    for target, k16, k32 in ((TV6, "v6m_16", "v6m_32"), (TV7, "v7m_16", "v7m_32")):
        items = list(c[k16]["plain"]) + [h for h, _ in c[k32]["plain"]]
        rng = random.Random(f"enc{seed}")
        rng.shuffle(items)
        items = items[:int(len(items) * frac)]
        n = 6000
        for k in range(0, len(items), n):
            jobs.append((pid, cats, target, seed * 1000 + k, items[k:k + n]))
    return jobs


def far(arg):
    """branches over chosen distances: every bit of every immediate field"""
    pid, cats, target, seed, reach = arg
    rng, p = prog(target, seed)
    v7 = p.v7
    p.base = 0
    offs = set()
    k = 4
    while (1 << k) < reach:
        for d in (0, 2, -2, 2 * rng.randrange(1 << max(k - 2, 1))):
            offs.add((1 << k) + d)
            offs.add(-(1 << k) - d)
        k += 1
    for _ in range(60):
        offs.add(2 * rng.randrange(-reach // 2, reach // 2))
    # the callers sit in the middle
    center = reach + 0x100000
    spots = sorted(o for o in offs)
    targets = []
    used = []
    for o in spots:
        a = center + o
        if -0x6000 < o < 0x6000 or any(abs(a - u) < 8 for u in used[-3:]):
            continue
        used.append(a)
        targets.append(add(p, f"t{len(targets)}", [("raw", A.BX_LR)], 0))
        targets[-1].want = a
        targets[-1].align4 = False
    callers = []
    forms = ["bl"] + (["t4", "t3"] if v7 else [])
    at = center
    for form in forms:
        sel = [t for t in targets if abs(t.want - center) < ((1 << 20) - 0x8000 if form == "t3" else (1 << 24) - 0x8000)]
        for part in range(0, len(sel), 40):
            grp = sel[part:part + 40]
            code = []
            for t in grp:
                code.append(("bl", t.i) if form == "bl" else ("b", t.i, form, rng.randrange(14)))
            code.append(("raw", A.BX_LR))
            f = add(p, f"c_{form}_{part}", code, 0, grp)
            f.want = at
            f.align4 = False
            at += 4 * len(grp) + 16
            callers.append(f)
    seq = sorted(p.fns, key=lambda f: f.want)
    p.order = [f.i for f in seq]
    cur = p.base
    for f in seq:
        f.gap = f.want - cur
        assert f.gap >= 0
        cur = f.want + sum(p.size_of(c) for c in f.code)
    return check(p, target, "branch distances", cats,
                 dict(kind="sweep-far", pid=pid, target=target, seed=seed, reach=reach))


def short(arg):
    """16-bit branches that leave the function"""
    pid, cats, target, seed = arg
    rng, p = prog(target, seed)
    fns = []
    for i in range(40):
        f = add(p, f"s{i}", [], 0)
        f.align4 = False
        f.gap = 0
        fns.append(f)
    for i, f in enumerate(fns):
        pad = [("raw", A.NOP)] * rng.randint(0, 6)
        f.code = pad + [("raw", A.NOP)]
        cand = [g for g in fns if 0 < abs(g.i - i) <= 4]
        for g in rng.sample(cand, 2):
            form = rng.choice(["t1", "t2"])
            f.code.append(("b", g.i, form, rng.randrange(14)))
            f.mcalls.add(g)
        f.code.append(("raw", A.BX_LR))
    return check(p, target, "short tail branches", cats, dict(kind="sweep-short", pid=pid, target=target, seed=seed))


def sp_chunk(arg):
    """instructions that move SP: each alone in a hand-written function"""
    pid, cats, target, seed, items = arg
    rng, p = prog(target, seed)
    for n, (b, local) in enumerate(items):
        f = add(p, f"sp{n}_{b.hex()}", [("raw", b), ("raw", A.BX_LR)], local)
    p.fns[0].kind = "define"  # one function with a record, or no maxima are computed
    p.fns[0].code = [("raw", A.BX_LR)]
    p.fns[0].stack = p.fns[0].local = 0
    return check(p, target, "SP encodings", cats, dict(kind="sweep-sp", pid=pid, target=target, seed=seed, items=len(items)))


def sp_items(v7, rng, full):
    it = []
    for regs in range(0, 256):
        for lr in (0, 1):
            if regs or lr:
                r = [i for i in range(8) if regs >> i & 1]
                it.append((A.push(r, bool(lr)), 4 * (len(r) + lr)))
    for n in range(1, 128):
        it.append((A.sub_sp_imm7(4 * n), 4 * n))
    for rm in list(range(0, 13)) + [14]:
        it.append((A.add_sp_reg(rm), None))
        it.append((A.mov_sp_reg(rm), None))
    if v7:
        masks = range(1, 1 << 13) if full else rng.sample(range(1, 1 << 13), 1200)
        for m in masks:
            for lr in (False, True):
                r = [i for i in range(13) if m >> i & 1]
                if len(r) + lr >= 2:
                    it.append((A.stmdb_sp(r, lr), 4 * (len(r) + lr)))
        for n in range(1, 4096):
            it.append((A.subw_sp_t3(n), n))
        for n in range(1, 256):
            it.append((A.strd_pre_sp(rng.randint(0, 11), rng.choice([12, 14]), 4 * n), 4 * n))
            it.append((A.str_pre_sp(rng.choice(list(range(13)) + [14]), n), n))
            it.append((A.hw(0xF84D, rng.randint(0, 12) << 12 | 0x900 | n), n))  # str rt, [sp], #-n
        for c in range(1, 17):
            for d in range(0, 33 - c):
                if d <= 31:
                    it.append((A.vpush_d(d, c), 8 * c))
        for c in range(1, 33):
            for s in range(0, 33 - c):
                it.append((A.vpush_s(s, c), 4 * c))
        consts = set()
        for imm in range(4096):
            if imm >> 10 == 0:
                i8, k = imm & 255, imm >> 8 & 3
                if not i8:
                    continue
                v = [i8, i8 << 8 if False else i8 * 0x00010001, i8 * 0x01000100, i8 * 0x01010101][k]
            else:
                r = imm >> 7
                b = 0x80 | imm & 0x7F
                v = (b >> r | b << (32 - r)) & 0xFFFFFFFF
            consts.add((imm, v))
        for imm, v in sorted(consts):
            it.append((A.subw_sp_t2(imm), v))
        for rm in list(range(0, 13)) + [14]:
            it.append((A.hw(0xEBAD, 0x0D00 | rm), None))
            it.append((A.hw(0xEB0D, 0x0D00 | rm), None))
            it.append((A.hw(0xF8D0 | (rm if rm != 14 else 0), 0xD000 | 4 * rm), None))
    return it


def sp_jobs(pid, cats, seed):
    jobs = []
    for target, v7 in ((TV6, False), (TV7, True)):
        rng = random.Random(f"sp{seed}")
        items = sp_items(v7, rng, runner.THOROUGH)
        rng.shuffle(items)
        for k in range(0, len(items), 3000):
            jobs.append((pid, cats, target, seed * 1000 + k, items[k:k + 3000]))
    return jobs
