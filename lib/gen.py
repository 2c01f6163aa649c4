"""Random programs."""
import re

import armenc as A
import irgen as IR
import world as W
from names import Name


def gen(rng, target, **kw):
    for far in (None, 0.0, 0.0):
        p = gen_(rng, target, **(kw if far is None else dict(kw, p_far=0.0)))
        if p is not None:
            return p
    raise RuntimeError("no layout found")


def kind_ok(f, asm):
    """functions of which LLVM knows the frame"""
    return f.kind == "define" and not f.outlined and not asm


def gen_(rng, target, **kw):
    o = dict(n=(3, 18), p_none=0.0, p_declare=0.1, p_outlined=0.05, p_alias=0.2, p_notype=0.1,
             p_asm=0.1, cyc=0.3, calls=(0, 4), p_tail=0.2, p_icall=0.25, nsigs=4, p_near=0.4, p_undef=0.0,
             p_gced=0.3, p_cb=0.25, p_nostack=0.1, p_bitcast=0.03, p_irless=0.15, p_zero=0.15,
             p_mind=0.3, p_unmatched=0.0, code=None, p_condtail=0.1, gap=0.1, p_names=None,
             p_allzero=0.1, p_sect=0.2, p_unsized=0.15, p_dup=0.1, p_mem=0.4, p_memcmp=0.3,
             p_aliassig=0.15, p_cbdup=0.15, p_weird=0.05, p_spx=0.08, p_far=0.05, p_iralias=0.3,
             p_inline=0.3, p_variadic=0.08, p_ircall=0.9, p_hashdup=0.0, p_dtags=0.1, p_typed=0.0, p_realign=0.05, p_asmbranch=0.25, stacks=None, p_crowd=0.0, p_big=0.015, p_rom=0.06, small_cycles=False, frame_kinds=["push", "push", "push", "stmdb", "str", "strd", "subw3"])
    o.update(kw)
    p = W.Prog(rng, target)
    n = rng.randint(*o["n"])
    crowd = rng.random() < o["p_crowd"]
    if crowd:
        # very many functions of one signature
        n = rng.randint(150, 330)
        o.update(nsigs=rng.choice([0, 1]), p_near=0.2, p_icall=0.8, p_gced=0.0, code=dict(o["code"] or {}, frame=False), p_far=0)
    shape = None
    if not crowd and rng.random() < o["p_big"]:
        # large programs: long chains and rings, functions with very many callees or statements
        n = rng.randint(80, 400)
        shape = rng.choice(["chain", "ring", "star", "tree", "fan", "pairs"])
        o.update(code=dict(o["code"] or {}, **rng.choice([{}, {"frame": False}, {"pool": 0}])), p_far=0, p_gced=0.0)
        if rng.random() < 0.6:
            o.update(cyc=0.0, p_icall=0.0)
    p.typed = rng.random() < o["p_typed"]
    mode = rng.random()
    cyc = o["cyc"] if mode < 0.6 else 0.0
    sigs = []
    while len(sigs) < o["nsigs"]:
        s = IR.rsig(rng)
        if p.typed:
            s = (re.sub(r"\bptr\b", lambda m: rng.choice(["i8*", "{}*", "i32*", '%"app::Foo"*', "i8**"]), s[0]), tuple(IR.typed(rng, t) for t in s[1]))
        if rng.random() < (o["p_variadic"] if s[1] else 0.02):
            s = (s[0], s[1] + ("...",))
        if s not in sigs and s != ("void", ()):
            sigs.append(s)
    sigs.append(("void", ()))
    # near-miss signatures: one type differs a little, or one argument more or less
    for s in list(sigs):
        if rng.random() < o["p_near"]:
            t = list(s[1])
            ret = s[0]
            k = rng.random()
            if t[-1:] == ["..."]:
                # the same without the variadic arguments
                t.pop()
            elif t and rng.random() < o["p_variadic"]:
                t.append("...")
            elif k < 0.15:
                t.append(rng.choice(IR.SCALARS))
            elif k < 0.25 and t:
                t.pop()
            elif k < 0.5 and ret != "void":
                ret = IR.near(rng, ret)
            elif t:
                agg = [j for j in range(len(t)) if t[j] not in IR.SCALARS]
                j = rng.choice(agg) if agg and rng.random() < 0.6 else rng.randrange(len(t))
                t[j] = IR.near(rng, t[j])
            if p.typed:
                ret = re.sub(r"\bptr\b", "i8*", ret)
                t = [re.sub(r"\bptr\b", "i8*", x) for x in t]
            v = (ret, tuple(t))
            if v not in sigs:
                sigs.append(v)
    allzero = rng.random() < o["p_allzero"]
    nout = 0
    for i in range(n):
        r = rng.random()
        kind = "define"
        names = []
        if p.thumb and r < o["p_outlined"]:
            kind = "outlined"
        elif r < o["p_outlined"] + o["p_none"]:
            kind = "none"
        elif r < o["p_outlined"] + o["p_none"] + o["p_declare"]:
            kind = "declare"
        if kind == "outlined":
            nm = p.namer.plain(f"OUTLINED_FUNCTION_{nout}")
            nm.sym = nm.dem = f"OUTLINED_FUNCTION_{nout}"
            nout += 1
            f = p.fn(names=[nm], kind="none")
            f.outlined = True
        else:
            nm = p.namer.any()
            if kind == "none" and rng.random() < 0.15:
                # not one of the functions of LLVM's outliner
                nm = p.namer.plain("OUTLINED_FUNCTION_" + rng.choice(["x", "_", "A", "0x", "1.", "-"]))
                if "OUTLINED_FUNCTION_" not in p.namer.used and rng.random() < 0.3:
                    nm.sym = nm.dem = "OUTLINED_FUNCTION_"
                    p.namer.used.add(nm.sym)
            elif rng.random() < o["p_weird"]:
                nm = p.namer.weird(kind != "none")
            f = p.fn(names=[nm], kind=kind, sig=rng.choice(sigs))
            f.no_ir = any(c in nm.sym for c in '"\\') or not nm.sym.isascii()
            if rng.random() < o["p_alias"]:
                for _ in range(rng.choice([1, 1, 1, 2, 2, 2, 3, rng.randint(4, 9)])):
                    f.names.append(p.namer.any())
                f.ir_name = rng.randrange(len(f.names))
                if kind == "define" and rng.random() < o["p_iralias"]:
                    f.ir_alias = True
                if rng.random() < o["p_aliassig"] and not f.no_ir:
                    j = rng.choice([x for x in range(len(f.names)) if x != f.ir_name])
                    f.alias_sigs[j] = (rng.choice(["declare", "declare", "define" if kind == "define" else "declare"]), rng.choice(sigs))
            if rng.random() < o["p_notype"]:
                f.notypes.append(p.namer.plain().sym)
            if kind == "define" and rng.random() < o["p_cb"]:
                f.module = f.stack_src = "cb"
    if rng.random() < o["p_hashdup"]:
        # monomorphisations: one path, several hashes
        for f in list(p.fns):
            for k, nm in enumerate(f.names if len(f.names) == 1 and not f.notypes else ()):
                if nm.comps and rng.random() < 0.6:
                    g = rng.choice([g for g in p.fns if g.names[0].comps and len(g.names) == 1 and not g.notypes] or [f])
                    base = g.names[0]
                    if base.comps and base is not nm:
                        f.names[k] = p.namer.rust(path=base.comps)
    p.dtags = rng.random() < o["p_dtags"]
    if rng.random() < o["gap"]:
        p.gap = lambda: 2 * rng.randint(0, 3)
    if p.thumb and rng.random() < o["p_sect"]:
        for k, name in enumerate(rng.sample([".init", ".ramfunc", ".data", ".text.fast"], rng.randint(1, 2))):
            p.section_base[name] = p.base + 0x40000 * (k + 1)
            if rng.random() < 0.4:
                p.adjacent.add(name)
            for f in p.fns:
                if f.section == ".text" and rng.random() < 0.3:
                    f.section = name
    if p.thumb and rng.random() < o["p_rom"]:
        p.section_base[W.ABS] = p.base + 0xC0000
        for f in p.fns:
            if f.kind != "define" and not f.outlined and f.section == ".text" and rng.random() < 0.3:
                f.section = W.ABS
    elif p.v7 and n > 3 and not p.section_base and rng.random() < o["p_far"]:
        o["p_unsized"] = 0
        rng.choice(p.fns).gap = 2 * rng.choice([0x10000, 0x7F000, 0x81000, 0x300000, 0x7E0000])
    if p.thumb and rng.random() < o["p_dup"]:
        outl = [f for f in p.fns if f.outlined]
        plain = [f for f in p.fns if f.kind == "none" and not f.outlined and len(f.names) == 1]
        for grp in (outl, plain):
            if len(grp) > 1:
                for f in grp[1:rng.randint(2, min(3, len(grp)))]:
                    a = grp[0].names[0]
                    f.names = [type(a)(a.sym, a.dem, a.dehashed)]
                    f.no_ir = grp[0].no_ir = True
    if p.thumb:
        for f in p.fns:
            f.align4 = rng.random() < 0.7
            if f.kind != "define" and not f.outlined:
                f.no_tag = rng.random() < 0.3
                if rng.random() < o["p_unsized"]:
                    f.size = 0
    order = list(range(n))
    rng.shuffle(order)
    p.order = order
    for f in p.fns:
        later = [g for g in p.fns if g.i > f.i]
        pool = p.fns if rng.random() < cyc else later
        if o["small_cycles"]:
            pool = p.fns[max(0, f.i - (rng.random() < 0.3)):f.i + 3]
        calls = [rng.choice(pool) for _ in range(rng.randint(*o["calls"]))] if pool else []
        if shape:
            a = p.fns
            calls = {"chain": a[f.i + 1:f.i + 2], "ring": [a[(f.i + 1) % n]], "star": a[1:] if f.i == 0 else [],
                     "tree": a[2 * f.i + 1:2 * f.i + 3], "fan": a[-1:] if f.i < n - 1 else [],
                     "pairs": [a[f.i ^ 1]] if f.i ^ 1 < n else []}[shape] + (calls if rng.random() < 0.1 else [])
        if f.section == W.ABS:
            f.code.append(("raw", bytes(2 * rng.randint(2, 20))))
            if rng.random() < 0.3:
                f.size = 0
            f.stack = f.local = None
            continue
        asm = f.kind == "define" and rng.random() < o["p_asm"]
        if p.thumb:
            tails = []
            cond = []
            mc = [c for c in calls if rng.random() < 0.9]
            if p.v7 and pool and rng.random() < o["p_tail"]:
                tails = [rng.choice(pool)]
                if tails[0] is f:
                    tails = []
            if p.v7 and pool and rng.random() < o["p_condtail"]:
                c = rng.choice(pool)
                if c is not f:
                    cond = [(c, "t3", rng.randrange(14))]
            mc = [c for c in mc if not (c is f and f.kind != "define")]
            co = dict(condtails=cond, frame=False if allzero or rng.random() < o["p_zero"] else None)
            if f.outlined:
                co["local"] = 0
            if p.v7:
                co["frame_kinds"] = o["frame_kinds"]
            spx = rng.random() < o["p_spx"] and not f.outlined
            co["sp_unknown"] = spx
            co["realign"] = kind_ok(f, asm) and rng.random() < o["p_realign"]
            co.update(o["code"] or {})
            total, gives_up, msp = W.gen_thumb_code(rng, p, f, mc, tails, co)
            if spx and not total:
                total = 8  # what LLVM would say
            if f.kind != "define" and not f.outlined and rng.random() < o["p_mind"]:
                f.mindirect = True
                k = rng.randrange(0, 1 + sum(1 for x in f.code[:1] if x[0] == "raw"))
                f.code.insert(k, ("raw", rng.choice(
                    [A.blx(rng.choice([*range(13), 14, 14])), A.bx(rng.randint(0, 12)), A.hw(0x4687 | rng.randint(0, 12) << 3)]
                    + ([A.hw(0xF8D0 | rng.randint(0, 13), 0xF000 | 4 * rng.randint(0, 50)), A.hw(0xF8DF, 0xF000 | rng.randint(0, 400))]
                       if p.v7 else []))))
            elif f.kind == "define" and rng.random() < 0.3:
                f.code.insert(0, ("raw", A.blx(3)))
            if f.outlined:
                f.stack = rng.choice([0, 0, None]) if not f.no_ir else None
                f.local = total if not gives_up else (0 if not msp else None)
                if f.stack == 0 and gives_up:
                    f.stack = None
            elif f.kind == "define":
                f.stack = total
                f.local = total + f.pad
                if co["realign"] and not total:
                    f.stack = 8
                    f.local += 8
                if asm and gives_up and msp and rng.random() < 0.4:
                    f.stack = 0
                    f.local = None
                elif asm and not gives_up and rng.random() < 0.7:
                    f.stack = rng.choice([0, total + 8, max(0, total - 8)])
                elif rng.random() < o["p_nostack"] * 0.5:
                    f.stack = None
                    f.local = total if not gives_up else (0 if not msp else None)
            else:
                f.stack = None
                f.local = total if not gives_up else (0 if not msp else None)
            ircalls = [c for c in calls if rng.random() < o["p_ircall"] and not c.no_ir]
        else:
            f.stack = None if rng.random() < o["p_nostack"] or f.kind != "define" else (
                0 if allzero or rng.random() < o["p_zero"] else rng.choice(
                    o["stacks"] or [rng.randint(1, 400), 8 * rng.randint(1, 30), rng.randint(1, 1 << 20), 127, 128, 16383, 16384]))
            f.local = f.stack
            ircalls = [c for c in calls if not c.no_ir]
        if f.kind == "define":
            for c in ircalls:
                if True:
                    form = None
                    r = rng.random()
                    if r < 0.05:
                        form = "invoke"
                    elif r < 0.08 and c.sig[1]:
                        form = "fnty"
                    ni = rng.choice([None, rng.randrange(len(c.names))])
                    if r > 1 - o["p_bitcast"] and ni is None:
                        form = "bitcast"
                    f.stmts.append(("call", c, ni, form))
            if rng.random() < o["p_icall"]:
                for _ in range(rng.randint(1, 2)):
                    s = rng.choice(sigs)
                    if rng.random() < o["p_unmatched"]:
                        s = IR.rsig(rng)
                        if p.typed:
                            s = (re.sub(r"\bptr\b", "i8*", s[0]), tuple(re.sub(r"\bptr\b", "i8*", t) for t in s[1]))
                    f.stmts.append(("icall", s, rng.choice([None, None, None, "invoke"])))
            if asm and p.thumb and rng.random() < o["p_asmbranch"]:
                # an unknown callee, called from inline assembly
                rm = rng.randint(0, 12)
                text, code = rng.choice([("blx r%d", A.blx(rm)), ("bx r%d", A.bx(rm)), ("mov pc, r%d", A.hw(0x4687 | rm << 3)),
                                         ("push {r4}\\0A\\09blx\\09r%d\\0A\\09pop {r4}", A.blx(rm)), ("nop; BLX r%d", A.blx(rm)), ("blx lr", A.blx(14)),
                                         ("blx $0", A.blx(rm)), ("bx ${0}", A.bx(rm)), ("mov r7, r7\\0Amov pc, $1", A.hw(0x4687 | rm << 3)),
                                         ("mrs r0, PSP\\0A1: bx r%d", A.bx(rm))]
                                        + ([("ldr pc, [r%d]", A.hw(0xF8D0 | rm, 0xF000)), ("cmp r0, #0\\0Ait eq\\0Abxeq r%d", A.bx(rm))] if p.v7 else []))
                f.asm_branch = True
                f.stmts.append(("asm", text % rm if "%" in text else text))
                f.code.insert(sum(1 for x in f.code[:1] if x[0] == "raw"), ("raw", code))
            elif asm and p.thumb and rng.random() < 0.3:
                # returns, barriers and the like do not call anything
                f.stmts.append(("asm", rng.choice(["bx lr", "pop {r4, pc}", "mov pc, lr", "mov r0, pc", "ldr r0, [pc, #4]", "add sp, #8\\0Abx\\09lr",
                                                   "b 1f\\0A1:", "bl foo", "b.w bar", "svc 0", "bkpt", "dsb; isb", "cbz r0, 1f"])))
            elif asm:
                f.stmts.append(("asm", rng.choice(["nop", "cpsid i", "push {r4}\\0A bl foo", "mrs $0, BASEPRI"])))
            if asm and rng.random() < 0.2 or not p.thumb and rng.random() < o["p_asm"] * 0.2:
                # a compiler fence
                f.stmts.append(("asm", ""))
            while rng.random() < o["p_inline"]:
                f.stmts.append(("intr", rng.choice(W.INLINE + (W.MEMI if p.thumb else []))))
            rng.shuffle(f.stmts)
    P = "i8*" if p.typed else "ptr"
    if not p.thumb and rng.random() < o["p_mem"]:
        names = sorted({x for v in W.FAMILIES.values() for x in v} | {"memcmp"})
        p.undeclared = set()
        und = rng.random() < 0.3
        dead = rng.random() < 0.3
        for nm in rng.sample(names, rng.randint(0, 6)):
            p.namer.used.add(nm)
            p.namer.shown.add(nm)
            n0 = Name(nm, nm, None)
            if und and rng.random() < 0.5:
                p.undefined.append(n0)
                if rng.random() < 0.5:
                    p.versions = getattr(p, "versions", {})
                    p.versions[nm] = rng.choice(["@@GLIBC_2.14", "@GLIBC_2.14"])
                continue
            kind = rng.choice(["define", "declare"])
            g = p.fn(names=[n0], kind=kind, sig=(P, (P, P, "i32")),
                     stack=rng.choice([None, 0, 24]) if kind == "define" else None)
            g.local = g.stack
            if rng.random() < 0.5:  # e.g. __aeabi_memcpy4 is an alias of __aeabi_memcpy
                g.names.append(p.namer.any())
                g.ir_name = rng.randrange(2)
                if rng.random() < 0.5:
                    g.names.reverse()
                    g.ir_name = 1 - g.ir_name
        if dead:
            # declared, but not part of the program
            for nm in names:
                if nm not in p.namer.used and rng.random() < 0.5:
                    p.namer.used.add(nm)
                    p.namer.shown.add(nm)
                    p.extra_items.append(IR.declare(rng, nm, P, (P, P, "i32")))
        for f in p.fns:
            while f.kind == "define" and rng.random() < 0.4:
                f.stmts.append(("intr", rng.choice(W.MEMI)))
        p.order = p.order + [f.i for f in p.fns if f.i not in p.order]
    if not p.thumb and rng.random() < o["p_memcmp"]:
        for f in rng.sample(p.fns, 1):
            if f.kind == "define":
                g = p.live_func("memcmp")
                if g is not None:
                    f.stmts.append(("call", g, next(i for i, x in enumerate(g.names) if x.sym == "memcmp"), None))
                elif any(x.sym == "memcmp" for x in p.undefined):
                    f.stmts.append(("undef", next(x for x in p.undefined if x.sym == "memcmp"), ("i32", (P, P, "i32"))))
                else:
                    f.stmts.append(("line", "  %r = tail call i32 @memcmp({0} %a, {0} %b, i32 %n)".format(P)))
    if not o["p_unmatched"]:
        # keep every indirect call matched by at least one live function
        have = {s for g in p.fns for s in p.sigs_of(g)}
        for f in p.fns:
            f.stmts = [s for s in f.stmts if s[0] != "icall" or s[1] in have]
    if not p.thumb and rng.random() < o["p_undef"]:
        for _ in range(rng.randint(1, 3)):
            u = p.namer.plain()
            if not hasattr(p, "versions"):
                p.versions = {}
            p.versions[u.sym] = rng.choice(["", "@@GLIBC_2.2.5", "@@VERS_1", "@GLIBC_2.2.5", "@GLIBC_2.34"])
            if rng.random() < 0.05:
                u.sym, u.dem = "@" + u.sym, "@" + u.dem
                p.versions[u.sym] = ""
            u0 = type(u)(u.sym, u.dem, None)
            if rng.random() < 0.4:
                # another instance of a generic function, possibly of one that's linked or undefined as well
                like = [m for m in ([p.canonical(f) for f in p.fns] if rng.random() < 0.6 else []) + p.undefined if m.dehashed]
                u0 = p.namer.rust(path=rng.choice(like).comps if like and rng.random() < 0.5 else None)
            p.undefined.append(u0)
            for f in rng.sample(p.fns, min(len(p.fns), rng.randint(1, 3))):
                if f.kind == "define":
                    f.stmts.append(("undef", u0, rng.choice(sigs)))
    while rng.random() < o["p_gced"]:
        g = W.F(1000 + len(p.gced))
        g.names = [p.namer.any()]
        g.sig = rng.choice(sigs)
        g.kind = rng.choice(["define", "define", "declare"])
        g.stack = rng.choice([None, 0, 64])
        c = rng.choice(p.fns)
        g.stmts = [("call", c, None, None)] if g.kind == "define" and not c.no_ir else []
        p.gced.append(g)
        for f in p.fns:
            pass
    if rng.random() < o["p_cbdup"]:
        # weak copies in compiler_builtins that lost against the application's
        for f in rng.sample(p.fns, min(len(p.fns), 2)):
            if f.kind == "define" and f.module == "app" and not f.ir_alias:
                dup = IR.define(rng, f.irname.sym, *rng.choice(sigs),
                                [IR.call(rng, g.sig[0], g.irname.sym, g.sig[1]) for g in rng.sample(p.fns, 1) if not g.no_ir])
                p.cb_items.append(dup)
                if f.stack is not None:
                    f.stack_src = "both"
                    f.cb_stack = rng.choice([0, f.stack + 8])
    for _ in range(20):
        try:
            p.layout()
            p.encode()
            return p
        except AssertionError:
            rng.shuffle(p.order)
    return None
