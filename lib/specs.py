"""Profiles, verdict categories and extra probes of the checks on synthetic programs."""
import random
import re

import dot
import irgen as IR
import oracle
import runner
import sweeps
import synth
import tool
import world
from names import Name
from synth import OTHERS, THUMBS, V7, spec

T = runner.THOROUGH
CHECKS = {}


def register(pid, quick, thorough, rule, assumptions=(), extra=None, **kw):
    spec(pid=pid, **kw)
    CHECKS[pid] = lambda: synth.run(pid, quick, thorough, rule, list(assumptions), extra)


PRODUCTS = "the stand-in cargo hands over build products in the format of nightly-2023-11-13 / LLVM 17"
MACHINE = "the machine code is valid ARMv6-M/ARMv7-M code with correct mapping symbols"


def sweep(a):
    return getattr(sweeps, a[0])(a[1])


# ---------------------------------------------------------------- C03 decoding
def c03_extra(ck, binary):
    cats = synth.SPECS["C03"].cats
    jobs = [("enc_chunk", j) for j in sweeps.enc_jobs("C03", cats, runner.SEED)]
    for k in range(40 if T else 2):
        s = runner.SEED * 100 + k
        jobs.append(("far", ("C03", cats, sweeps.TV6, s, 15 << 20)))
        jobs.append(("far", ("C03", cats, sweeps.TV7, s, 15 << 20)))
        jobs.append(("far", ("C03", cats, sweeps.TV7, s + 50, 900 << 10)))
    for k in range(400 if T else 40):
        for t in (sweeps.TV6, sweeps.TV7):
            jobs.append(("short", ("C03", cats, t, runner.SEED * 1000 + k)))
    ck.map(sweep, jobs)


register("C03", 2500, 60000,
         "random Thumb programs (calls, conditional and unconditional tail branches, several sections, unsized and same-named "
         "functions) with ground-truth branch targets, sweeps over every 16-bit and a sample of 32-bit non-branch encodings and "
         "over branch distances; non-trivial: at least one machine-code call between two functions",
         [MACHINE, PRODUCTS], c03_extra, cats={"edge-missing", "edge-extra", "nodes"}, targets=THUMBS,
         nontrivial=lambda p, x, g: any(f.mcalls for f in p.fns),
         profile=dict(n=(3, 14), p_ircall=0.0, p_icall=0.05, p_tail=0.4, p_condtail=0.4, p_sect=0.3, p_unsized=0.3,
                      p_none=0.1, p_dup=0.3, p_far=0.1),
         seen=lambda p, x, g: {"machine-code call pairs": sum(len(f.mcalls) for f in p.fns)})


# ------------------------------------------------------------ C04 data in code
def c04_post(p, pr, binary, r, g, x, rng, see):
    """the same program with its data words changed has the same call graph"""
    if g is None:
        return []
    k = rng.randrange(3)
    p.rng.setstate(p.rng_state)
    for f in p.fns:
        f.code = [("data", bytes([0] * len(c[1])) if k == 0 else b"\xff" * len(c[1]) if k == 1 else world.hostile_words(rng, len(c[1]))[:len(c[1])])
                  if c[0] == "data" else c for c in f.code]
    pr.populate(**p.files())
    r2, g2, bad = synth.run_and_parse(pr, binary)
    see("data-swapped twins")
    if g2 is not None and oracle.canon(g) != oracle.canon(g2):
        bad.append(("data-sensitive", "the call graph changes when only data words inside the code sections change"))
    return bad


register("C04", 2000, 40000,
         "random Thumb programs rich in literal pools and inline tables whose bytes look like branches, frame set-up and indirect "
         "branches; each is run twice, with different data words; non-trivial: data between instructions",
         [MACHINE, PRODUCTS], cats={"edge-missing", "edge-extra", "nodes", "local", "unknown-extra", "unknown-missing", "data-sensitive", "max"},
         targets=THUMBS, nontrivial=lambda p, x, g: any(c[0] == "data" for f in p.fns for c in f.code), post=c04_post,
         profile=dict(n=(2, 14), code=dict(pool=1.0), p_none=0.3, p_dtags=0.5, p_ircall=0.2, p_mind=0.15, p_declare=0.3, p_unsized=0.1),
         seen=lambda p, x, g: {"data islands": sum(c[0] == "data" for f in p.fns for c in f.code)})


# ------------------------------------------------------------ C05 local usage
def c05_extra(ck, binary):
    cats = {"local"}
    jobs = [("sp_chunk", j) for j in sweeps.sp_jobs("C05", cats, runner.SEED)]
    jobs += [("enc_chunk", j) for j in sweeps.enc_jobs("C05", cats, runner.SEED, 1.0 if T else 0.4)]
    ck.map(sweep, jobs)


register("C05", 2500, 60000,
         "random programs whose functions' frames are known (recorded sizes, hand-written prologues built from every SP-moving "
         "instruction, inline assembly), plus one function per SP-modifying and per plain encoding; non-trivial: some frame is not 0",
         [MACHINE, PRODUCTS, "hand-written code sets its frame up in straight-line prologues"], c05_extra,
         cats={"local"}, nontrivial=lambda p, x, g: any(f.local for f in p.fns),
         profile=dict(n=(3, 16), p_none=0.35, p_declare=0.3, p_asm=0.4, p_outlined=0.2, p_spx=0.15, p_nostack=0.3, p_zero=0.05,
                      p_ircall=0.3, p_unsized=0.25),
         seen=lambda p, x, g: {"functions with a known frame": sum(f.local is not None for f in p.fns),
                               "functions of unknown usage": sum(f.local is None for f in p.fns),
                               "frames found from machine code": sum(f.stack is None and f.local is not None for f in p.fns)})


# ------------------------------------------------------------ C06 / C07 algebra
def c06_vary(rng):
    m = rng.randrange(6)
    if m == 0:
        return dict(n=(40, 150), calls=(0, 3), cyc=0.0)          # wide and deep
    if m == 1:
        return dict(n=(30, 90), calls=(1, 2), cyc=0.15)          # long chains, a few cycles
    if m == 2:
        return dict(n=(3, 10), calls=(2, 5), cyc=1.0)            # everything in one cycle
    if m == 3:
        return dict(n=(3, 8), p_allzero=1.0, cyc=0.8, p_nostack=0)  # cycles that use no stack
    if m == 4:
        return dict(n=(3, 25), p_nostack=0.6, p_none=0.2)
    return dict(n=(3, 30), stacks=[1 << 30, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40, 7])


register("C06", 4000, 90000,
         "random call graphs (chains, diamonds, nested and overlapping cycles, unknown callees, sizes up to 2^40); the printed "
         "maxima are recomputed from the printed edges and from the known program; non-trivial: at least one node with a callee",
         [PRODUCTS], cats={"max", "model-max"}, vary=c06_vary, nontrivial=lambda p, x, g: bool(g.edges),
         profile=dict(p_none=0.05, p_undef=0.1, p_unmatched=0.2),
         seen=lambda p, x, g: {"exact maxima": sum(n.maxkind == "=" for n in g.nodes.values()),
                               "lower bounds": sum(n.maxkind == ">=" for n in g.nodes.values())})
register("C07", 4000, 90000,
         "random call graphs with self-recursion, mutual recursion, cycles through indirect calls and nested cycles; clusters are "
         "recomputed as the strongly connected components of the printed edges; non-trivial: at least one cycle",
         [PRODUCTS], cats={"cycles", "cycle-max"},
         vary=lambda rng: dict(cyc=rng.choice([0.05, 0.2, 0.6, 1.0]), n=rng.choice([(2, 8), (3, 20), (20, 70)])) if rng.random() < 0.9 else
         dict(n=(40, 120), small_cycles=True, calls=(1, 2), p_icall=0.02),
         nontrivial=lambda p, x, g: bool(g.clusters), profile=dict(p_icall=0.4, p_none=0.05, p_zero=0.4),
         seen=lambda p, x, g: {"nodes in cycles": sum(len(c) for _, c in g.clusters)})

# ------------------------------------------------------- C08 / C09 indirect calls
register("C08", 3500, 80000,
         "random programs with indirect calls and near-miss signatures (one type different, other arity), aliases with several "
         "signatures, functions only declared; non-trivial: an indirect call with at least one matching function",
         [PRODUCTS, "a function pointer call has the signature of its callee (Rust function pointers and vtables)"],
         cats={"ind-missing", "ind-extra", "type", "ind-unknown"}, nontrivial=lambda p, x, g: any(s for d in x.ind.values() for s in d.values()),
         profile=dict(p_icall=0.7, nsigs=4, p_near=0.9, p_none=0.03, p_alias=0.3, p_aliassig=0.4, p_declare=0.25, p_unmatched=0.1, p_typed=0.12, p_gced=0.5, p_crowd=0.01),
         seen=lambda p, x, g: {"indirect call types": sum(len(d) for d in x.ind.values()),
                               "matching callees": sum(len(s) for d in x.ind.values() for s in d.values())})
register("C09", 3500, 80000,
         "random programs with functions of unknown type, unmatched indirect calls, machine-code indirect branches, missing size "
         "records and unknowable frames; non-trivial: something in the program is uncertain",
         [MACHINE, PRODUCTS], cats={"unknown-missing", "unknown-extra", "claimed-exact"},
         nontrivial=lambda p, x, g: x.untyped or bool(x.q) or any(f.local is None for f in p.fns),
         profile=dict(p_none=0.1, p_icall=0.4, p_unmatched=0.3, p_mind=0.6, p_asm=0.25, p_declare=0.25, p_nostack=0.15, p_spx=0.15, p_undef=0.2),
         seen=lambda p, x, g: {"programs with untyped functions": int(x.untyped), "functions with indirect branches": len(x.q)})

# ------------------------------------------------------- C10 runtime library calls
register("C10", 3500, 80000,
         "random non-Thumb programs with llvm.memcpy/memmove/memset and memcmp calls while any subset of the runtime functions is "
         "linked, aliased, undefined or absent; non-trivial: such a call with at least one linked runtime function",
         [PRODUCTS], cats={"edge-missing", "edge-extra", "nodes", "unknown-extra"}, targets=OTHERS,
         nontrivial=lambda p, x, g: any(s[0] == "intr" for f in p.fns for s in f.stmts),
         profile=dict(p_mem=1.0, p_memcmp=0.7, n=(2, 10), p_undef=0.1, p_inline=0.4),
         seen=lambda p, x, g: {"intrinsic calls": sum(s[0] == "intr" for f in p.fns for s in f.stmts)})


# ------------------------------------------------------- C11 functions <-> nodes
register("C11", 3500, 80000,
         "random programs with aliases, untyped symbols at the same address, same-named local functions, functions dropped by the "
         "linker, several code sections; non-trivial: an alias, a duplicate name or a dropped function",
         [PRODUCTS], cats={"nodes"},
         nontrivial=lambda p, x, g: bool(p.gced) or any(len(f.names) > 1 or f.notypes for f in p.fns),
         profile=dict(p_alias=0.5, p_notype=0.3, p_gced=0.7, p_dup=0.5, p_sect=0.3, p_none=0.25, p_cbdup=0.3, p_undef=0.2,
                      p_outlined=0.15),
         seen=lambda p, x, g: {"functions": len(p.fns), "alias symbols": sum(len(f.names) - 1 for f in p.fns),
                               "functions dropped by the linker": len(p.gced)})


# ------------------------------------------------------- C12 start point
def names_of(p, f):
    out = []
    for n in f.names:
        out.append((n.sym, "symbol"))
        if n.dehashed:
            out.append((n.dehashed, "dehashed"))
        if n.dem != n.sym:
            out.append((n.dem, "demangled"))
    return out


def c12_post(p, pr, binary, r, g, x, rng, see):
    bad = []
    if g is None:
        return bad
    succ = g.succ()
    count = {}
    for f in p.fns:
        for n in set(k for k, _ in names_of(p, f)):
            count[n] = count.get(n, 0) + 1
        for n in f.notypes:
            count[n] = count.get(n, 0) + 1
    labels = {}
    for i, n in g.nodes.items():
        if not n.dashed and not oracle.is_q(n):
            labels.setdefault(n.name, []).append(i)
    for f in rng.sample(p.fns, min(3, len(p.fns))):
        nm, kind = rng.choice(names_of(p, f))
        if count[nm] != 1 or not nm.strip() or nm.startswith("-") or any(nm in (n.sym, n.dem, n.dehashed) for n in p.undefined):
            continue
        here = [i for a in {k for k, _ in names_of(p, f)} | set(f.notypes) for i in labels.get(a, [])]
        lab = x.nodes[f.i][0]
        if len(labels.get(lab, [])) == 1:
            root = labels[lab][0]
        elif len(set(here)) == 1:
            root = here[0]
        else:
            continue
        reach, todo = {root}, [root]
        while todo:
            for m in succ[todo.pop()]:
                if m not in reach:
                    reach.add(m)
                    todo.append(m)
        sub = rng.random() < 0.5  # `cargo call-stack ..` passes the subcommand's name first
        r2, g2, b = synth.run_and_parse(pr, binary, args=["call-stack"] * sub + pr.args(start=nm))
        if g2 is None and sub:
            b = [("start", f"`cargo call-stack {' '.join(pr.args(start=nm))}` fails: {synth.failure_text(r2)}")]
        bad += b
        if g2 is None:
            continue
        see("start points given as " + kind)
        see("as a cargo subcommand", int(sub))
        sub = dot.G()
        sub.nodes = {i: g.nodes[i] for i in reach}
        sub.edges = [e for e in g.edges if e[0] in reach and e[1] in reach]
        # cycles are not cut apart by following edges forward
        sub.clusters = [c for c in g.clusters if c[1] and c[1][0] in reach]
        if oracle.canon(sub) != oracle.canon(g2):
            a = sorted(n.name for n in sub.nodes.values())
            c = sorted(n.name for n in g2.nodes.values())
            bad.append(("start", f"START {nm!r} ({kind} name of {lab!r}): expected exactly the {len(a)} nodes reachable from it, got "
                        f"{len(c)}; missing {[n for n in a if n not in c][:4]}, extra {[n for n in c if n not in a][:4]}"))
        see("nodes cut off", len(g.nodes) - len(reach))
    # a start point that does not exist, or that is the name of several functions, is reported and filters nothing
    bogus = ["no_such_function_in_this_program"] if rng.random() < 0.2 else []
    several = {}
    # names that almost are those of a function, and labels of nodes that are not functions
    valid = {k for f in p.fns for k, _ in names_of(p, f)} | {k for f in p.fns for k in f.notypes} | {k for n in p.undefined for k in (n.sym, n.dem, n.dehashed)}
    if rng.random() < 0.6:
        f = rng.choice(p.fns)
        nm, _ = rng.choice(names_of(p, f))
        alike = [nm.split("::")[-1], nm.rpartition("::")[0], nm.partition("::")[2], nm.swapcase(), nm + "x", nm[:-1], nm[1:], " " + nm, nm + " ",
                 nm + "::h", nm + "::h0123456789abcde", nm + "::h0123456789abcdef", nm.lstrip("<"), nm.rstrip("}0123456789"), nm[1:-1], nm + "()",
                 "?", "void ()*", "*", "::", '"' + nm + '"']
        alike = [a for a in alike if a.strip() and a not in valid and a[0] not in "-$" and "\0" not in a]
        if alike:
            bogus.append(rng.choice(alike))
            see("almost names")
    for f in p.fns:
        for nm, kind in names_of(p, f):
            several.setdefault(nm, {}).setdefault(f.i, set()).add(kind)
    bogus += [nm for nm, fs in several.items() if len(fs) > 1 and all(k == {"dehashed"} for k in fs.values()) and not nm.startswith("-")
              and not any(nm in f.notypes for f in p.fns)
              # functions whose symbols are equal too cannot be told apart by name at all
              and all(sum(n.sym == m.sym for g2 in p.fns for m in g2.names) == 1 for f in p.fns if f.i in fs for n in f.names) and not any(nm in (n.sym, n.dem, n.dehashed) for n in p.undefined)][:2]
    for nm in bogus:
        r2, g2, b = synth.run_and_parse(pr, binary, start=nm)
        bad += b
        if g2 is not None:
            see("unknown start points" if nm == "no_such_function_in_this_program" else "ambiguous start points")
            if oracle.canon(g2) != oracle.canon(g):
                bad.append(("start", f"START {nm!r}, which is not the name of exactly one function of the program, changes the graph"))
            if "start point" not in r2.errtext.lower() and "multiple" not in r2.errtext.lower():
                bad.append(("start", f"START {nm!r} that is not the name of exactly one function of the program is not reported"))
    return bad


register("C12", 1200, 25000,
         "random programs run with and without START, given as symbol, demangled or hash-less name of any alias; the filtered graph "
         "must be the unfiltered one restricted to what is reachable; non-trivial: always more than two nodes",
         [PRODUCTS], cats={"start", "max", "cycles"}, post=c12_post,
         profile=dict(n=(4, 25), p_alias=0.35, p_hashdup=0.4, p_undef=0.1, p_none=0.05, p_notype=0.2))


# ------------------------------------------------------- C13 top
def c13_post(p, pr, binary, r, g, x, rng, see):
    if g is None:
        return []
    start = None
    if rng.random() < 0.4:
        f = rng.choice(p.fns)
        lab = x.nodes[f.i][0]
        if sum(n.name == lab for n in g.nodes.values()) == 1 and not lab.startswith("-") and lab.strip():
            start = f.names[0].sym
            r, g, bad = synth.run_and_parse(pr, binary, start=start)
            if g is None:
                return bad
    r2, t, bad = synth.run_and_parse(pr, binary, fmt="top", start=start)
    if t is None:
        return bad
    mx, rows = t
    see("rows", len(rows))
    if any("\n" in n.name for n in g.nodes.values()):
        return bad
    want = sorted((n.local or 0, n.name) for n in g.nodes.values())
    if sorted(rows) != want:
        a = [q for q in want if q not in rows][:3]
        b = [q for q in rows if q not in want][:3]
        bad.append(("top", f"rows are not the functions of the call graph with their local usage: missing {a}, extra {b}"))
    us = [u for u, _ in rows]
    if us != sorted(us, reverse=True):
        bad.append(("top", "rows are not sorted by decreasing usage"))
    ms = [n.max for n in g.nodes.values() if n.max is not None]
    if start is not None and ms:
        see("with a start point")
        # the start point's maximum is the largest one reachable from it
        if mx is not None and mx != max(ms):
            bad.append(("top", f"MAX is {mx}, the call graph's maximum is {max(ms)}"))
    elif ms and mx is not None and mx != max(ms):
        bad.append(("top", f"MAX is {mx}, the call graph's maximum is {max(ms)}"))
    if ms and mx is None:
        bad.append(("top", "no MAX line although maxima are known"))
    if not ms and mx is not None:
        bad.append(("top", f"MAX {mx} although no maximum is known"))
    return bad


register("C13", 1800, 40000,
         "random programs printed as DOT and as top list, with and without START: rows = nodes, sorted, and MAX = the largest maximum",
         [PRODUCTS], cats={"top"}, post=c13_post, profile=dict(n=(2, 25), p_weird=0.15, p_undef=0.1, p_none=0.05, p_nostack=0.2),
         vary=lambda rng: dict(stacks=[1 << 31, (1 << 32) + 5, 1 << 32, 1 << 33, 40, 8]) if rng.random() < 0.1 else {})

# ------------------------------------------------------- C14 names
register("C14", 3000, 60000,
         "random programs with mangled, generic, colliding, hash-looking and hostile symbol names; the output goes through a strict "
         "DOT parser and labels are compared with independently known demanglings; non-trivial: a mangled or hostile name",
         [PRODUCTS], cats={"label", "format", "nodes", "type"},
         nontrivial=lambda p, x, g: any(f.no_ir or f.names[0].dehashed for f in p.fns),
         profile=dict(n=(2, 16), p_weird=0.35, p_hashdup=0.6, p_alias=0.1, p_none=0.2, p_undef=0.3, p_notype=0.03, p_dup=0),
         seen=lambda p, x, g: {"mangled names": sum(bool(n.dehashed) for f in p.fns for n in f.names),
                               "hostile names": sum(f.no_ir for f in p.fns)})


# ------------------------------------------------------- C19 IR call forms
FORMS = [
    ("  {lhs}tail call {t} @{f}({a})", True), ("  {lhs}call {t} @{f}({a}) #5, !dbg !33", True),
    ("  {lhs}musttail call {t} @{f}({a})", False), ("  {lhs}notail call {t} @{f}({a})", False),
    ("  {lhs}call fastcc noundef zeroext {t} @{f}({a})", True),
    ("  {lhs}call {t} @{f}({a}) [ \"deopt\"(i32 1) ]", False),
    ("  {lhs}call {t} ({p}) @{f}({a})", False),
    ("  {lhs}call {t} (...) @{f}({a})", False),
    ("  {lhs}call addrspace(1) {t} @{f}({a})", False),
    ("  {lhs}call cc 10 {t} @{f}({a})", False), ("  {lhs}call x86_fastcallcc {t} @{f}({a})", False),
    ("  {lhs}call arm_aapcscc {t} @{f}({a})", False), ("  {lhs}call preserve_mostcc {t} @{f}({a})", False),
    ("  {lhs}call swiftcc {t} @{f}({a})", False), ("  {lhs}call fast {t} @{f}({a})", False),
    ("  {lhs}call nnan ninf {t} @{f}({a})", False),
    ("  {lhs}call inreg {t} @{f}({a})", False), ("  {lhs}call range(i32 0, 5) {t} @{f}({a})", False),
    ("  {lhs}call align(8) {t} @{f}({a})", False),
    ("  {lhs}call dereferenceable_or_null(8) {t} @{f}({a})", False),
    ("  {lhs}invoke {t} @{f}({a})\n          to label %b unwind label %c", True),
    ("  {lhs}invoke fastcc {t} @{f}({a}) #3\n          to label %b unwind label %c, !dbg !4", False),
    ("  {lhs}call {t} bitcast (ptr @{f} to ptr)({a})", True),
    ("  {lhs}call {t} addrspacecast (ptr @{f} to ptr)({a})", False),
    ("  {lhs}call {t} inttoptr (i32 ptrtoint (ptr @{f} to i32) to ptr)({a})", False),
    ("  {lhs}call {t} getelementptr (i8, ptr @{f}, i32 0)({a})", False),
    ("\t{lhs}call {t} @{f}({a})", False),
    ("  {lhs}tail  call  {t}  @{f}({a})", False),
    ("  {lhs}call {t} @\"{f}\"({a})", True),
    ("  {lhs}call void asm sideeffect \"bl {f}\", \"~{{memory}}\"()\n  {lhs}call {t} @{f}({a})", True),
]
FORMS += [(f.replace("call", "invoke") + "\n          to label %bb2 unwind label %cleanup", False) for f, _ in FORMS
          if f.startswith("  {lhs}call") and f.count("call") == 1]


def c19_mutate(p, rng):
    """append one call in an unusual form"""
    cands = [f for f in p.fns if f.kind == "define"]
    tgt = [g for g in p.fns if g.kind == "define" and not g.no_ir and "..." not in g.sig[1]]
    p.form = None
    if not cands or not tgt or rng.random() < 0.15:
        return
    f, g = rng.choice(cands), rng.choice(tgt)
    form, usual = rng.choice(FORMS)
    ret, params = g.sig
    lhs = "" if ret == "void" else "%res = "
    argtext = ", ".join(f"{t} %v{k}" for k, t in enumerate(params))
    if rng.random() < 0.3 and form.startswith(("  {lhs}call", "  {lhs}tail", "  {lhs}notail", "  {lhs}musttail", "\t", "  {lhs}invoke")) and "  @{f}(" in form.replace("} @{f}(", "}  @{f}(").replace(") @{f}(", ")  @{f}(") \
            and "asm" not in form and "(...)" not in form:
        line = form.replace(" @{f}", " %{f}").format(lhs=lhs, t=ret, f=rng.choice(["fp", "3", "_5.i.i", "0"]), a=argtext, p=", ".join(params))
        p.form = (form.replace("@", "%"), usual, f, g)
        f.stmts.insert(rng.randint(0, len(f.stmts)), ("icall", g.sig, line))
        return
    line = form.format(lhs=lhs, t=ret, f=g.irname.sym if "\"" not in form else g.irname.sym, a=argtext, p=", ".join(params))
    if "@" + g.irname.sym in line and IR.quote(g.irname.sym) != g.irname.sym:
        line = line.replace("@" + g.irname.sym, "@" + IR.quote(g.irname.sym))
    p.form = (form, usual, f, g)
    f.stmts.insert(rng.randint(0, len(f.stmts)), ("form", line, g))


def c19_loud(p, r):
    """an unusual form may be refused, but not silently"""
    return p.form is not None and not p.form[1] and r.rc not in (0,) and not r.hung and r.rc > 0 and not r.out.strip()


register("C19", 4000, 90000,
         "random non-Thumb programs over all the call, invoke and declaration spellings that rustc/LLVM 17 print, each with one "
         "further call in a usual or unusual form: the call is an edge, or (unusual forms only) the run fails without a graph",
         [PRODUCTS], cats={"edge-missing", "edge-extra", "ind-missing", "ind-extra", "type", "unknown-missing", "unknown-extra", "ind-unknown"}, targets=OTHERS, mutate=c19_mutate,
         nontrivial=lambda p, x, g: any(x.direct.values()), profile=dict(n=(2, 10), p_bitcast=0.1, calls=(0, 4), p_undef=0.15, p_typed=0.12),
         seen=lambda p, x, g: {"form " + p.form[0].strip()[:60]: 1} if p.form else {})
synth.SPECS["C19"].loud = c19_loud


# ------------------------------------------------------- C20 determinism
ENVIRONMENT = {"RUST_LOG": ["off", "error", "info", "trace", "cargo_call_stack=debug", "nonsense,,="], "LC_ALL": ["C", "de_DE.UTF-8", "tr_TR.UTF-8", ""],
               "TZ": ["UTC", "Asia/Tokyo"], "COLUMNS": ["1", "20", "x"], "NO_COLOR": ["1"], "TERM": ["dumb", "xterm-256color"],
               "RUST_BACKTRACE": ["0", "1", "full"], "HOME": ["/", "/nonexistent"], "USER": ["", "root"], "PWD": ["/"], "CI": ["true"],
               "CARGO_PKG_NAME": ["compiler_builtins"], "OUT_DIR": ["/tmp"], "RUSTFLAGS": ["-g"], "PROFILE": ["debug"], "CARGO_INCREMENTAL": ["1"],
               "CARGO_PROFILE_RELEASE_LTO": ["off"], "RUST_MIN_STACK": ["65536"], "TMPDIR": ["/nonexistent"], "CARGO_TERM_COLOR": ["never"],
               "CLICOLOR_FORCE": ["1"], "SHELL": ["/bin/false"], "DEBUG": ["1"], "VERBOSE": ["1"], "CARGO_CALL_STACK": ["1"]}


def c20_post(p, pr, binary, r, g, x, rng, see):
    bad = []
    if g is None:
        return bad
    c = oracle.canon(g)
    for k in range(2):
        env = {}
        if k:
            env = {n: rng.choice(v) for n, v in ENVIRONMENT.items() if rng.random() < 0.4}
            see("environment variables changed", len(env))
        r2, g2, b = synth.run_and_parse(pr, binary, env=env)
        bad += b
        if g2 is not None:
            see("repeated runs")
            if r2.out == r.out:
                see("byte-identical repetitions")
            if oracle.canon(g2) != c:
                bad.append(("unstable", "two runs on the same build products print different call graphs: " + oracle.diff(g, g2)))
    # the same program, its symbols, IR items and records in another order
    p.rng = random.Random(rng.random())
    p.tag_suffix = not p.tag_suffix
    files = p.files()
    pr.remove()
    pr2 = tool.FakeProject(name=pr.name, kind=pr.kind, target=pr.target, hash_="%016x" % rng.getrandbits(64))
    try:
        pr2.populate(**files)
        r2, g2, b = synth.run_and_parse(pr2, binary)
        bad += b
        if g2 is not None:
            see("reordered twins")
            if oracle.canon(g2) != c:
                bad.append(("unstable", "the order of symbols, IR items and records changes the call graph: " + oracle.diff(g, g2)))
    finally:
        pr2.remove()
    return bad


register("C20", 1200, 25000,
         "each random program is run three times and once more with its symbols, IR items, stack-size records, archive members and "
         "mapping-symbol suffixes reordered; graphs are compared up to node numbering",
         [PRODUCTS], cats={"unstable"}, post=c20_post, profile=dict(n=(3, 25), p_none=0.05, p_undef=0.1, p_hashdup=0.3, p_alias=0.4))


# ------------------------------------------------------- C22 stack-size records
def c22_mutate(p, rng):
    p.extra_members = []
    if rng.random() < 0.4:
        # objects that are not part of compiler_builtins' Rust code say something else
        import elf as E
        ents = [([f.irname.sym], rng.choice([0, 4096])) for f in p.fns if f.stack is not None]
        p.extra_members = [(rng.choice(["addsf3.o.bak", "notes.txt", "lib.rmeta.o.d"]),
                            E.stack_sizes_object(p.arch, ents, p.thumb))]
    # records of functions that are not in the program
    p.extra_app_stack = [([f"dropped_{k}"], rng.randint(0, 500)) for k in range(rng.randint(0, 4))]
    p.extra_cb_stack = [([f"dropped_cb_{k}"], rng.randint(0, 500)) for k in range(rng.randint(0, 4) if rng.random() < 0.9 else rng.choice([50, 200, 400]))]
    if rng.random() < 0.1:
        p.nmembers = rng.choice([8, 20, 60])


register("C22", 3000, 60000,
         "random programs whose size records live in the application object, in compiler_builtins, in both (with different sizes), or "
         "nowhere, with records of dropped functions and foreign archive members; non-trivial: a record that must be used",
         [PRODUCTS], cats={"local", "max"}, mutate=c22_mutate, nontrivial=lambda p, x, g: any(f.stack is not None for f in p.fns),
         vary=lambda rng: dict(p_nostack=rng.choice([0.0, 0.2, 0.5])),
         profile=dict(p_cb=0.5, p_cbdup=0.7, p_none=0.05, p_alias=0.3, stacks=[0, 1, 63, 64, 127, 128, 255, 16383, 16384, 1 << 21, (1 << 28) + 5]),
         seen=lambda p, x, g: {"records in both sources": sum(f.stack_src == "both" and f.stack is not None for f in p.fns)})


# ------------------------------------------------------------- C24 announcements
GAPS = {
    "usage": r"no (?:stack usage information|machine code available) for `(.*)`$",
    "type": r"no type information for `(.*)`$",
    "asm": r"assuming that asm!.* in `(.*)`$",
    "indirect": r"`(.*)` performs an indirect function call",
    "intrinsic": r"assuming that `(.*)` directly lowers to machine code$",
}
ANNOUNCED = ("llvm.abs.", "llvm.bswap.", "llvm.ctlz.", "llvm.cttz.", "llvm.sadd.", "llvm.smul.", "llvm.ssub.", "llvm.uadd.", "llvm.umax.",
             "llvm.umin.", "llvm.umul.", "llvm.usub.", "llvm.vector.reduce.")


def c24_expected(p):
    e = {k: [] for k in GAPS}
    lowered = set()
    for f in p.fns:
        c = p.canonical(f).sym
        if f.local is None:
            e["usage"].append(c)
        if f.kind == "none" and not f.outlined and not f.alias_sigs:
            e["type"].append(c)
        if f.kind == "define":
            if any(s[0] == "asm" and s[1] for s in f.stmts):
                e["asm"].append(c)
            lowered |= {s[1] for s in f.stmts if s[0] == "intr" and s[1].startswith(ANNOUNCED)}
        if p.thumb and (f.mindirect or f.asm_branch):
            e["indirect"].append(c)
    if not p.thumb:
        e["intrinsic"] = list(lowered)
    return {k: sorted(v) for k, v in e.items()}


def c24_post(p, pr, binary, r, g, x, rng, see):
    if g is None:
        return []
    got = {k: [] for k in GAPS}
    rep = {n: p.canonical(f).sym for f in p.fns for n in [m.sym for m in f.names] + f.notypes}
    untyped = False
    for line in r.errtext.split("\n"):
        if "WARN" not in line.split("]")[0]:
            continue
        text = line.split("] ", 1)[-1]
        untyped |= "untyped" in text
        for k, rx in GAPS.items():
            m = re.search(rx, text)
            if m:
                got[k].append(rep.get(m.group(1), m.group(1)))
                break
    bad = []
    want = c24_expected(p)
    for k in GAPS:
        see("announcements: " + k, len(want[k]))
        if sorted(got[k]) != want[k]:
            # inline assembly without any instruction need not be announced
            free = [p.canonical(f).sym for f in p.fns if k == "asm" and f.kind == "define" and any(s == ("asm", "") for s in f.stmts)]
            miss, more = list(want[k]), []
            for n in got[k]:
                if n in miss:
                    miss.remove(n)
                elif n in free:
                    free.remove(n)
                else:
                    more.append(n)
            if not miss and not more:
                continue
            bad.append(("unannounced" if miss else "announced", f"warnings about {k}: missing for {miss[:5]}, not expected for {more[:5]}"))
    if untyped != x.untyped:
        bad.append(("unannounced", f"functions of unknown type: {x.untyped}, warning that calls cannot be bounded: {untyped}"))
    # the graph shows the same gaps
    n = sum(v.local is None and not v.dashed and not oracle.is_q(v) for v in g.nodes.values())
    shown = len(got["usage"]) + len({u for v in x.undef.values() for u in v})
    if any(f.stack is not None for f in p.fns) and n != shown:
        bad.append(("unannounced", f"{n} functions of the graph have unknown usage, {shown} are announced or outside the program"))
    return bad


register("C24", 3000, 60000,
         "random programs with functions of unknown usage or type, inline assembly, untypable indirect calls and intrinsics: the warnings "
         "on standard error name exactly those, once each; non-trivial: something must be announced",
         [PRODUCTS], cats={"unannounced", "announced"}, post=c24_post, nontrivial=lambda p, x, g: any(c24_expected(p).values()),
         vary=lambda rng: dict(p_nostack=rng.choice([0.0, 0.2, 0.6]), p_none=rng.choice([0.0, 0.2]), p_asm=rng.choice([0.1, 0.5])),
         profile=dict(p_alias=0.3, p_outlined=0.1, p_spx=0.15, p_declare=0.2, p_mind=0.3, p_inline=0.5))


# ------------------------------------------- C01 / C02 beyond what the real programs do
def any_profile(rng):
    s = synth.SPECS[rng.choice([k for k in sorted(synth.SPECS) if k not in ("C01", "C02")])]
    d = dict(s.profile)
    if s.vary:
        d.update(s.vary(rng))
    return d


spec(pid="C01", cats={"exceeded", "local-under"}, targets=THUMBS, vary=any_profile,
     seen=lambda p, x, g: {"exact maxima of synthetic programs": sum(n.maxkind == "=" for n in g.nodes.values())})
spec(pid="C02", cats={"edge-missing", "ind-missing", "unknown-missing", "ind-unknown"}, vary=any_profile,
     seen=lambda p, x, g: {"call pairs of synthetic programs": sum(map(len, x.direct.values())) + sum(len(s) for d in x.ind.values() for s in d.values())})


def c01_jobs():
    cats = synth.SPECS["C01"].cats
    return [("sp_chunk", j) for j in sweeps.sp_jobs("C01", cats, runner.SEED)]


def c02_jobs():
    cats = synth.SPECS["C02"].cats
    jobs = [("enc_chunk", j) for j in sweeps.enc_jobs("C02", cats, runner.SEED, 1.0 if T else 0.4)]
    for k in range(20 if T else 1):
        s = runner.SEED * 100 + k
        jobs += [("far", ("C02", cats, sweeps.TV6, s, 15 << 20)), ("far", ("C02", cats, sweeps.TV7, s, 15 << 20)),
                 ("far", ("C02", cats, sweeps.TV7, s + 50, 900 << 10))]
    return jobs + [("short", ("C02", cats, t, runner.SEED * 1000 + k)) for k in range(200 if T else 20) for t in (sweeps.TV6, sweeps.TV7)]
