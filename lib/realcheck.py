"""C01 and C02: random programs built by the real toolchain, analysed by the
tool and then executed under the monitors of real.py."""
import random

import real
import realgen
import runner
import tool

BIN = None
THUMB = ["thumbv6m-none-eabi", "thumbv7m-none-eabi", "thumbv7em-none-eabi", "thumbv7em-none-eabihf"]
# LLVM merges `aa` and `bb`, whose types differ, after the tool has read the types
MERGED = r'''#![no_std]
#![no_main]
use core::panic::PanicInfo;
use core::ptr;
#[panic_handler] fn p(_: &PanicInfo) -> ! { loop {} }
static mut X: u32 = 0;
#[inline(always)] fn inp() -> u32 { unsafe { ptr::read_volatile(0x4000_0000 as *const u32) } }
#[inline(never)] fn work(y: &mut [u32; 20]) { for i in y.iter_mut() { unsafe { *i += ptr::read_volatile(&X) } } }
#[no_mangle] extern "C" fn aa() -> usize { let mut y = [1u32; 20]; work(&mut y); unsafe { ptr::write_volatile(&mut X, y[3]); ptr::read_volatile(&X as *const u32 as *const usize) }}
#[no_mangle] extern "C" fn bb() -> *const u8 { let mut y = [1u32; 20]; work(&mut y); unsafe { ptr::write_volatile(&mut X, y[3]); ptr::read_volatile(&X as *const u32 as *const *const u8) }}
#[inline(never)] extern "C" fn cc() -> *const u8 { unsafe { ptr::write_volatile(&mut X, 3);ptr::read_volatile(&X as *const u32 as *const *const u8) } }
static mut F: [extern "C" fn()->usize; 1] = [aa];
static mut G: [extern "C" fn()->*const u8; 2] = [cc, bb];
#[inline(never)] fn via_g() { unsafe { let i = inp() as usize; ptr::read_volatile(&G[i&1])(); ptr::write_volatile(&mut X, 1); } }
#[inline(never)] fn via_f() { unsafe { ptr::read_volatile(&F[0])(); ptr::write_volatile(&mut X, 2); } }
#[no_mangle] pub extern "C" fn _start() -> ! {
  via_g(); via_f();
  loop {} }
'''
WANT = {"C01": ("max", "local"), "C02": ("call", "fails", "format")}
REFUSED = "BUG: unhandled llvm intrinsic"    # documented refusal outside of Thumb


def runner_seed(seed, k):
    return seed * 100003 + (k if isinstance(k, int) else 99991)


def one(pid, pr, seed, k, runs, limit, rec):
    name = f"e{k}"
    tag = f"{pr.target} opt-level {pr.opt} program {k} seed {seed}"
    if k == "merged":
        src = MERGED
    else:
        src = realgen.program(random.Random(f"{pid}:{seed}:{pr.target}:{pr.opt}:{k}"), pr.target)
    r = real.program_case(BIN, pr, name, src, runner_seed(seed, k), runs, limit, tag)
    rec["evals"] += 1
    for c, n in r["seen"].items():
        rec["seen"][c] = rec["seen"].get(c, 0) + n
    if pr.target in THUMB or not any(REFUSED in t for _, t in r["bad"]):
        for cat, text in r["bad"]:
            if cat in WANT[pid]:
                sig = f"{pid}:{cat}"
                if k == "merged" and (cat == "call" and "::via_g::" in text and " calls aa " in text or cat == "max" and "::via_g::" in text):
                    sig += ":merged-functions"
                rec["bad"].append((sig, text))
                rec["replay"] = dict(kind="real", pid=pid, target=pr.target, opt=pr.opt, seed=seed, programs=[k])
            elif cat in ("fails", "format"):
                rec["seen"]["programs without a graph"] = rec["seen"].get("programs without a graph", 0) + 1
    else:
        rec["seen"]["programs the tool refuses (intrinsic outside of Thumb)"] = rec["seen"].get("programs the tool refuses (intrinsic outside of Thumb)", 0) + 1
    rec["keys"] += r["keys"]
    if r.get("g") is not None:
        pr.forget(name)
    return r


def batch(item):
    pid, target, opt, seed, programs, runs, limit = item
    rec = dict(evals=0, keys=[], bad=[], seen={}, replay=None)
    pr = real.Project(target, opt)
    try:
        for k in programs:
            r = one(pid, pr, seed, k, runs, limit, rec)
            if len(rec["bad"]) >= 5:
                break
            if k == programs[0]:
                rec["sample"] = f"{target} opt-level {opt}: a program with {r['seen'].get('functions in the programs')} functions, " \
                                f"{r['seen'].get('distinct call pairs executed')} distinct calls and {r['seen'].get('instructions executed')} instructions executed"
    finally:
        pr.remove()
    return rec


def plan(pid):
    """-> items; the configurations with the programs split among the cores"""
    T = THUMB
    if runner.THOROUGH:
        cf = [(t, o) for t in T for o in "0123sz"]
        if pid == "C02":
            cf += [("x86_64-unknown-none", o) for o in "123sz"]
        n, runs, limit = 60, 12, 150000
        split = 1
    else:
        cf = [(T[0], "3"), (T[1], "s"), (T[3], "2"), (T[2], "z"), (T[0], "z"), (T[1], "0"), (T[1], "3"), (T[2], "1")]
        if pid == "C02":
            cf[7] = ("x86_64-unknown-none", "2")
        n, runs, limit = 28, 6, 60000
        split = 1
    items = []
    for t, o in cf:
        k = list(range(n // 2 if o == "0" else n))
        if (t, o) == (T[1], "s"):
            k = ["merged"] + k
        items.append((pid, t, o, runner.SEED, k, runs, limit))
    return items


def main(pid, rule, assumptions):
    global BIN
    import stepper
    ck = runner.Check(pid, rule, "exploration", assumptions)
    BIN = tool.build()
    if pid == "C02":
        stepper.binary()
    ck.map(batch, plan(pid), limit=9000 if runner.THOROUGH else 600)
    real_keys = len(ck.keys)
    # programs the compiler does not make on demand: what their executions can do is known by construction
    import specs
    import synth
    synth.BIN = BIN
    ck.map(specs.sweep, specs.c01_jobs() if pid == "C01" else specs.c02_jobs(), limit=9500 if runner.THOROUGH else 700)
    n = int((40000 if runner.THOROUGH else 2500) * runner.SCALE)
    ck.map(synth.case, [(pid, runner.SEED, i) for i in range(n)], limit=12000 if runner.THOROUGH else 800)
    return ck.finish(50 if real_keys >= 50 else len(ck.keys) + 1)


def replay(r):
    global BIN
    BIN = tool.build()
    n = (12, 150000) if runner.THOROUGH else (6, 60000)
    return batch((r["pid"], r["target"], r["opt"], r["seed"], r["programs"], *n))
