"""Random Rust programs for the real toolchain. They take all their decisions
from volatile reads of an input register, so one image has many executions."""
import random

PRELUDE = r'''#![no_std]
#![no_main]
#![allow(dead_code, unused_variables, unused_mut, unused_assignments, unused_imports, static_mut_refs, unconditional_recursion)]
#![feature(core_intrinsics, naked_functions, asm_const)]
use core::fmt::Write as _;
use core::ptr::{read_volatile, write_volatile};
use core::sync::atomic::{AtomicU32, Ordering};
%(alloc)s
#[panic_handler]
fn on_panic(_: &core::panic::PanicInfo) -> ! { %(panic)s }

#[inline(always)] fn inp() -> u32 { %(inp)s }
static mut SINK: u32 = 0;
#[inline(always)] fn out(x: u32) { unsafe { write_volatile(&mut SINK, x) } }
static mut FUEL: u32 = %(fuel)d;
#[inline(always)] fn fuel() -> bool { unsafe { let f = read_volatile(&FUEL); if f == 0 { false } else { write_volatile(&mut FUEL, f - 1); true } } }
static mut MEM: [u8; 256] = [7; 256];
static WORDS: [u32; 16] = [3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8, 9, 7, 9, 3];
#[repr(align(16))] struct Al16([u8; 32]);
#[repr(align(32))] struct Al32([u8; 32]);
#[repr(align(64))] struct Al64([u8; 32]);
#[repr(align(256))] struct Al256([u8; 32]);
#[derive(Clone, Copy)] #[repr(C)] struct Big { a: u32, b: [u32; 7], c: u64 }
struct W(u32);
impl core::fmt::Write for W { fn write_str(&mut self, s: &str) -> core::fmt::Result { for b in s.bytes() { self.0 = self.0.wrapping_mul(31).wrapping_add(b as u32); } out(self.0); if self.0 == 77 { Err(core::fmt::Error) } else { Ok(()) } } }
'''

ALLOC = r'''extern crate alloc;
use alloc::{boxed::Box, vec::Vec, string::String, collections::BTreeMap};
struct Bump;
static mut HEAP: [u8; 16384] = [0; 16384];
static NEXT: AtomicU32 = AtomicU32::new(0);
unsafe impl core::alloc::GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: core::alloc::Layout) -> *mut u8 {
        let n = NEXT.load(Ordering::Relaxed) as usize;
        let a = (HEAP.as_ptr() as usize + n + l.align() - 1) & !(l.align() - 1);
        let e = a + l.size() - HEAP.as_ptr() as usize;
        if e > 16384 { return core::ptr::null_mut() }
        NEXT.store(e as u32, Ordering::Relaxed);
        a as *mut u8
    }
    unsafe fn dealloc(&self, _: *mut u8, _: core::alloc::Layout) {}
}
#[global_allocator] static A: Bump = Bump;
'''

# kind of value -> (type, literal from a u32 expression, to a u32 expression)
TYPES = {
    "u32": ("u32", "{}", "{}"),
    "u8": ("u8", "({} as u8)", "({} as u32)"),
    "i16": ("i16", "({} as i16)", "({} as u32)"),
    "u64": ("u64", "(({} as u64) << 7 ^ 0x123)", "({} as u32)"),
    "i64": ("i64", "({} as i32 as i64)", "({} as u32)"),
    "bool": ("bool", "({} & 1 == 1)", "({} as u32)"),
    "f32": ("f32", "({} as f32)", "({}.to_bits())"),
    "f64": ("f64", "({} as f64)", "({}.to_bits() as u32)"),
    "i128": ("i128", "({} as i32 as i128)", "({} as u32)"),
    "opt": ("Option<u32>", "(if {0} & 2 == 0 {{ Some({0}) }} else {{ None }})", "{}.unwrap_or(3)"),
    "pair": ("(u32, u16)", "({0}, {0} as u16)", "{}.0"),
    "arr": ("[u32; 3]", "[{0}, {0} >> 3, 1]", "{}[1]"),
    "big": ("Big", "Big {{ a: {0}, b: [{0}; 7], c: 9 }}", "{}.b[2]"),
    "res": ("Result<u32, u8>", "(if {0} & 4 == 0 {{ Ok({0}) }} else {{ Err({0} as u8) }})", "{}.unwrap_or(5)"),
    "unit": ("()", "{{ out({}); }}", "{{ let () = {}; 1u32 }}"),
    "str": ("&'static str", 'if {} & 1 == 0 {{ "abc" }} else {{ "defgh" }}', "({}.len() as u32)"),
    "slice": ("&'static [u32]", "&WORDS[({} & 7) as usize..]", "({}.len() as u32)"),
    "char": ("char", "(((({}) & 0x7f) as u8) as char)", "({} as u32)"),
    "usize": ("usize", "({} as usize)", "({} as u32)"),
    "ptr": ("*const u32", "(&WORDS[({} & 15) as usize] as *const u32)", "(unsafe {{ read_volatile({}) }})"),
}


class Fn:
    pass


def program(rng, target, size=None):
    thumb = target.startswith("thumb")
    v6 = target.startswith("thumbv6")
    hf = target.endswith("hf")
    alloc = rng.random() < 0.25
    o = []
    kinds = [k for k in TYPES]
    if not thumb:
        # the library functions these turn into are not calls of the LLVM IR
        kinds = [k for k in kinds if k not in ("i128", "f32", "f64")]
    n = size or rng.randint(6, 22)
    pal = ["u32"] * 3 + rng.sample(kinds, rng.randint(2, 7))
    nfuel = rng.choice([5, 15, 40])
    X = dict(alloc=ALLOC if alloc else "", fuel=nfuel, panic=rng.choice(["loop {}", "out(99); loop {}"]),
             inp="unsafe { read_volatile(0x4000_0000 as *const u32) }")
    if not thumb:
        X["panic"] = "halt()"
        X["inp"] = "unsafe { let x = read_volatile(&INPUT_SEED).wrapping_mul(1664525).wrapping_add(1013904223); write_volatile(&mut INPUT_SEED, x); x >> 8 }"
    o.append(PRELUDE % X)
    # trait objects
    nt = rng.randint(1, 3)
    traits = []
    for t in range(nt):
        ms = []
        for m in range(rng.randint(1, 3)):
            args = [rng.choice(pal) for _ in range(rng.randint(0, 2))]
            ms.append((f"m{m}", args, rng.choice(pal)))
        traits.append(ms)
        o.append(f"trait Tr{t} {{ " + " ".join(
            f"fn {m}(&self{''.join(f', a{k}: {TYPES[a][0]}' for k, a in enumerate(args))}) -> {TYPES[r][0]};" for m, args, r in ms) + " }")
    fns = []
    bodies = []

    def acc_of(args, pre="a"):
        e = "1u32"
        for k, a in enumerate(args):
            e = f"{e}.wrapping_add({TYPES[a][2].format(pre + str(k))})"
        return e

    def call(f, x="acc"):
        a = ", ".join(TYPES[t][1].format(f"{x}.wrapping_add({rng.randrange(9)})") for t in f.args)
        c = f"{f.name}({a})"
        if f.unsafe:
            c = f"unsafe {{ {c} }}"
        return TYPES[f.ret][2].format(f"({c})") if f.ret != "unit" else f"{{ {c}; 1u32 }}"

    def stmts(avail, depth=0):
        s = []
        for _ in range(rng.randint(1, 4)):
            k = rng.random()
            if k < 0.34 and avail:
                f = rng.choice(avail)
                c = f"acc = acc.wrapping_add({call(f)});"
                if rng.random() < 0.3:
                    c = f"if inp() & {rng.choice([1, 2, 3])} == 0 {{ {c} }}"
                elif rng.random() < 0.15:
                    c = f"for i in 0..(inp() & 3) {{ acc ^= i; {c} }}"
                s.append(c)
            elif k < 0.44 and avail:
                # through a table of function pointers
                f = rng.choice(avail)
                same = [g for g in avail if (g.args, g.ret, g.abi, g.unsafe) == (f.args, f.ret, f.abi, f.unsafe)]
                tab = [rng.choice(same).name for _ in range(rng.choice([1, 2, 4]))]
                ty = f"{'unsafe ' if f.unsafe else ''}{f.abi}fn({', '.join(TYPES[t][0] for t in f.args)}) -> {TYPES[f.ret][0]}"
                a = ", ".join(TYPES[t][1].format("acc") for t in f.args)
                if rng.random() < 0.5:
                    sel = f"let p: {ty} = TAB[(inp() as usize) & {len(tab) - 1}];"
                    decl = f"static TAB: [{ty}; {len(tab)}] = [{', '.join(tab)}];"
                else:
                    sel = f"let p: {ty} = unsafe {{ read_volatile(&TAB[(inp() as usize) & {len(tab) - 1}]) }};"
                    decl = f"static mut TAB: [{ty}; {len(tab)}] = [{', '.join(tab)}];"
                c = f"p({a})"
                if f.unsafe:
                    c = f"unsafe {{ {c} }}"
                r = TYPES[f.ret][2].format(f"({c})") if f.ret != "unit" else f"{{ {c}; 2u32 }}"
                s.append(f"{{ {decl} {sel} acc ^= {r}; }}")
            elif k < 0.54:
                t = rng.randrange(nt)
                m, args, r = rng.choice(traits[t])
                a = ", ".join(TYPES[x][1].format("acc") for x in args)
                c = f"ob.{m}({a})"
                r = TYPES[r][2].format(f"({c})") if r != "unit" else f"{{ {c}; 2u32 }}"
                s.append(f"if fuel() {{ let ob: &dyn Tr{t} = OBJ{t}[(inp() as usize) % OBJ{t}.len()]; acc ^= {r}; }}")
            elif k < 0.62:
                n = rng.choice([2, 5, 16, 33, 70, 200, 1100 if rng.random() < 0.1 else 9])
                t = rng.choice(["u32", "u8", "u64"])
                s.append(f"{{ let mut buf = [acc as {t}; {n}]; for (i, b) in buf.iter_mut().enumerate() {{ if i & 3 == 1 {{ unsafe {{ write_volatile(b, i as {t}) }} }} }} "
                         f"acc ^= unsafe {{ read_volatile(&buf[(inp() as usize) % {n}]) }} as u32; }}")
            elif k < 0.70:
                s.append(rng.choice([
                    "{ let d = inp() | 1; acc = acc.wrapping_add(acc.wrapping_mul(77) / d + acc % (d ^ 2 | 1)); }",
                    "{ let d = inp() as u64 | 1; acc ^= ((acc as u64) << 20 | 77).wrapping_mul(d) as u32; }",
                    "{ let d = inp() as i32 | 1; acc ^= ((acc as i32 >> 1) / d) as u32; }",
                    "{ acc = acc.leading_zeros() ^ acc.swap_bytes(); }",
                    "{ let (v, of) = acc.overflowing_mul(inp()); if of { acc ^= v } }",
                ] + (["{ acc ^= ((acc as f32) * 1.5 + inp() as f32) as u32; }",
                      "{ acc ^= ((acc as f64) / (1.0 + inp() as f64)) as u32; }",
                      "{ acc = acc.rotate_left(inp() & 31) ^ acc.leading_zeros() ^ acc.reverse_bits() ^ acc.swap_bytes(); }",
                      "{ acc = (acc as i32).saturating_add(inp() as i32) as u32 ^ (acc as i16).wrapping_abs() as u32; }",
                      "{ let d = inp() as u64 | 1; acc ^= (((acc as u64) << 20 | 77) / d) as u32; }",
                      "{ let d = inp() as i64 | 1; acc ^= (((acc as i64) << 20 | 77) % d) as u32; }",
                      "{ acc ^= ((acc as i128) * (inp() as i128 | 1) >> 33) as u32; }",
                      "{ acc ^= ((acc as u128) << 60 | 5).checked_div(inp() as u128 | 1).unwrap_or(3) as u32; }",
                      "{ let s = inp() & 63; acc ^= ((acc as u64) << s) as u32 ^ ((acc as i64 - 5) >> s) as u32; }"] if thumb else [])))
            elif k < 0.78:
                s.append(rng.choice([
                    "unsafe { let n = (inp() & 31) as usize; let (x, y) = MEM.split_at_mut(128); x[..n].copy_from_slice(&y[3..3 + n]); }",
                    "unsafe { let n = (inp() & 31) as usize; MEM.copy_within(n..n + 20, 5); }",
                    "unsafe { let n = (inp() & 63) as usize; for b in MEM[..n].iter_mut() { *b = acc as u8; } }",
                    "unsafe { let n = (inp() & 31) as usize; if MEM[..n] == MEM[40..40 + n] { acc ^= 1 } }",
                    "unsafe { let n = (inp() & 31) as usize; acc ^= MEM[..n].cmp(&MEM[40..40 + n]) as i32 as u32; }",
                    f"{{ let b = Al{rng.choice([16, 32, 64, 256])}([acc as u8; 32]); let c = core::hint::black_box(b); acc ^= c.0[3] as u32; }}",
                    f"{{ let mut b = Al{rng.choice([16, 32, 64])}([acc as u8; 32]); unsafe {{ write_volatile(&mut b.0[(inp() & 31) as usize], 3); }} core::hint::black_box(&mut b); acc ^= b.0[3] as u32; }}",
                    "{ let b = Big { a: acc, b: [inp(); 7], c: 1 }; let c = core::hint::black_box(b); acc ^= c.b[3]; }",
                    "{ let mut v = WORDS; v[3] = inp(); v.sort_unstable(); acc ^= v[2]; }",
                    "{ acc ^= WORDS.iter().skip((inp() & 3) as usize).fold(0, |a, b| a ^ b.wrapping_mul(3)); }",
                    "{ acc ^= WORDS[(inp() & 31) as usize]; }" if rng.random() < 0.3 else "{ acc ^= WORDS[(inp() & 15) as usize]; }",
                    "{ acc ^= WORDS.get((inp() & 31) as usize).copied().unwrap_or(0); }",
                    '{ let t = if inp() & 1 == 0 { "12" } else { "3x" }; acc ^= t.parse::<u32>().unwrap_or(0); }',
                    '{ let t = if inp() & 1 == 0 { "h\\u{e9}llo" } else { "a,b" }; acc ^= t.chars().count() as u32 ^ t.find(\',\').unwrap_or(9) as u32; }',
                ]))
            elif k < 0.81:
                s.append(rng.choice([
                    'let _ = write!(W(acc), "{} {:x}", acc, inp());', 'let _ = write!(W(acc), "{:?}", Some(acc));',
                    'let _ = W(acc).write_str("plain");', 'let _ = write!(W(acc), "{:>8}|{:?}", "ab", \'x\');', 'let _ = W(1).write_char(\'\\u{e9}\');']))
            elif k < 0.86:
                arms = []
                for j in range(rng.choice([3, 5, 9])):
                    arms.append(f"{j} => {{ acc = acc.wrapping_{rng.choice(['add', 'mul', 'sub'])}(inp()); "
                                + (f"acc ^= {call(rng.choice(avail))};" if avail and rng.random() < 0.4 else f"out({j});") + " }")
                s.append(f"match inp() & 15 {{ {' '.join(arms)} _ => {{}} }}")
            elif k < 0.90:
                cap = rng.choice(["acc", "inp()"])
                s.append(f"{{ let k = {cap}; let cl = |x: u32| -> u32 {{ x.wrapping_mul(k) ^ {rng.randrange(99)} }}; acc ^= apply{rng.randrange(2)}(&cl, acc); }}")
            elif k < 0.915:
                c = [g for g in avail if g.args == ["u32"] and g.ret == "u32" and not g.abi and not g.unsafe]
                if c:
                    g, h = rng.choice(c).name, rng.choice(c).name
                    s.append(rng.choice([
                        f"acc ^= hof(if inp() & 1 == 0 {{ {g} }} else {{ {h} }}, acc);",
                        f"acc ^= unsafe {{ read_volatile(&HOOK.1) }}(acc); if inp() & 1 == 0 {{ unsafe {{ write_volatile(&mut HOOK.1, {g}) }} }}",
                        f"{{ let mut n = 0; let mut cl = |x: u32| {{ n += x; {g}(n) }}; acc ^= visit(&mut cl); acc ^= n; }}",
                        f"acc ^= [{g} as fn(u32) -> u32, {h}].iter().map(|f| f(acc)).fold(0, |a, b| a ^ b);",
                        f"acc ^= generic({g}, acc);",
                    ]))
            elif k < 0.93 and alloc:
                s.append(rng.choice([
                    "{ let mut v = Vec::new(); for i in 0..(inp() & 7) { v.push(i ^ acc); } acc ^= v.iter().sum::<u32>(); }",
                    "{ let b: Box<dyn Fn(u32) -> u32> = if inp() & 1 == 0 { Box::new(|x| x + 1) } else { let k = acc; Box::new(move |x| x ^ k) }; acc = b(acc & 0xffff); }",
                    '{ let s = alloc::format!("{}-{}", acc, inp()); acc ^= s.len() as u32; }',
                    "{ let mut m = BTreeMap::new(); for i in 0..(inp() & 7) { m.insert(i ^ (acc & 3), i); } acc ^= m.len() as u32; }",
                ]))
            elif k < 0.96 and thumb:
                s.append(rng.choice([
                    'unsafe { core::arch::asm!("nop") };', 'unsafe { core::arch::asm!("", inout("r0") acc) };',
                    'unsafe { core::arch::asm!("adds {0}, {0}, #1", inout(reg) acc) };' if not v6 else 'unsafe { core::arch::asm!("adds {0}, #1", inout(reg) acc) };',
                ] + asmsnips(rng, avail)))
            else:
                s.append(rng.choice([
                    f"static C{rng.randrange(9)}: AtomicU32 = AtomicU32::new(0); acc ^= 3;",
                    "out(acc);", "if acc == 0x1234_5678 { panic!(\"impossible {}\", acc) }", "assert!(acc != 0x8765_4321);",
                    "core::hint::black_box(&mut acc);", "acc = Some(acc).map(|x| x ^ 5).unwrap();",
                ]))
        return " ".join(s)

    def sig(f):
        return ", ".join(f"a{k}: {TYPES[t][0]}" for k, t in enumerate(f.args))

    asm = []
    # no two bodies are the same: LLVM would merge functions that differ only in
    # the types of their pointers and integers (a known finding, see KNOWN)
    uniq = [1000]

    def own():
        uniq[0] += 1
        return f"out({uniq[0]}); "
    for i in range(n):
        f = Fn()
        f.args = [rng.choice(pal) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 6 if rng.random() < 0.3 else 1]))]
        f.ret = rng.choice(pal)
        f.abi, f.unsafe = "", False
        f.name = f"f{i}"
        if fns and rng.random() < 0.45:
            g = rng.choice(fns)
            f.args, f.ret = list(g.args), g.ret
        if thumb and rng.random() < 0.12:
            # hand-written function
            f.args, f.ret, f.abi, f.unsafe = ["u32"] * rng.randint(0, 2), "u32", 'extern "C" ', True
            cal = [g for g in fns if g.args in (["u32"], []) and g.ret in ("u32", "unit") and g.abi and rng.random() < 0.8]
            if rng.random() < 0.3:
                ins, sy = naked_fn(rng, cal, v6)
                bodies.append(f'#[naked] #[no_mangle] unsafe extern "C" fn {f.name}({sig(f)}) -> u32 {{ core::arch::asm!({ins}, {sy}options(noreturn)) }}')
            else:
                asm.append(asm_fn(rng, f.name, cal, v6, hf))
                bodies.append(f'extern "C" {{ fn {f.name}({sig(f)}) -> u32; }}')
                if rng.random() < 0.3:
                    asm.append(f".global {f.name}_alias\n.type {f.name}_alias, %function\n.thumb_set {f.name}_alias, {f.name}")
                    bodies.append(f'extern "C" {{ fn {f.name}_alias({sig(f)}) -> u32; }}')
                    h = Fn()
                    h.args, h.ret, h.abi, h.unsafe, h.name = list(f.args), f.ret, f.abi, True, f.name + "_alias"
                    fns.append(h)
            fns.append(f)
            continue
        ab = rng.random()
        attrs = rng.choice(["#[inline(never)]", "#[inline(never)]", "#[inline(never)]", "", "#[inline]", "#[cold]"])
        if ab < 0.35:
            f.abi = 'extern "C" '
            attrs += " #[no_mangle]"
            if any(t in ("opt", "pair", "str", "slice", "res", "i128", "unit") for t in f.args + [f.ret]):
                attrs += " #[allow(improper_ctypes_definitions)]"
        elif ab < 0.5:
            attrs += " #[no_mangle]"
        if rng.random() < 0.06 and thumb:   # the dependency stack-sizes cannot read shared sections of x86_64 objects
            attrs += ' #[link_section = ".text.special"]' if rng.random() < 0.5 else ' #[link_section = ".ramfunc"]'
        avail = fns[-12:]
        body = f"{own()}let mut acc = {acc_of(f.args)}; {stmts(avail)}"
        if rng.random() < 0.12:
            # recursion, bounded by the fuel
            g = rng.choice([f] + fns[-3:])
            body += f" if fuel() {{ acc ^= {call(f)}; }}"
        if avail and rng.random() < 0.3:
            g = [h for h in avail if h.ret == f.ret]
            if g:
                h = rng.choice(g)
                a = ", ".join(TYPES[t][1].format("acc") for t in h.args)
                body += f" return {'unsafe { ' if h.unsafe else ''}{h.name}({a}){' }' if h.unsafe else ''};"
        body += f" {TYPES[f.ret][1].format('acc')}"
        bodies.append(f"{attrs} {f.abi}fn {f.name}({sig(f)}) -> {TYPES[f.ret][0]} {{ {body} }}")
        fns.append(f)
    for j in range(2):
        bodies.append(f"#[inline(never)] fn apply{j}(f: &dyn Fn(u32) -> u32, x: u32) -> u32 {{ f(x) ^ {j} }}")
    bodies.append("""#[inline(never)] fn hof(f: fn(u32) -> u32, x: u32) -> u32 { out(900); f(x).wrapping_add(1) }
fn nop(x: u32) -> u32 { out(901); x }
static mut HOOK: (u8, fn(u32) -> u32) = (3, nop);
#[inline(never)] fn visit(f: &mut dyn FnMut(u32) -> u32) -> u32 { out(902); let mut s = 0; for i in 0..(inp() & 3) { s ^= f(i); } s }
#[inline(never)] fn generic<F: Fn(u32) -> u32>(f: F, x: u32) -> u32 { out(903); f(x) ^ f(x >> 1) }""")
    # implementations of the traits
    for t, ms in enumerate(traits):
        names = []
        for k in range(rng.randint(1, 3)):
            names.append(f"S{t}_{k}")
            fld = rng.choice(["u32", "[u32; 4]", "u8"])
            lit = {"u32": "5", "[u32; 4]": "[1, 2, 3, 4]", "u8": "9"}[fld]
            o.append(f"struct S{t}_{k}({fld});")
            ml = []
            for m, args, r in ms:
                b = f"let mut acc = {acc_of(args)}; {stmts(rng.sample(fns, min(len(fns), 4)) if rng.random() < 0.6 else [])}"
                # a method may call anything: bound the recursion
                ml.append(f"fn {m}(&self{''.join(f', a{q}: {TYPES[a][0]}' for q, a in enumerate(args))}) -> {TYPES[r][0]} {{ "
                          f"{own()}let mut acc = {acc_of(args)} ^ (core::mem::size_of_val(self) as u32); if fuel() {{ {b} out(acc); }} {TYPES[r][1].format('acc')} }}")
            bodies.append(f"impl Tr{t} for S{t}_{k} {{ {' '.join(ml)} }}")
            o.append(f"static I{t}_{k}: S{t}_{k} = S{t}_{k}({lit});")
        o.append(f"static OBJ{t}: [&(dyn Tr{t} + Sync); {len(names)}] = [{', '.join('&I' + x[1:] for x in names)}];")
    o += bodies
    if asm:
        o.append('core::arch::global_asm!(r#"' + "\n".join(asm) + '"#, options(raw));')
    roots = rng.sample(fns, min(len(fns), rng.randint(2, 6))) + fns[-2:]
    calls = " ".join(f"acc ^= {call(f)};" for f in roots)
    loop = f"for _ in 0..2 {{ unsafe {{ write_volatile(&mut FUEL, {nfuel}); }} {calls} out(acc); }}"
    if thumb:
        o.append(f'#[no_mangle] pub unsafe extern "C" fn _start() -> ! {{ let mut acc = inp(); {loop} loop {{}} }}')
    else:
        o.append(X86 % dict(loop=loop, seed=rng.getrandbits(32)))
    return "\n".join(o) + "\n"


X86 = r'''
#[no_mangle] static mut INPUT_SEED: u32 = %(seed)d;
#[inline(never)] fn halt() -> ! { unsafe { core::arch::asm!("mov edi, 0", "mov eax, 60", "syscall", options(noreturn)) } }
#[inline(never)] #[no_mangle] unsafe extern "C" fn program() { let mut acc = inp(); %(loop)s }
#[no_mangle] pub unsafe extern "C" fn _start() -> ! { program(); halt() }
'''


def asmsnips(rng, avail):
    c = [g for g in avail if g.abi and g.args in ([], ["u32"], ["u32", "u32"]) and g.ret in ("u32", "unit")]
    if not c:
        return []
    # a call from inline assembly is only visible in the machine code
    return [f'unsafe {{ core::arch::asm!("bl {{f}}", f = sym {rng.choice(c).name}, inout("r0") acc, clobber_abi("C")); }}'] * 2 + [
        # the callee is not known then
        f'unsafe {{ let p: usize = read_volatile(&({rng.choice(c).name} as usize)); core::arch::asm!("blx {{p}}", p = in(reg) p, inout("r0") acc, clobber_abi("C")); }}']


def saved(rng, n, cal):
    """registers to push, next to lr and `n` bytes: functions that call others
    keep SP aligned to 8 bytes, as the procedure call standard demands"""
    k = rng.randint(0, 4)
    if cal and (k + 1 + n // 4) % 2:
        k = k - 1 if k else 1
    return sorted(rng.sample([4, 5, 6, 7], k))


def naked_fn(rng, cal, v6):
    n = 4 * rng.randint(1, 127) if rng.random() < 0.4 else 0
    regs = saved(rng, n, cal)
    r = "".join(f"r{x}, " for x in regs)
    pre, post = [f"push {{{{{r}lr}}}}"], [f"pop {{{{{r}pc}}}}"]
    if n:
        pre.append(f"sub sp, #{n}")
        post.insert(0, f"add sp, #{n}")
    body, sy = ["movs r2, #3", "adds r0, r0, r2"], ""
    tail = None
    for k, g in enumerate(cal[:2]):
        body.append(f"bl {{s{k}}}")
        sy += f"s{k} = sym {g.name}, "
    if cal and not v6 and rng.random() < 0.3:
        # leaves with a branch instead of returning
        post[-1] = post[-1].replace("pc", "lr")
        if rng.random() < 0.5:
            post += ["ldr r3, 9f", rng.choice(["bx r3", "mov pc, r3"]), ".p2align 2", "9: .word {t}"]
        else:
            post.append("b.w {t}")
        sy += f"t = sym {rng.choice(cal).name}, "
    elif cal and rng.random() < 0.3:
        body += ["ldr r3, 9f", "blx r3"]
        post += [".p2align 2", "9: .word {t}"]
        sy += f"t = sym {rng.choice(cal).name}, "
    return ", ".join('"' + x + '"' for x in pre + body + post), sy


def asm_fn(rng, name, cal, v6, hf):
    """a hand-written function with a straight-line prologue"""
    k = rng.randrange(4)
    n = 4 * rng.randint(1, 100) if k == 1 else 4 * rng.choice([130, 256, 400, 1000]) if k == 2 and not v6 else 8 if k == 3 and not v6 else 0
    regs = saved(rng, n, cal)
    r = "".join(f"r{x}, " for x in regs)
    pre, post = [f"push {{{r}lr}}"], [f"pop {{{r}pc}}"]
    if k == 1:
        pre.append(f"sub sp, #{n}")
        post.insert(0, f"add sp, #{n}")
    elif k == 2 and not v6:
        pre.append(f"sub.w sp, sp, #{n}" if n in (256, 1024, 520) else f"subw sp, sp, #{n}")
        post.insert(0, f"addw sp, sp, #{n}")
    elif k == 3 and not v6:
        pre.append("str r0, [sp, #-8]!")
        post.insert(0, "add sp, #8")
    body = ["movs r2, #3", "adds r0, r0, r2"]
    for g in cal[:2]:
        body += [f"bl {g.name}"]
    if rng.random() < 0.3:
        body += ["movs r1, #0", "cmp r0, r1", "beq 1f", "adds r0, r0, #1", "1:"]
    if rng.random() < 0.3:
        body += ["ldr r1, 2f", "eors r0, r1", "b 3f", ".align 2", "2: .word 0xf000f800", "3:"]
    sz = f".size {name}, . - {name}" if rng.random() < 0.7 else ""
    return "\n".join([f".section .text.{name}, \"ax\"", f".global {name}", f".type {name}, %function", ".thumb_func", ".align 2", f"{name}:"] +
                     ["    " + x for x in pre + body + post] + [sz])
