"""Real programs: built by the real toolchain through the tool, then executed
under a monitor that checks every call and every stack depth against the graph."""
import os
import random
import re
import shutil
import struct
import subprocess
import tempfile

import dot
import oracle
import realgen
import runner
import thumbemu
import tool

TOOLCHAIN = '[toolchain]\nchannel = "nightly-2023-11-13"\ncomponents = ["rust-src"]\nprofile = "minimal"\n'
MANIFEST = '''[package]
edition = "2018"
name = "firmware"
version = "0.1.0"

[profile.release]
codegen-units = 1
debug = %(debug)s
lto = 'fat'
opt-level = %(opt)s
'''
LOCK = '''# This file is automatically @generated by Cargo.
# It is not intended for manual editing.
version = 3

[[package]]
name = "firmware"
version = "0.1.0"
'''


class Project:
    def __init__(self, target, opt):
        self.target, self.opt = target, opt
        base = os.path.join(tool.BUILD, "real")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="p", dir=base)
        w = self.write
        w("Cargo.toml", MANIFEST % dict(opt=opt if opt.isdigit() else f"'{opt}'", debug="false"))
        w("Cargo.lock", LOCK)
        w("rust-toolchain.toml", TOOLCHAIN)
        os.makedirs(self.dir + "/examples")

    def write(self, p, s):
        with open(os.path.join(self.dir, p), "w") as f:
            f.write(s)

    def env(self):
        e = tool._env()
        e["CARGO_BUILD_JOBS"] = "3"
        return e

    def analyze(self, binary, name, source=None, args=()):
        if source is not None:
            self.write(f"examples/{name}.rs", source)
        p = subprocess.run([binary, "--target", self.target, "--example", name, *args], cwd=self.dir, env=self.env(),
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
        return tool.Result(p.returncode, p.stdout, p.stderr, None, self.dir)

    def elf(self, name):
        return os.path.join(self.dir, "target", self.target, "release", "examples", name)

    def forget(self, name):
        d = os.path.join(self.dir, "target", self.target, "release", "examples")
        for f in os.listdir(d):
            if f == name or f.startswith((name + "-", name + ".")):
                os.remove(os.path.join(d, f))
        os.remove(os.path.join(self.dir, "examples", name + ".rs"))

    def remove(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ------------------------------------------------------------------- ELF reading
class Image:
    def __init__(self, path):
        b = open(path, "rb").read()
        self.bits = 32 if b[4] == 1 else 64
        if self.bits == 32:
            e = struct.unpack_from("<HHIIIIIHHHHHH", b, 16)
        else:
            e = struct.unpack_from("<HHIQQQIHHHHHH", b, 16)
        self.entry, phoff, shoff = e[3], e[4], e[5]
        phes, phn, shes, shn, shx = e[8], e[9], e[10], e[11], e[12]
        self.segments = []
        for i in range(phn):
            if self.bits == 32:
                t, off, va, pa, fs, ms, fl, al = struct.unpack_from("<8I", b, phoff + i * phes)
            else:
                t, fl, off, va, pa, fs, ms, al = struct.unpack_from("<IIQQQQQQ", b, phoff + i * phes)
            if t == 1 and ms:
                self.segments.append((va, b[off:off + fs] + bytes(ms - fs), bool(fl & 2)))
        secs = []
        for i in range(shn):
            if self.bits == 32:
                s = struct.unpack_from("<10I", b, shoff + i * shes)
            else:
                s = struct.unpack_from("<IIQQQQIIQQ", b, shoff + i * shes)
            secs.append(s)
        self.symbols = []   # (name, value, size, type)
        for s in secs:
            if s[1] != 2:
                continue
            stro = secs[s[6]][4]
            for k in range(s[5] // s[9]):
                if self.bits == 32:
                    n, v, sz, info, oth, shndx = struct.unpack_from("<IIIBBH", b, s[4] + k * s[9])
                else:
                    n, info, oth, shndx, v, sz = struct.unpack_from("<IBBHQQ", b, s[4] + k * s[9])
                if shndx == 0:
                    continue
                end = b.index(b"\0", stro + n)
                self.symbols.append((b[stro + n:end].decode("utf-8", "replace"), v, sz, info & 15))
        arm = struct.unpack_from("<H", b, 18)[0] == 40
        self.arm = arm
        fun = {}
        for n, v, sz, t in self.symbols:
            if t == 2:
                a = v & ~1 if arm else v
                d = fun.setdefault(a, [[], 0])
                d[0].append(n)
                d[1] = max(d[1], sz)
        self.functions = {a: tuple(d) for a, d in fun.items()}  # addr -> (names, size)
        starts = sorted(fun)
        self.unsized = {a for a in starts if not fun[a][1]}
        self.starts = starts


ESC = {"SP": "@", "BP": "*", "RF": "&", "LT": "<", "GT": ">", "LP": "(", "RP": ")", "C": ","}


def demangle(sym):
    """-> (demangled, without hash) ; the same text twice for other symbols"""
    m = re.fullmatch(r"_ZN(.*?)E((?:\.[A-Za-z0-9_.$@-]*)?)", re.sub(r"\.llvm\.[0-9A-F@]+$", "", sym))
    if not m:
        return sym, sym
    s, parts, suffix = m.group(1), [], m.group(2)
    while s:
        k = re.match(r"\d+", s)
        if not k:
            return sym, sym
        n = int(k.group())
        x = s[k.end():k.end() + n]
        if len(x) != n:
            return sym, sym
        s = s[k.end() + n:]
        if x.startswith("_$"):
            x = x[1:]
        x = x.replace("..", "::")
        x = re.sub(r"\$(u[0-9a-f]+|[A-Z]+)\$", lambda q: chr(int(q.group(1)[1:], 16)) if q.group(1)[0] == "u" else ESC[q.group(1)], x)
        parts.append(x)
    if re.fullmatch(r"h[0-9a-f]{16}", parts[-1]) and len(parts) > 1:
        return "::".join(parts) + suffix, "::".join(parts[:-1]) + suffix
    return "::".join(parts) + suffix, "::".join(parts) + suffix


class Graph:
    """the printed graph, indexed by the addresses of the functions"""

    def __init__(self, g, image):
        self.g = g
        self.succ = g.succ()
        lab = {}
        for a, (names, _) in image.functions.items():
            for n in names:
                for d in set(demangle(n)) | {n}:
                    lab.setdefault(d, set()).add(a)
        self.node_of, self.ambiguous = {}, set()
        per = {}
        for i, n in g.nodes.items():
            if n.dashed or oracle.is_q(n):
                continue
            c = lab.get(n.name, set())
            if len(c) == 1:
                per.setdefault(next(iter(c)), []).append(i)
            else:
                self.ambiguous |= c
        for a, ids in per.items():
            if len(ids) == 1 and a not in self.ambiguous:
                self.node_of[a] = ids[0]
            else:
                self.ambiguous.add(a)
        self.addr_of = {i: a for a, i in self.node_of.items()}

    def allows(self, a, b):
        """True, False or None (cannot tell) and how"""
        ia, ib = self.node_of.get(a), self.node_of.get(b)
        if a in self.ambiguous or b in self.ambiguous:
            return None, "ambiguous"
        if ia is None or ib is None:
            return False, "no node"
        s = self.succ[ia]
        if ib in s:
            return True, "direct edge"
        for x in s:
            n = self.g.nodes[x]
            if n.dashed and ib in self.succ[x]:
                return True, "indirect-call node"
        for x in s:
            if oracle.is_q(self.g.nodes[x]):
                return True, "unknown callee"
            if self.g.nodes[x].dashed and any(oracle.is_q(self.g.nodes[y]) for y in self.succ[x]):
                return True, "unknown callee of an indirect call"
        return False, "no edge"


# ------------------------------------------------------------------- monitor
class Monitor:
    """tracks activations; records executed calls and the deepest stack of every
    activation; `own` is the deepest stack before any callee runs"""

    def __init__(self, image, ret_bytes=0):
        self.im = image
        self.ret_bytes = ret_bytes
        self.fn_of = {}
        for k, a in enumerate(image.starts):
            n = image.functions[a][1]
            end = a + n
            if not n:
                end = image.starts[k + 1] if k + 1 < len(image.starts) else a + 4
                end = min(end, a + 4096)
            for x in range(a, end, 2 if image.arm else 1):
                self.fn_of[x] = a
        self.edges = {}
        self.depth = {}
        self.local = {}
        self.calls = 0
        self.activations = 0
        self.lost = None

    def start(self, pc, sp):
        self.frames = [[None, [[pc, sp, sp, sp]]]]   # return address, [function, sp at entry, min sp, own min sp]
        self.cur = self.frames[-1][1][-1]
        self.done = False

    def edge(self, a, b):
        self.calls += 1
        self.edges[a, b] = self.edges.get((a, b), 0) + 1

    def low(self, sp):
        c = self.cur
        if sp < c[2]:
            c[2] = sp
        if sp < c[3]:
            c[3] = sp

    def step(self, pc, nxt, sp):
        c = self.cur
        if sp < c[2]:
            c[2] = sp
        if sp < c[3]:
            c[3] = sp
        if nxt in self.im.functions and self.fn_of.get(pc) != nxt:
            self.lost = "execution runs into the next function"
            raise thumbemu.Stop(self.lost)

    def call(self, pc, ret, t, sp):
        self.low(sp)
        a = self.fn_of.get(pc)
        if t not in self.im.functions:
            if a is not None and self.fn_of.get(t) == a:
                return   # BL as a long branch
            self.lost = f"call of {t:#x}, which is no function"
            raise thumbemu.Stop(self.lost)
        self.edge(a, t)
        self.push(ret, t, sp)

    def push(self, ret, t, sp):
        self.activations += 1
        self.frames.append([ret, [[t, sp, sp, sp]]])
        self.cur = self.frames[-1][1][-1]
        if len(self.frames) > 3000:
            raise thumbemu.Stop("recursion too deep")

    def pop(self):
        ret, acts = self.frames.pop()
        m = min(x[2] for x in acts)
        low = None
        for f, sp0, mn, own in reversed(acts):
            low = mn if low is None else min(low, mn)
            d = sp0 - low
            if d > self.depth.get(f, -1):
                self.depth[f] = d
            if sp0 - own > self.local.get(f, -1):
                self.local[f] = sp0 - own
        if self.frames:
            self.cur = self.frames[-1][1][-1]
            if m < self.cur[2]:
                self.cur[2] = m

    def jump(self, pc, t, sp):
        self.low(sp)
        a, b = self.fn_of.get(pc), self.fn_of.get(t)
        if self.frames[-1][0] == t and sp == self.frames[-1][1][0][1] + self.ret_bytes:
            self.pop()
            return
        if a == b and a is not None:
            return
        if t in self.im.functions:
            self.edge(a, t)
            self.frames[-1][1].append([t, sp, sp, sp])
            self.activations += 1
            self.cur = self.frames[-1][1][-1]
            return
        # not a call, not a return
        self.lost = f"jump from {pc:#x} to {t:#x}, which is neither a function nor the return address"
        raise thumbemu.Stop(self.lost)

    def finish(self):
        if not self.done:
            while self.frames:
                self.pop()
            self.done = True


# ---------------------------------------------------------------- verdicts
def show(im, a):
    if a is None:
        return "?"
    n = im.functions.get(a, (["?"], 0))[0]
    return demangle(n[0])[0] + f" ({a:#x})"


def judge(mon, im, gr, tag, thumb, cat_only=None):
    """-> [(category, text)], counters"""
    bad, seen = [], {}
    for (a, b), n in sorted(mon.edges.items(), key=str):
        if a is None:
            continue
        ok, how = gr.allows(a, b)
        key = f"executed call pairs: {how}" if ok is not False else "executed call pairs not in the graph"
        seen[key] = seen.get(key, 0) + 1
        if ok is False:
            bad.append(("call", f"{tag}: {show(im, a)} calls {show(im, b)} ({n} times), but the graph has {how}"))
    for a, d in sorted(mon.depth.items()):
        i = gr.node_of.get(a)
        if i is None:
            if a not in gr.ambiguous:
                bad.append(("call", f"{tag}: {show(im, a)} is executed but has no node"))
            continue
        n = gr.g.nodes[i]
        if thumb and n.maxkind == "=" and n.max is not None:
            k = "exact maxima checked against executions"
            seen[k] = seen.get(k, 0) + 1
            if d == n.max:
                seen["exact maxima reached by an execution"] = seen.get("exact maxima reached by an execution", 0) + 1
            if d > n.max:
                bad.append(("max", f"{tag}: {show(im, a)} uses {d} bytes of stack in an execution, its exact maximum is given as {n.max}"))
        l = mon.local.get(a)
        if thumb and isinstance(n.local, int) and l is not None:
            seen["local usages checked against executions"] = seen.get("local usages checked against executions", 0) + 1
            if l > n.local + mon.ret_bytes:
                bad.append(("local", f"{tag}: {show(im, a)} itself uses {l} bytes of stack in an execution, its local usage is given as {n.local}"))
    return bad, seen


def inputs(rng):
    """an input register with different personalities"""
    k = rng.randrange(4)
    if k == 0:
        return lambda a, n: rng.getrandbits(32)
    if k == 1:
        return lambda a, n: rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 15])
    if k == 2:
        st = [rng.getrandbits(32)]

        def count(a, n):
            st[0] = st[0] + 1 & 0xFFFFFFFF
            return st[0]
        return count
    return lambda a, n: rng.choice([rng.getrandbits(32), rng.getrandbits(3), 0xFFFFFFFF, 0x80000000, 0])


def emulate(im, path, seed, runs, limit):
    code = thumbemu.disassemble(path)
    mon = Monitor(im)
    ends = {}
    steps = 0
    for r in range(runs):
        rng = random.Random(f"{seed}:{r}")
        e = thumbemu.Emu(im.segments, code, inputs(rng))
        why = e.run(im.entry & ~1, mon, limit)
        steps += e.steps
        why = re.sub(r" at 0x.*", "", why) if why.startswith("fault") else why
        ends[why] = ends.get(why, 0) + 1
    return mon, ends, steps


def program_case(binary, pr, name, source, seed, runs, limit, tag, want_sizes=False):
    """-> record"""
    rec = dict(evals=1, keys=[], bad=[], seen={})
    r = pr.analyze(binary, name, source)
    thumb = pr.target.startswith("thumb")
    if r.rc != 0:
        if "could not compile" in r.errtext or "error: linking" in r.errtext:
            rec["seen"]["programs the compiler rejects"] = 1
            rec["rejected"] = r.errtext
            return rec
        e = [l for l in r.errtext.split("\n") if l.strip()]
        at = next((k for k, l in enumerate(e) if "panicked at" in l), None)
        t = " / ".join(e[at:at + 3] if at is not None else e[-2:])[:700]
        rec["bad"].append(("fails", f"{tag}: no call graph (status {r.rc}): {t}"))
        return rec
    try:
        g = dot.parse(r.text)
    except dot.DotError as e:
        rec["bad"].append(("format", f"{tag}: malformed DOT: {e}"))
        return rec
    path = pr.elf(name)
    im = Image(path)
    gr = Graph(g, im)
    if thumb:
        mon, ends, steps = emulate(im, path, seed, runs, limit)
    else:
        import stepper
        mon, ends, steps = stepper.run(im, path, seed, runs, limit)
    bad, seen = judge(mon, im, gr, tag, thumb)
    rec["bad"] += bad
    seen["instructions executed"] = steps
    seen["function activations"] = mon.activations
    seen["calls executed"] = mon.calls
    seen["distinct call pairs executed"] = len(mon.edges)
    seen["functions executed"] = len(mon.depth)
    seen["functions in the programs"] = len(im.functions)
    for w, n in ends.items():
        seen["runs ended: " + w] = n
    rec["seen"] = seen
    rec["lost"] = mon.lost
    rec["keys"] = [runner.key(pr.target, source, a, b) for a, b in mon.edges]
    rec["g"] = g
    return rec
