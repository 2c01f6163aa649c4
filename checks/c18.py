"""C18: the build products of this build are the ones that are analysed."""
import os
import random
import time

import dot
import oracle
import real
import runner
import small
import synth
import tool

PID = "C18"


SOURCE = """#![no_main]
#![no_std]
#[panic_handler]
fn on_panic(_: &core::panic::PanicInfo) -> ! { loop {} }
%s
#[no_mangle]
fn _start() -> u32 {
    let mut x = 0;
    %s
    x
}
"""


def real_history(i):
    """the real cargo and compiler: requests for two programs with changing features, with changes of the sources in between"""
    rng = random.Random(f"{PID}:real:{runner.SEED}:{i}")
    rec = small.record(PID, i)
    bad, log = [], []
    target = synth.THUMBS[i % len(synth.THUMBS)]
    pr = real.Project(target, rng.choice("s3z"))
    try:
        with open(pr.dir + "/Cargo.toml", "a") as f:
            f.write("\n[features]\nfa = []\nfb = []\nfc = []\n")
        if rng.random() < 0.5:
            os.makedirs(pr.dir + "/src")
            pr.write("src/main.rs", "fn main() {}\n")
        state = {n: (0, {}) for n in ("first", "second-one")}

        def source(n):
            gen, words = state[n]
            fns = "".join('%s#[no_mangle]\n#[inline(never)]\nextern "C" fn %s(x: &mut u32) {\n    let mut a = [0u32; %d];\n'
                          "    for w in &mut a { unsafe { core::ptr::write_volatile(w, *x) } }\n    *x = a[0] + %d;\n}\n"
                          % (f'#[cfg(feature = "{c}")]\n' if c else "", fn, words[fn], k)
                          for k, (c, fn) in enumerate(zip(["", "fa", "fb", "fc"], names(n))))
            calls = "\n    ".join((f'#[cfg(feature = "{c}")] ' if c else "") + f"{fn}(&mut x);" for c, fn in zip(["", "fa", "fb", "fc"], names(n)))
            pr.write(f"examples/{n}.rs", SOURCE % (fns, calls))

        def names(n):
            return [f"always{state[n][0]}"] + ["with_" + c for c in ("fa", "fb", "fc")]

        def edit(n):
            gen = state[n][0] + 1
            state[n] = (gen, {})
            state[n] = (gen, {fn: rng.randint(2, 60) for fn in names(n)})
            source(n)
        edit("first")
        edit("second-one")
        sets = [(), ("fa",), ("fb",), ("fa", "fc"), ("fc",)]
        for k in range(8 if not runner.THOROUGH else 16):
            n = rng.choice(["first", "first", "first", "second-one"])
            f = rng.choice(sets[:3])
            if k and rng.random() < 0.2:
                edit(n)
                log.append("edit " + n)
            log.append(f"{n} {f}")
            r = pr.analyze(small.BIN, n, args=["--features", ",".join(f)] if f else [])
            rec["seen"]["requests to the real cargo"] = rec["seen"].get("requests to the real cargo", 0) + 1
            if r.rc:
                if "error: could not compile" in r.errtext:
                    raise tool.Inconclusive(f"the program does not build: {r.errtext[-300:]}")
                bad.append(("fails", f"{log}: exit status {r.rc}: {synth.failure_text(r)}"))
                break
            g = dot.parse(r.text)
            got = sorted((x.name, str(x.local)) for x in g.nodes.values() if x.name.startswith(("always", "with_")))
            want = [names(n)[0]] + ["with_" + c for c in f]
            sizes = dict(got)
            if sorted(sizes) != sorted(want) or len(got) != len(want):
                bad.append(("stale", f"requests {log}: functions {sorted(sizes)} instead of {sorted(want)}"))
            for fn in want:
                w = state[n][1][fn] * 4
                if fn in sizes and not (sizes[fn].isdigit() and w <= int(sizes[fn]) <= w + 40):
                    bad.append(("stale", f"requests {log}: local usage {sizes[fn]} of {fn}, whose array has {w} bytes"))
            if bad:
                break
        rec["keys"].append(runner.key(target, log))
        rec["sample"] = f"{target}: {log}"
        small.put(rec, PID, i, bad)
    finally:
        pr.remove()
    return rec


def case(i):
    if i < (8 if runner.THOROUGH else 2):
        return real_history(i)
    rng = random.Random(f"{PID}:{runner.SEED}:{i}")
    rec = small.record(PID, i)
    bad = []
    target = rng.choice(synth.THUMBS + synth.OTHERS)
    host_build = rng.random() < 0.15
    if host_build:
        target = "x86_64-unknown-linux-gnu"
    name = rng.choice(["app", "main", "my-app", "a-b-c", "app_2", "x"])
    kind = rng.choice(["example", "bin"])
    pr = tool.FakeProject(name=name, kind=kind, target=None if host_build else target, target_flag=not host_build,
                          layout=rng.choice(tool.LAYOUTS), linked=rng.choice(["link", "copy", "none"]))
    now = time.time_ns()
    try:
        steps = rng.randint(1, 5)
        stamps = sorted(rng.sample(range(1, 10 ** 6), steps + 26))
        scale = rng.choice([10 ** 3, 10 ** 6, 10 ** 9])  # nanoseconds between two stamps: microseconds to seconds

        def stamp(path, k):
            t = now - 10 ** 15 + stamps[k] * scale
            os.utime(path, ns=(t, t))

        def decoy(path, q, k):
            f = q.files()
            d = os.path.dirname(path)
            pr.write(path + ".ll", f["ll"])
            pr.write(path + ".o", f["obj"])
            stamp(pr.path(path + ".ll"), k)
            if pr.linked != "none":
                pr.write(path, f["elf"])
            return f
        under = name.replace("-", "_")
        d = os.path.dirname(pr.llstem)
        # products of other builds, newer than everything else
        others = [f"{d}/{under}_foo-{rng.getrandbits(64):016x}", f"{d}/{under}x-{rng.getrandbits(64):016x}", f"{d}/x{under}-{rng.getrandbits(64):016x}",
                  f"{d}/lib{under}-{rng.getrandbits(64):016x}", f"{d}/{under}", f"{d}/{under.upper()}_-{rng.getrandbits(64):016x}"]
        for o in rng.sample(others, rng.randint(0, 4)):
            q, _ = small.program(rng, target)
            decoy(o, q, -1)
            rec["seen"]["newer products of other crates"] = rec["seen"].get("newer products of other crates", 0) + 1
        rel = pr.rel
        t = pr.tdir
        elsewhere = [rel.replace("release", "debug") + "/examples", rel.replace("release", "debug") + "/deps",
                     rel + ("/deps" if kind == "example" else "/examples"), f"{t}/other-none-eabi/release/examples",
                     f"{t}/other-none-eabi/release/deps", rel + "/build"]
        if not host_build:
            elsewhere += [f"{t}/release/examples", f"{t}/release/deps"]
        if pr.layout != "plain":
            elsewhere += ["target" + d[len(t):], "target" + d[len(t):]]  # from before the target directory was moved
        for e in rng.sample(elsewhere, rng.randint(0, 3)):
            q, _ = small.program(rng, target)
            f = decoy(f"{e}/{under}-{rng.getrandbits(64):016x}", q, -1)
            pr.write(f"{e}/{name}" if kind == "example" or not e.endswith("/deps") else f"{os.path.dirname(e)}/{name}", f["elf"])
            rec["seen"]["products of other builds"] = rec["seen"].get("products of other builds", 0) + 1
        # a name that differs from the crate name only in the dash
        if "-" in name and rng.random() < 0.5:
            q, _ = small.program(rng, target)
            pr.write(pr.exe.replace(name, under), q.files()["elf"])
        # products of many earlier builds of the same program
        earlier = rng.choice([0, 0, 0, 2, 5, 20])
        order = list(range(earlier))
        rng.shuffle(order)
        q, _ = small.program(rng, target)
        for j in order:
            # cargo does not rebuild what is up to date: other builds of the program, e.g. with other features, can be newer
            decoy(f"{d}/{under}-{rng.getrandbits(64):016x}", q, j if pr.linked == "none" or rng.random() < 0.7 else -1 - j % 5)
        if earlier:
            rec["seen"]["histories with earlier builds"] = rec["seen"].get("histories with earlier builds", 0) + 1
        hashes, done = [], {}
        for k in range(steps):
            again = pr.linked != "none" and len(done) > 1 and rng.random() < 0.4
            if again:
                # an earlier build is requested again and cargo finds it up to date: nothing but the link changes
                h = rng.choice(sorted(done))
                p, x, pr.llstem, pr.rlib, pr.cbll = done[h]
                pr.link(pr.llstem)
                pr.write("cargo.stderr", pr.markers())
                rec["seen"]["builds that were up to date"] = rec["seen"].get("builds that were up to date", 0) + 1
            else:
                p, _ = small.program(rng, target)
                files = p.files()
                x = p.expected()
                h = rng.choice(hashes) if hashes and rng.random() < 0.3 else "%016x" % rng.getrandbits(64)
                pr.llstem = f"{d}/{under}-{h}"
                c = "%016x" % rng.getrandbits(64)
                pr.rlib = f"{pr.cbdir}/libcompiler_builtins-{c}.rlib"
                pr.cbll = f"{pr.cbdir}/compiler_builtins-{c}.ll"
                pr.populate(**files)
                stamp(pr.path(pr.llstem + ".ll"), 20 + k)
                done[h] = (p, x, pr.llstem, pr.rlib, pr.cbll)
            hashes.append(h)
            rec["seen"]["target directory: " + pr.layout] = rec["seen"].get("target directory: " + pr.layout, 0) + 1
            for o in hashes[:-1]:
                if o != h and rng.random() < 0.3:
                    os.utime(pr.path(f"{d}/{under}-{o}.o"))  # objects do not decide
            if rng.random() < 0.6:
                # the order in which the directory lists its files says nothing about their age
                inside = sorted(os.listdir(pr.path(d)))
                rng.shuffle(inside)
                for f in inside:
                    f = pr.path(f"{d}/{f}")
                    os.rename(f, f + ".moved")
                    os.rename(f + ".moved", f)
            r, g, b = synth.run_and_parse(pr, small.BIN)
            bad += b
            rec["seen"]["builds analysed"] = rec["seen"].get("builds analysed", 0) + 1
            if g is not None:
                b = oracle.compare(p, x, g)
                if b:
                    bad.append(("stale", f"build {k + 1} of {steps} ({kind} {name}, {target}): the graph is not the one of this build: {b[0][1]}"))
            if b:
                break
        rec["keys"].append(runner.key(name, kind, target, steps, i))
        if i < 4:
            rec["sample"] = f"{kind} {name} for {target}: {steps} builds, hashes {hashes}, stamps {scale} ns apart"
        small.put(rec, PID, i, bad)
    finally:
        pr.remove()
    return rec


def main():
    return small.run(PID, case, 1500, 30000,
                     "histories of one to five builds (new or reused hash, new compiler_builtins, up to date) in a target directory (of the package, "
                     "of its workspace, moved by the environment or the configuration) that also holds "
                     "newer products of other crates, kinds, profiles and targets, time stamps microseconds to seconds apart: every run must "
                     "show the program of the latest build; the first cases do this with the real cargo and compiler, changing features and sources; non-trivial: a distinct history",
                     ["cargo links or copies the executable from the file that has the hash of the build in its name; where there is no such "
                      "file the newest IR file of the crate is the one cargo just wrote"])
