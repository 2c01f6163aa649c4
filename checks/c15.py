"""C15: the compiler wrapper is transparent."""
import os
import random

import runner
import tool

BIN = None
PID = "C15"

REC = r'''#!/usr/bin/python3
import os, sys
d = os.environ["REC_DIR"]
with open(d + "/args", "ab") as f:
    f.write(b"\0".join(os.fsencode(a) for a in sys.argv[1:]) + b"\1")
with open(d + "/env", "wb") as f:
    f.write(b"\0".join(k + b"=" + v for k, v in sorted(os.environb.items())))
with open(d + "/stdin.got", "wb") as f:
    f.write(sys.stdin.buffer.read())
fd = os.environ.get("JOB_FD")
if fd:
    with open(d + "/job", "wb") as f:
        try:
            f.write(os.read(int(fd), 64))
        except OSError as e:
            f.write(str(e).encode())
with open(d + "/cwd", "w") as f:
    f.write(os.getcwd())
sys.stdout.buffer.write(open(d + "/stdout", "rb").read()); sys.stdout.flush()
sys.stderr.buffer.write(open(d + "/stderr", "rb").read()); sys.stderr.flush()
rc = open(d + "/rc").read()
if rc == "kill":
    import signal
    os.kill(os.getpid(), signal.SIGKILL)
sys.exit(int(rc))
'''

CRATES = ["core", "alloc", "compiler_builtins", "compiler_builtins", "app", "build_script_build", "compiler_builtins_x",
          "my_compiler_builtins", "panic_halt", "std", "___"]
PATHS = ["/t/deps", "/tmp/with space/deps", "/ünï/deps", "relative/deps", "/a=b/c", "/x/@CARGO", "."]


def scenario(rng):
    """-> (args, expected marker lines or None when the invocation must be refused)"""
    crate = rng.choice(CRATES)
    outdir = rng.choice(PATHS)
    extra = rng.choice(["-0123456789abcdef", "-abc", "", "-x y", "-é", "-a=b"])
    parts = [["--crate-name", crate]]
    if rng.random() < 0.95 or crate == "compiler_builtins":
        parts.append(["--out-dir", outdir])
    has_extra = rng.random() < 0.85
    if has_extra:
        parts.append(rng.choice([["-C", "extra-filename=" + extra], ["-Cextra-filename=" + extra]]))
    markers = []
    exts = []
    for _ in range(rng.randint(0, 4)):
        c = rng.choice(CRATES)
        np = rng.choice(["", "noprelude:"])
        path = rng.choice([None, "/t/lib%s-1.rlib" % c, "/t/lib%s-2.rmeta" % c, "/a b/x=y.rlib"])
        exts.append(["--extern", np + c + ("=" + path if path else "")])
        if c == "compiler_builtins" and path:
            markers.append(("compiler_builtins_rlib_path", path))
    noise = [["--edition=2018"], ["src/lib.rs"], ["-"], ["--error-format=json"], ["--json=diagnostic-rendered-ansi,artifacts"],
             ["--crate-type", "lib"], ["--emit=dep-info,metadata,link"], ["-C", "opt-level=z"], ["-Copt-level=3"],
             ["-C", "embed-bitcode=no"], ["-C", "lto=fat"], ["-Clto"], ["--cfg", "feature=\"a b\""], ["--target", "thumbv7m-none-eabi"],
             ["-L", "dependency=/t/deps"], ["--cap-lints", "allow"], ["-Z", "force-unstable-if-unmarked"], ["-C", "metadata=0f"],
             ["--check-cfg", "cfg()"], [""], ["a\nb"], ["*"], ["$HOME"], ["é"], ["--sysroot", "/s"], ["-vV"], ["@file"],
             ["--print=cfg"], ["-Clinker=a=b=c"], ["-C", "link-arg=-Tlink.x"], ["'"], ['"'], ["\\"], ["--test"]]
    groups = parts + exts + rng.sample(noise, rng.randint(0, 12))
    order = list(range(len(groups)))
    rng.shuffle(order)
    groups = [groups[k] for k in order]
    markers = []
    for g in groups:
        if g[0] == "--extern":
            a = g[1][len("noprelude:"):] if g[1].startswith("noprelude:") else g[1]
            if a.startswith("compiler_builtins="):
                markers.append("compiler_builtins_rlib_path@" + a.split("=", 1)[1])
    if crate == "compiler_builtins":
        markers.append(f"compiler_builtins_ll_path@{outdir}/{crate}{extra if has_extra else ''}.ll")
    # the same option twice in a row, and more arguments than anyone would type
    for k in range(len(groups) - 1, -1, -1):
        if groups[k] in TWICE and rng.random() < 0.3:
            groups[k:k] = [groups[k]] * rng.choice([1, 1, 2])
    if rng.random() < 0.06:
        k = rng.randint(0, len(groups))
        groups[k:k] = [["--cfg", 'feature="f%d"' % j] if j % 3 else ["-Clink-arg=-l%d" % j] for j in range(rng.choice([40, 300, 2000, 6000]))]
    args = [a for g in groups for a in g]
    mode = rng.random()
    if mode < 0.04:
        args = [a for g in groups if g[0] != "--crate-name" for a in g]
        return args, crate, None
    if mode < 0.06:
        args += [rng.choice(["--extern", "--out-dir", "--crate-name", "-C"])]
        return args, crate, None
    if mode < 0.08 and crate == "compiler_builtins":
        args = [a for g in groups if g[0] != "--out-dir" for a in g]
        return args, crate, None
    return args, crate, markers


TWICE = [[x] for x in ("-", "src/lib.rs", "-Copt-level=3", "-Clto", "", "a\nb", "*", "é", "-vV", "@file", "'", '"', "\\", "--test",
                       "--print=cfg", "-Clinker=a=b=c", "$HOME")]
VALUE = {"--extern", "--crate-name", "--out-dir", "-C", "--crate-type", "--cfg", "--target", "-L", "--cap-lints", "-Z", "--check-cfg", "--sysroot"}


def transparent(orig, got, extra):
    """got = orig with the extra arguments inserted, none of them as another option's value"""
    got = list(got)
    i = 0
    left = []
    for k, a in enumerate(got):
        if i < len(orig) and a == orig[i] and not (a in extra and orig.count(a) < got.count(a) and a not in left):
            i += 1
        else:
            if k and got[k - 1] in VALUE:
                return f"{a!r} was inserted behind {got[k - 1]!r}"
            left.append(a)
    if i != len(orig):
        return f"argument {orig[i]!r} was lost, changed or moved"
    if sorted(left) != sorted(extra):
        return f"added arguments {left}, expected {extra}"
    return None


def case(i):
    rng = random.Random(f"{PID}:{runner.SEED}:{i}")
    d = os.path.join(tool.scratch(), "w%d" % i)
    os.makedirs(d)
    rec = dict(evals=1, keys=[], bad=[], seen={}, replay=dict(kind="module", pid=PID, case=i, seed=runner.SEED))
    try:
        rustc = os.path.join(d, rng.choice(["rustc", "my rustc", "clippy-driver"]))
        with open(rustc, "w") as f:
            f.write(REC)
        os.chmod(rustc, 0o755)
        args, crate, markers = scenario(rng)
        rc = rng.choice([0, 0, 0, 1, 101, 2, 255, "kill", 77])
        out = rng.choice([b"", b"feature=\"x\"\n", b"\xff\xfe\0raw", b"no newline"])
        err = rng.choice([b"", b"warning: x\n", b"{\"artifact\":\"/t/x\",\"emit\":\"link\"}\n{\"message\":\"unused\"}\n", b"\xff raw\n",
                          b"warning: y\n" * 5000])
        for n, v in (("stdout", out), ("stderr", err), ("rc", str(rc).encode())):
            with open(d + "/" + n, "wb") as f:
                f.write(v)
        env = {"PATH": "/usr/bin:/bin", "REC_DIR": d, "CARGO_CALL_STACK_RUSTC_WRAPPER": "1", "CARGO_PKG_NAME": crate,
               "RUSTC_BOOTSTRAP": "1", "LANG": "C.UTF-8", "WEIRD": "a\nb=c"}
        stdin = rng.choice([b"", b"fn main() {}\n", b"\xff\0raw", b"pub fn f() {}\n" * 9000])
        fds = ()
        if rng.random() < 0.3:
            rd, wr = os.pipe()
            os.write(wr, b"++token")
            os.close(wr)
            fds = (rd,)
            env["JOB_FD"] = str(rd)
            env["CARGO_MAKEFLAGS"] = "-j --jobserver-fds=%d,%d --jobserver-auth=%d,%d" % (rd, rd, rd, rd)
        try:
            r = tool.execute([BIN, rustc] + args, d, env, stdin=stdin, fds=fds)
        finally:
            for fd in fds:
                os.close(fd)
        bad = []
        ran = os.path.exists(d + "/args")
        if markers is None:
            rec["seen"]["incomplete invocations"] = 1
            if r.rc == 0:
                bad.append(("silent", f"an invocation without the arguments it needs exits with 0: {args}"))
        else:
            runs = open(d + "/args", "rb").read().split(b"\1")[:-1] if ran else []
            if len(runs) != 1:
                bad.append(("args", f"the compiler was run {len(runs)} times for {args}: {r.errtext[-300:]}"))
            else:
                got = [a.decode("utf-8", "surrogateescape") for a in runs[0].split(b"\0")]
                extra = ["-Zemit-stack-sizes"] + (["--emit=llvm-ir"] if crate == "compiler_builtins" else [])
                why = transparent(args, got, extra)
                if why:
                    bad.append(("args", f"{why}; crate {crate}, arguments {args} -> {got}"))
                if open(d + "/cwd").read() != d:
                    bad.append(("args", "the compiler runs in another directory"))
                e2 = dict(x.split(b"=", 1) for x in open(d + "/env", "rb").read().split(b"\0"))
                lost = [k for k, v in env.items() if k != "CARGO_CALL_STACK_RUSTC_WRAPPER" and e2.get(k.encode()) != v.encode()]
                if lost:
                    bad.append(("args", f"environment variables {lost} do not reach the compiler"))
                if open(d + "/stdin.got", "rb").read() != stdin:
                    bad.append(("input", "the compiler does not get the standard input"))
                if fds and open(d + "/job", "rb").read() != b"++token":
                    bad.append(("input", "the jobserver's descriptor does not reach the compiler"))
                want = rc if rc != "kill" else None
                if (want is None and r.rc == 0) or (want is not None and r.rc != want):
                    bad.append(("status", f"the compiler ends with {rc}, the wrapper with {r.rc}"))
                if r.out != out:
                    bad.append(("output", f"the compiler's standard output {out!r} arrives as {r.out[:80]!r}"))
                pre = b"@CARGO_CALL_STACK:"
                lines = r.err.split(b"\n")
                ms = [l[len(pre):].decode() for l in lines if l.startswith(pre)]
                rest = b"\n".join(l for l in lines if not l.startswith(pre))
                if ms != markers and sorted(ms) != sorted(markers):
                    bad.append(("markers", f"reported {ms}, expected {markers} for {args}"))
                if rest != err:
                    bad.append(("output", f"the compiler's error output changed: {rest[:120]!r} instead of {err[:120]!r}"))
                rec["seen"]["compiler runs"] = 1
                rec["seen"]["build products reported"] = len(markers)
                rec["keys"].append(runner.key(args, rc))
                rec["seen"]["exit status %s" % rc] = 1
        rec["bad"] = [(f"{PID}:{c}", f"[case {i}] {t}") for c, t in bad]
        if i < 2:
            rec["sample"] = f"wrapper invoked with {args} -> {r.rc}"
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    return rec


def main():
    global BIN
    ck = runner.Check(PID, "random compiler invocations as cargo makes them (any crate name, externs with and without noprelude, split and "
                      "joined -C options, hostile strings, failing and killed compilers) through the real wrapper around a recording "
                      "compiler; non-trivial: a distinct argument vector and exit status", "exploration",
                      ["arguments are UTF-8; cargo passes --crate-name, --out-dir and --extern as separate arguments"])
    BIN = tool.build()
    ck.map(case, range(30000 if runner.THOROUGH else 1500))
    return ck.finish()
