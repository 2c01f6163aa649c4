"""C25: the tool itself creates, changes and removes no file."""
import os
import random
import re
import shutil

import elf as E
import runner
import small
import synth
import tool

PID = "C25"
CALLS = ("open,openat,openat2,creat,unlink,unlinkat,rename,renameat,renameat2,mkdir,mkdirat,rmdir,link,linkat,symlink,symlinkat,truncate,ftruncate,"
         "chmod,fchmod,fchmodat,chown,fchown,lchown,fchownat,utime,utimes,futimesat,utimensat,mknod,mknodat,setxattr,fsetxattr,lsetxattr,"
         "fallocate,kill,tkill,tgkill,chdir,fchdir,mount,umount2,sethostname,settimeofday")
LINE = re.compile(r'^(?:\d+ +)?(\w+)\((.*)\) = (-?\d+|0x[0-9a-f]+|\?)')


def snapshot(tops):
    """{path: (kind, mode, contents, time stamp)} of everything below the directories"""
    out = {}
    for top in tops:
        for root, dirs, files in os.walk(top):
            for x in dirs + files:
                p = os.path.join(root, x)
                st = os.lstat(p)
                if os.path.islink(p):
                    what = os.readlink(p)
                elif os.path.isdir(p):
                    what = None
                else:
                    with open(p, "rb") as f:
                        what = f.read()
                out[p] = (what, st.st_mode, st.st_mtime_ns if not os.path.isdir(p) else 0, st.st_uid, st.st_gid)
    return out


_works = None


def recorder():
    """whether system calls can be recorded here"""
    global _works
    if _works is None:
        try:
            _works = tool.execute(["strace", "-o", "/dev/null", "/bin/true"], "/", {"PATH": "/usr/bin:/bin"}).rc == 0
        except OSError:
            _works = False
    return _works


def judge_calls(trace, package, see):
    """what the recorded system calls of the tool's own process say"""
    bad = []
    for line in open(trace, errors="replace"):
        m = LINE.match(line)
        if not m:
            continue
        name, args, res = m.groups()
        see("system calls watched")
        if name in ("chdir", "fchdir"):
            continue
        paths = re.findall(r'"((?:[^"\\]|\\.)*)"', args)
        source = paths and paths[0].endswith(".rs") and os.path.realpath(os.path.join(package, paths[0])).startswith(os.path.realpath(package) + "/")
        if name.startswith("open"):
            if not re.search(r"O_WRONLY|O_RDWR|O_CREAT|O_TRUNC|O_APPEND|O_TMPFILE", args) or (paths and paths[0] in ("/dev/null", "/dev/tty")):
                continue
            if source and not re.search(r"O_CREAT|O_TRUNC|O_TMPFILE", args):
                continue
        elif name.startswith(("utime", "futime")):
            if source or (not paths and "AT_FDCWD" not in args):
                see("source files touched")
                continue
            if res.startswith("-"):
                continue      # nothing there
        elif name in ("tgkill", "tkill", "kill") and "SIGABRT" in args:
            continue
        bad.append(f"{name}({args[:160]}) = {res}")
    return bad


def damage(rng, pr, files):
    kind = rng.choice(["none"] * 6 + ["cargo fails", "no IR", "bad IR", "no executable", "truncated executable", "bad rlib", "bad option", "no start", "cargo killed"])
    args = None
    if kind == "cargo fails":
        pr.write("cargo.rc", "101")
    elif kind == "cargo killed":
        pr.write("cargo.kill", "1")
    elif kind == "no IR":
        os.remove(pr.path(pr.llstem + ".ll"))
    elif kind == "bad IR":
        pr.write(pr.llstem + ".ll", files["ll"] + "\n\ndefine void @(\n")
    elif kind == "no executable":
        os.remove(pr.path(pr.exe))
    elif kind == "truncated executable":
        pr.write(pr.exe, files["elf"][:rng.randrange(len(files["elf"]) - 40)])
    elif kind == "bad rlib":
        pr.write(pr.rlib, b"garbage" * 20)
    elif kind == "bad option":
        args = pr.args(extra=["--frobnicate"])
    return kind, args


def wrapped(i, rng, rec):
    """as the compiler wrapper"""
    d = os.path.join(tool.scratch(), "w25-%d" % i)
    os.makedirs(d + "/deps")
    os.makedirs(d + "/tmp")
    try:
        with open(d + "/rustc", "w") as f:
            f.write("#!/bin/sh\nexit %d\n" % rng.choice([0, 0, 0, 1, 101]))
        os.chmod(d + "/rustc", 0o755)
        for f in ("lib.rs", "deps/libcompiler_builtins-1.rlib", "deps/compiler_builtins-1.ll", "deps/app-1.ll"):
            with open(f"{d}/{f}", "w") as fh:
                fh.write("keep " + f)
        crate = rng.choice(["core", "compiler_builtins", "app"])
        args = ["--crate-name", crate, "lib.rs", "--out-dir", d + "/deps", "-C", "extra-filename=-1"]
        if rng.random() < 0.5:
            args += ["--extern", f"noprelude:compiler_builtins={d}/deps/libcompiler_builtins-1.rlib"]
        return d, d, ["/usr/bin/env", "true"][:0] + [d + "/rustc"] + args, {"PATH": "/usr/bin:/bin", "HOME": d, "TMPDIR": d + "/tmp",
                                                                             "CARGO_CALL_STACK_RUSTC_WRAPPER": "1"}, "compiler wrapper"
    except BaseException:
        shutil.rmtree(d, ignore_errors=True)
        raise


def case(i):
    rng = random.Random(f"{PID}:{runner.SEED}:{i}")
    rec = small.record(PID, i)
    bad = []
    seen = rec["seen"]

    def see(k, n=1):
        seen[k] = seen.get(k, 0) + n
    pr = None
    if i % 8 == 7:
        d, cwd, args, env, kind = wrapped(i, rng, rec)
        package = d
        lay, fmt = "", None
    else:
        p, target = small.program(rng, None)
        files = p.files()
        pr = tool.FakeProject(name=rng.choice(synth.NAMES), kind=rng.choice(["example", "bin"]), target=target,
                              layout=rng.choice(tool.LAYOUTS), linked=rng.choice(["link", "copy", "none"]))
        d, cwd, package = pr.outer, pr.dir, pr.dir
        pr.populate(**files)
        lay = rng.choice(["main", "main", "lib", "both", "other", "nosrc", "none"])
        os.remove(pr.path("src/main.rs"))
        if lay in ("main", "both"):
            pr.write("src/main.rs", "fn main() { /* keep */ }\n")
        if lay in ("lib", "both"):
            pr.write("src/lib.rs", "pub fn keep() {}\n")
        if lay == "other":
            pr.write("src/bin/thing.rs", "fn main() {}\n")
            pr.write("src/notes.txt", "keep\n")
        if lay in ("nosrc", "none"):
            os.rmdir(pr.path("src"))
        if lay == "nosrc":
            pr.write("examples/" + pr.name + ".rs", "fn main() {}\n")
        for f in rng.sample(["Cargo.lock", "build.rs", "memory.x", "tests/t.rs", ".gitignore", "README.md", "call-graph.dot", pr.name + ".dot",
                             "target/CACHEDIR.TAG", "rust-toolchain", ".cargo/notes", "src.rs"], rng.randint(0, 5)):
            pr.write(f, "keep " + f)
        # what other builds left behind
        old = os.path.dirname(pr.llstem)
        for k in range(rng.choice([0, 0, 1, 3, 12])):
            h = f"{old}/{pr.name.replace('-', '_')}-{rng.getrandbits(64):016x}"
            pr.write(h + ".ll", "; old\n")
            pr.write(h + ".o", E.stack_sizes_object(p.arch, [], p.thumb))
            os.utime(pr.path(h + ".ll"), (1, 1))
        for n in ("home", "tmp"):
            os.makedirs(f"{d}/{n}", exist_ok=True)
        kind, bargs = damage(rng, pr, files)
        fmt = rng.choice([None, None, "top"])
        start = "no_such_function" if kind == "no start" else rng.choice([None, None, p.fns[0].names[0].sym]) if not p.fns[0].names[0].sym.startswith("-") else None
        args = bargs if bargs is not None else pr.args(fmt, start, ["--verbose"] if rng.random() < 0.2 else [])
        env = dict(pr.env(), HOME=d + "/home", TMPDIR=d + "/tmp")
        if rng.random() < 0.3:
            env["RUST_LOG"] = rng.choice(["trace", "debug", "off"])
        if rng.random() < 0.2 and lay in ("main", "lib"):
            cwd = pr.path("src")
            if pr.layout in ("env", "config"):
                cwd = pr.dir
    trace = os.path.join(tool.scratch(), "trace-%d" % i)
    try:
        before = snapshot([d])
        watched = (i % 4 == 3 or i % 8 == 0) and recorder()
        cmd = [small.BIN] + args
        if watched:
            cmd = ["strace", "-s", "4096", "-e", "trace=" + CALLS, "-o", trace] + cmd
        r = tool.execute(cmd, cwd, env)
        after = snapshot([d])
        see(f"{kind}: status {r.rc}")
        if watched and not os.path.exists(trace):
            rec["inconclusive"] = f"nothing was recorded: {r.errtext[-200:]}"
        elif watched:
            for t in judge_calls(trace, package, see):
                bad.append(("effect", f"{kind}: the tool itself calls {t}"))
        for f in sorted(set(before) | set(after)):
            a, b = before.get(f), after.get(f)
            if a == b:
                continue
            name = os.path.relpath(f, d)
            if a is None or b is None:
                bad.append(("files", f"{kind}: {name} is {'created' if a is None else 'removed'}"))
            elif a[0] != b[0]:
                bad.append(("files", f"{kind}: the contents of {name} change"))
            elif a[:2] + a[3:] != b[:2] + b[3:]:
                bad.append(("files", f"{kind}: the permissions of {name} change"))
            elif not (f.endswith(".rs") and f.startswith(package + "/")):
                bad.append(("files", f"{kind}: the time stamp of {name}, which is no source file of the package, changes"))
            else:
                see("time stamps of sources refreshed")
        see("files compared", len(before))
        rec["keys"].append(runner.key(kind, lay, args, i))
        if i < 2:
            rec["sample"] = f"{kind} ({args}): status {r.rc}, {len(before)} files compared"
        small.put(rec, PID, i, bad)
    finally:
        if os.path.exists(trace):
            os.remove(trace)
        if pr is not None:
            pr.remove()
        else:
            shutil.rmtree(d, ignore_errors=True)
    return rec


def main():
    return small.run(PID, case, 1200, 20000,
                     "runs on random programs (package and source layouts, START, formats, failing builds, damaged products, the compiler wrapper): "
                     "all files of the workspace, the target directory, HOME and TMPDIR are compared before and after, and in every fourth case the "
                     "system calls of the tool's own process are recorded and judged; non-trivial: a distinct run",
                     ["cargo and the compiler, which write the build products, are stand-ins here"])
