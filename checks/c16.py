"""C16: what is built, how, and with which toolchain."""
import os
import random
import shutil
import time

import oracle
import runner
import small
import synth
import tool

PID = "C16"
OPT = "I won't open issues about unsupported toolchains"
VERSION = """rustc 1.{m}.0{ch} ({h} 2023-11-12)
binary: rustc
commit-hash: {hash}
commit-date: 2023-11-12
host: x86_64-unknown-linux-gnu
release: 1.{m}.0{ch}
LLVM version: 17.0.4
"""
CFGT = synth.THUMBS + synth.OTHERS


def parse_cargo(args):
    """semantic reading of a cargo command line"""
    if "--" in args:
        k = args.index("--")
        a, r = args[:k], args[k + 1:]
    else:
        a, r = args, []
    d = dict(flags=set(), opts={}, pos=[])
    i = 0
    val = ("--target", "--example", "--bin", "--features", "--color", "-Z", "--profile", "--manifest-path", "-F", "--target-dir")
    while i < len(a):
        x = a[i]
        if x.startswith("--") and "=" in x:
            k, v = x.split("=", 1)
            d["opts"].setdefault(k, []).append(v)
        elif x in val:
            d["opts"].setdefault(x, []).append(a[i + 1] if i + 1 < len(a) else None)
            i += 1
        elif x.startswith("-Z"):
            d["opts"].setdefault("-Z", []).append(x[2:])
        elif x.startswith("-"):
            d["flags"].add(x)
        else:
            d["pos"].append(x)
        i += 1
    d["rustc"] = r
    emit, cg = set(), {}
    i = 0
    while i < len(r):
        x = r[i]
        if x == "--emit":
            emit |= set(r[i + 1].split(","))
            i += 1
        elif x.startswith("--emit="):
            emit |= set(x[7:].split(","))
        elif x == "-C":
            k, _, v = r[i + 1].partition("=")
            cg[k] = v
            i += 1
        elif x.startswith("-C"):
            k, _, v = x[2:].partition("=")
            cg[k] = v
        i += 1
    d["emit"], d["cg"] = emit, cg
    return d


def case(i):
    rng = random.Random(f"{PID}:{runner.SEED}:{i}")
    rec = small.record(PID, i)
    bad = []
    flag = rng.random() < 0.6
    cfgtarget = rng.random() < 0.5
    ft = rng.choice(CFGT) if flag else None
    ct = rng.choice(CFGT) if cfgtarget else None
    et = rng.choice(CFGT) if rng.random() < 0.2 else None  # cargo's environment variable precedes its configuration
    eff = ft or et or ct or tool.HOST
    p, _ = small.program(rng, eff if eff in CFGT else "x86_64-unknown-linux-gnu")
    kind = rng.choice(["example", "bin"])
    name = rng.choice(["app", "main", "my-app", "blinky", "a-b-c", "a-b_c-d-e", "x-1-2-3-4", "app_2"])
    pr = tool.FakeProject(name=name, kind=kind, target=eff if (ft or et or ct) else None, target_flag=bool(ft),
                          layout=rng.choice(tool.LAYOUTS), linked=rng.choice(["link", "copy", "none"]))
    try:
        p.rng_state = p.rng.getstate()
        pr.populate(**p.files())
        x = p.expected()
        # other layouts of the package's sources
        lay = rng.choice(["main", "lib", "both", "other", "nosrc"])
        os.remove(pr.path("src/main.rs"))
        if lay in ("main", "both"):
            pr.write("src/main.rs", "fn main() { /* keep */ }\n")
        if lay in ("lib", "both"):
            pr.write("src/lib.rs", "pub fn keep() {}\n")
        if lay == "other":
            pr.write("src/bin/thing.rs", "fn main() {}\n")
            pr.write("src/notes.txt", "keep\n")
        if lay == "nosrc":
            os.rmdir(pr.path("src"))
            pr.write("examples/" + name + ".rs", "fn main() {}\n")
        if et:
            pr.extra_env["CARGO_BUILD_TARGET"] = et
        if ct:
            pr.config["target"] = ct
        if pr.config:
            shutil.rmtree(pr.path(".cargo"), True)
            # the file is looked for in the parent directories too
            pr.write_config((".cargo/" if "target-dir" in pr.config or rng.random() < 0.5 else pr.outer + "/.cargo/") + rng.choice(["config", "config.toml"]))
        # the tool may be run from anywhere below the package (relative paths in cargo's environment change their meaning then)
        cwd = None
        if lay != "nosrc" and pr.layout not in ("env", "config") and rng.random() < 0.2:
            cwd = pr.path("src")
        old = time.time() - 100000
        rs = []
        for root, dirs, files in os.walk(pr.dir):
            for f in files:
                if f.endswith(".rs"):
                    rs.append(os.path.join(root, f))
                    os.utime(rs[-1], (old, old))
        sup = rng.choice(["yes", "yes", "yes", "yes", "no", "optin", "wrongoptin", "nohash"])
        env = {}
        if sup != "yes":
            h = "%040x" % rng.getrandbits(160) if rng.random() < 0.7 else tool.HASH[:-1] + ("2" if tool.HASH[-1] != "2" else "3")
            text = VERSION.format(m=rng.choice([70, 76, 80]), ch=rng.choice(["", "-nightly", "-beta.1"]), h=h[:9], hash=h)
            if sup == "nohash":
                text = text.replace(h, "unknown")
            pr.write("rustc.version", text)
            if sup == "optin":
                env["CARGO_CALL_STACK_UNSPPORTED_NIGHTLY"] = OPT
            if sup == "wrongoptin":
                env["CARGO_CALL_STACK_UNSPPORTED_NIGHTLY"] = rng.choice(["1", "", OPT.lower(), OPT + "."])
        # what the user sets for cargo and the compiler
        user = {}
        for k, v in (("RUSTFLAGS", "-C link-arg=-Tlink.x"), ("CARGO_PROFILE_RELEASE_OPT_LEVEL", "z"), ("CARGO_HOME", pr.path("cargo home")),
                     ("DEFMT_LOG", "trace"), ("CARGO_NET_OFFLINE", "true"), ("RUSTUP_TOOLCHAIN", "nightly-2023-11-13"), ("CARGO_INCREMENTAL", "0")):
            if rng.random() < 0.2:
                user[k] = env[k] = v
        before = small.tree(pr.dir)
        choice = rng.choice(["one"] * 8 + ["both", "none"])
        feats = rng.choice([None, None, "a", "a b", "x/y z", "a,b", "rt,dep/x,log-04", "b,a", " a", "a ", "default,", "all"])
        args = []
        if ft:
            args += rng.choice([["--target", ft], ["--target=" + ft]])
        if choice == "one":
            args += rng.choice([["--" + kind, name], [f"--{kind}={name}"]])
        elif choice == "both":
            args += ["--bin", name, "--example", name]
        if feats == "all":
            args += ["--all-features"]
        elif feats:
            args += ["--features", feats]
        if rng.random() < 0.2:
            args += [rng.choice(["-v", "--verbose"])]
        sub = rng.random() < 0.4
        start = choice == "one" and rng.random() < 0.1
        if start:
            args.insert(rng.choice([len(args), len(args), 0 if sub else len(args)]), "call-stack")
        if sub:
            args = ["call-stack"] + args  # as cargo invokes subcommands
        r = pr.run(small.BIN, args=args, log=True, env=env, cwd=cwd)
        log = pr.path("cargo.log")
        calls = [l.split("\x1f")[:-1] for l in open(log).read().split("\n")[:-1]] if os.path.exists(log) else []
        after = small.tree(pr.dir)
        for f in ("cargo.log", "cargo.env", "cargo.cwd", "rustc.log"):
            after.pop(f, None)
        if after != before:
            bad.append(("sources", f"the project's files changed: {sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k))}"))
        refuse = sup in ("no", "wrongoptin", "nohash")
        if refuse or choice != "one":
            rec["seen"]["refused: " + (sup if refuse else choice)] = 1
            why = "an unsupported toolchain" if refuse else "not exactly one of --bin and --example"
            if r.rc == 0 or r.rc < 0:
                bad.append(("gate", f"exit status {r.rc} in spite of {why}"))
            if calls:
                bad.append(("gate", f"something is built in spite of {why}: {calls}"))
            if r.out.strip():
                bad.append(("gate", f"output in spite of {why}: {r.out[:100]!r}"))
        else:
            if r.rc != 0:
                bad.append(("run", f"args {args} (config target {ct}): exit status {r.rc}: {synth.failure_text(r)}"))
            if start:
                rec["seen"]["a start point named like the subcommand"] = 1
                if "start point" not in r.errtext:
                    bad.append(("run", f"the start point `call-stack`, which does not exist, is not reported: {args}"))
            elif "start point" in r.errtext:
                bad.append(("run", f"complains about a start point although none was given: {args}"))
            if len(calls) != 1:
                bad.append(("build", f"cargo was run {len(calls)} times: {calls}"))
            else:
                a = calls[0]
                d = parse_cargo(a)
                want_os = "linux" if "linux" in eff else "none"
                std = sorted((z[len("build-std"):].lstrip("=") or "std") for z in d["opts"].get("-Z", []) if z.startswith("build-std"))
                chk = [(d["pos"][:1] in (["rustc"], ["build"]), "no compilation is requested"),
                       (d["opts"].get("--target", []) in ([[ft]] if ft else [[], [et]] if et else [[]]), f"target {d['opts'].get('--target')} instead of {ft}"),
                       (d["opts"].get("--example", []) == ([name] if kind == "example" else []), "wrong example"),
                       (d["opts"].get("--bin", []) == ([name] if kind == "bin" else []), "wrong binary"),
                       ("--release" in d["flags"] or d["opts"].get("--profile") == ["release"], "not the release profile"),
                       (("--all-features" in d["flags"]) == (feats == "all"), "all-features"),
                       (d["opts"].get("--features", []) == ([feats] if feats not in (None, "all") else []), f"features {d['opts'].get('--features')} instead of {feats}"),
                       ({"llvm-ir", "obj"} <= d["emit"], f"emits only {d['emit']}"),
                       (d["cg"].get("lto") in ("fat", "true", "yes", "on", "y"), "not with fat LTO"),
                       (len(std) == 1 and ((std == ["alloc,compiler_builtins,core"] or set(std[0].split(",")) >= {"core", "compiler_builtins"} and "std" not in std[0].split(","))
                                           if want_os == "none" else std[0] == "std" or "std" in std[0].split(",")),
                        f"standard library {std} for a target whose OS is {want_os}")]
                for ok, text in chk:
                    if not ok:
                        bad.append(("build", f"{text}: {a} (args {args}, environment {et}, config {ct})"))
                e = dict(v.split(b"=", 1) for v in open(pr.path("cargo.env"), "rb").read().split(b"\0") if b"=" in v)
                lost = [k for k, v in user.items() if e.get(k.encode()) != v.encode()]
                if lost:
                    bad.append(("build", f"the environment variables {lost} do not reach cargo"))
                w = e.get(b"RUSTC_WRAPPER", b"").decode()
                if not w or not os.path.samefile(w, small.BIN):
                    bad.append(("build", f"the compiler is not wrapped: RUSTC_WRAPPER={w!r}"))
                elif i % 10 == 0:
                    t = tool.execute([w, "/bin/echo", "--crate-name", "zz"], pr.dir, {k.decode(): v.decode("utf-8", "replace") for k, v in e.items()})
                    if t.rc != 0 or "--crate-name zz" not in t.text:
                        bad.append(("build", f"in the environment given to cargo the wrapper runs no compiler: {t.errtext[:200]}"))
                    rec["seen"]["wrapped compilers"] = 1
                there = os.path.realpath(open(pr.path("cargo.cwd")).read().strip())
                if there not in (os.path.realpath(pr.dir), os.path.realpath(cwd or pr.dir)):
                    bad.append(("build", "cargo does not run in the package's directory"))
                if rs and not any(os.stat(f).st_mtime > old + 50000 for f in rs):
                    bad.append(("rebuild", f"no source file is marked as changed, so nothing forces a rebuild (layout {lay})"))
                rec["seen"]["builds"] = 1
                rec["seen"]["target from " + ("flag over config" if ft and ct else "flag" if ft else "environment" if et else "config" if ct else "host")] = 1
                rec["keys"].append(runner.key(args, et, ct, lay, pr.layout, bool(cwd), sup))
            if r.rc == 0:
                import dot
                try:
                    g = dot.parse(r.text)
                    for c, t in oracle.compare(p, x, g)[:2]:
                        bad.append(("analysis", f"analysed as another target than {eff} (flag {ft}, environment {et}, config {ct}): {t}"))
                except dot.DotError as ex:
                    bad.append(("run", f"malformed output {ex}"))
        if i < 2:
            rec["sample"] = f"args {args}, config target {ct}, toolchain {sup} -> {r.rc}, cargo {calls}"
        small.put(rec, PID, i, bad)
    finally:
        pr.remove()
    return rec


def main():
    return small.run(PID, case, 1500, 25000,
                     "random invocations (target by flag, environment, configuration or host; target directory; working directory; bin/example; features; package layouts; toolchain "
                     "versions and opt-in) with a recording stand-in cargo: the request is checked semantically, the products of exactly that "
                     "request are analysed, sources keep their contents; non-trivial: a distinct invocation that builds",
                     ["the real cargo honours the command line it is given"])
