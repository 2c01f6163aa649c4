"""C17: whatever goes wrong, no call graph is passed off as a result."""
import os
import random
import re

import runner
import small
import synth
import tool

PID = "C17"


def unbalanced(rng, ll):
    """damage one function header or call of the IR so that it is no longer IR"""
    lines = ll.split("\n")
    heads = [k for k, l in enumerate(lines) if l.startswith(("define ", "declare ")) and "@llvm." not in l]
    if not heads or not any("@" in lines[k] and "(" in lines[k] for k in heads):
        return ll + "\n\ndefine void @(\n"
    k = rng.choice(heads)
    l = lines[k]
    how = rng.randrange(5)
    if how == 0:
        l = l[:l.index("(")]                       # cut inside the header
    elif how == 1:
        l = re.sub(r"@\"?[^(]*\(", "(", l, count=1)  # no name
    elif how == 2:
        l = l.replace("define ", "def ine ").replace("declare ", "decl are ")
    elif how == 3:
        l = l.replace("(", "(%%% ", 1)
    else:
        k = rng.choice(heads)
        l = lines[k].split("@")[0] + "@"
    lines[k] = l
    return "\n".join(lines)


def case(i):
    rng = random.Random(f"{PID}:{runner.SEED}:{i}")
    rec = small.record(PID, i)
    bad = []
    p, target = small.program(rng, None)
    kind = FAULTS[i % len(FAULTS)]
    files = p.files()
    pr = synth.project(rng, target, files)
    env, args, want_rc, start = {}, None, None, None
    base = None
    try:
        # products of earlier builds of the program are no replacement
        for k in range(rng.choice([0, 0, 1, 2])):
            q, _ = small.program(rng, target)
            f = q.files()
            old = f"{os.path.dirname(pr.llstem)}/{pr.name.replace('-', '_')}-{rng.getrandbits(64):016x}"
            for ext, what in ((".ll", "ll"), (".o", "obj"), ("", "elf")):
                pr.write(old + ext, f[what])
                os.utime(pr.path(old + ext), (10 ** 9, 10 ** 9))
            rec["seen"]["products of earlier builds lie around"] = rec["seen"].get("products of earlier builds lie around", 0) + 1
        if i % 7 == 0:
            base = pr.run(small.BIN)
            if base.rc != 0:
                bad.append(("base", f"the undamaged program fails: {synth.failure_text(base)}"))
        if kind == "cargo exit":
            want_rc = rng.choice([1, 2, 3, 42, 101, 127, 254, 255])
            pr.write("cargo.rc", str(want_rc))
            if rng.random() < 0.5:
                pr.write("cargo.stderr", pr.markers().split("\n")[0] + "\nerror: could not compile\n")
        elif kind == "cargo killed":
            pr.write("cargo.kill", "1")
        elif kind == "no executable":
            os.remove(pr.path(pr.exe))
        elif kind == "executable is a directory":
            os.remove(pr.path(pr.exe))
            os.mkdir(pr.path(pr.exe))
        elif kind == "no IR":
            os.remove(pr.path(pr.llstem + ".ll"))
        elif kind == "no object":
            os.remove(pr.path(pr.llstem + ".o"))
        elif kind == "no rlib":
            os.remove(pr.path(pr.rlib))
        elif kind == "no compiler_builtins IR":
            os.remove(pr.path(pr.cbll))
        elif kind == "no rlib marker":
            pr.write("cargo.stderr", "\n".join(l for l in pr.markers().split("\n") if "rlib" not in l))
        elif kind == "no IR marker":
            pr.write("cargo.stderr", "\n".join(l for l in pr.markers().split("\n") if "ll_path" not in l))
        elif kind == "bad IR":
            pr.write(pr.llstem + ".ll", unbalanced(rng, files["ll"]))
        elif kind == "bad compiler_builtins IR":
            if not any(l.startswith(("define ", "declare ")) and "@llvm." not in l for l in files["cb_ll"].split("\n")):
                pr.write(pr.cbll, "define void @(\n")
            else:
                pr.write(pr.cbll, unbalanced(rng, files["cb_ll"]))
        elif kind == "IR is not text":
            b = bytearray(files["ll"].encode())
            b[rng.randrange(len(b))] = 0xFF
            pr.write(pr.llstem + ".ll", bytes(b))
        elif kind == "truncated IR":
            ll = files["ll"]
            spots = [m.end() for m in re.finditer(r"^(define|declare) [^\n@]*@(?!llvm\.)[^\n(]*\(", ll, re.M)]
            pr.write(pr.llstem + ".ll", ll[:rng.choice(spots or [0])] + ("" if spots else "define void @f("))
        elif kind == "truncated executable":
            pr.write(pr.exe, files["elf"][:rng.randrange(0, len(files["elf"]) - 40)])
        elif kind == "executable is not ELF":
            pr.write(pr.exe, rng.choice([b"", b"#!/bin/sh\n", b"MZ" + bytes(200), b"\x7fELF" + bytes(100)]))
        elif kind == "truncated object":
            pr.write(pr.llstem + ".o", files["obj"][:rng.randrange(0, len(files["obj"]) - 40)])
        elif kind == "rlib is not an archive":
            pr.write(pr.rlib, rng.choice([b"", b"!<arch>", b"garbage" * 20, files["elf"]]))
        elif kind == "member is not an object":
            import elf as E
            pr.write(pr.rlib, E.ar([("lib.rmeta", b"rust"), ("compiler_builtins-1.o", rng.choice([b"BC\xc0\xde" + bytes(60), b"nonsense"]))]))
        elif kind == "unknown callee":
            f = next((f for f in p.fns if f.kind == "define" and f.module == "app"), None)
            if f is None:
                return rec
            ll = files["ll"].replace("}\n", "}\n", 1)
            k = re.search(r"^define [^\n]*@%s\([^\n]*\{\n" % re.escape(__import__("irgen").quote(f.irname.sym)), ll, re.M)
            if k is None:
                return rec
            pr.write(pr.llstem + ".ll", ll[:k.end()] + "  call void @neither_linked_nor_undefined()\n" + ll[k.end():])
        elif kind == "no manifest":
            os.remove(pr.path("Cargo.toml"))
        elif kind == "broken configuration":
            pr.write(".cargo/config", "[build\ntarget = ")
        elif kind == "bad format":
            args = pr.args(extra=["--format", rng.choice(["svg", "DOT ", "", "top,dot"])])
        elif kind == "unknown option":
            args = pr.args(extra=[rng.choice(["--frobnicate", "-x", "--bins"])])
        elif kind == "no program":
            args = ["--target", target] + (["--format", rng.choice(["dot", "top"])] if rng.random() < 0.5 else []) + \
                rng.choice([[], [p.fns[0].name.raw if hasattr(p.fns[0], "name") and hasattr(p.fns[0].name, "raw") else "main"], ["--all-features"]])
        elif kind == "two programs":
            args = pr.args()
            more = ["--bin" if pr.kind == "example" else "--example", rng.choice([pr.name, "other"])]
            args = args + more if rng.random() < 0.5 else more + args
        elif kind == "the same option twice":
            args = pr.args(extra=["--" + pr.kind, rng.choice([pr.name, "other"])])
        elif kind == "two start points":
            args = pr.args(extra=["main", "other"])
        elif kind == "option without its value":
            args = pr.args()
            args = rng.choice([args[:-1], args + ["--features"], args + ["--format"], args + ["--target"]])
        elif kind == "unsupported toolchain":
            pr.write("rustc.version", rng.choice([
                VERSION % dict(h="2b603f95a48f10f931a61dd208fe3e5ffd64e49", d="2023-11-12", r="1.76.0-nightly"),
                VERSION % dict(h="b2b603f95a48f10f931a61dd208fe3e5ffd64e491", d="2023-11-12", r="1.76.0-nightly"),
                VERSION % dict(h="0000000000000000000000000000000000000000", d="2023-11-12", r="1.76.0-nightly"),
                VERSION % dict(h="unknown", d="unknown", r="1.76.0-nightly"),
                VERSION % dict(h="07dca489ac2d933c78d3c5158e3f43beefeb02ce", d="2024-02-04", r="1.76.0"),
                VERSION % dict(h="2b603f95b48f10f931a61dd208fe3e5ffd64e491", d="2023-11-13", r="1.76.0-nightly")]))
            env = rng.choice([{}, {"CARGO_CALL_STACK_UNSPPORTED_NIGHTLY": ""}, {"CARGO_CALL_STACK_UNSPPORTED_NIGHTLY": "1"},
                              {"RUSTC_BOOTSTRAP": "1"}])
        elif kind == "no rustc":
            pr.write("rustc.fail", rng.choice(["all", "version"]))
        elif kind == "no target directory":
            import shutil
            shutil.rmtree(pr.path("target"))
        fmt = rng.choice([None, None, "top"]) if args is None else None
        r = pr.run(small.BIN, fmt=fmt, args=args, env=env)
        rec["seen"][f"{kind}: status {r.rc}"] = 1
        rec["keys"].append(runner.key(kind, target, i))
        if r.rc == 0 or (want_rc is not None and r.rc != want_rc):
            bad.append(("status", f"{kind}: exit status {r.rc}" + (f" instead of cargo's {want_rc}" if want_rc is not None else "") +
                        f"; stderr {r.errtext[-200:]!r}"))
        if r.rc < 0:
            bad.append(("status", f"{kind}: ends with signal {-r.rc}"))
        if not small.no_graph(r.out):
            bad.append(("graph", f"{kind}: a call graph is printed all the same (status {r.rc})"))
        if not r.err.strip():
            bad.append(("message", f"{kind}: fails without any message"))
        if i < 4:
            rec["sample"] = f"{kind} ({target}) -> status {r.rc}, stderr {r.errtext.strip()[-120:]!r}"
        small.put(rec, PID, i, bad)
    finally:
        pr.remove()
    return rec


FAULTS = ["cargo exit", "cargo killed", "no executable", "executable is a directory", "no IR", "no object", "no rlib",
          "no compiler_builtins IR", "no rlib marker", "no IR marker", "bad IR", "bad compiler_builtins IR", "IR is not text",
          "truncated IR", "truncated executable", "executable is not ELF", "truncated object", "rlib is not an archive",
          "member is not an object", "unknown callee", "no manifest", "broken configuration", "bad format", "unknown option",
          "no rustc", "no target directory", "no program", "two programs", "the same option twice", "two start points",
          "option without its value", "unsupported toolchain"]
VERSION = ("rustc %(r)s (2b603f95a 2023-11-12)\nbinary: rustc\ncommit-hash: %(h)s\ncommit-date: %(d)s\n"
           "host: x86_64-unknown-linux-gnu\nrelease: %(r)s\nLLVM version: 17.0.4\n")


def main():
    return small.run(PID, case, 60 * len(FAULTS), 1500 * len(FAULTS),
                     "one fault per run, of %d kinds (failing or killed cargo, missing, truncated or malformed build products, calls of "
                     "functions that do not exist, unusable configuration and options): non-zero status (cargo's own where cargo fails), a "
                     "message, no graph; non-trivial: a distinct fault and program" % len(FAULTS))
