"""What the demonstrations share: builds the tool from the current directory,
hands it prepared build products through stand-ins for cargo and rustc, and
returns what it printed.  Everything happens below one temporary directory."""
import atexit
import os
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import armenc as A
import dot
import elf as E

REPO = os.getcwd()
TMP = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, TMP, True)

RUSTC = r'''#!/bin/sh
mode=; t=; prev=
for a in "$@"; do
  case "$prev" in --target) t="$a";; --print) [ "$a" = cfg ] && mode=cfg;; esac
  case "$a" in --print=cfg) mode=cfg;; -vV|-Vv|--version) [ -z "$mode" ] && mode=v;; esac
  prev="$a"
done
[ -f "$FAKE/rustc.hook" ] && . "$FAKE/rustc.hook"
case "$mode" in
v) cat <<X
rustc 1.76.0-nightly (2b603f95a 2023-11-12)
binary: rustc
commit-hash: ${FAKE_HASH:-2b603f95a48f10f931a61dd208fe3e5ffd64e491}
commit-date: 2023-11-12
host: x86_64-unknown-linux-gnu
release: 1.76.0-nightly
LLVM version: 17.0.4
X
;;
cfg) case "$t" in *linux*) os=linux;; *) os=none;; esac
  echo 'target_arch="arm"'; echo "target_os=\"$os\""; echo 'target_pointer_width="32"'; echo 'target_endian="little"'
  echo 'target_env=""'; echo 'target_vendor="unknown"';;
esac
exit 0
'''
CARGO = r'''#!/bin/sh
for a in "$@"; do printf '%s\n' "$a"; done > "$FAKE/cargo.args"
[ -f "$FAKE/cargo.hook" ] && . "$FAKE/cargo.hook"
cat "$FAKE/cargo.stderr" >&2
exit "$(cat "$FAKE/cargo.rc" 2>/dev/null || echo 0)"
'''

_tool = None


def tool():
    global _tool
    if _tool is None:
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(TMP, "target"), CARGO_NET_OFFLINE="true")
        env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
        env.setdefault("RUSTUP_TOOLCHAIN", "stable")
        r = subprocess.run(["cargo", "build", "--offline", "--bin", "cargo-call-stack"], cwd=REPO, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.exit("the tool does not build\n" + r.stdout)
        _tool = os.path.join(TMP, "target", "debug", "cargo-call-stack")
    return _tool


class Fn:
    def __init__(self, names, code, ir, sig, stack, size, module, kind, body):
        self.names, self.code, self.ir, self.sig, self.stack = names, code, ir, sig, stack
        self.size, self.module, self.kind, self.body = size, module, kind, body


RET = A.BX_LR


class Program:
    """target: a thumb triple (machine code is encoded) or any other one"""

    def __init__(self, target="thumbv7m-none-eabi", base=0x8000):
        self.target, self.base = target, base
        self.fns, self.undefined, self.items, self.cb_items, self.symbols = [], [], [], [], []
        self.thumb = target.startswith("thumb")
        self.arch = "arm" if self.thumb else "riscv32" if "riscv" in target else "x86_64"
        self.members = None
        self.fake = {}

    def fn(self, name, code=(), calls=(), ir=(), sig=("void", ()), stack=0, size=None, module="app", kind="define", body=None):
        """code items: bytes | ("bl"|"b"|"bw", function name) | ("bcc", cond, name) | ("data", bytes)
        calls: names that the function calls directly, in IR and (thumb) in code
        ir: further IR lines"""
        names = [name] if isinstance(name, str) else list(name)
        code = list(code)
        if self.thumb and not any(isinstance(c, tuple) and c[0] == "data" for c in code):
            code = [("bl", c) for c in calls] + code
            code.append(RET)
        ir = [f"  call void @{c}()" for c in calls] + list(ir)
        f = Fn(names, code, ir, sig, stack, size, module, kind, body)
        self.fns.append(f)
        return f

    def layout(self):
        self.addr, a = {}, self.base
        for f in self.fns:
            n = sum(len(c) if isinstance(c, bytes) else len(c[1]) if c[0] == "data" else c[1] if c[0] == "gap" else
                    2 if c[0] == "b" else 4 for c in f.code) if self.thumb else 16
            f.a, f.n = a, n
            for x in f.names:
                self.addr[x] = a
            a += n
            if a % 4 and self.thumb:
                a += 2

    def link(self):
        self.layout()
        e = E.Elf(self.arch, 2, self.base | 1)
        text, tags = bytearray(), []
        for f in self.fns:
            while self.base + len(text) < f.a:
                text += b"\xd4"
            if not self.thumb:
                text += bytes(16)
                continue
            a, mode = f.a, None
            for c in f.code:
                want = "$d" if not isinstance(c, bytes) and c[0] == "data" else "$t"
                if want != mode:
                    tags.append((want, a))
                    mode = want
                if isinstance(c, bytes):
                    b = c
                elif c[0] == "data":
                    b = c[1]
                elif c[0] == "gap":
                    b = A.NOP * (c[1] // 2)
                else:
                    off = self.addr[c[-1]] - (a + 4)
                    b = {"bl": A.bl, "b": A.b_t2, "bw": A.bw}[c[0]](off) if c[0] != "bcc" else A.bcc_w(c[1], off)
                text += b
                a += len(b)
        sec = e.section(".text", bytes(text), 1, 6, addr=self.base, align=4)
        for n, a in tags:
            e.symbol(n, a, 0, "notype", "local", sec)
        for f in self.fns:
            for x in f.names:
                e.symbol(x, f.a | (1 if self.thumb else 0), f.n if f.size is None else f.size, "func", "global", sec)
        for n, v, size, ty, bind in self.symbols:
            e.symbol(n, v, size, ty, bind, sec)
        for n in self.undefined:
            e.symbol(n, 0, 0, "notype" if n.startswith("!") else "func", "global", 0)
        return e.build()

    def ll(self, module):
        out = []
        for f in self.fns:
            if f.module != module:
                continue
            ret, params = f.sig
            if f.kind == "define":
                out.append(f"define {ret} @{f.names[0]}({', '.join(f'{p} %a{i}' for i, p in enumerate(params))}) unnamed_addr #0 {{\nstart:\n"
                           + "\n".join(list(f.ir) + ["  ret void" if ret == "void" else f"  ret {ret} undef"]) + "\n}\n")
            elif f.kind == "declare":
                out.append(f"declare {ret} @{f.names[0]}({', '.join(params)}) unnamed_addr #0\n")
        items = self.items if module == "app" else self.cb_items
        return f"; ModuleID = '{module}'\nsource_filename = \"{module}\"\n\n" + "\n".join(out + list(items)) + "\n"

    def objects(self, module):
        return [(f.names[:1], f.stack) for f in self.fns if f.module == module and f.stack is not None]


class Project:
    n = 0

    def __init__(self, prog, name="app", kind="example"):
        Project.n += 1
        self.dir = os.path.join(TMP, f"p{Project.n}")
        self.prog, self.name, self.kind = prog, name, kind
        rel = f"target/{prog.target}/release"
        self.exe = f"{rel}/examples/{name}" if kind == "example" else f"{rel}/{name}"
        self.stem = f"{rel}/" + ("examples" if kind == "example" else "deps") + f"/{name.replace('-', '_')}-0123456789abcdef"
        self.cbll = self.path(f"{rel}/deps/compiler_builtins-1111111111111111.ll")
        self.rlib = self.path(f"{rel}/deps/libcompiler_builtins-1111111111111111.rlib")
        self.write("Cargo.toml", '[package]\nname = "proj"\nversion = "0.1.0"\nedition = "2018"\n')
        self.write("src/main.rs", "fn main() {}\n")
        p = prog
        self.write(self.exe, p.link())
        self.write(self.stem + ".ll", p.ll("app"))
        self.write(self.stem + ".o", E.stack_sizes_object(p.arch, p.objects("app"), p.thumb))
        self.write(self.cbll, p.ll("cb"))
        members = p.members or [("compiler_builtins-1111.compiler_builtins.0-cgu.0.rcgu.o",
                                 E.stack_sizes_object(p.arch, p.objects("cb"), p.thumb))]
        self.write(self.rlib, E.ar(members))
        self.write("cargo.stderr", self.markers())
        self.bin = os.path.join(self.dir, "fakebin")
        for n, s in (("rustc", RUSTC), ("cargo", CARGO)):
            os.chmod(self.write("fakebin/" + n, s), 0o755)

    def markers(self):
        return (f"@CARGO_CALL_STACK:compiler_builtins_ll_path@{self.cbll}\n"
                f"@CARGO_CALL_STACK:compiler_builtins_rlib_path@{self.rlib}\n")

    def path(self, p):
        return os.path.join(self.dir, p)

    def write(self, p, data):
        f = self.path(p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "wb") as fh:
            fh.write(data if isinstance(data, bytes) else data.encode())
        return f

    def run(self, *extra, fmt=None, env=None):
        e = {"PATH": self.bin + ":/usr/local/bin:/usr/bin:/bin", "HOME": self.dir, "FAKE": self.dir, "LANG": "C.UTF-8"}
        e.update(env or {})
        args = ["--target", self.prog.target, "--" + self.kind, self.name]
        if fmt:
            args += ["--format", fmt]
        return subprocess.run([tool()] + args + list(extra), cwd=self.dir, env=e, stdin=subprocess.DEVNULL,
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=120)

    def graph(self, *extra, **kw):
        r = self.run(*extra, **kw)
        if r.returncode:
            fail(f"exit status {r.returncode}: {r.stderr[-800:]}")
        return View(dot.parse(r.stdout))


class View:
    """the printed graph, by name"""

    def __init__(self, g):
        self.g = g
        self.byname = {}
        for n in g.nodes.values():
            self.byname.setdefault(n.name, []).append(n)

    def node(self, name):
        c = self.byname.get(name, [])
        if len(c) != 1:
            fail(f"{len(c)} nodes named {name}; nodes: {sorted(self.byname)}")
        return c[0]

    def callees(self, name):
        """names of the direct successors"""
        i = self.node(name).id
        return sorted(self.g.nodes[b].name for a, b in self.g.edges if a == i)

    def reach(self, name):
        s = self.g.succ()
        seen, work = set(), [self.node(name).id]
        while work:
            for j in s[work.pop()]:
                if j not in seen:
                    seen.add(j)
                    work.append(j)
        return {self.g.nodes[j].name for j in seen}

    def max(self, name):
        n = self.node(name)
        return f"{n.maxkind} {n.max}"


def fail(why):
    print("FAIL:", why)
    sys.exit(1)


def check(cond, why):
    if not cond:
        fail(why)
