"""Building the tool from /repo's working tree and running the real binary,
either with a stand-in toolchain (scratch `cargo`/`rustc` that hand it prepared
build products) or with the real one."""
import atexit
import fcntl
import hashlib
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CCS_REPO", "/repo")
BUILD = os.environ.get("CCS_BUILD", os.path.join(VERIF, ".build"))
HASH = "2b603f95a48f10f931a61dd208fe3e5ffd64e491"
HOST = "x86_64-unknown-linux-gnu"


class Inconclusive(Exception):
    """the harness itself could not decide (exit 2, never a violation)"""


def _env():
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(("CARGO", "RUST", "FAKE_")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_AUTO_INSTALL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def source_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith((".rs", ".toml", ".ll", ".lock")):
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def build(kind="dev"):
    """kind: dev (optimised, overflow checks and debug assertions on) | asan"""
    tdir = os.path.join(BUILD, kind)
    os.makedirs(tdir, exist_ok=True)
    env = _env()
    env["CARGO_TARGET_DIR"] = tdir
    env["CARGO_PROFILE_DEV_OPT_LEVEL"] = "1"
    env["CARGO_PROFILE_DEV_DEBUG"] = "0"
    env["CARGO_PROFILE_DEV_OVERFLOW_CHECKS"] = "true"
    env["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "true"
    args = ["cargo", "build", "--offline", "--bin", "cargo-call-stack"]
    out = os.path.join(tdir, "debug", "cargo-call-stack")
    if kind == "asan":
        # the sanitizer is enabled by a wrapper, in the compilation of target crates only, so that the
        # build scripts of the dependencies do not take this for a nightly toolchain
        w = os.path.join(tdir, "rustc-asan")
        with open(w + ".new", "w") as f:
            f.write("""#!/bin/sh
rustc="$1"; shift
case " $* " in
*" --target """ + HOST + """ "*) RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" -Zsanitizer=address -Cforce-frame-pointers=yes;;
esac
exec "$rustc" "$@"
""")
        os.chmod(w + ".new", 0o755)
        os.rename(w + ".new", w)
        env["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
        env["RUSTC_WRAPPER"] = w
        args += ["--target", HOST]
        out = os.path.join(tdir, HOST, "debug", "cargo-call-stack")
    else:
        env["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    with open(os.path.join(tdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(tdir, ".source-hash")
        h = source_hash()
        old = open(stamp).read() if os.path.exists(stamp) else None
        if old != h:
            # do not rely on mtimes to notice a change
            for base in (tdir, os.path.join(tdir, HOST)):
                fp = os.path.join(base, "debug", ".fingerprint")
                if os.path.isdir(fp):
                    for d in os.listdir(fp):
                        if d.startswith("cargo-call-stack-"):
                            shutil.rmtree(os.path.join(fp, d))
        r = subprocess.run(args, cwd=REPO, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            sys.stderr.write(r.stdout)
            raise Inconclusive("the tool does not build")
        with open(stamp, "w") as f:
            f.write(h)
    return out


# ---------------------------------------------------------------- scratch space
_scratch = None


def scratch():
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        d = tempfile.mkdtemp(prefix="ccs-", dir=base)
        _scratch = (os.getpid(), d)
        atexit.register(_clean, d, os.getpid())
    return _scratch[1]


def _clean(d, pid):
    if os.getpid() == pid:
        shutil.rmtree(d, ignore_errors=True)


RUSTC = r'''#!/bin/sh
[ -n "$FAKE_LOG" ] && { for a in "$@"; do printf '%s\037' "$a"; done; printf '\n'; } >> "$FAKE_DIR/rustc.log"
t=; prev=; mode=
for a in "$@"; do
  case "$prev" in --target) t="$a";; --print) [ "$a" = cfg ] && mode=cfg;; esac
  case "$a" in
    --target=*) t="${a#--target=}";;
    --print=cfg) mode=cfg;;
    -vV|-Vv|--version) [ -z "$mode" ] && mode=version;;
  esac
  prev="$a"
done
if [ -f "$FAKE_DIR/rustc.fail" ]; then
  case "$mode:$(cat "$FAKE_DIR/rustc.fail")" in
    *:all) echo "error: fake rustc failure" >&2; exit 101;;
    cfg:cfg) echo "error: fake rustc failure" >&2; exit 101;;
    version:version) echo "error: fake rustc failure" >&2; exit 101;;
  esac
fi
case "$mode" in
version)
  if [ -f "$FAKE_DIR/rustc.version" ]; then cat "$FAKE_DIR/rustc.version"; exit 0; fi
  echo "rustc 1.76.0-nightly (2b603f95a 2023-11-12)"
  echo "binary: rustc"
  echo "commit-hash: 2b603f95a48f10f931a61dd208fe3e5ffd64e491"
  echo "commit-date: 2023-11-12"
  echo "host: x86_64-unknown-linux-gnu"
  echo "release: 1.76.0-nightly"
  echo "LLVM version: 17.0.4"
  exit 0;;
cfg)
  [ -z "$t" ] && t=x86_64-unknown-linux-gnu
  case "$t" in
    thumb*|arm*) arch=arm; w=32;;
    riscv32*) arch=riscv32; w=32;;
    riscv64*) arch=riscv64; w=64;;
    aarch64*) arch=aarch64; w=64;;
    *) arch=x86_64; w=64;;
  esac
  echo "panic=\"abort\""
  echo "target_arch=\"$arch\""
  echo "target_endian=\"little\""
  echo "target_env=\"\""
  case "$t" in
    *-linux-*) echo "target_family=\"unix\""; os=linux;;
    *) os=none;;
  esac
  echo "target_has_atomic=\"32\""
  echo "target_os=\"$os\""
  echo "target_pointer_width=\"$w\""
  echo "target_vendor=\"unknown\""
  [ "$os" = linux ] && echo unix
  exit 0;;
esac
exit 0
'''

CARGO = r'''#!/bin/sh
if [ -n "$FAKE_LOG" ]; then
  { for a in "$@"; do printf '%s\037' "$a"; done; printf '\n'; } >> "$FAKE_DIR/cargo.log"
  env -0 > "$FAKE_DIR/cargo.env"
  pwd > "$FAKE_DIR/cargo.cwd"
fi
[ -f "$FAKE_DIR/cargo.hook" ] && . "$FAKE_DIR/cargo.hook"
[ -f "$FAKE_DIR/cargo.stdout" ] && cat "$FAKE_DIR/cargo.stdout"
cat "$FAKE_DIR/cargo.stderr" >&2
if [ -f "$FAKE_DIR/cargo.kill" ]; then kill -9 $$; fi
[ -f "$FAKE_DIR/cargo.rc" ] && exit "$(cat "$FAKE_DIR/cargo.rc")"
exit 0
'''


def fakebin():
    d = os.path.join(scratch(), "bin")
    if not os.path.isdir(d):
        os.makedirs(d)
        for n, s in (("rustc", RUSTC), ("cargo", CARGO)):
            p = os.path.join(d, n)
            with open(p, "w") as f:
                f.write(s)
            os.chmod(p, 0o755)
    return d


CPU_LIMIT = 60
MEMORY_LIMIT = 3 << 30  # not for builds with AddressSanitizer, whose shadow memory is terabytes


def _limits(argv0):
    if "asan" not in argv0:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Result:
    def __init__(self, rc, out, err, argv, cwd):
        self.rc = rc
        self.out = out
        self.err = err
        self.argv = argv
        self.cwd = cwd

    @property
    def text(self):
        return self.out.decode("utf-8", "replace")

    @property
    def errtext(self):
        return self.err.decode("utf-8", "replace")

    @property
    def hung(self):
        return self.rc == -signal.SIGXCPU


def execute(argv, cwd, env, wall=300, stdin=None, fds=()):
    src = dict(stdin=subprocess.DEVNULL) if stdin is None else dict(input=stdin)
    try:
        p = subprocess.run(argv, cwd=cwd, env=env, pass_fds=fds, **src,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=wall, preexec_fn=lambda: _limits(argv[0]))
    except subprocess.TimeoutExpired:
        raise Inconclusive(f"wall-clock watchdog ({wall}s) fired for {argv}")
    return Result(p.returncode, p.stdout, p.stderr, argv, cwd)


LAYOUTS = ["plain"] * 4 + ["member", "members", "env", "envabs", "config"]


class FakeProject:
    """A cargo project directory whose build products are prepared in advance."""

    counter = 0

    def __init__(self, name="app", kind="example", target="thumbv7m-none-eabi",
                 target_flag=True, hash_="0123456789abcdef", layout="plain", linked="link"):
        """layout: where the target directory is (see LAYOUTS); linked: how the executable relates to the
        one that has the hash in its name ("link", "copy", "none")"""
        FakeProject.counter += 1
        self.outer = self.dir = os.path.join(scratch(), f"p{FakeProject.counter}")
        self.linked, self.layout, self.extra_env, self.config = linked, layout, {}, {}
        tdir = "target"
        if layout.startswith("member"):
            self.dir += "/member" if layout == "member" else "/crates/member"
            tdir = os.path.relpath(self.outer + "/target", self.dir)
            os.makedirs(self.dir)
            self.write(self.outer + "/Cargo.toml", '[workspace]\nmembers = ["%s"]\n' % ("member" if layout == "member" else "crates/*"))
        elif layout == "env":
            tdir = self.extra_env["CARGO_TARGET_DIR"] = "out/of the way"
        elif layout == "envabs":
            tdir = self.extra_env["CARGO_TARGET_DIR"] = self.outer + "/elsewhere"
        elif layout == "config":
            tdir = self.config["target-dir"] = "build/here"
        self.name, self.kind, self.target, self.target_flag = name, kind, target, target_flag
        self.hash = hash_
        os.makedirs(self.dir + "/src")
        self.tdir = tdir
        self.write_config()
        self.write("Cargo.toml", '[package]\nname = "proj"\nversion = "0.1.0"\nedition = "2018"\n')
        self.write("src/main.rs", "fn main() {}\n")
        rel = f"{tdir}/{target}/release" if target else f"{tdir}/release"
        self.rel = rel
        if kind == "example":
            self.exe = f"{rel}/examples/{name}"
            self.llstem = f"{rel}/examples/{name.replace('-', '_')}-{hash_}"
        else:
            self.exe = f"{rel}/{name}"
            self.llstem = f"{rel}/deps/{name.replace('-', '_')}-{hash_}"
        self.cbdir = f"{rel}/deps"
        self.rlib = f"{self.cbdir}/libcompiler_builtins-1111111111111111.rlib"
        self.cbll = f"{self.cbdir}/compiler_builtins-1111111111111111.ll"

    def path(self, p):
        return os.path.join(self.dir, p)

    def write(self, p, data):
        f = self.path(p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        if isinstance(data, str):
            data = data.encode()
        with open(f, "wb") as fh:
            fh.write(data)
        return f

    def write_config(self, where=".cargo/config.toml"):
        if self.config:
            self.write(where, "[build]\n" + "".join(f'{k} = "{v}"\n' for k, v in self.config.items()))

    def link(self, stem):
        """what cargo does with the executable: the one with the hash is linked to where the user expects it"""
        exe = self.path(self.exe)
        if os.path.exists(exe):
            os.remove(exe)
        if self.linked == "copy":
            shutil.copyfile(self.path(stem), exe)
        else:
            os.link(self.path(stem), exe)

    def populate(self, elf, ll, obj, cb_ll, rlib, stderr=None):
        os.makedirs(os.path.dirname(self.path(self.exe)), exist_ok=True)
        if self.linked == "none":
            self.write(self.exe, elf)
        else:
            if os.path.exists(self.path(self.llstem)):
                os.remove(self.path(self.llstem))  # may be a link
            self.write(self.llstem, elf)
            self.link(self.llstem)
        self.write(self.llstem + ".ll", ll)
        self.write(self.llstem + ".o", obj)
        self.write(self.cbll, cb_ll)
        self.write(self.rlib, rlib)
        if stderr is None:
            stderr = self.markers()
        self.write("cargo.stderr", stderr)

    def markers(self):
        return ("   Compiling proj\n"
                f"@CARGO_CALL_STACK:compiler_builtins_ll_path@{self.path(self.cbll)}\n"
                f"@CARGO_CALL_STACK:compiler_builtins_rlib_path@{self.path(self.rlib)}\n"
                "    Finished release\n")

    def args(self, fmt=None, start=None, extra=()):
        a = []
        if self.target and self.target_flag:
            a += ["--target", self.target]
        a += ["--" + self.kind, self.name]
        if fmt:
            a += ["--format", fmt]
        a += list(extra)
        if start is not None:
            a += [start]
        return a

    def env(self, log=False, extra=None):
        e = {"PATH": fakebin() + ":/usr/local/bin:/usr/bin:/bin", "HOME": self.dir,
             "FAKE_DIR": self.dir, "LANG": "C.UTF-8"}
        e.update(self.extra_env)
        if log:
            e["FAKE_LOG"] = "1"
        if extra:
            e.update(extra)
        return e

    def run(self, binary, fmt=None, start=None, extra=(), log=False, env=None, args=None, cwd=None):
        return execute([binary] + (args if args is not None else self.args(fmt, start, extra)),
                       cwd or self.dir, self.env(log, env))

    def remove(self):
        shutil.rmtree(self.outer, ignore_errors=True)
