ID = "C15-extern-split"
PROPERTY = "C15"
NEEDS = "a target directory whose path contains `=` (or `--extern` in its form with options)"
BREAKS = "the path of compiler_builtins that the wrapper reports is cut at the second `=`"
EDITS = [("src/wrapper.rs", """                    let mut split = arg.splitn(2, '=');
                    let name = split.next().unwrap(); // cannot fail
                    let path = split.next();

                    extern_crates""", """                    let mut split = arg.split('=');
                    let name = split.next().unwrap(); // cannot fail
                    let path = split.next();

                    extern_crates""")]
DEMO = r'''
d = os.path.join(TMP, "w")
os.makedirs(d)
with open(d + "/rustc", "w") as f:
    f.write('#!/bin/sh\nfor a in "$@"; do printf "%s\\n" "$a"; done > ' + d + '/args\nexit 7\n')
os.chmod(d + "/rustc", 0o755)
args = ["--crate-name", "app", "--extern", "noprelude:compiler_builtins=/t/opt=1/libcompiler_builtins-1.rlib", "src/main.rs", "-C", "extra-filename=-1"]
r = subprocess.run([tool(), d + "/rustc"] + args, env={"PATH": os.environ["PATH"], "CARGO_CALL_STACK_RUSTC_WRAPPER": "1"}, capture_output=True, text=True)
check(r.returncode == 7, f"status {r.returncode}, the compiler's was 7")
check("@CARGO_CALL_STACK:compiler_builtins_rlib_path@/t/opt=1/libcompiler_builtins-1.rlib\n" in r.stderr, r.stderr)
got = open(d + "/args").read().split("\n")[:-1]
check([a for a in got if a != "-Zemit-stack-sizes"] == args, f"arguments of the compiler: {got}")
'''
