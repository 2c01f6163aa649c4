ID = "C23-contains"
PROPERTY = "C23"
NEEDS = "a message of the build that quotes one of the markers in the middle of a line, e.g. cargo -v or an error"
BREAKS = "that line is swallowed and its end taken for the path of the library"
EDITS = [("src/main.rs", "if line.starts_with(wrapper::COMPILER_BUILTINS_RLIB_PATH_MARKER) {", "if line.contains(wrapper::COMPILER_BUILTINS_RLIB_PATH_MARKER) {")]
DEMO = r'''
p = Program("x86_64-unknown-none")
p.fn("_start", stack=8)
pr = Project(p)
lines = ["   Compiling proj", "warning: the wrapper printed @CARGO_CALL_STACK:compiler_builtins_rlib_path@/x", "    Finished  ", "\tdone"]
pr.write("cargo.stderr", lines[0] + "\n" + pr.markers() + "\n".join(lines[1:]) + "\n")
r = pr.run()
check(r.returncode == 0, f"status {r.returncode}: {r.stderr[-300:]}")
got = r.stderr.split("\n")
for l in lines:
    check(l in got, f"the message {l!r} was not passed on")
'''
