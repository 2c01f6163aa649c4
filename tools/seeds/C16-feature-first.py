ID = "C16-feature-first"
PROPERTY = "C16"
NEEDS = "more than one feature, separated with commas"
BREAKS = "only the first feature reaches cargo: the analyzed program is not the one asked for"
EDITS = [("src/main.rs", """        cargo.args(&["--features", features]);""", """        cargo.args(&["--features", features.split(',').next().unwrap()]);""")]
DEMO = r'''
p = Program("x86_64-unknown-none")
p.fn("_start", stack=8)
pr = Project(p)
for f in ("one", "one,two", "a/b,c", "one,two three"):
    r = pr.run("--features", f)
    check(r.returncode == 0, r.stderr)
    a = open(pr.path("cargo.args")).read().split("\n")
    check(a[a.index("--features") + 1] == f, f"--features {f!r}: cargo {a}")
'''
