ID = "C16-features"
PROPERTY = "C16"
NEEDS = "features given as a comma-separated list, or an empty list"
BREAKS = "the list of features handed to cargo is split at spaces into several arguments: what is built is not what was asked for"
EDITS = [("src/main.rs", """        cargo.args(&["--features", features]);""", """        cargo.arg("--features").args(features.split(' '));""")]
DEMO = r'''
p = Program("x86_64-unknown-none")
p.fn("_start", stack=8)
pr = Project(p)
for f in ("one", "one two", "one,two", "a/b c"):
    r = pr.run("--features", f)
    check(r.returncode == 0, r.stderr)
    a = open(pr.path("cargo.args")).read().split("\n")
    check(a[a.index("--features") + 1] == f and a[a.index("--features") + 2].startswith("-"), f"--features {f!r}: cargo {a}")
'''
