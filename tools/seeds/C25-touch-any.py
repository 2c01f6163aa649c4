ID = "C25-touch-any"
PROPERTY = "C25"
NEEDS = "a package without src directory (programs in examples, explicit paths)"
BREAKS = "the walk for a source file to touch stops at the first regular file, so the manifest or the lock file is marked as changed instead of a source"
EDITS = [("src/main.rs", """                if path.extension().map(|ext| ext == "rs").unwrap_or(false) {""",
          """                if path.extension().map(|ext| ext != "o").unwrap_or(false) && path.is_file() {""")]
DEMO = r'''
p = Program("x86_64-unknown-none")
p.fn("_start", stack=8)
pr = Project(p)
os.remove(pr.path("src/main.rs"))
os.rmdir(pr.path("src"))
for k in range(40):
    pr.write(f"notes{k}.txt", "mine\n")
pr.write("examples/app.rs", "// mine\n")
files = ["Cargo.toml", "examples/app.rs"] + [f"notes{k}.txt" for k in range(40)]
for f in files:
    os.utime(pr.path(f), (10 ** 9, 10 ** 9))
r = pr.run()
check(r.returncode == 0, r.stderr)
changed = [f for f in files if os.stat(pr.path(f)).st_mtime != 10 ** 9]
check(all(f.endswith(".rs") for f in changed), f"files marked as changed: {changed}")
'''
