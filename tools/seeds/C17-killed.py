ID = "C17-killed"
PROPERTY = "C17"
NEEDS = "a build that is killed by a signal"
BREAKS = "the exit status is 0 although there is no result"
EDITS = [("src/main.rs", "return Ok(status.code().unwrap_or(1));", "return Ok(status.code().unwrap_or_default());")]
DEMO = r'''
p = Program("x86_64-unknown-none")
p.fn("_start", stack=8)
pr = Project(p)
for hook in ("exit 1", "exit 101", "kill -9 $$", "kill -15 $$"):
    pr.write("cargo.hook", hook + "\n")
    r = pr.run()
    check(r.returncode != 0, f"cargo: {hook}; exit status 0")
    check("digraph" not in r.stdout, "a graph was printed")
'''
