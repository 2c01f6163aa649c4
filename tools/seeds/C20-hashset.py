ID = "C20-hashset"
PROPERTY = "C20"
NEEDS = "a function with several symbols, none of which has a stack-size record"
BREAKS = "the name of the node depends on the hash seed of the process: two runs print different graphs"
EDITS = [("src/main.rs", "        let names = sym.names();\n        // filter out tags", "        let names = sym.names().iter().copied().collect::<HashSet<_>>();\n        // filter out tags")]
DEMO = r'''
p = Program("x86_64-unknown-none")
p.fn("_start", calls=["a0"], stack=8)
for k in range(4):
    p.fn([f"{c}{k}" for c in "abcdefg"], kind="declare", stack=None)
pr = Project(p)
runs = set()
for _ in range(12):
    r = pr.run()
    check(r.returncode == 0, r.stderr)
    runs.add(tuple(sorted(n.label for n in dot.parse(r.stdout).nodes.values())))
check(len(runs) == 1, f"{len(runs)} different results in 12 runs")
'''
