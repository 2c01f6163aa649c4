ID = "C13-dedup"
PROPERTY = "C13"
NEEDS = "two functions with the same printed name and the same frame size (e.g. local functions of two modules)"
BREAKS = "the compact report lists only one of them"
EDITS = [("src/main.rs", """        nodes.push(node.weight.clone());
""", """        if !nodes.iter().any(|n| n.name == node.weight.name && n.local == node.weight.local) {
            nodes.push(node.weight.clone());
        }
""")]
DEMO = r'''
p = Program("x86_64-unknown-none")
p.fn("_start", calls=["a", "b"], stack=8)
p.fn("a", stack=16)
p.fn("b", stack=16)
p.fn("init", stack=32)
p.fn("tail", stack=0)
p.fn("init", stack=32, module="none")
pr = Project(p)
g = pr.graph()
r = pr.run(fmt="top")
check(r.returncode == 0, r.stderr)
mx, rows = dot.parse_top(r.stdout)
a = sorted((n.local or 0, n.name) for n in g.g.nodes.values())
check(sorted(rows) == a, f"graph: {a}; report: {sorted(rows)}")
'''
