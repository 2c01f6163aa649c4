ID = "C13-max-edge"
PROPERTY = "C13"
NEEDS = "a program whose largest maximum is that of a dashed node, i.e. a pointer call nobody with a frame of its own makes, or whose callers are all indirect"
BREAKS = "nodes of indirect calls are left out of the report; the MAX line and the rows differ from the graph"
EDITS = [("src/main.rs", """    for node in g.raw_nodes().iter() {
        nodes.push(node.weight.clone());
    }""", """    for node in g.raw_nodes().iter().filter(|node| !node.weight.dashed) {
        nodes.push(node.weight.clone());
    }""")]
DEMO = r'''
p = Program("x86_64-unknown-none")
p.fn("_start", stack=8, ir=["  call void %f(i32 1)"])
p.fn("target", sig=("void", ("i32",)), stack=16)
pr = Project(p)
g = pr.graph()
r = pr.run(fmt="top")
mx, rows = dot.parse_top(r.stdout)
a = sorted((n.local or 0, n.name) for n in g.g.nodes.values())
check(sorted(rows) == a, f"graph: {a}; report: {sorted(rows)}")
'''
