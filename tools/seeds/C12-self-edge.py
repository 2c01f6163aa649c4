ID = "C12-self-edge"
PROPERTY = "C12"
NEEDS = "a start point from which a directly recursive function is reachable"
BREAKS = "edges to functions already visited, itself included, are dropped when the graph is filtered"
EDITS = [("src/main.rs", "                    g2.add_edge(caller2, callee2, ());\n", "                    if caller2 != callee2 {\n                        g2.add_edge(caller2, callee2, ());\n                    }\n")]
DEMO = r'''
p = Program("x86_64-unknown-none")
p.fn("_start", calls=["rec", "other"], stack=8)
p.fn("rec", calls=["rec", "leaf"], stack=16)
p.fn("leaf", stack=8)
p.fn("other", calls=["rec"], stack=8)
pr = Project(p)
for start in (None, "other", "rec"):
    g = pr.graph(*([start] if start else []))
    check(g.callees("rec") == ["leaf", "rec"], f"start {start}: edges of rec to {g.callees('rec')}")
    check(g.max("rec") == ">= 24", f"start {start}: max {g.max('rec')}")
'''
