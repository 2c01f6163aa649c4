ID = "C07-frameless"
PROPERTY = "C07"
NEEDS = "a recursive group none of whose functions has a known, non-zero frame"
BREAKS = "cycles whose stack usage is zero or unknown are not reported as recursive groups"
EDITS = [("src/main.rs", "                cycles.push(scc.clone());\n\n", ""),
         ("src/main.rs", """                    if n != 0 {
                        scc_local = Max::LowerBound(n)
                    }""", """                    if n != 0 {
                        cycles.push(scc.clone());
                        scc_local = Max::LowerBound(n)
                    }""")]
DEMO = r'''
p = Program("x86_64-unknown-none")
p.fn("_start", calls=["rec", "ping", "spin"], stack=8)
p.fn("rec", calls=["rec"], stack=16)
p.fn("ping", calls=["pong"], stack=0)
p.fn("pong", calls=["ping"], stack=0)
p.fn("spin", calls=["spin"], stack=0)
g = Project(p).graph()
c = sorted(sorted(g.g.nodes[i].name for i in ids) for _, ids in g.g.clusters)
check(c == [["ping", "pong"], ["rec"], ["spin"]], f"recursive groups: {c}")
'''
