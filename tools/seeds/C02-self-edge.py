ID = "C02-self-edge"
PROPERTY = "C02"
NEEDS = "a directly recursive function on a target whose machine code is not analysed"
BREAKS = "the edge of a function to itself is missing, although the program executes that call"
EDITS = [("src/main.rs", """                    if !callees_seen.contains(&callee) {
                        callees_seen.insert(callee);
                        g.add_edge(caller, callee, ());
                    }
                }

                Stmt::IndirectCall""", """                    if callee != caller && callees_seen.insert(callee) {
                        g.add_edge(caller, callee, ());
                    }
                }

                Stmt::IndirectCall""")]
DEMO = r'''
p = Program("x86_64-unknown-none")
p.fn("_start", calls=["fact"], stack=8)
p.fn("fact", calls=["fact", "leaf"], stack=24)
p.fn("leaf", stack=8)
g = Project(p).graph()
check(g.callees("fact") == ["fact", "leaf"], f"fact calls itself and leaf, edges to {g.callees('fact')}")
check(g.node("fact").maxkind == ">=", "the maximum of a recursive function is exact")
'''
