ID = "C07-joined-groups"
PROPERTY = "C07"
NEEDS = "a program with several recursive groups, one of which calls into another"
BREAKS = "recursive groups that call each other are printed as one"
EDITS = [("src/main.rs", "                cycles.push(scc.clone());\n", """                // report adjacent components together
                let last: Option<&mut Vec<NodeIndex>> = cycles.last_mut();
                match last {
                    Some(last) if scc.iter().any(|n| g.neighbors(*n).any(|m| last.contains(&m))) => {
                        last.extend(scc.iter().copied())
                    }
                    _ => cycles.push(scc.clone()),
                }
""")]
DEMO = r'''
p = Program("x86_64-unknown-none")
p.fn("_start", calls=["a1"], stack=8)
p.fn("a1", calls=["a2"], stack=16)
p.fn("a2", calls=["a1", "b1"], stack=0)
p.fn("b1", calls=["b2"], stack=16)
p.fn("b2", calls=["b1"], stack=16)
g = Project(p).graph()
c = sorted(sorted(g.g.nodes[i].name for i in ids) for _, ids in g.g.clusters)
check(c == [["a1", "a2"], ["b1", "b2"]], f"recursive groups: {c}")
'''
