ID = "C06-scc-first"
PROPERTY = "C06"
NEEDS = "mutually recursive functions of different frame size"
BREAKS = "the contribution of a cycle is the local usage of one of its functions, not the largest; with a frame of 0 bytes the maximum is even given as exact"
EDITS = [("src/main.rs", """                let mut scc_local =
                    max_of(scc.iter().map(|node| g[*node].local.into())).expect("UNREACHABLE");""",
          """                let mut scc_local: Max = g[first].local.into();""")]
DEMO = r'''
for a, b in ((0, 48), (48, 0)):
    p = Program("x86_64-unknown-none")
    p.fn("_start", calls=["ping"], stack=8)
    p.fn("ping", calls=["pong"], stack=a)
    p.fn("pong", calls=["ping"], stack=b)
    g = Project(p).graph()
    for f, m in (("ping", 48), ("pong", 48), ("_start", 56)):
        check(g.max(f) == f">= {m}", f"{f}: max {g.max(f)}, expected >= {m}")
'''
