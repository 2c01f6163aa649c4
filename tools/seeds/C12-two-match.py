ID = "C12-two-match"
PROPERTY = "C12"
NEEDS = "START given without the hash, as the name of exactly two functions"
BREAKS = "one of the two is taken for the start point, an arbitrary one, and half of the program disappears without a word"
EDITS = [("src/main.rs", "            if hits.len() > 1 {", "            if hits.len() > 2 {")]
DEMO = r'''
p = Program("x86_64-unknown-none")
one, two = ("_ZN3app3run17h%016xE" % h for h in (0x1234, 0x5678))
p.fn("_start", calls=[one, two], stack=8)
p.fn(one, calls=["a"], stack=16)
p.fn(two, calls=["b"], stack=16)
p.fn("a", stack=8)
p.fn("b", stack=8)
pr = Project(p)
whole = pr.graph()
g = pr.graph("app::run")
check(sorted(g.byname) == sorted(whole.byname), f"START app::run, of which there are two: {sorted(g.byname)}")
g = pr.graph(one)
check(len(sorted(g.byname)) == 2, f"START {one}: {sorted(g.byname)}")
'''
