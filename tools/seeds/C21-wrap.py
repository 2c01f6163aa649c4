ID = "C21-wrap"
PROPERTY = "C21"
NEEDS = "a damaged or hostile stack-size record with an enormous value"
BREAKS = "sums wrap around silently: the maximum of a caller is smaller than its callee's"
EDITS = [("src/main.rs", "            (Max::Exact(lhs), Local::Exact(rhs)) => Max::Exact(lhs + rhs),", "            (Max::Exact(lhs), Local::Exact(rhs)) => Max::Exact(lhs.wrapping_add(rhs)),")]
DEMO = r'''
p = Program("x86_64-unknown-none")
p.fn("_start", calls=["mid"], stack=64)
p.fn("mid", calls=["huge"], stack=32)
p.fn("huge", stack=(1 << 64) - 16)
r = Project(p).run()
if r.returncode == 0:
    g = View(dot.parse(r.stdout))
    for a, b in (("_start", "mid"), ("mid", "huge")):
        check(g.node(a).max >= g.node(b).max, f"max of {a} is {g.max(a)}, of its callee {b} {g.max(b)}")
'''
