ID = "C09-add-max"
PROPERTY = "C09"
NEEDS = "a recursive group that calls out of the cycle to a function with an exact maximum"
BREAKS = "the sum of an exact maximum and a lower bound is exact: the maximum of recursive functions is presented as certain"
EDITS = [("src/main.rs", "(Max::Exact(lhs), Max::LowerBound(rhs)) => Max::LowerBound(lhs + rhs),", "(Max::Exact(lhs), Max::LowerBound(rhs)) => Max::Exact(lhs + rhs),")]
DEMO = r'''
p = Program("thumbv7m-none-eabi")
p.fn("_start", calls=["ping"], stack=0)
p.fn("ping", calls=["pong"], stack=8, code=[])
p.fn("pong", calls=["ping", "leaf"], stack=8, code=[])
p.fn("leaf", stack=8, code=[])
for f in p.fns[1:]:
    f.code.insert(0, A.push([7], True))
g = Project(p).graph()
for f in ("_start", "ping", "pong"):
    check(g.max(f) == ">= 16", f"{f} is recursive or calls recursive functions: max {g.max(f)}")
'''
