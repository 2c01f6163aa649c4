ID = "C06-max-arm"
PROPERTY = "C06"
NEEDS = "a function with a callee whose maximum is a lower bound and, seen after it, one whose exact maximum is larger"
BREAKS = "the maximum is given as exact although one of the callees is only bounded from below"
EDITS = [("src/main.rs", "        (Max::LowerBound(lhs), Max::Exact(rhs)) => Max::LowerBound(cmp::max(lhs, rhs)),\n        (Max::LowerBound(lhs), Max::LowerBound(rhs)) => Max::LowerBound(cmp::max(lhs, rhs)),",
          "        (Max::LowerBound(lhs), Max::Exact(rhs)) if rhs > lhs => Max::Exact(rhs),\n        (Max::LowerBound(lhs), Max::Exact(_)) => Max::LowerBound(lhs),\n        (Max::LowerBound(lhs), Max::LowerBound(rhs)) => Max::LowerBound(cmp::max(lhs, rhs)),")]
DEMO = r'''
for order in (["bounded", "big"], ["big", "bounded"], ["bounded", "big", "small"], ["small", "bounded", "big"]):
    p = Program("riscv32imac-unknown-none-elf")
    p.fn("_start", calls=order, stack=16)
    p.fn("bounded", calls=["ext"], stack=8)
    p.fn("ext", kind="declare", stack=None)
    p.fn("big", stack=640)
    p.fn("small", stack=4)
    g = Project(p).graph()
    check(g.max("_start") == ">= 656", f"calls {order}: max {g.max('_start')}, expected >= 656")
'''
