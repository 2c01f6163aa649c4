ID = "C09-bx-mask"
PROPERTY = "C09"
NEEDS = "a function without LLVM-IR (assembly) whose only indirect branch is `bx r6`"
BREAKS = "the register field of BX is masked to three bits, so `bx r6` looks like `bx lr`; the unknown callee vanishes and the maximum is given as exact"
EDITS = [("src/thumb.rs", """            let rm = (first[0] >> 3) & 0b1111;

            // `bx lr` is just a `return`
            if rm != 0b1110 {""", """            let rm = (first[0] >> 3) & 0b0111;

            // `bx lr` is just a `return`
            if rm != 0b110 {""")]
DEMO = r'''
for reg in (0, 3, 5, 6, 7, 12):
    p = Program("thumbv6m-none-eabi")
    p.fn("_start", calls=["jump"], stack=0)
    p.fn("jump", kind="declare", stack=None, code=[A.bx(reg)])
    p.fns[1].code.pop()
    g = Project(p).graph()
    check(g.node("jump").maxkind == ">=", f"`bx r{reg}` in assembly: max {g.max('jump')} of the function is exact")
    check(g.node("_start").maxkind == ">=", f"`bx r{reg}` in assembly: max {g.max('_start')} of the caller is exact")
'''
