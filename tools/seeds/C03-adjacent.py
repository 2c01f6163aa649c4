ID = "C03-adjacent"
PROPERTY = "C03"
NEEDS = "a tail call whose target is placed directly behind the calling function"
BREAKS = "the branch to the first address after the function is taken for one within the function and the call is lost"
EDITS = [("src/main.rs", "if addr >= address && addr < (address + size) {", "if (address..=address + size).contains(&addr) {")]
DEMO = r'''
p = Program("thumbv7m-none-eabi")
p.fn("_start", code=[("data", b"")], stack=0)
p.fns[0].code = [A.NOP, ("b", "next")]
p.fn("next", stack=8, code=[A.push([7], True), A.pop([7], True)])
p.fns[1].code.pop()
p.fn("other", stack=0, code=[A.NOP, A.NOP, ("bw", "next")])
p.fns[2].code.pop()
g = Project(p).graph()
check(g.callees("_start") == ["next"], f"_start ends in a branch to next, edges to {g.callees('_start')}")
check(g.callees("other") == ["next"], "tail call of other")
check(g.max("_start") == "= 8", "maximum of _start " + g.max("_start"))
'''
