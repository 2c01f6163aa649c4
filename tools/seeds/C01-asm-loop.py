ID = "C01-asm-loop"
PROPERTY = "C01"
NEEDS = "a function without stack-size record (hand-written assembly) that both uses the stack and contains a branch within itself"
BREAKS = "the local usage of such a function is given as exactly 0 bytes, so the exact maximum of every caller is exceeded at run time"
EDITS = [("src/main.rs", """                } else if !modifies_sp {
                    // this happens when""", """                } else {
                    // this happens when""")]
DEMO = r'''
p = Program("thumbv7m-none-eabi")
p.fn("_start", calls=["work"], code=[], stack=8, ir=[])
p.fns[0].code.insert(0, A.push([7], True))
# push {r4, lr}; loop: nop; beq loop; pop {r4, pc}
p.fn("delay", kind="declare", stack=None, code=[A.push([4], True), A.NOP, A.bcc_t1(0, -6), A.pop([4], True)])
p.fn("work", calls=["delay"], stack=8, code=[])
p.fns[2].code.insert(0, A.push([7], True))
g = Project(p).graph()
n = g.node("delay")
check(n.local is None or n.local >= 8, f"delay pushes 8 bytes, local = {n.local}")
for f, least in (("_start", 24), ("work", 16)):
    n = g.node(f)
    check(n.maxkind == ">=" or n.max >= least, f"{f}: {n.max} given as the exact maximum, a run uses {least}")
'''
