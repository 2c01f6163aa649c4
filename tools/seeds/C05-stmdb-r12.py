ID = "C05-stmdb-r12"
PROPERTY = "C05"
NEEDS = "hand-written assembly that saves r12 by a wide PUSH, e.g. `push {r4-r12, lr}`"
BREAKS = "r12 is not counted: the local usage is 4 bytes too small and given as exact"
EDITS = [("src/thumb.rs", "((u16::from(second[1]) & 0b0001_1111) << 8)", "((u16::from(second[1]) & 0b0000_1111) << 8)")]
DEMO = r'''
for regs, lr in (([4, 5, 6, 7, 8], True), ([0, 1, 2, 3, 12], True), (list(range(4, 13)), True), ([8, 12], False)):
    p = Program("thumbv7em-none-eabihf")
    p.fn("_start", calls=["context"], stack=0)
    p.fn("context", kind="declare", stack=None, code=[A.stmdb_sp(regs, lr)])
    g = Project(p).graph()
    n = 4 * (len(regs) + lr)
    check(g.node("context").local == n, f"push of {n} bytes: local = {g.node('context').local}")
    check(g.max("_start") == f"= {n}", g.max("_start"))
'''
