ID = "C03-far-branch"
PROPERTY = "C03"
NEEDS = "a tail call (B.W, T4) between functions that are 4 to 8 MiB apart"
BREAKS = "bits I1 and I2 of the offset are exchanged, so far tail calls have a wrong target"
EDITS = [("src/thumb.rs", """                let i1 = if !(j1 ^ s) { 1 } else { 0 };
                let i2 = if !(j2 ^ s) { 1 } else { 0 };

                let imm25 =""", """                let i1 = if !(j2 ^ s) { 1 } else { 0 };
                let i2 = if !(j1 ^ s) { 1 } else { 0 };

                let imm25 =""")]
DEMO = r'''
p = Program("thumbv7em-none-eabi")
p.fn("_start", code=[A.NOP, ("bw", "far")], stack=0)
p.fns[0].code.pop()
p.fn("near", code=[("data", bytes(5 << 20))], stack=None, kind="declare")
p.fn("far", code=[A.push([7], True), A.pop([7], True)], stack=8)
p.fn("back", code=[A.NOP, ("bw", "_start")], stack=0)
for f in (p.fns[2], p.fns[3]):
    f.code.pop()
g = Project(p).graph()
check(g.callees("_start") == ["far"], f"_start branches to far, edges to {g.callees('_start')}")
check(g.callees("back") == ["_start"], f"back branches to _start, edges to {g.callees('back')}")
'''
