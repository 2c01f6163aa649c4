ID = "C05-odd-rotation"
PROPERTY = "C05"
NEEDS = "hand-written assembly that reserves its frame by `sub.w sp, sp, #imm` with a constant that is encoded by an odd rotation, e.g. 1040 bytes"
BREAKS = "the rotation is taken to be even as in the A32 instruction set; the local usage is half or twice as large"
EDITS = [("src/thumb.rs", "imm8.rotate_right(u32::from(imm12) >> 7)", "imm8.rotate_right(2 * (u32::from(imm12) >> 8))")]
DEMO = r'''
for n in (520, 1024, 1040, 2080, 4096, 33 << 7, 255 << 9):
    imm = A.encode_modified_imm(n)[0]
    p = Program("thumbv7m-none-eabi")
    p.fn("_start", calls=["frame"], stack=0)
    p.fn("frame", kind="declare", stack=None, code=[A.subw_sp_t2(imm)])
    g = Project(p).graph()
    check(g.node("frame").local == n, f"sub.w sp, sp, #{n}: local = {g.node('frame').local}")
'''
