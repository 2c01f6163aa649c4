ID = "C04-word-data"
PROPERTY = "C04"
NEEDS = "data in the middle of a function whose size is not a multiple of four, e.g. the table of a `tbb`, followed by code with a call"
BREAKS = "data is skipped in units of words, so the instruction behind a table is skipped or the end of the table is decoded as instructions"
EDITS = [("src/thumb.rs", "for _ in 1..(end - start) / 2 {", "for _ in 1..(end - start) / 4 * 2 {")]
DEMO = r'''
p = Program("thumbv7m-none-eabi")
# six bytes of data; the last two look like the first half of BL
p.fn("_start", stack=0, code=[A.NOP, A.NOP, ("data", b"\x02\x03\x04\x05\x00\xf0"), ("bl", "callee"), A.NOP, RET])
p.fn("callee", stack=0)
p.fn("third", stack=0, code=[A.NOP])
g = Project(p).graph()
check(g.callees("_start") == ["callee"], f"_start calls callee, edges to {g.callees('_start')}")
check(g.callees("third") == [] and g.callees("callee") == [], "functions without calls have edges")
'''
