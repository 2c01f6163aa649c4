ID = "C08-array-len"
PROPERTY = "C08"
NEEDS = "indirect calls and functions whose types differ in nothing but the length of an array (aggregates of a C ABI)"
BREAKS = "functions taking an array of another length become candidates of the call"
EDITS = [("src/ir/ty.rs", "(Self::Array(l0, l1), Self::Array(r0, r1)) => l0 == r0 && l1 == r1,",
          "(Self::Array(_, l1), Self::Array(_, r1)) => l1.loosely_equal(r1),")]
DEMO = r'''
p = Program("thumbv7m-none-eabi")
p.fn("_start", stack=0, ir=["  call void %f([2 x i32] %x)"], code=[A.blx(3)])
p.fn("two", sig=("void", ("[2 x i32]",)), stack=0)
p.fn("four", sig=("void", ("[4 x i32]",)), stack=0)
g = Project(p).graph()
got = sorted(x for x in g.reach("_start") if not x.endswith("*"))
check(got == ["two"], f"candidates of the call: {got}")
'''
