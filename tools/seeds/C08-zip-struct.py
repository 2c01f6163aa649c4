ID = "C08-zip-struct"
PROPERTY = "C08"
NEEDS = "an indirect call with a structure type, and a function whose structure has the same leading fields and some more"
BREAKS = "structures are compared up to the length of the shorter one; functions of other types become candidates of the call"
EDITS = [("src/ir/ty.rs", "(Self::Struct(l0), Self::Struct(r0)) => l0 == r0,",
          "(Self::Struct(l0), Self::Struct(r0)) => {\n                l0.iter().zip(r0).all(|(lhs, rhs)| lhs.loosely_equal(rhs))\n            }")]
DEMO = r'''
p = Program("x86_64-unknown-none")
p.fn("_start", stack=8, ir=["  %r = call { i32, i64 } %f(i32 %x)"])
p.fn("same", sig=("{ i32, i64 }", ("i32",)), stack=16)
p.fn("longer", sig=("{ i32, i64, i8 }", ("i32",)), stack=128)
p.fn("shorter", sig=("{ i32 }", ("i32",)), stack=256)
g = Project(p).graph()
got = sorted(x for x in g.reach("_start") if not x.endswith("*"))
check(got == ["same"], f"candidates of the call: {got}")
check(g.max("_start") == "= 24", g.max("_start"))
'''
