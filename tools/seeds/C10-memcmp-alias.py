ID = "C10-memcmp-alias"
PROPERTY = "C10"
NEEDS = "a non-Thumb program that compares memory, where `memcmp` is an alias of a function with another name"
BREAKS = "a call of `memcmp` is taken to be lowered to instructions although the linked program contains an alias of that name"
EDITS = [("src/main.rs", """                    let callee = if let Some(canon) = aliases.get(func) {
                        indices[*canon]
                    } else {""", """                    let callee = if let Some(idx) = indices.get(*func) {
                        *idx
                    } else if *func == "memcmp" {
                        // not linked in; lowered to machine code
                        continue;
                    } else if let Some(canon) = aliases.get(func) {
                        indices[*canon]
                    } else {""")]
DEMO = r'''
for names, want in (["memcmp"], "memcmp"), (["bcmp", "memcmp"], "bcmp"), (["memcmp", "bcmp"], "memcmp"):
    p = Program("x86_64-unknown-none")
    p.fn("_start", calls=["memcmp"], stack=8)
    p.fn(names, stack=40)
    g = Project(p).graph()
    check(g.callees("_start") == [want], f"{names}: edges of _start {g.callees('_start')}")
'''
