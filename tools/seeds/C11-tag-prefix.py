ID = "C11-tag-prefix"
PROPERTY = "C11"
NEEDS = "a function one of whose symbols begins with `$x`, e.g. `$xor` of a C or assembly module"
BREAKS = "every symbol that begins like a mapping symbol is taken for one: the alias is lost and the function disappears or is renamed"
EDITS = [("src/main.rs", """                if name == "$a"
                    || name.starts_with("$a.")
                    || name == "$x"
                    || name.starts_with("$x.")
                {""", """                if name.starts_with("$a") || name.starts_with("$x") {""")]
DEMO = r'''
p = Program("x86_64-unknown-none")
p.fn("_start", calls=["first"], stack=8)
p.fn(["first", "$xor"], stack=16)
p.fn(["$abort", "zz"], kind="declare", stack=None)
p.fn("user", stack=0, ir=["  call void @$xor()"])
g = Project(p).graph()
check(g.callees("user") == ["first"], f"user calls $xor, an alias of first; edges to {g.callees('user')}")
'''
