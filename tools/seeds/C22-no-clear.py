ID = "C22-no-clear"
PROPERTY = "C22"
NEEDS = "a runtime library that consists of more than one object file"
BREAKS = "every object of the archive but the first is read behind the bytes of the previous ones: its stack sizes are lost"
EDITS = [("src/main.rs", "            buf.clear();\n", "            buf.reserve(header.size() as usize);\n")]
DEMO = r'''
p = Program("x86_64-unknown-none")
p.fn("_start", calls=["__udivti3", "__muldi3", "memset"], stack=8)
for n in ("__udivti3", "__muldi3", "memset"):
    p.fn(n, module="cb", stack=None)
p.members = [(f"compiler_builtins-11.compiler_builtins.{k}-cgu.{k}.rcgu.o", E.stack_sizes_object("x86_64", [([n], 40 + k)]))
             for k, n in enumerate(("__udivti3", "__muldi3", "memset"))]
g = Project(p).graph()
for k, n in enumerate(("__udivti3", "__muldi3", "memset")):
    check(g.node(n).local == 40 + k, f"{n}: local = {g.node(n).local}, recorded {40 + k}")
'''
