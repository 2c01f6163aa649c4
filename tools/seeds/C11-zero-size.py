ID = "C11-zero-size"
PROPERTY = "C11"
NEEDS = "a function whose symbol has size zero (hand-written assembly without .size)"
BREAKS = "the function has no node"
EDITS = [("src/main.rs", "    for (address, sym) in &symbols.defined {\n        let names = sym.names();\n        // filter",
          "    for (address, sym) in symbols.defined.iter().filter(|(_, sym)| sym.size() != 0) {\n        let names = sym.names();\n        // filter")]
DEMO = r'''
p = Program("x86_64-unknown-none")
p.fn("_start", stack=8)
p.fn("trap", kind=None, stack=None, size=0)
g = Project(p).graph()
check("trap" in g.byname, "no node for `trap`")
'''
