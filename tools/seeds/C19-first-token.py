ID = "C19-first-token"
PROPERTY = "C19"
NEEDS = "a call with a prefix that the parser does not know, e.g. `musttail call` or `notail call`"
BREAKS = "the statement is silently skipped: the call is neither an edge nor refused"
EDITS = [("src/ir/define.rs", "    Ok((i, Stmt::Other))", "    // NOTE shortcut\n    Ok((not_line_ending(i)?.0, Stmt::Other))")]
DEMO = r'''
ok = ["call void @leaf()", "tail call void @leaf()", "musttail call void @leaf()", "notail call void @leaf()",
      "call fastcc void @leaf()", "call void @leaf() #3, !dbg !7", "tail call addrspace(1) void @leaf()", "tail call fastcc addrspace(1) void @leaf()",
      "call addrspace(0) void @leaf()"]
for form in ok:
    p = Program("x86_64-unknown-none")
    p.fn("_start", stack=8, ir=["  " + form])
    p.fn("leaf", stack=8)
    r = Project(p).run()
    if r.returncode == 0:
        g = View(dot.parse(r.stdout))
        check(g.callees("_start") == ["leaf"], f"{form!r} was silently ignored")
'''
