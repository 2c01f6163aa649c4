ID = "C17-ir-tail"
PROPERTY = "C17"
NEEDS = "an LLVM-IR file whose last part the parser does not understand (or that is cut off)"
BREAKS = "the rest of the file is ignored: the graph lacks every function after that point, with exit status 0"
EDITS = [("src/ir.rs", """    if i.is_empty() {
        Ok(("", items))
    } else {
        Err(nom::Err::Failure(error_position!(i, ErrorKind::Eof)))
    }""", """    Ok((i, items))""")]
DEMO = r'''
p = Program("x86_64-unknown-none")
p.fn("_start", stack=8)
p.fn("second", stack=8)
pr = Project(p)
check(pr.run().returncode == 0, "valid program")
ll = p.ll("app")
for cut in (ll[:ll.rindex("}")], ll[:ll.rindex("ret void")], ll + "\n???\n"):
    pr.write(pr.stem + ".ll", cut)
    r = pr.run()
    check(r.returncode != 0, f"LLVM-IR that ends in {cut[-30:]!r}: exit status 0")
'''
