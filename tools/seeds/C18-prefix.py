ID = "C18-prefix"
PROPERTY = "C18"
NEEDS = "another example whose name begins with this one's name and that was built more recently"
BREAKS = "the LLVM-IR and stack sizes of the neighbour are analysed together with this program's ELF file"
EDITS = [("src/main.rs", """let prefix = format!("{}-", file.replace('-', "_"));""", """let prefix = file.replace('-', "_");""")]
DEMO = r'''
p = Program("x86_64-unknown-none")
p.fn("_start", calls=["leaf"], stack=8)
p.fn("leaf", stack=8)
pr = Project(p, name="blink")
g0 = pr.run().stdout
for other in ("blink2", "blinky", "link", "blink_fast"):
    q = Program("x86_64-unknown-none")
    q.fn("_start", stack=800)
    q.fn("leaf", stack=8)
    s = pr.stem.replace("blink-", other + "-")
    pr.write(s + ".ll", q.ll("app"))
    pr.write(s + ".o", E.stack_sizes_object(q.arch, q.objects("app"), q.thumb))
    for e in (".ll", ".o"):
        os.utime(pr.path(s + e), (4e9, 4e9))
    check(pr.run().stdout == g0, f"the graph of blink changes when the example {other} is built")
'''
