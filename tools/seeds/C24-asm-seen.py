ID = "C24-asm-seen"
PROPERTY = "C24"
NEEDS = "two functions with the same inline-assembly text"
BREAKS = "the assumption that inline assembly does not use the stack is announced for the first function with that text only"
EDITS = [("src/main.rs", """    let mut fns_containing_asm = HashSet::new();
""", """    let mut fns_containing_asm = HashSet::new();
    let mut asm_seen = HashSet::new();
"""), ("src/main.rs", """                    if fns_containing_asm.insert(*canonical_name) {
                        // NB""", """                    if fns_containing_asm.insert(*canonical_name) && asm_seen.insert(*expr) {
                        // NB""")]
DEMO = r'''
p = Program("x86_64-unknown-none")
p.fn("_start", calls=["one", "two"], stack=8)
for f in ("one", "two", "three"):
    p.fn(f, stack=16, ir=['  call void asm sideeffect "cpsid i", "~{memory}"() #1'])
r = Project(p).run()
check(r.returncode == 0, r.stderr[-500:])
for f in ("one", "two", "three"):
    check(any("asm" in l and f"`{f}`" in l for l in r.stderr.splitlines()),
          f"the inline assembly of {f} is not announced: {r.stderr}")
'''
