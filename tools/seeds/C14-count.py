ID = "C14-count"
PROPERTY = "C14"
NEEDS = "two functions whose names differ in nothing but the hash, one of them without a stack-size record"
BREAKS = "functions without a record are not counted when names are checked for ambiguity: two functions share one shortened label"
EDITS = [("src/main.rs", """        if let Some(dehashed) = dehash(&demangled) {
            *ambiguous""", """        if let (Some(dehashed), Some(_)) = (dehash(&demangled), stack) {
            *ambiguous""")]
DEMO = r'''
p = Program("x86_64-unknown-none")
p.fn("_start", stack=8)
p.fn("_ZN4core3ops8function6FnOnce9call_once17h0000000000000001E", stack=16)
p.fn("_ZN4core3ops8function6FnOnce9call_once17h0000000000000abcE", stack=None)
p.fn("_ZN3app4once17h00000000000000aaE", stack=16)
g = Project(p).graph()
check(len(g.byname) == 4, f"labels: {sorted(g.byname)}")
check("app::once" in g.byname, f"labels: {sorted(g.byname)}")
'''
