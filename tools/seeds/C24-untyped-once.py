ID = "C24-untyped-once"
PROPERTY = "C24"
NEEDS = "more than one function without type information"
BREAKS = "only the first function without a known type is announced"
EDITS = [("src/main.rs", """            has_untyped_symbols = true;
            warn!("no type information for `{}`", canonical_name);
""", """            if !has_untyped_symbols {
                warn!("no type information for `{}`", canonical_name);
            }
            has_untyped_symbols = true;
""")]
DEMO = r'''
p = Program("x86_64-unknown-none")
p.fn("_start", calls=["blob"], stack=8)
for f in ("blob", "glob"):
    p.fn(f, kind="none", stack=16)
r = Project(p).run()
check(r.returncode == 0, r.stderr[-500:])
for f in ("blob", "glob"):
    check(any("type" in l and f"`{f}`" in l for l in r.stderr.splitlines()),
          f"nothing says that the type of {f} is unknown: {r.stderr}")
'''
