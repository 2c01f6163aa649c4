ID = "C25-touch-create"
PROPERTY = "C25"
NEEDS = "a package whose src directory has neither main.rs nor lib.rs, e.g. programs in src/bin only"
BREAKS = "an empty src/lib.rs is created: the analysis adds a library target to the user's package"
EDITS = [("src/main.rs", """        if !filetime::set_file_times(root.join("src/lib.rs"), now, now).is_ok() {""",
          """        let lib = fs::OpenOptions::new().append(true).create(true).open(root.join("src/lib.rs"));
        if !lib.and_then(|lib| lib.set_modified(now_)).is_ok() {"""),
         ("src/main.rs", """    let now = FileTime::from_system_time(SystemTime::now());
""", """    let now_ = SystemTime::now();
    let now = FileTime::from_system_time(now_);
""")]
DEMO = r'''
for have in ("src/main.rs", "src/lib.rs", "src/bin/tool.rs", "examples/app.rs"):
    p = Program("x86_64-unknown-none")
    p.fn("_start", stack=8)
    pr = Project(p)
    os.remove(pr.path("src/main.rs"))
    pr.write(have, "// mine\n")
    r = pr.run()
    check(r.returncode == 0, r.stderr)
    src = sorted(f for f in ("src/main.rs", "src/lib.rs", "src/bin/tool.rs", "examples/app.rs") if os.path.exists(pr.path(f)))
    check(src == [have], f"the package had {have}, after the analysis it has {src}")
    check(open(pr.path(have)).read() == "// mine\n", f"{have} was changed")
'''
