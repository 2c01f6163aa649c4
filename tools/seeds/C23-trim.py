ID = "C23-trim"
PROPERTY = "C23"
NEEDS = "messages with meaningful blanks at the end of a line or empty lines"
BREAKS = "blanks at the ends of the build's messages are removed"
EDITS = [("src/main.rs", """            eprintln!("{}", line);
        }
    }

    let status""", """            eprintln!("{}", line.trim_end());
        }
    }

    let status""")]
DEMO = r'''
p = Program("x86_64-unknown-none")
p.fn("_start", stack=8)
pr = Project(p)
lines = ["   Compiling proj", "", "error: x  ", "  |  ", "\t", "    Finished"]
pr.write("cargo.stderr", "\n".join(lines) + "\n" + pr.markers())
r = pr.run()
check(r.returncode == 0, r.stderr)
check(r.stderr.startswith("\n".join(lines) + "\n"), f"messages passed on: {r.stderr[:200]!r}")
'''
