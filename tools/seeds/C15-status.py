ID = "C15-status"
PROPERTY = "C15"
NEEDS = "a compiler that is killed by a signal (out of memory, crash) below the wrapper"
BREAKS = "the wrapper reports success for a compilation that did not finish"
EDITS = [("src/wrapper.rs", "Ok(status.code().unwrap_or(-1))", "Ok(status.code().unwrap_or_default())")]
DEMO = r'''
d = os.path.join(TMP, "w")
os.makedirs(d)
for body, ok in (("exit 0", True), ("exit 1", False), ("exit 101", False), ("kill -9 $$", False), ("kill -11 $$", False)):
    with open(d + "/rustc", "w") as f:
        f.write("#!/bin/sh\n" + body + "\n")
    os.chmod(d + "/rustc", 0o755)
    r = subprocess.run([tool(), d + "/rustc", "--crate-name", "x"], env={"PATH": os.environ["PATH"], "CARGO_CALL_STACK_RUSTC_WRAPPER": "1"}, capture_output=True, text=True)
    check((r.returncode == 0) == ok, f"compiler: {body}; status of the wrapper {r.returncode}")
'''
