ID = "C16-override"
PROPERTY = "C16"
NEEDS = "the override variable set to something else than the promised sentence, and an unsupported toolchain"
BREAKS = "any value of the variable switches the toolchain check off"
EDITS = [("src/main.rs", "env::var(UNSUPPORTED_MODE_KEY).as_deref() != Ok(UNSUPPORTED_MODE_VALUE)", "env::var_os(UNSUPPORTED_MODE_KEY).is_none()")]
DEMO = r'''
p = Program("x86_64-unknown-none")
p.fn("_start", stack=8)
pr = Project(p)
K, V = "CARGO_CALL_STACK_UNSPPORTED_NIGHTLY", "I won't open issues about unsupported toolchains"
bad = {"FAKE_HASH": "0" * 40}
for env, ok in (({}, True), (bad, False), (dict(bad, **{K: V}), True), (dict(bad, **{K: "1"}), False), (dict(bad, **{K: ""}), False), (dict(bad, **{K: "I won't"}), False)):
    r = pr.run(env=env)
    check((r.returncode == 0) == ok, f"{env}: status {r.returncode}")
'''
