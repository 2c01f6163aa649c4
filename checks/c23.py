"""C23: cargo's messages get through, and nothing but the result is on standard output."""
import random
import re

import dot
import runner
import small
import synth
import tool

PID = "C23"


def line(rng):
    k = rng.randrange(10)
    if k == 0:
        return "\x1b[1m\x1b[32m   Compiling\x1b[0m proj v0.1.0 (/tmp/p%d)" % rng.randrange(100)
    if k == 1:
        return "warning: unused variable: `x%d`" % rng.randrange(1000)
    if k == 2:
        return "  --> src/main.rs:%d:5" % rng.randrange(999)
    if k == 3:
        return ""
    if k == 4:
        return "  " + "".join(chr(rng.choice([0x20, 0x41, 0xE9, 0x65E5, 0x1F600, 0x22, 0x5C, 0x7B, 0x25])) for _ in range(rng.randint(0, 60)))
    if k == 5:
        return "x" * rng.choice([1, 80, 4095, 4096, 8191, 8192, 8193, 70000])
    if k == 6:
        m = rng.choice(["@CARGO_CALL_STACK:", "@CARGO_CALL_STACK:compiler_builtins_ll_path@/x/y.ll", "@CARGO_CALL_STACK:compiler_builtins_rlib_path@/x/y.rlib"])
        return rng.choice([" ", "warning: ", "`", "@", "note: the wrapper printed "]) + m + rng.choice(["", " %d" % rng.randrange(99)])
    if k == 7:
        return "digraph { not ours } %d" % rng.randrange(99)
    if k == 8:
        return "".join(rng.choice(["\x1b[0m", "\x1b[1m", "\x1b[38;5;12m", "\t", " ", "  ", "|", "-" * 9, "é", "e\u0301", "\x1b[K", "\x07", "\\n", "%s"])
                       for _ in range(rng.randint(1, 12))) + str(rng.randrange(99))
    return "error[E0%03d]: mismatched types" % rng.randrange(999)


def case(i):
    rng = random.Random(f"{PID}:{runner.SEED}:{i}")
    rec = small.record(PID, i)
    bad = []
    p, target = small.program(rng, None)
    files = p.files()
    pr = synth.project(rng, target, files)
    try:
        quiet = pr.run(small.BIN)
        n = rng.choice([0, 1, 3, 20, 20, 100, (3000 if i % 80 else 30000) if i % 40 == 0 else 50])
        lines = [line(rng) for _ in range(n)]
        marks = [l for l in pr.markers().split("\n") if l.startswith("@")]
        if rng.random() < 0.3:
            marks = marks + marks[:1]     # cargo replays cached output
        if rng.random() < 0.5:
            marks.reverse()
        full = list(lines)
        for m in marks:
            full.insert(rng.randint(0, len(full)), m)
        text = "\n".join(full) + (rng.choice(["\n", ""]) if full else "")
        pr.write("cargo.stderr", text)
        fail = rng.random() < 0.3
        if fail:
            pr.write("cargo.rc", str(rng.choice([1, 101, 7])))
        r = pr.run(small.BIN, extra=["--verbose"] if rng.random() < 0.2 else [])
        if r.rc < 0 or (not fail and r.rc != 0):
            bad.append(("run", f"status {r.rc}: {synth.failure_text(r)}"))
        got = r.err.decode("utf-8", "replace").split("\n")
        # cargo's lines, in their order, unchanged
        k = 0
        for l in got:
            if k < len(lines) and l == lines[k]:
                k += 1
        if k < len(lines):
            bad.append(("lost", f"line {k + 1} of {len(lines)} of cargo's messages, {lines[k][:80]!r}, does not arrive (status {r.rc})"))
        for l in set(lines):
            if l.strip() and got.count(l) != lines.count(l):
                bad.append(("lost", f"the message {l[:80]!r} appears {got.count(l)} times instead of {lines.count(l)}"))
                break
        if any(m in got for m in marks):
            bad.append(("noise", "internal marker lines are shown to the user"))
        if fail:
            if r.out:
                bad.append(("stdout", f"output of a failed run: {r.out[:80]!r}"))
        else:
            try:
                a, b = dot.parse(r.text), dot.parse(quiet.text)
                import oracle
                if oracle.canon(a) != oracle.canon(b):
                    bad.append(("stdout", "cargo's messages change the call graph"))
            except dot.DotError as e:
                bad.append(("stdout", f"standard output is not just the graph: {e}"))
        rec["seen"]["message lines"] = n
        rec["seen"]["failed builds"] = int(fail)
        rec["keys"].append(runner.key(text, fail))
        if i < 2:
            rec["sample"] = f"{n} message lines, {len(marks)} markers, cargo {'fails' if fail else 'succeeds'} -> status {r.rc}"
        small.put(rec, PID, i, bad)
    finally:
        pr.remove()
    return rec


def main():
    return small.run(PID, case, 1200, 20000,
                     "random cargo messages (colours, empty and very long lines, non-ASCII text, replayed and shuffled internal lines, thousands "
                     "of lines, missing final newline) from succeeding and failing builds: every line arrives once, in order, and standard "
                     "output is just the graph; non-trivial: a distinct message text", ["cargo's messages are UTF-8"])
