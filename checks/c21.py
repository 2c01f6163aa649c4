"""C21: sanitized runs on hostile build products."""
import os
import random
import re
import resource

import oracle
import runner
import small
import synth
import tool

PID = "C21"
BUILD = "asan"


def mutate(rng, b, how):
    b = bytearray(b)
    if not b:
        return bytes(b)
    if how == "flip":
        for _ in range(rng.choice([1, 1, 2, 8, 40])):
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    elif how == "bytes":
        for _ in range(rng.choice([1, 2, 4, 16])):
            b[rng.randrange(len(b))] = rng.choice([0, 1, 0x7F, 0x80, 0xFF, rng.randrange(256)])
    elif how == "word":
        for _ in range(rng.choice([1, 2, 3])):
            k = rng.randrange(max(1, len(b) - 4))
            v = rng.choice([0, 1, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, len(b), len(b) + 1, rng.getrandbits(32)])
            b[k:k + 4] = v.to_bytes(4, "little")
    elif how == "header":
        # the ELF header and the tables it points to
        k = rng.randrange(min(len(b), 64))
        b[k] = rng.randrange(256)
        k = max(0, len(b) - rng.randrange(1, 800))
        b[k] ^= 1 << rng.randrange(8)
    elif how == "cut":
        del b[rng.randrange(len(b)):]
    elif how == "dup":
        k = rng.randrange(len(b))
        n = rng.randrange(1, 200)
        b[k:k] = b[k:k + n]
    elif how == "del":
        k = rng.randrange(len(b))
        del b[k:k + rng.randrange(1, 100)]
    return bytes(b)


def deep(rng, n):
    t = "i8"
    for _ in range(n):
        t = rng.choice([f"[1 x {t}]", f"{{ {t} }}", f"<{{ {t} }}>"])
    return t


TOK = ['"', "(", ")", "{", "}", "\\22", "@", "%", ",", "call", "define", "declare", "alias", "\n", "\n\n", "...", "\\", "99999999999999999999", "[0 x ", "\r\n", "\t", "é", "\u2028"]


def text_mutate(rng, t):
    for _ in range(rng.choice([1, 1, 2, 5])):
        k = rng.randrange(len(t) + 1)
        how = rng.randrange(4)
        if how == 0:
            t = t[:k] + rng.choice(TOK) + t[k:]
        elif how == 1:
            t = t[:k] + t[k + rng.randrange(1, 40):]
        elif how == 2:
            j = rng.randrange(len(t) + 1)
            t = t[:k] + t[j:j + rng.randrange(1, 80)] + t[k:]
        else:
            ls = t.split("\n")
            rng.shuffle(ls[(a := rng.randrange(len(ls))):a + 5])
            j = rng.randrange(len(ls))
            ls[j:j + 1] = rng.choice([[], [ls[j]] * 2, [ls[j][::-1]]])
            t = "\n".join(ls)
    return t


def case(i):
    rng = random.Random(f"{PID}:{runner.SEED}:{i}")
    rec = small.record(PID, i)
    bad = []
    kind = KINDS[i % len(KINDS)]
    p, target = small.program(rng, rng.choice(synth.OTHERS) if kind == "huge sizes" else None,
                              n=(2, 10), p_none=rng.choice([0, 0.1]), p_weird=0.1, p_undef=0.1,
                              **(dict(calls=(1, 3)) if kind == "huge sizes" else {}))
    if kind == "huge sizes":
        for f in rng.sample(p.fns, min(len(p.fns), rng.choice([1, 1, 2, 5]))):
            if f.stack is not None:
                f.stack = rng.choice([(1 << 64) - rng.choice([1, 8, 16, 4096]), 1 << 63, (1 << 63) - 8, 1 << 62, 1 << 40, 1 << 32])
    files = p.files()
    x = p.expected()
    valid = kind in ("valid", "big")
    if kind == "big":
        import gen
        p = gen.gen(rng, target, n=(150, 400), calls=(1, 3), p_none=0)
        files = p.files()
        x = p.expected()
    elif kind == "deep types":
        n = rng.choice([10, 50, 200])
        d = deep(rng, n)
        files["ll"] += f"\ndeclare {d} @deep({d}, ptr)\n"
    elif kind in ("elf", "obj"):
        files[kind] = mutate(rng, files[kind], rng.choice(["flip", "bytes", "word", "header", "cut", "dup", "del"]))
    elif kind == "rlib":
        files[kind] = mutate(rng, files[kind], rng.choice(["flip", "bytes", "word", "cut", "dup", "del"]))
    elif kind in ("ll", "cb_ll"):
        files[kind] = text_mutate(rng, files[kind])
    elif kind == "all":
        for k in ("elf", "obj", "rlib"):
            if rng.random() < 0.5:
                files[k] = mutate(rng, files[k], rng.choice(["flip", "word"]))
    elif kind == "code":
        # random code: any instruction stream, with tags at any place
        e = bytearray(files["elf"])
        for f in p.fns:
            if f.section == ".text" and rng.random() < 0.7:
                n = p.bytesize[f.i]
                # locate the section by searching for its bytes
                pass
        text, _ = p.encode()
        for name, t in text.items():
            if len(t) >= 8:
                k = bytes(e).find(t)
                if k >= 0:
                    e[k:k + len(t)] = bytes(rng.getrandbits(8) for _ in range(len(t)))
        files["elf"] = bytes(e)
    pr = synth.project(rng, target, files)
    try:
        env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:max_allocation_size_mb=6000",
               "RUST_BACKTRACE": "0"}
        fmt = rng.choice([None, None, "top"])
        start = rng.choice([None, None, p.fns[0].names[0].sym if not p.fns[0].names[0].sym.startswith("-") else None])
        r = pr.run(small.BIN, fmt=fmt, start=start, env=env)
        rec["seen"][f"{kind}: " + ("graph" if r.rc == 0 else "refused" if r.rc in (1, 101) else str(r.rc))] = 1
        rec["keys"].append(runner.key(kind, files["elf"], files["ll"], files["obj"], files["rlib"]))
        if "AddressSanitizer" in r.errtext and "allocation-size-too-big" not in r.errtext and "out-of-memory" not in r.errtext:
            m = re.search(r"ERROR: AddressSanitizer: (\S+)", r.errtext)
            bad.append(("memory", f"{kind}: AddressSanitizer: {m.group(1) if m else '?'}: {r.errtext[-300:]}"))
        elif r.hung:
            bad.append(("hang", f"{kind}: does not end within {tool.CPU_LIMIT} s of CPU time"))
        elif r.rc not in (0, 1, 101):
            bad.append(("crash", f"{kind}: ends with status {r.rc}: {r.errtext[-300:]}"))
        elif valid and r.rc != 0:
            bad.append(("refused", f"{kind}: a valid program is refused: {synth.failure_text(r)}"))
        elif r.rc != 0 and not small.no_graph(r.out):
            bad.append(("graph", f"{kind}: fails (status {r.rc}) after printing a graph"))
        elif r.rc == 0 and fmt is None:
            try:
                import dot
                g = dot.parse(r.text)
                if valid and start is None:
                    bad += [("graph", t) for _, t in oracle.compare(p, x, g)[:1]]
                bad += [("graph", f"{kind}: {t}") for _, t in oracle.self_consistent(g, False)[:1]]
            except dot.DotError as e:
                bad.append(("graph", f"{kind}: malformed output: {e}"))
        if i < 3:
            rec["sample"] = f"{kind} on {target}: status {r.rc} {synth.failure_text(r)[:120] if r.rc else ''}"
        if bad:
            rec["replay"]["files"] = None
        small.put(rec, PID, i, bad)
    finally:
        pr.remove()
    return rec


KINDS = ["valid", "elf", "elf", "elf", "obj", "obj", "rlib", "ll", "ll", "ll", "cb_ll", "all", "code", "code", "deep types", "valid", "huge sizes", "big"]


def main():
    return small.run(PID, case, 2400, 60000,
                     "the tool built with AddressSanitizer, overflow checks and debug assertions, on valid programs and on build products with "
                     "flipped, cut, duplicated and rewritten bytes, text and code: no sanitizer report, signal, abort or endless run, no graph "
                     "after a failure, and what is printed is well-formed and consistent; non-trivial: a distinct set of build products",
                     ["a Rust panic (status 101) is a loud, defined refusal of build products that are not valid"], kind="asan")
