"""Development-time generator of lib/corpus.json: which Thumb encodings exist and
what class they belong to, taken from LLVM's disassembler (not from the tool)."""
import json, random, re, subprocess, sys, os

TR = {"v6m": "thumbv6m-none-eabi", "v7m": "thumbv7em-none-eabihf"}


def dis(arch, items):
    """items: list of byte strings -> list of text or None"""
    inp = "\n".join("[" + " ".join("0x%02x" % b for b in i) + "]\n[0xab 0xde]" for i in items) + "\n"
    mattr = ["-mattr=+vfp4d16,+fp64,+dsp"] if arch == "v7m" else []
    r = subprocess.run(["llvm-mc", "-disassemble", "-triple=" + TR[arch]] + mattr,
                       input=inp, text=True, capture_output=True)
    undef = {(int(m.group(1)) - 1) // 2 for m in re.finditer(r"<stdin>:(\d+):\d+: warning: potentially", r.stderr)}
    lines = [l.split("@")[0].strip() for l in r.stdout.split("\n")]
    lines = [l for l in lines if l and not l.startswith(".")]
    out = []
    cur = []
    for l in lines:
        if re.match(r"udf\s+#171$", l):
            out.append(cur[0] if len(cur) == 1 and len(out) not in undef else None)
            cur = []
        else:
            cur.append(l)
    if len(out) != len(items):
        print("marker mismatch", len(out), len(items), file=sys.stderr)
    return out


def architectural(arch, h, text):
    """drop encodings that LLVM prints but that M-profile does not have (CPS with
    the A bit or without flags) or that store below SP without moving it"""
    if h is not None and h & 0xFFE0 == 0xB660:
        return h & 0xC == 0 and h & 3 != 0
    if arch == "v6m" and h is not None and h & 0xFF0F == 0xBF00 and h > 0xBF40:
        return False  # unallocated hints
    return not re.match(r"stmdb(\.w)?\s+sp,", text)


def cls(text):
    m = re.split(r"\s+", text, 1)
    mn = m[0]
    ops = m[1] if len(m) > 1 else ""
    ops = ops.replace("\t", " ")
    if re.match(r"(b|bl|blx|bx)(eq|ne|hs|lo|mi|pl|vs|vc|hi|ls|ge|lt|gt|le|al)?(\.w|\.n)?$", mn) or mn in ("cbz", "cbnz", "tbb", "tbh", "bxj"):
        return "branch"
    if re.match(r"it[te]*$", mn):
        return "it"
    if mn.startswith(("push", "pop", "vpush", "vpop")):
        return "sp"
    if mn.startswith(("udf",)):
        return "udf"
    first = ops.split(",")[0].strip()
    if re.match(r"(str|strd|strb|strh|strex|strexd|strexb|strexh|stm|stmdb|vst|cmp|cmn|tst|teq)", mn) is None and first in ("sp", "pc"):
        return "pcsp"
    if "sp!" in ops or re.search(r"\[sp\], ", ops) or re.search(r"\[sp[^\]]*\]!", ops):
        return "sp"
    if re.match(r"(ldm|ldmdb|ldmia|pop)", mn) and "pc" in ops:
        return "pcsp"
    if re.search(r"\bpc\b", ops) and re.match(r"(ldr|mov|add|sub|and|orr|eor|bic|mvn|adc|sbc|rsb)", mn) and first == "pc":
        return "pcsp"
    if re.match(r"(ldrd|smull|umull|smlal|umlal|umaal)", mn) and re.search(r"\bsp\b|\bpc\b", ops.split("[")[0]):
        return "pcsp"
    if mn.startswith(("vmrs",)) is False and re.search(r"^(r\d+|s\d+|d\d+), sp", ops) and mn.startswith("vmov"):
        return "pcsp"
    return "plain"


def main():
    out = {}
    rnd = random.Random(7)
    for arch in TR:
        hws = [h for h in range(65536) if (h >> 11) not in (0b11101, 0b11110, 0b11111)
               and not (0xBF00 <= h <= 0xBFFF and h & 0xF)]
        txt = dis(arch, [h.to_bytes(2, "little") for h in hws])
        classes = {}
        for h, t in zip(hws, txt):
            if t is None or not architectural(arch, h, t):
                continue
            classes.setdefault(cls(t), []).append(h)
        rl = {}
        for c, l in classes.items():
            runs = []
            for h in l:
                if runs and runs[-1][1] == h - 1:
                    runs[-1][1] = h
                else:
                    runs.append([h, h])
            rl[c] = runs
        print(arch, {c: len(l) for c, l in classes.items()}, file=sys.stderr)
        out[arch + "_16"] = rl
        # 32-bit: stratified random sample over the first halfword
        seen = {}
        cand = []
        firsts = [h for h in range(0xE800, 0x10000)]
        for h in firsts:
            for _ in range(24 if arch == "v7m" else 6):
                cand.append((h, rnd.getrandbits(16)))
            for s in (0x8000, 0x8F5F, 0xF000, 0x8100, 0x0101, 0x0000, 0xD000, 0x9000):
                cand.append((h, s | rnd.choice([0, rnd.getrandbits(8), rnd.getrandbits(12)])))
        b = [h.to_bytes(2, "little") + s.to_bytes(2, "little") for h, s in cand]
        txt = dis(arch, b)
        byc = {}
        for x, t in zip(b, txt):
            if t is None or not architectural(arch, None, t):
                continue
            c = cls(t)
            mn = t.split()[0]
            byc.setdefault(c, {}).setdefault(mn, []).append((x.hex(), t))
        keep = {}
        for c, d in byc.items():
            keep[c] = []
            for mn, l in sorted(d.items()):
                rnd.shuffle(l)
                keep[c] += [list(x) for x in l[:40]]
        print(arch, {c: (len(l), sum(map(len, byc[c].values()))) for c, l in keep.items()}, file=sys.stderr)
        out[arch + "_32"] = keep
    p = os.path.join(os.path.dirname(__file__), "..", "lib", "corpus.json")
    json.dump(out, open(p, "w"), separators=(",", ":"))


main()
