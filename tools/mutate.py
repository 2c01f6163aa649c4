"""Mutation campaign: small random changes of /repo's sources (in a scratch clone); reports those that
compile and that no check notices.  usage: mutate.py WORKDIR SEED COUNT [file...]"""
import os, random, re, subprocess, sys, json, time

W, SEED, N = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
FILES = sys.argv[4:] or ["main", "thumb", "wrapper", "ir", "ir/define", "ir/item", "ir/ty"]
REPO, VER, BUILD = W + "/repo", W + "/verif", W + "/build"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(W, exist_ok=True)
if not os.path.isdir(REPO):
    subprocess.run(["git", "clone", "-q", "/repo", REPO], check=True)
subprocess.run(["rsync", "-a", "--delete", "--exclude=.build", "--exclude=.git", "--exclude=seeded", HERE + "/", VER + "/"]) \
    if subprocess.run(["which", "rsync"], capture_output=True).returncode == 0 else \
    subprocess.run(f"rm -rf {VER} && mkdir {VER} && cd {HERE} && git ls-files | grep -v ^seeded | cpio -pdm --quiet {VER}", shell=True, check=True)

OPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "),
       (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" << ", " >> "), (r" >> ", " << "),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bcontinue;", "{}"), (r"\bbreak;", "{}"), (r"!(?=[a-z_]+[.(])", ""),
       (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.rev\(\)", ""), (r"\.min\(", ".max("), (r"cmp::min", "cmp::max"), (r"cmp::max", "cmp::min"),
       (r"(?<![\w.\"#])(\d+)(?![\w.\"])", lambda m: str(int(m[0]) + 1)), (r"\b0x[0-9a-f_]+\b", lambda m: hex(int(m[0].replace("_", ""), 16) ^ 1)),
       (r"starts_with\(", "contains("), (r"ends_with\(", "contains("), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.find\(", ".rfind("),
       (r"alt\(\(", "alt((") , (r"space0", "space1"), (r"space1", "space0"), (r"opt\(", "opt("), (r"many0", "many1"), (r"max\b", "min")]


def sites():
    out = []
    for f in FILES:
        p = f"src/{f}.rs"
        src = open(f"{REPO}/{p}").read()
        cut = src.find("#[cfg(test)]")
        lines = (src if cut < 0 else src[:cut]).split("\n")
        for n, l in enumerate(lines):
            t = l.strip()
            if not t or t.startswith(("//", "use ", "#", "mod ", "pub mod", "fn ", "pub fn")) or "println!" in t or "warn!" in t:
                continue
            for rx, to in OPS:
                for m in re.finditer(rx, l):
                    new = l[:m.start()] + (to(m) if callable(to) else to) + l[m.end():]
                    if new != l:
                        out.append((p, n, l, new))
            for m in re.finditer(r'"0b[01x_]+"', l):
                pos = [k for k in range(m.start() + 3, m.end() - 1) if l[k] in "01x"]
                for k in random.Random(l).sample(pos, 2):
                    c = random.Random(l + str(k)).choice([x for x in "01x" if x != l[k]])
                    out.append((p, n, l, l[:k] + c + l[k + 1:]))
            if re.match(r"^[a-z_.\[\]\*]+(\.[a-z_0-9]+\(.*\)| [-+]?= .*);$", t) and not t.startswith("let") and t.count("(") == t.count(")"):
                out.append((p, n, l, l[:len(l) - len(l.lstrip())] + "{}"))
    return out


S = sites()
random.Random(SEED).shuffle(S)
print(len(S), "sites", flush=True)
ORDER = {"src/thumb.rs": "C03 C05 C04 C09 C06 C07 C24", "src/wrapper.rs": "C15 C16 C17 C23 C21", "src/ir.rs": "C19 C08 C10 C14 C06 C17 C21",
         "src/ir/define.rs": "C19 C08 C10 C14 C17 C24 C21", "src/ir/item.rs": "C19 C08 C11 C10 C17 C21", "src/ir/ty.rs": "C08 C19 C21"}
MAIN = "C06 C11 C09 C13 C12 C14 C07 C08 C10 C22 C24 C16 C18 C17 C23 C20 C03 C05 C04 C15 C19 C21"
log = open(f"{W}/mutants.log", "a")
done = 0
for p, n, old, new in S:
    if done >= N:
        break
    t0 = time.time()
    f = f"{REPO}/{p}"
    lines = open(f).read().split("\n")
    assert lines[n] == old
    lines[n] = new
    open(f, "w").write("\n".join(lines))
    env = dict(os.environ, CCS_REPO=REPO, CCS_BUILD=BUILD, CCS_SCALE="0.25", VERIF_SEED="1", VERIF_TIER="quick")
    try:
        r = subprocess.run(["python3", "check.py", "--setup"], cwd=VER, env=env, capture_output=True, text=True)
        if r.returncode:
            continue
        done += 1
        seq = (ORDER.get(p, "").split() or []) + []
        seq += [c for c in MAIN.split() if c not in seq]
        if p != "src/main.rs":
            seq = seq[:12]
        hit = None
        for c in seq:
            try:
                r = subprocess.run(["python3", "check.py", c], cwd=VER, env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                hit = c + ":timeout"
                break
            if r.returncode:
                m = re.search(r"^ +(C\d\d:[a-z-]+)", r.stdout, re.M)
                hit = m[1] if m else f"{c}:rc{r.returncode}"
                break
        line = f"{'KILLED ' + hit if hit else 'SURVIVED'} {p}:{n + 1} {time.time() - t0:.0f}s\n   - {old.strip()}\n   + {new.strip()}"
        print(line, flush=True)
        log.write(line + "\n")
        log.flush()
    finally:
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=REPO)
