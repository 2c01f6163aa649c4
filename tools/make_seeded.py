"""Writes /verif/seeded/<id>/ from tools/seeds/*.py.  Each of those defines ID,
PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)] and DEMO (Python text using kit.py).
usage: make_seeded.py [ID...]; --test also runs every demo on both trees"""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "..", "seeded")


def demo(d, cwd):
    r = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=cwd, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def one(path, test):
    m = runpy.run_path(path)
    i = m["ID"]
    d = os.path.join(OUT, i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", tmp + "/r"], check=True)
        r = tmp + "/r"
        for f, old, new in m["EDITS"]:
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True, check=True).stdout
        # which of the removed lines are original?
        bl = {}
        for f, old, new in m["EDITS"]:
            bl[f] = subprocess.run(["git", "blame", "-s", "HEAD", "--", f], cwd="/repo", capture_output=True, text=True).stdout.split("\n")
        rem, cur, ln = 0, None, 0
        orig = 0
        for l in diff.split("\n"):
            if l.startswith("--- a/"):
                cur = l[6:]
            elif l.startswith("@@"):
                ln = int(l.split()[1].split(",")[0][1:])
            elif l.startswith("-") and not l.startswith("---"):
                rem += 1
                orig += bl[cur][ln - 1].startswith("^")
                ln += 1
            elif l.startswith(" "):
                ln += 1
        if not orig:
            print("WARNING", i, "removes no original line")
        open(d + "/patch.diff", "w").write(diff)
        json.dump(dict(property=m["PROPERTY"], needs=m["NEEDS"], what_it_breaks=m["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
        for f in ("kit.py", "elf.py", "dot.py", "armenc.py"):
            shutil.copy(os.path.join(HERE, "seedkit", f), d)
        open(d + "/demo.py", "w").write("from kit import *\n\n" + m["DEMO"].strip() + "\nprint('ok')\n")
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(dirname "$0")/demo.py"\n')
        if test:
            subprocess.run(["cp", "-a", "/repo", tmp + "/o"], check=True)
            a = demo(d, tmp + "/o")
            b = demo(d, r) if os.path.exists("/repo/firmware/Cargo.lock") or True else None
            ok = a[0] == 0 and b[0] != 0 and "does not build" not in b[1] and "Traceback" not in b[1]
            print(i, "OK" if ok else "BAD", a if a[0] else "", "|", b[1].strip()[-300:] if not ok or b else "")
        else:
            print(i, "written")
    finally:
        shutil.rmtree(tmp)


want = [a for a in sys.argv[1:] if not a.startswith("-")]
for p in sorted(glob.glob(HERE + "/seeds/*.py")):
    if not want or os.path.basename(p)[:-3] in want:
        one(p, "--test" in sys.argv)
