ID = "C18-newest"
PROPERTY = "C18"
NEEDS = "files of an earlier build of the same program (other features or flags, hence another hash) that the directory lists in a particular order"
BREAKS = "the most recent file is not found when it is followed by an older one that is newer than the first"
EDITS = [("src/main.rs", """                    if modified > mrm {
                        ll = Some(p);
                        mrm = modified;
                    }""", """                    if modified > mrm {
                        ll = Some(p);
                    }""")]
DEMO = r'''
p = Program("x86_64-unknown-none")
p.fn("_start", calls=["leaf"], stack=8)
p.fn("leaf", stack=8)
pr = Project(p)
g0 = pr.run().stdout
q = Program("x86_64-unknown-none")
q.fn("_start", stack=800)
q.fn("leaf", stack=8)
import random
rng = random.Random(1)
old = [(pr.stem, 5000)]
for k in range(40):
    s = pr.stem[:-16] + f"{rng.getrandbits(64):016x}"
    old.append((s, 100 + k))
    pr.write(s + ".ll", q.ll("app"))
    pr.write(s + ".o", E.stack_sizes_object(q.arch, q.objects("app"), q.thumb))
for s, t in old:
    for e in (".ll", ".o"):
        os.utime(pr.path(s + e), (1700000000 + t,) * 2)
check(pr.run().stdout == g0, "stale files of earlier builds are analysed")
'''
