"""Checks that run the real tool on synthetic build products with known ground truth."""
import os
import random

import dot
import gen
import oracle
import runner
import tool
import world

BIN = None
THUMBS = list(world.THUMB)
V7 = [t for t in THUMBS if world.THUMB[t]]
OTHERS = list(world.OTHER)


class Spec:
    def __init__(self, pid, cats, targets=None, profile=None, vary=None, nontrivial=None,
                 post=None, start=None, fmt=None, mutate=None, seen=None):
        self.pid = pid
        self.cats = set(cats)
        self.targets = targets or THUMBS + OTHERS
        self.profile = profile or {}
        self.vary = vary
        self.nontrivial = nontrivial or (lambda p, x, g: len(x.nodes) > 2)
        self.post = post
        self.mutate = mutate
        self.seen = seen
        self.loud = None


SPECS = {}


def spec(**kw):
    s = Spec(**kw)
    SPECS[s.pid] = s
    return s


NAMES = ["app", "main", "my-app", "blinky", "a-b-c", "app_2"]


def build_case(s, seed, i):
    rng = random.Random(f"{s.pid}:{seed}:{i}")
    target = rng.choice(s.targets)
    prof = dict(s.profile)
    if s.vary:
        prof.update(s.vary(rng))
    p = gen.gen(rng, target, **prof)
    if s.mutate:
        s.mutate(p, rng)
    return rng, target, p


def failure_text(r):
    e = [l for l in r.errtext.split("\n") if l.strip()]
    at = next((k for k, l in enumerate(e) if "panicked at" in l), None)
    return " / ".join(e[at:at + 3] if at is not None else e[-2:])[:500]


def run_and_parse(pr, binary, **kw):
    """-> (result, graph or None, [(category, text)])"""
    r = pr.run(binary, **kw)
    if r.rc != 0:
        what = "does not terminate (CPU limit)" if r.hung else f"exit status {r.rc}"
        return r, None, [("fails", f"no call graph for a valid program: {what}: {failure_text(r)}")]
    if kw.get("fmt") == "top":
        try:
            return r, dot.parse_top(r.text), []
        except dot.DotError as e:
            return r, None, [("format", f"malformed output: {e}")]
    try:
        return r, dot.parse(r.text), []
    except dot.DotError as e:
        return r, None, [("format", f"malformed DOT: {e}")]


def project(rng, target, files):
    pr = tool.FakeProject(name=rng.choice(NAMES), kind=rng.choice(["example", "example", "bin"]), target=target)
    pr.populate(**files)
    return pr


def case(arg):
    pid, seed, i = arg
    s = SPECS[pid]
    rng, target, p = build_case(s, seed, i)
    p.rng_state = p.rng.getstate()
    files = p.files()
    x = p.expected()
    pr = project(rng, target, files)
    rec = dict(evals=1, keys=[], bad=[], seen={}, replay=dict(kind="synth", pid=pid, seed=seed, case=i, target=target))
    seen = rec["seen"]

    def see(k, n=1):
        seen[k] = seen.get(k, 0) + n
    try:
        r, g, bad = run_and_parse(pr, BIN)
        if g is None and s.loud and s.loud(p, r):
            bad = []
            see("refused loudly")
        if g is not None:
            info = any(f.stack is not None for f in p.fns)
            bad += oracle.compare(p, x, g)
            bad += oracle.self_consistent(g, info)
            if s.nontrivial(p, x, g):
                rec["keys"].append(runner.key(files["elf"], files["ll"], files["obj"]))
            see("nodes", len(g.nodes))
            see("edges", len(g.edges))
            see("cycles", len(g.clusters))
            see("indirect-call nodes", sum(n.dashed for n in g.nodes.values()))
            see("unknown callees", sum(oracle.is_q(n) for n in g.nodes.values()))
            if i < 2:
                rec["sample"] = (f"case {i}: target {target}, {len(p.fns)} functions, {sum(map(len, x.direct.values()))} call pairs, "
                                 f"{sum(map(len, x.sigs.values()))} indirect call types -> {len(g.nodes)} nodes, {len(g.edges)} edges")
        see("programs for " + target)
        if s.seen and g is not None:
            for k, n in s.seen(p, x, g).items():
                see(k, n)
        if s.post:
            bad += s.post(p, pr, BIN, r, g, x, rng, see)
        for c, t in bad:
            if c in s.cats or c in ("fails", "format"):
                rec["bad"].append((f"{pid}:{c}", f"[{target} case {i} seed {seed}] {t}"))
            else:
                see("other-property mismatch " + c)
    finally:
        pr.remove()
    return rec


def run(pid, quick, thorough, rule, assumptions=(), extra=None, level="exploration"):
    global BIN
    ck = runner.Check(pid, rule, level, assumptions)
    BIN = tool.build()
    n = int((thorough if runner.THOROUGH else quick) * runner.SCALE)
    if extra:
        extra(ck, BIN)
    ck.map(case, [(pid, runner.SEED, i) for i in range(n)])
    return ck.finish()
