"""Small valid programs and helpers for the checks of the tool's outer behaviour."""
import os
import random
import shutil

import gen
import oracle
import runner
import synth
import tool

BIN = None


def program(rng, target=None, **kw):
    target = target or rng.choice(synth.THUMBS + synth.OTHERS)
    o = dict(n=(2, 6), p_none=0, p_weird=0)
    o.update(kw)
    p = gen.gen(rng, target, **o)
    return p, target


def tree(d, skip=("target",)):
    """{relative path: content} of everything below d"""
    out = {}
    for root, dirs, files in os.walk(d):
        dirs[:] = [x for x in dirs if not (root == d and x in skip)]
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
        for x in dirs:
            out[os.path.relpath(os.path.join(root, x), d) + "/"] = b""
    return out


def no_graph(out):
    return b"digraph" not in out and b"Usage Function" not in out and b"local =" not in out and b"MAX" not in out


def run(pid, case, n_quick, n_thorough, rule, assumptions=(), kind="dev", min_keys=2):
    global BIN
    ck = runner.Check(pid, rule, "exploration", list(assumptions))
    BIN = synth.BIN = tool.build(kind)
    ck.map(case, range(int((n_thorough if runner.THOROUGH else n_quick) * runner.SCALE)))
    return ck.finish(min_keys)


def record(pid, i):
    return dict(evals=1, keys=[], bad=[], seen={}, replay=dict(kind="module", pid=pid, case=i, seed=runner.SEED))


def put(rec, pid, i, bad):
    rec["bad"] += [(f"{pid}:{c}", f"[case {i} seed {runner.SEED}] {t}") for c, t in bad]
