"""Running a check: case pool, verdicts, evidence, known findings, replay files."""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

import tool

VERIF = tool.VERIF
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
THOROUGH = TIER == "thorough"
SCALE = float(os.environ.get("CCS_SCALE", "1"))   # for mutation campaigns
CORES = int(os.environ.get("CCS_CORES", str(min(8, os.cpu_count() or 1))))


def known_findings():
    """-> {signature: (property, text)} of the open findings"""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    for line in open(p):
        line = line.strip()
        if line.startswith("finding:"):
            # finding: property=<id> key=<signature> <what fails>
            parts = line.split(None, 3)
            pid = parts[1].split("=", 1)[1]
            key = parts[2].split("=", 1)[1]
            out[key] = (pid, parts[3])
    return out


class Check:
    def __init__(self, pid, rule, level="exploration", assumptions=()):
        self.pid = pid
        self.rule = rule
        self.level = level
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.evals = 0
        self.keys = set()
        self.samples = []
        self.observed = {}
        self.viol = []       # (signature, text, replay dict)
        self.known_hit = {}
        self.inconclusive = []
        self.extra = {}

    def elapsed(self):
        return time.time() - self.t0

    def see(self, name, n=1):
        self.observed[name] = self.observed.get(name, 0) + n

    def add(self, rec):
        """rec: dict(evals, keys, bad=[(sig, text)], seen={}, sample, replay)"""
        self.evals += rec.get("evals", 1)
        self.keys.update(rec.get("keys", ()))
        for k, v in rec.get("seen", {}).items():
            self.see(k, v)
        if rec.get("sample") and len(self.samples) < 4:
            self.samples.append(rec["sample"])
        for sig, text in rec.get("bad", ()):
            self.viol.append((sig, text, rec.get("replay")))
        if rec.get("inconclusive"):
            self.inconclusive.append(rec["inconclusive"])

    def map(self, fn, items, limit=None, min_done=0):
        """run fn over the items in worker processes; the number of items is the
        bound; `limit` seconds is only a safety net for slow machines"""
        items = list(items)
        done = 0
        limit = limit or (3000 if THOROUGH else 420)
        if not items:
            return 0
        n = min(CORES, len(items))
        with mp.get_context("fork").Pool(n, initializer=_init) as pool:
            chunk = max(1, min(16, len(items) // (n * 4) or 1))
            for rec in pool.imap_unordered(_Guard(fn), items, chunk):
                self.add(rec)
                done += 1
                if len(self.viol) >= 25:
                    break
                if self.elapsed() > limit:
                    self.extra["stopped_early"] = f"time limit after {done} of {len(items)} items"
                    break
            pool.terminate()
        return done

    def finish(self, min_keys=2):
        known = known_findings()
        fresh = []
        for sig, text, rep in self.viol:
            k = known.get(sig)
            if k and k[0] == self.pid:
                self.known_hit[sig] = k[1]
            else:
                fresh.append((sig, text, rep))
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level,
                  coverage=dict(evaluations=self.evals, distinct_nontrivial=len(self.keys), rule=self.rule,
                                samples=self.samples or ["(none)"], observed=self.observed, **self.extra),
                  assumptions=self.assumptions, wall_s=round(self.elapsed(), 2), violations=len(fresh))
        if self.known_hit:
            ev["coverage"]["known_findings_seen"] = sorted(self.known_hit)
        if self.inconclusive:
            ev["coverage"]["inconclusive"] = len(self.inconclusive)
            ev["coverage"]["inconclusive_samples"] = self.inconclusive[:3]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for sig in sorted(self.known_hit):
            print(f"KNOWN-FINDING: property={self.pid} {self.known_hit[sig]}")
        print(f"{self.pid} [{TIER}, seed {SEED}]: {self.evals} evaluations, {len(self.keys)} distinct non-trivial, "
              f"{len(fresh)} violations, {len(self.inconclusive)} inconclusive, {self.elapsed():.1f} s")
        for k, v in sorted(self.observed.items()):
            print(f"   observed {k}: {v}")
        if fresh:
            os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
            seen = set()
            for sig, text, rep in fresh:
                if sig in seen:
                    continue
                seen.add(sig)
                if len(seen) > 5:
                    break
                name = f"{self.pid}-{hashlib.sha256((sig + text).encode()).hexdigest()[:10]}.json"
                path = os.path.join(VERIF, "replay", name)
                with open(path, "w") as f:
                    json.dump(dict(property=self.pid, signature=sig, text=text, replay=rep, tier=TIER, seed=SEED), f, indent=1)
                print(f"   {sig}: {text[:600]}")
                print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        if self.inconclusive and len(self.inconclusive) * 20 > max(self.evals, 1):
            print(f"{self.pid}: too many inconclusive cases, e.g. {self.inconclusive[0]}")
            return 2
        if len(self.keys) < min_keys:
            print(f"{self.pid}: observed too little ({len(self.keys)} distinct cases)")
            return 2
        return 0


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


class _Guard:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, item):
        try:
            return self.fn(item)
        except tool.Inconclusive as e:
            return dict(evals=1, inconclusive=str(e))
        except Exception:
            return dict(evals=1, inconclusive="harness error: " + traceback.format_exc())


def key(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else repr(p).encode())
    return h.hexdigest()[:16]
