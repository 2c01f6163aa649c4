"""Run the case of a replay file again (exit 1 if it still fails)."""
import importlib
import json
import os


def run(path):
    d = json.load(open(path))
    os.environ["VERIF_SEED"] = str(d["seed"])
    os.environ["VERIF_TIER"] = d["tier"]
    r = d["replay"]
    import runner
    import synth
    import tool
    pid = d["property"]
    if r["kind"] == "synth":
        import specs  # noqa: F401  (registers the profiles)
        synth.BIN = tool.build()
        rec = synth.case((r["pid"], r["seed"], r["case"]))
    elif r["kind"] == "module":
        import small
        mod = importlib.import_module(pid.lower())
        small.BIN = synth.BIN = tool.build(getattr(mod, "BUILD", "dev"))
        if hasattr(mod, "BIN"):
            mod.BIN = small.BIN
        rec = mod.case(r["case"])
    elif r["kind"] == "real":
        import realcheck
        rec = realcheck.replay(r)
    else:
        # a sweep: run the whole check with that seed and tier
        import specs
        if pid in specs.CHECKS:
            return specs.CHECKS[pid]()
        return importlib.import_module(pid.lower()).main()
    for sig, text in rec["bad"]:
        print(f"{sig}: {text}")
    if any(True for _ in rec["bad"]):
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("not reproduced" if not rec.get("inconclusive") else rec["inconclusive"])
    return 0
