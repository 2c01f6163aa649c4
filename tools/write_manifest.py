#!/usr/bin/env python3
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GT = "The real executable is run on generated build products whose call graph, frames and types are known by construction; "
CHECKS = {
    "C01": ("emulated execution of real programs with a stack-depth monitor",
            "Programs are built by the real pinned toolchain; every function image is executed in a Thumb interpreter that records the deepest stack below each function entry. Trusts the interpreter (cross-checked against the disassembler)."),
    "C02": ("emulated and single-stepped execution of real programs with a call-event monitor",
            "Every observed control transfer between functions is looked up in the printed graph. Only executed calls are judged."),
    "C03": ("reference-model monitor of the printed graph on generated machine code", GT + "plus sweeps of all 16-bit encodings and of branch distances."),
    "C04": ("metamorphic and reference-model monitor on generated machine code", GT + "each program is run again with other data words."),
    "C05": ("reference-model monitor of printed frame sizes", GT + "plus sweeps of stack-pointer-modifying encodings."),
    "C06": ("online checker of the printed figures", "Every printed maximum is recomputed from the printed edges and from the known program."),
    "C07": ("online checker of the printed clusters", "The clusters are recomputed from the printed edges with an independent SCC algorithm."),
    "C08": ("reference-model monitor of indirect-call nodes", GT + "signature compatibility is decided by an independent implementation."),
    "C09": ("reference-model monitor of unknown callees and exactness", GT + "exactness is judged against what is knowable."),
    "C10": ("reference-model monitor of intrinsic calls", GT + "all subsets of linked runtime functions."),
    "C11": ("reference-model monitor of nodes", GT + "symbol tables with aliases, duplicates and dropped functions."),
    "C12": ("metamorphic monitor of filtered graphs", "The filtered output is compared with the reachable part of the unrestricted output."),
    "C13": ("cross-format monitor", "The compact report is compared with the graph of the same program."),
    "C14": ("strict DOT parser as online monitor", "Every output is parsed by a strict parser; labels are compared with an independent demangler model."),
    "C15": ("recording stand-in compiler and trace comparison", "The wrapper is run as cargo runs it; the recorded argv, environment, output and status are compared."),
    "C16": ("recording stand-in cargo and rustc and trace comparison", "The recorded build command, environment and touched files are compared with the request."),
    "C17": ("fault injection with an outcome monitor", "One fault at a time in the build and in each product; the outcome must be loud and graphless."),
    "C18": ("build-history workloads with stale products", "Histories of products in one target directory; the graph must be that of the last build."),
    "C19": ("reference-model monitor on generated IR, and a corpus of call forms", GT + "call statements cover the forms of LLVM 17."),
    "C20": ("repeated runs and permuted products", "Each program is run repeatedly and with permuted tables; outputs must agree."),
    "C21": ("AddressSanitizer, overflow checks and debug assertions under hostile inputs", "The sanitized executable is run on mutated products; no sanitizer report, signal, endless run or malformed output."),
    "C22": ("reference-model monitor of recorded sizes", GT + "size records are spread over program and library members."),
    "C24": ("reference-model monitor of the warnings", GT + "the warnings on standard error are compared with the gaps of the program and of the graph."),
    "C23": ("message-stream monitor", "Random message streams are sent by the stand-in cargo and compared with what reaches the user."),
    "C25": ("file-system snapshots and a system-call monitor", "Everything below the workspace, HOME and TMPDIR is compared before and after each run; the system calls of the tool's own process are recorded and judged."),
}
NA = json.load(open(os.path.join(ROOT, "tools", "not_applicable.json")))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="No hooks: everything the monitors need is visible at the boundary of the executable. A replay file is run again with: python3 check.py --replay FILE")
for k, (t, n) in CHECKS.items():
    if k not in NA:
        m["checks"].append(dict(property=k, quick_cmd=f"python3 check.py {k}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {k}",
                                technique=t, level="exploration", level_note=n))
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
