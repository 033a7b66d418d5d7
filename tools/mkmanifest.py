"""Rewrite MANIFEST.json from the property modules (run by hand after adding one)."""

import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

NOTE = ("Seeded search: {q} (quick) or {t} (thorough) simulated runs, each one exactly repeatable from its seed; "
        "assurance is for the executions explored, not for all. {a}")
PURE = {
    "P30": "Pure function of its input arrays: no concurrency, time, I/O, randomness or history for a simulator to "
           "schedule or fault; deciding it needs input generation or proof, another technique.",
    "P31": "Index arithmetic, a pure function of lengths, dates and parameters; no schedule or fault can change it (how "
           "the folds are then executed and reassembled is P04).",
    "P32": "Depends on input data and parameters only, through a deterministic solve; fault-free behaviour has no "
           "schedule to explore. What happens when solves fail is P10, leftovers of failed solves P08.",
    "P33": "Pure numerical function of the data; no concurrency, time, I/O or multi-step history involved.",
    "P34": "Pure numerical functions; nothing for a scheduler or fault injector to vary.",
    "P35": "Parser: pure function of strings; grammar-based input generation, not simulation, is the technique for it.",
    "P36": "Pure function of the data; no schedule, fault or history dependence beyond what P08, P09 and P17 already "
           "cover for these transformers.",
    "P37": "Pure function of a data frame.",
    "P38": "Pure function of a list of fitness vectors; staleness of the fitness values themselves is P11.",
    "P39": "Deterministic sequential algorithm on its input; no schedule, fault or history dependence.",
}


def main():
    checks = []
    for path in sorted(glob.glob(os.path.join(HERE, "dst", "props", "p*.py"))):
        mod = importlib.import_module("dst.props." + os.path.basename(path)[:-3])
        checks.append({
            "property": mod.ID,
            "quick_cmd": f"./check {mod.ID}",
            "thorough_cmd": f"./check {mod.ID}",
            "evidence_file": f"evidence/{mod.ID}.json",
            "technique": getattr(mod, "TECHNIQUE", "deterministic simulation with fault injection"),
            "level": mod.LEVEL,
            "level_note": NOTE.format(q=mod.RUNS["quick"], t=mod.RUNS["thorough"],
                                      a="Assumes: " + "; ".join(mod.ASSUMPTIONS) + "."),
        })
    out = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B -c 'import sys; sys.path.insert(0, \".\"); import dst.runner'",
        "hooks": {
            "guard": "none: no hook was added to /repo",
            "enable": "nothing to enable; yield and fault points come from sys.monitoring, joblib backends, "
                      "cvxpy.Problem.solve, urllib and os/io seams, compiled from /repo's sources at every run",
            "source_commits": [],
        },
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in PURE.items()],
        "notes": "Replay a violation with ./check <id> --replay <file>; see DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")
    print(len(checks), "checks")


main()
