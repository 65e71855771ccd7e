#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
NOTE = {
    "S01": "known names and identities of all held objects compared with a model after every step, under placements that alias addresses modulo 2^32 and reuse freed ones at once",
    "S02": "known names compared with those a model of all held references says are in use, after every step, including Python's collector and resets",
    "S03": "every accepted line compared with an independent reader of the grammar; every unpredictable line compared with its outcome in a fresh process on another heap",
    "S04": "damaged lines rejected; all held objects, known names and later outcomes compared with a model that never saw them",
    "S05": "texts compared with the model's spelling, re-rendered later in the history and parsed back; two known findings' shapes excluded (tabs, one-component sets)",
    "S06": "all pairs of held terms compared with structural equality of their models; hashes, measures and ordering laws on pairs and triples, with atoms placed so that hashes collide",
    "S07": "variable index of every term compared with the model's occurrences; clones and composites renumbered and everything else compared before and after",
    "S08": "AddressSanitizer, bounds and float-cast checks and a checking heap over mixed histories and damaged lines; any signal, exit or hang counts. Stack use limited to nesting 500",
    "S09": "allocation failures, once and lasting, placed inside parsing, building, rendering, cloning, merging; held objects, identities and later outcomes compared with the model",
    "S10": "each workload repeated three times in one process; the simulated heap must end the third as it ended the second",
    "S11": "evidential ids unique over all inputs of a run; merges compared with set union, selection and overlap of the model",
    "S12": "stamps and shown tenses compared with a model clock that jumps forwards and back",
    "S13": "Python module driven inside an embedded CPython whose collector runs when the plan says; results compared with the model and with C++ sessions",
    "S14": "every built term compared with the model and with the term parsed from the model's text",
    "S15": "intersection, union, difference compared with the model's sets, operands re-checked, results used again",
}
checks = []
for p, n in NOTE.items():
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p} --tier quick",
        "thorough_cmd": f"python3 check.py {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "deterministic simulation: seeded schedules of sessions, heap placement, clock and faults, against a reference model",
        "level": "exploration",
        "level_note": n + ". Sampled, not exhaustive; trusts the reference model, the simulated heap and the sanitizers. Failures are reported only if fresh processes repeat them exactly.",
    })
m = {
    "version": 1,
    "setup_cmd": "python3 lib/build.py rel asan",
    "checks": checks,
    "not_applicable": [
        {"property": "S16", "reason": "Truth, evidence and budget formulas are pure functions of their arguments: no schedule, clock, fault, placement or history enters, so there is nothing to simulate."},
    ],
    "notes": "No hooks in /repo: the simulator uses existing seams (the C++ and Python APIs, operator new and malloc at link time, the global clock and configuration variables). Replays: python3 check.py ID --replay FILE.",
}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
