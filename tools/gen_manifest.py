#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
D = os.path.dirname(os.path.abspath(__file__)) + "/.."
T = {
 "C01": "runtime monitor: model-based checker of every store accessor over random insertion histories",
 "C02": "runtime monitor: model-based checker of accepted/rejected insertions over random histories",
 "C03": "runtime monitor: order checker on get_sorted under permuted insertions and extreme floats",
 "C04": "runtime monitor: every score compared online with an independent reference of the definition",
 "C05": "runtime monitor: every score compared online with an independent reference of the definition",
 "C06": "runtime monitor: every score compared online with an independent reference of the definition",
 "C07": "runtime monitor: every score compared online with an independent reference of the definition",
 "C08": "runtime monitor: range and cross-metric invariants asserted on every observed score",
 "C09": "runtime monitor: metamorphic relations checked between paired executions",
 "C10": "runtime monitor: evaluate against definitions, itself and isolated per-query executions",
 "C11": "runtime monitor: round-trip and rejection checker over generated metric strings",
 "C12": "runtime monitor: parsed stores compared with the generated records, defect injection",
 "C13": "runtime monitor: serialised records inspected as plain JSON and read back, defect injection",
 "C14": "runtime monitor: pairing compared with direct look-ups, key-set corruption",
 "C15": "runtime monitor: statistics against double-double arithmetic and an independent t distribution",
 "C16": "runtime monitor: error variants asserted on degenerate samples, finiteness on regular ones",
 "C17": "runtime monitor: forward tail-probability check of every reported margin",
 "C18": "runtime monitor: statistics against double-double arithmetic and an independent F distribution",
 "C19": "runtime monitor: error variants and absence of panics on degenerate input",
 "C20": "runtime monitor: effect sizes against double-double arithmetic, metamorphic relations",
 "C21": "runtime monitor: p-values against exact enumeration of the resampling distribution (Chernoff bound)",
 "C22": "runtime monitor: p-values against exact enumeration of the permutation distribution (Chernoff bound)",
 "C23": "runtime monitor: repeated seeded executions across histories, threads and processes",
 "C24": "runtime monitor: isolated-process baseline vs concurrent history; ThreadSanitizer (and Miri)",
 "C25": "runtime monitor: output of the real tool compared record by record with the input",
 "C26": "runtime monitor: output of the real tool compared with an independent evaluation",
 "C27": "runtime monitor: output of the real tool compared with independent statistics",
 "C28": "fault injection at every output byte (RLIMIT_FSIZE, /dev/full), exit status and output checked",
 "C29": "runtime monitor: exit status asserted over systematically corrupted inputs",
 "C30": "runtime monitor: the real tools chained, end-to-end output compared with definitions on the TREC contents",
 "C31": "runtime monitor: panic, hang and NaN detection on degenerate and hostile stores",
}
N = {
 "C24": "all interleavings are sampled, not enumerated; the code has no threads of its own",
 "C28": "every byte offset of the outputs of the workload files, one failure per run",
}
checks = []
for p in map(json.loads, open(D + "/properties.jsonl")):
    i = p["id"]
    if i not in T:
        continue
    checks.append({"property": i, "quick_cmd": f"python3 /verif/check.py {i} quick", "thorough_cmd": f"python3 /verif/check.py {i} thorough",
        "technique": T[i], "level": "fault_enumeration" if i == "C28" else "exploration",
        "level_note": N.get(i, "held on every execution observed; the evidence file counts executions and distinct inputs")})
if os.environ.get("ONLY"):
    checks = [c for c in checks if c["property"] in os.environ["ONLY"].split(",")]
m = {"version": 1, "setup_cmd": "python3 /verif/setup.py", "checks": checks, "not_applicable": []}
json.dump(m, open(D + "/MANIFEST.json", "w"), indent=1)
print(len(checks))
