#!/usr/local/bin/python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks

ROOT = os.path.dirname(HERE)
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
TECH = {
    None: "runtime monitoring: online oracle (independent model) over randomized and hostile executions, checked and optimized builds",
    "C07": "runtime monitoring: guard-page red zones and independent re-reader over written buffers",
    "C09": "runtime monitoring with fault injection: sinks failing at every call/byte",
    "C16": "runtime monitoring: law monitors for Eq/Ord/Hash over value pools, plus compiled trait probes",
    "C19": "runtime monitoring: symbol ledger of the built library, and trace-checked C callers under gcc ASan/UBSan",
    "C20": "runtime monitoring: differential trace monitor over std and freestanding libraries; guard-page monitor of memory functions",
    "C21": "runtime monitoring: allocation-ledger monitor under thread stress",
    "C22": "sanitizers: Miri, AddressSanitizer, overflow/debug-checked builds over an API storm",
    "C23": "runtime monitoring: differential digest monitor over feature sets, profiles and toolchains",
    "C24": "sanitizers and monitors: ThreadSanitizer, Miri's race detector, read-only pages, per-thread oracles",
    "C25": "runtime monitoring: malloc-interposing lifetime ledger with red zones and quarantine, ASan",
}
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": TECH.get(i, TECH[None]),
            "level": "exploration",
            "level_note": checks.RULES[i],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
if not m["not_applicable"]:
    m["not_applicable"] = []
if getattr(checks, "HOOKS", None):
    m["hooks"] = checks.HOOKS
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
