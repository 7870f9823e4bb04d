#!/usr/bin/env python3
"""Writes MANIFEST.json. Checks are listed here, properties in properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
TREE = "runtime monitor over the real input_tree crate under random workloads, oracle: independent formula model"
EDITOR = "runtime monitor over the real editor crates under random action histories, oracle: independent reference"
PARSER = "runtime monitor over the real parser under generated formulas, oracle: independent reference"
TS = "runtime monitor over the bundled TypeScript under generated documents with a fake DOM, oracle: independent reference"
claimed = set(os.environ.get("CLAIMED", "").split()) or None
NOTE_RUST = "Random exploration with overflow checks and debug assertions on; nothing is proved beyond the executions observed. Trusts rustc, the monitors and the model in harness/common."
NOTE_CHUMSKY = " The parser's dependency chumsky is not available offline and is replaced by the shim in harness/vendor."
NOTE_TS = "Random exploration of the bundled sources in node; DOM and layout are stand-ins (harness/ts)."
checks = []
for p in props:
    i = p["id"]
    if claimed is not None and i not in claimed:
        continue
    n = int(i[1:])
    tech = TREE if n <= 9 else (EDITOR if n <= 22 else (PARSER if n <= 30 or n in (36, 37, 38) else TS))
    if i == "C10":
        tech = "runtime monitor over the real serialization under random formulas and mutated JSON, oracle: independent reader"
    if i == "C30":
        tech = "runtime monitor over the real bindings under random call histories, oracle: the editor itself next to them"
    if i == "C38":
        tech = "counting allocator (leak sanitizer) around the real parser and editor under random histories, oracle: bytes in use before and after"
    note = NOTE_RUST if n <= 9 else (NOTE_RUST + NOTE_CHUMSKY if n <= 30 or n in (36, 37, 38) else NOTE_TS)
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "technique": tech,
        "level": "exploration",
        "level_note": note,
    })
manifest = {
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "not_applicable": [],
    "notes": "Every check builds its harness from /repo's working tree (cargo --offline, or esbuild). No hooks in /repo are needed. known_findings.txt lists known and fixed findings.",
}
json.dump(manifest, open(root + "/MANIFEST.json", "w"), indent=1)
