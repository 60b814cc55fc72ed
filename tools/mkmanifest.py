#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks the harness registers."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = set()
for f in glob.glob(os.path.join(V, "harness", "*.go")):
    have |= set(re.findall(r'ID:\s+"(C\d\d)"', open(f).read()))
T = {"C04": "fuzzing: structured random byte strings, invariant oracle (rapid)", "C18": "fuzzing: structured random bytes into generated struct types, error-or-value oracle (rapid)",
     "C07": "stateful property-based testing: branching histories against snapshots (rapid)", "C08": "model-based stateful testing (rapid)",
     "C09": "model-based stateful testing (rapid)", "C10": "model-based stateful testing (rapid)", "C11": "model-based stateful testing with ownership model (rapid)",
     "C02": "property-based differential testing against a reference encoder (rapid)", "C03": "property-based testing of generated documents against their model (rapid)",
     "C13": "property-based differential testing against encoding/json (rapid)", "C14": "property-based round trip and differential testing (rapid)",
     "C15": "property-based differential testing against math/big (rapid)", "C24": "property-based testing of generated concurrent programs under the race detector (rapid)",
     "C28": "property-based testing with foreign implementations of the interfaces and injected failures (rapid)",
     "C19": "property-based testing with injected read faults and chunkings (rapid)", "C20": "property-based testing with injected write faults at every point (rapid)"}
NOTE = "Generated-input search: every case explored satisfied the oracle, absence of violations outside the explored cases is not established. Trusts the reference model in /verif/harness and the Go toolchain."
EXTRA = {"C24": " Schedules are those the Go scheduler produces; the race detector reports unsynchronised access whether or not it changes a result.",
         "C04": " Memory is measured through runtime metrics; running forever is judged by a limit of 40 s of cpu for one case, confirmed in a second process.",
         "C18": " Memory is measured through runtime metrics; running forever is judged by a limit of 40 s of cpu for one case, confirmed in a second process."}
checks = []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": T.get(i, "property-based testing with a reference model (rapid)"),
                       "level": "exploration", "level_note": NOTE + EXTRA.get(i, "")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in have],
     "notes": "No hooks in /repo: all checks drive the exported API. Replay a saved failure with: python3 check.py <ID> --replay FILE"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks")
