#!/usr/bin/env python3
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H); sys.dont_write_bytecode = True
from props import PROPS
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
NA = {"C34": "the RPC server header cannot be compiled: clang 19/20 crash on it and the other compilers here reject the library, so there is no execution to observe"}
SAN = {"asan": "ASan+UBSan", "tsan": "TSan", "none": ""}
checks = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        s = " and ".join(dict.fromkeys(SAN[b.get("san", "asan")] for b in p["builds"]))
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i} --thorough",
            "technique": p.get("technique", f"runtime monitoring: real code under {s}, seeded hostile/stress workloads, independent oracle"),
            "level": "exploration",
            "level_note": p.get("note", "Holds on every execution explored (counts in the evidence file); no claim beyond them. Trusts the compiler, the sanitizers and the oracle written in the harness.")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
  "not_applicable": [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in PROPS],
  "notes": "./check <ID> compiles the harness of that property from /repo's working tree, runs it under sanitizers and judges it. Known findings: known_findings.json."},
  open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
