#!/usr/bin/env python3
"""Regenerates MANIFEST.json from tools/checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(V + "/tools/checks.json"))
na = json.load(open(V + "/tools/not_applicable.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
checks, nalist = [], []
for p in props:
    i = p["id"]
    if i in cfg:
        c = cfg[i]
        checks.append({
            "property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i, "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the compiled code (LLVM IR instrumentation), obligations decided by algebraic normal form and Z3",
            "level": "model_checking",
            "level_note": "Every value within the bounds: " + c.get("bounds", "") + (". Environment: " + c["stubs_doc"] if c.get("stubs_doc") else "") +
                          ". Real arithmetic instead of floating point on symbolic values; trusts clang, the pass and runtime in engine/, Z3, and the un-instrumented libraries for copying values."})
    else:
        nalist.append({"property": i, "reason": na.get(i, "no check has been built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": nalist,
     "notes": "Each check rebuilds everything it needs from /repo's working tree; see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(nalist), "not applicable")
