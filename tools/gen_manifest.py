#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the driver is compiled into the module with go build -overlay, nothing in /repo changes"},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in props.P:
        m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i, "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                            "technique": props.P[i].get("technique", "TLA+ specification (spec/Kyve.tla, Props.tla) checked with TLC; histories of the real modules validated step by step against it (Trace.tla)"),
                            "level": "model_checking",
                            "level_note": props.P[i].get("note", "exact step conformance of generated histories of the real code with the specification; bounded by the histories explored")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
