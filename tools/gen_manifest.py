#!/usr/bin/env python3
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, R)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NA = {}
m = dict(version=1, setup_cmd="python3 -c 'import checks'", checks=[], not_applicable=[],
         notes="run.py <property> compiles harness/*_k.cpp against /repo for many x86 feature sets and judges the "
               "observed results with scalar oracles; see DESIGN.md")
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 run.py %s" % i,
            thorough_cmd="python3 run.py %s --tier thorough" % i,
            technique=c.get("technique", "runtime monitoring: executions under hostile inputs judged by a scalar oracle"),
            level="exploration",
            level_note=c.get("note", "Every executed element result is compared with a scalar oracle; says nothing about inputs, types, "
                        "ABI tags or feature sets that were not executed. Trusts GCC, the CPU and the oracle.")))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "check under construction")))
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
