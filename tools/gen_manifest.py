#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = getattr(props, "NOT_APPLICABLE", {})
checks = [dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
               technique=props.PROPS[p].get("technique", props.TECHNIQUE), level=props.LEVEL, level_note=props.PROPS[p].get("note", props.NOTE)) for p in ids if p in props.PROPS]
m = dict(version=1, setup_cmd="python3 check.py --build", checks=checks,
         not_applicable=[dict(property=p, reason=NA.get(p, "no check built yet")) for p in ids if p not in props.PROPS],
         notes="Nothing is needed in /repo: the harness crate depends on it by path and the executor reads the LLVM bitcode of the result. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
