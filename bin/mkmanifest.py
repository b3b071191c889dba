#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "bin"))
from registry import CHECKS, NOTES, NA
props = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
common = ("The TLA+ specification is checked exhaustively by TLC within the bounds in its .cfg; the code is bound to it by running one script per "
          "transition of a bounded state graph and randomised (and, where it applies, concurrently scheduled) histories on the real code and "
          "having TLC accept or reject every recorded trace. Trusted: TLC, the harness's recording of calls and results. ")
m = dict(version=1, setup_cmd="bash bin/setup", checks=[], not_applicable=[])
for p in props:
    if p in CHECKS:
        m["checks"].append(dict(property=p, quick_cmd="bin/check %s" % p, thorough_cmd="bin/check %s --tier thorough" % p, evidence_file="evidence/%s.json" % p,
            technique="TLA+ specification model-checked with TLC; spec-generated scripts and recorded traces of the real code validated against it by TLC",
            level="model_checking", level_note=common + NOTES.get(p, "")))
    else:
        m["not_applicable"].append(dict(property=p, reason=NA.get(p, "no check built yet")))
m["notes"] = "No hooks in /repo: the machinery uses the crate's public interface only. Known findings and repaired defects: KNOWN_FINDINGS.json."
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
