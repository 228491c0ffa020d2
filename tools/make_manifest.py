#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the checks present and NOT_APPLICABLE below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "bin"), os.path.join(V, "checks")]
sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
}
checks, na = [], []
for p in props:
    f = os.path.join(V, "checks", p["id"].lower() + ".py")
    if os.path.exists(f):
        mod = __import__(p["id"].lower())
        c = mod.CHECK
        models = ", ".join(m.module for m in c.models) or "none"
        specs = ", ".join(sorted({q.spec for q in c.parts}))
        checks.append({
            "property": p["id"],
            "quick_cmd": "bin/check " + p["id"],
            "thorough_cmd": "bin/check " + p["id"] + " --thorough",
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "TLA+ specification checked with TLC; recorded executions of the real code validated against it",
            "level": "model_checking",
            "level_note": "Models %s are explored exhaustively within their constants; executions replayed through the real library are validated event by event against %s. Inputs beyond the enumerated ones are sampled with the given seed, so the implementation is covered for the recorded executions only. Trusted: TLC, the driver's recording of arguments and results. %s" % (models, specs, " ".join(a[0].upper() + a[1:] + "." for a in c.assumptions)),
        })
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "No check built yet.")})
m = {"version": 1, "setup_cmd": "bin/setup",
     "hooks": {"guard": "none", "enable": "No instrumentation is needed: the drivers use the public interface of the headers in /repo/include, the Python module and the programs in /repo/src/tools.", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC. See DESIGN.md. Fixed defects and known findings: KNOWN_FINDINGS.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
