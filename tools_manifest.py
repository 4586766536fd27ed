#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl, checks.json and the notes below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(here + '/properties.jsonl') if l.strip()]
checks = json.load(open(here + '/checks.json'))
out = {"version": 1, "setup_cmd": "python3 check.py --selftest",
       "hooks": {"guard": "SPMP_MC", "enable": "-DSPMP_MC (check.py compiles every /repo source with it)",
                 "source_commits": ["49bf8f6"]},
       "checks": [], "not_applicable": []}
import subprocess
out["hooks"]["source_commits"] = [subprocess.check_output(
    ["git", "-C", os.environ.get("SPMP_REPO", "/repo"), "rev-parse", c], text=True).strip() for c in out["hooks"]["source_commits"]]
for p in props:
    c = checks.get(p["id"])
    if not c:
        out["not_applicable"].append({"property": p["id"], "reason": "no check built yet"})
        continue
    out["checks"].append({
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} quick",
        "thorough_cmd": f"python3 check.py {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": c.get("technique", "stateless model checking of the real code: exhaustive enumeration of inputs within bounds and DPOR over all thread interleavings"),
        "level": c.get("level", "model_checking"),
        "level_note": c.get("level_note", "Exhaustive within the bounds stated in the evidence file; the implementation itself is executed under a controlled scheduler (sequential consistency), against a reference written from the definition."),
    })
json.dump(out, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write("\n")
