"""Writes MANIFEST.json for the check modules present in vf/checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = {
 "C03": "property-based testing of the kernels: generated targets, exact-start invariance z-tests and reference acceptance probabilities",
 "C09": "property-based testing: generated runs and crash/resume points, bitwise differential against the uninterrupted run",
 "C10": "fault injection at generated write offsets and filesystem events, old-or-new oracle",
 "C11": "differential property-based testing across execution modes",
 "C12": "metamorphic property-based testing (repeat / observe)",
 "C19": "schedule fuzzing of the pool over a simulated MPI communicator",
 "C25": "property-based testing against closed-form targets",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "vf", "checks", i.lower() + ".py")):
        lvl = "fault_enumeration" if i == "C10" else "exploration"
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                           evidence_file=f"evidence/{i}.json",
                           technique=TECH.get(i, "property-based testing (Hypothesis) against an independent reference oracle"),
                           level=lvl,
                           level_note="Generated-input search with shrinking; holds on everything explored, no exhaustiveness claimed."
                                      if lvl == "exploration" else
                                      "Crash and write-failure points enumerated/generated over the real save path; no exhaustiveness over sampler states claimed."))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks)
m["not_applicable"] = na
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "unclaimed")
