#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has a harness package."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T_CODEC = "symbolic execution of the Go SSA of the real code with z3 (bounded), counterexamples replayed natively"
T_CONC = "symbolic execution of the Go SSA with all interleavings up to a preemption bound, z3 for the data, replayed"
CONC = {"C30", "C31", "C33", "C35", "C36", "C37", "C40", "C41", "C42", "C43", "C45"}
N_CODEC = ("Within the bounds the harness states (sizes and counts, listed in the evidence), the solver shows the assertions for every value of the inputs. "
           "Trusted: go/ssa, the interpreter's models of the Go runtime and standard library (checked on every run by replaying sampled paths on the native build), z3, and the reference encoder in harness/ref.")
N_CONC = N_CODEC + " Schedules: all interleavings at synchronisation points within the stated preemption bound; timers expire at any point at which the schedule lets them."
NA = {}
checks, na = [], []
for l in open(os.path.join(root, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in NA: na.append(dict(property=i, reason=NA[i])); continue
    if not os.path.exists(os.path.join(root, "harness", i.lower(), i.lower() + ".go")):
        na.append(dict(property=i, reason="no check has been built yet")); continue
    c = i in CONC
    checks.append(dict(property=i, quick_cmd="./check.sh " + i, thorough_cmd="VERIF_TIER=thorough ./check.sh " + i,
        evidence_file="evidence/%s.json" % i, technique=T_CONC if c else T_CODEC, level="model_checking",
        level_note=N_CONC if c else N_CODEC))
m = dict(version=1, setup_cmd="./check.sh setup", checks=checks, not_applicable=na,
         notes="No hooks: /repo is used as it is; harness packages are laid over it with a build overlay (zzverif/...), nothing is written into /repo.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
