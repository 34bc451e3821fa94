#!/usr/bin/env python3
"""Single source of /verif/MANIFEST.json (run by hand; the output is committed)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "lib"))
import checks
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
NA = {"C26": "an asymptotic statement (rates as the mesh width tends to zero) about floating-point solves; no bounded exhaustive enumeration of executions can decide a limit, and sampling mesh widths is not model checking"}
DIST = "stateless exhaustive exploration of the real code: one forked process per MPI rank under a model-checking MPI, all configurations in the bound and all message-matching orders (vector-clock partial-order reduction, both send-buffering extremes)"
HIST = "stateless exhaustive exploration of the real code: all operation histories in the bound, compared step by step with an explicit reference model"
CONF = "stateless exhaustive exploration of the real code: all configurations and inputs in the bound, each result compared with an independent reference model"
TECH = {k: DIST for k in ("C01", "C02", "C03", "C04", "C05")}
TECH.update({k: HIST for k in ("C06", "C10", "C19", "C22", "C23", "C18", "C17")})
NOTE = {
 "C01": "Exhaustive within the mesh catalogue and at most 3 (thorough 4) processes. Trusts: the MPI model in mcmpi/ (semantics of the calls hpGEM uses), the reference mesh generator.",
 "C02": "Exhaustive within the mesh catalogue, at most 3 (thorough 4) processes; with 3 processes quick mode cuts the schedules at 2 deviations from the default arrival order.",
 "C23": "Exhaustive for histories up to 6 (7) operations; the reference forest is an independent explicit model.",
}
out = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
for p in props:
    if p in checks.CHECKS:
        out["checks"].append(dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="python3 check.py %s --thorough" % p,
            technique=TECH.get(p, CONF), level="model_checking",
            level_note=NOTE.get(p, "Exhaustive within the bounds stated in the evidence file's rule; trusts the reference model in harness/%s.cpp and the compiler." % p.lower())))
    else:
        out["not_applicable"].append(dict(property=p, reason=NA.get(p, "check not built yet")))
json.dump(out, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks")
