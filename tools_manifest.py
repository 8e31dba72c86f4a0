"""Regenerates MANIFEST.json (python3 tools_manifest.py)."""
import json
T = {
 "C01": "exact online comparison of every objective call and of the solution with the user's bounds, over generated solve() configurations",
 "C02": "trace automaton over objective calls, evaluation log records and nsamples calls",
 "C03": "offline trace check tying the solution (and the live model each iteration) to one recorded evaluation point",
 "C04": "online running minimum of the recomputed objective over the recorded calls versus solution and live incumbent",
 "C05": "runs on generated linear problems judged by an exact bounded least-squares solution with a KKT certificate",
 "C06": "runs on generated regularised problems judged by a better-feasible-point witness search; identity monitor on every callback argument",
 "C07": "enumerated and generated argument matrix, outcome classified by a table of documented results",
 "C08": "fault injection into the objective at every reachable evaluation index, judged against the best finite value of the trace",
 "C09": "recording wrapper around the projection routine and the objective; distance of every evaluated point to every set",
 "C10": "offline trace check: one implication per exit message over the recorded history",
 "C11": "independent least-squares fit to the recorded residuals named by the result",
 "C12": "generated and captured-from-real-runs inputs of the box subproblem solver, judged by an explicit oracle (box, ball, Cauchy decrease, gradient identity)",
 "C13": "generated and live inputs of the geometry / projected-gradient / S-FISTA solvers, judged by exact linear optima and norm bounds",
 "C14": "recorded initial evaluations and direction generators judged for bounds, distances and conditioning",
 "C15": "generated set geometries; counted projector calls, distances to the sets, reference projection",
 "C16": "random operation histories on the real model object against an independent record of points and samples (interpolation, normal equations, Lagrange duality, shift invariance)",
 "C17": "random operation histories on the real model object against an executable shadow specification",
 "C18": "time-series invariants over the diagnostic table and over hooked radii of real runs",
 "C19": "repeated runs under different ambient state compared bit for bit; arguments compared with copies and handed over read-only",
 "C20": "real and synthetic results round-tripped through dict and strict JSON, compared field by field; printing",
}
NOTE = {"C08": "every evaluation index of each base run is faulted; base runs and fault values are sampled"}
checks = []
for k, v in T.items():
    checks.append({"property": k, "quick_cmd": "python3 run.py %s --tier quick" % k, "thorough_cmd": "python3 run.py %s --tier thorough" % k,
                   "technique": "runtime monitoring: " + v, "level": "fault_enumeration" if k == "C08" else "exploration",
                   "level_note": NOTE.get(k, "the oracle is deterministic and judges every observed event; inputs and histories are seeded random samples (VERIF_SEED), so absence of alarms covers what the evidence file counts, not all inputs")})
json.dump({"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, '.'); print('nothing to build: the checks import the code from /repo')\"", "checks": checks, "not_applicable": []}, open("MANIFEST.json", "w"), indent=1)
