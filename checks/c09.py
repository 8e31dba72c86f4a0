"""C09: general convex constraints hold at every evaluation up to Dykstra's tolerance; the box holds exactly; x0 is projected first."""
import numpy as np
from vlib import gen, trace
from vlib.runner import Result

RULE = ("solve() with 1-4 user projections (balls, half-spaces, boxes; fat, thin and wedge-like intersections with non-empty interior), with / without bounds, x0 feasible, slightly or far "
        "infeasible, restarts off / soft / hard, noise, averaging, dykstra.d_tol 1e-16..1e-4 and max_iters 3..1000, optional regulariser; every evaluated point is matched with the "
        "outputs of the alternating-projection routine (wrapper) and its distance to every set is computed; non-trivial = run with a user set active at an evaluated point; distinct by "
        "(set kinds, n, bounds, restart kind, tolerance decade, capped calls seen, active sets)")
ASSUMPTIONS = ["projection operators are exact closed forms", "dykstra.max_iters >= 1", "calls that used all allowed sweeps are exempt from the sqrt(p*tol) bound (but not from the box)"]
CASE_LIMIT = 150


def cases(seed, tier):
    N = 520 if tier == "quick" else 5000
    for i in range(N):
        yield make(gen.rng_for("c09", seed, i), i)


def make(g, i):
    prof = dict(p_bounds=0.5, p_scaling=0.0, p_proj=0.0, p_reg=0.0, p_regr=0.0, p_growing=0.0, p_random=0.0, p_mlt=0.1, nmax=4, maxfun=(6, 32), p_diag=0.05, one_sided=0.3, p_restart=0.45,
                p_tiny_maxfun=0.02, fams=["linear", "quad", "rosen", "expfit", "trig", "abs", "rough", "domain"] if g.random() < 0.5 else ["linear", "quad", "trig", "expfit"])
    spec = gen.gen_case(g, prof)
    while len(spec["x0"]) == 1 and g.random() < 0.8:
        spec = gen.gen_case(g, prof)
    n = len(spec["x0"])
    x0 = np.array(spec["x0"])
    rho = spec.get("rhobeg") or 0.1 * max(1.0, float(np.max(np.abs(x0))))
    up = spec.setdefault("user_params", {})
    for k in ("restarts.increase_npt", "restarts.increase_npt_amt", "restarts.max_npt"):
        up.pop(k, None)
    shape = i % 4
    gen.add_projections(g, spec, n, rho, k=int(g.integers(1, 4)))
    if shape == 1 and n >= 2:       # a thin wedge: two nearly opposite half-spaces, so that alternating projections are slow
        c = x0 + rho * g.normal(size=n)
        b = spec.get("bounds")
        if b is not None:
            lo = np.array(b[0]) if b[0] is not None else np.full(n, -1e20)
            hi = np.array(b[1]) if b[1] is not None else np.full(n, 1e20)
            mg = np.minimum(2 * rho, 0.25 * (hi - lo))
            c = np.minimum(np.maximum(c, lo + mg), hi - mg)
        a = g.normal(size=n); a /= np.linalg.norm(a)
        t = g.normal(size=n); t -= t.dot(a) * a; t /= np.linalg.norm(t)
        th = 10.0 ** g.uniform(-1.5, 0)
        a2 = -np.cos(th) * a + np.sin(th) * t
        w = rho * 10.0 ** g.uniform(-1, 0.5)
        spec["projs"] = [{"kind": "half", "a": a.tolist(), "b": float(a.dot(c) + w)}, {"kind": "half", "a": a2.tolist(), "b": float(a2.dot(c) + w)}] + spec["projs"][:1] * 0
    if shape == 2:                  # the unconstrained minimiser is outside: sets become active
        spec["prob"]["centre"] = (x0 + 10 * rho * g.normal(size=n)).tolist()
    if g.random() < 0.25:           # x0 hair's breadth from / inside a set
        s = spec["projs"][0]
        from vlib.problems import projection
        xp = projection(s)[0](x0)
        if np.linalg.norm(x0 - xp) > 0:
            d = (x0 - xp) / np.linalg.norm(x0 - xp)
            spec["x0"] = (xp + d * rho * 10.0 ** g.uniform(-9, -1)).tolist()
    elif g.random() < 0.3:
        spec["x0"] = (x0 + rho * g.normal(size=n) * 10.0 ** g.uniform(0, 1.5)).tolist()
    if g.random() < 0.6:
        up["dykstra.d_tol"] = float(10.0 ** g.uniform(-16, -4))
    if g.random() < 0.4:
        up["dykstra.max_iters"] = int([3, 20, 300, 1000][int(g.integers(4))])
    if i % 12 == 5 and n >= 2:      # x0 at the corner of a wedge: initial directions collapse and have to be replaced
        gen.wedge_projections(g, spec)
    r = g.random()
    if r < 0.12:
        spec["fault"] = {"at": int(g.integers(2, 25)), "kind": gen.pick(g, ["nan", "inf", "1e200", "1e300"]), "mode": gen.pick(g, ["one", "from", "every"]), "period": 3, "comp": "all"}
    elif r < 0.22:
        spec["linalg_fault"] = int(g.integers(1, 60))
        up["logging.save_poisedness"] = False
    if i % 16 == 7:
        spec["reg"] = {"kind": "l1", "lam": float(10.0 ** g.uniform(-2, 0)), "n": n}
        up["func_tol.max_iters"] = 20
        spec["maxfun"] = min(spec["maxfun"], 14)
    return spec


def ref_dykstra(P, x, max_iter, tol):
    y = [np.zeros_like(x) for _ in P]
    x = x.copy()
    for k in range(max_iter):
        c = 0.0
        for i, p in enumerate(P):
            z = x - y[i]
            xn = p(z)
            yn = xn - z
            c += float(np.linalg.norm(y[i] - yn)) ** 2
            x, y[i] = xn, yn
        if c < tol:
            return x, True
    return x, False


def run_case(spec):
    R = Result()
    n = len(spec["x0"])
    up = spec.get("user_params") or {}
    dtol, dmax = up.get("dykstra.d_tol", 1e-10), up.get("dykstra.max_iters", 100)
    # record every call of the user's own operators as well
    tr = trace.run(spec, record_dykstra=True)
    ex = tr.ex
    lo = ex["lo"] if ex["lo"] is not None else np.full(n, -1e20)
    hi = ex["hi"] if ex["hi"] is not None else np.full(n, 1e20)
    sets = ex["sets"]
    p = len(sets) + 1
    R.evals = tr.ncalls
    kinds = "".join(q["kind"][0] for q in spec["projs"])
    what = "sets=%s n=%d bounds=%s d_tol=%g max_iters=%d" % (kinds, n, spec.get("bounds") is not None, dtol, dmax)
    if not tr.calls:
        R.stats["no_evaluation: " + (type(tr.exc).__name__ if tr.exc is not None else str(getattr(tr.soln, "msg", ""))[:40])] += 1
        return R
    outs, part = {}, {}
    for out, sweeps, mi, tol, ns in tr.dyk:
        conv = sweeps < mi
        R.stats["dykstra_calls"] += 1
        R.stats["dykstra_calls_capped"] += not conv
        if ns == p:
            outs.setdefault(out.tobytes(), []).append((conv, mi, tol))
        else:
            part[out.tobytes()] = 1
    hooked = bool(outs)
    P = [trace.projection(q)[0] for q in spec["projs"]] + [lambda x: np.minimum(np.maximum(x, lo), hi)]
    scale = max([np.max(np.abs(x)) for x, _ in tr.calls] + [np.max(np.abs(ex["x0"]))])
    for q in spec["projs"]:
        scale = max([scale] + [np.max(np.abs(q[k])) for k in ("c", "r", "b", "l", "u") if k in q])
    rnd = 1e-13 * scale * (n + p) + 1e-300
    bound = np.sqrt(p * dtol) + rnd
    matched = unmatched = 0
    firstun = None
    act = set()
    capped = 0
    for i, (x, r) in enumerate(tr.calls):
        bad = np.maximum(np.maximum(lo - x, x - hi), 0.0)
        R.stats["box_components_checked"] += n
        if np.any(bad > 0) or np.any(np.isnan(x)):
            R.bad("box-violated", "%s: call %d x=%s outside the bound box by %s" % (what, i + 1, x.tolist(), bad.tolist()))
            return R
        ds = [d(x) for d in sets]
        key = x.tobytes()
        rec = outs.get(key)
        if rec is not None:
            matched += 1
            conv = any(c[0] for c in rec)
            # the routine must have been run with the user's tolerance and cap
            if not any(c[1] == dmax and c[2] == dtol for c in rec):
                R.stats["matched_other_parameters"] += 1
        else:
            unmatched += 1
            firstun = firstun if firstun is not None else (i, x, key in part)
            conv = True if dmax >= 20 else None
            if conv:
                conv = ref_dykstra(P, x, dmax, dtol)[1]    # exempt only if the routine itself could not converge from here
        if i > 0 or conv:
            if conv:
                R.stats["distances_checked"] += len(sets)
                if max(ds) > bound:
                    R.bad("distance", "%s: call %d/%d (%s) at distance %s from the sets, allowed sqrt(p*tol)=%.3g" %
                          (what, i + 1, tr.ncalls, "matched" if rec else "not an output of the routine", ds, bound))
                    return R
                R.stats["max_dist_over_bound_decile_%d" % min(9, int(10 * max(ds) / bound))] += 1
            else:
                capped += 1
                R.stats["evaluations_from_capped_calls"] += 1
        for j, q in enumerate(spec["projs"]):
            mv = {"ball": lambda: q["r"] - np.linalg.norm(x - np.array(q["c"])), "half": lambda: (q["b"] - np.dot(q["a"], x)) / np.linalg.norm(q["a"]),
                  "box": lambda: min(np.min(x - np.array(q["l"])), np.min(np.array(q["u"]) - x))}[q["kind"]]()
            if mv < 1e-4 * scale * 0.1:
                act.add(j)
    R.stats["evaluations_matched"] += matched
    R.stats["evaluations_unmatched"] += unmatched
    if hooked and unmatched and matched:
        i, x, inpart = firstun
        R.bad("not-a-dykstra-output", "%s: call %d/%d x=%s is not an output of the alternating-projection routine over the %d sets%s" %
              (what, i + 1, tr.ncalls, x.tolist(), p, " (it is an output over a different list of sets)" if inpart else ""))
        return R
    # first evaluation = projection of x0
    x0 = ex["x0"]
    d0 = max([d(x0) for d in sets] + [float(np.max(np.maximum(np.maximum(lo - x0, x0 - hi), 0.0)))])
    xr, rconv = ref_dykstra(P, x0, dmax, dtol)
    e = float(np.linalg.norm(tr.calls[0][0] - xr))
    R.stats["x0_infeasible"] += d0 > 0
    R.stats["x0_slightly_infeasible"] += 0 < d0 < 1e-3 * scale
    if d0 == 0:
        if float(np.linalg.norm(tr.calls[0][0] - x0)) > rnd:
            R.bad("feasible-x0-moved", "%s: x0=%s is feasible but the first evaluation is at %s" % (what, x0.tolist(), tr.calls[0][0].tolist()))
    elif e > (2 * bound if rconv else 1e-6 * scale + 2 * bound):
        R.bad("x0-not-projected", "%s: x0=%s (infeasible by %.3g) but first evaluation at %s, projection is %s (difference %.3g)" % (what, x0.tolist(), d0, tr.calls[0][0].tolist(), xr.tolist(), e))
    s = tr.soln
    if s is not None and s.x is not None:
        R.stats["solutions"] += 1
        if np.any(s.x < lo) or np.any(s.x > hi):
            R.bad("soln-box-violated", "%s: soln.x=%s" % (what, s.x.tolist()))
        if outs.get(np.asarray(s.x, dtype=float).tobytes(), [(False,)])[0][0] and max(d(s.x) for d in sets) > bound:
            R.bad("soln-distance", "%s: soln.x=%s distances %s allowed %.3g" % (what, s.x.tolist(), [d(s.x) for d in sets], bound))
        R.stats["flag_%d" % s.flag] += 1
    if tr.exc is not None:
        R.stats["raised_" + type(tr.exc).__name__] += 1
    R.stats["soft_restarts"] += tr.soft_done
    R.stats["hard_restarts"] += max(0, tr.main_runs - 1)
    if act and tr.ncalls > 1:
        R.sig("".join(sorted(kinds)), n, spec.get("bounds") is not None, "soft" if tr.soft_done else "hard" if tr.main_runs > 1 else "-", int(np.log10(dtol)), capped > 0, sorted(act), d0 > 0)
        R.sample = {"sets": spec["projs"], "n": n, "d_tol": dtol, "evals": tr.ncalls, "matched": matched, "capped": capped, "x0_infeasible_by": d0, "msg": getattr(s, "msg", None)}
    return R
