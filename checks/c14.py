"""C14: the initial interpolation set is feasible and well poised; the random direction generators respect count, bounds and length."""
import numpy as np
from vlib import gen, trace
from vlib.runner import Result

DIRECT = True
RULE = ("(a) solve() with maxfun = (number of samples)*npt and the default coordinate initialisation: n 1..8, npt n+1..2n+1, boxes (two-sided, one-sided, mixed, gap exactly 2*rhobeg) and every placement of x0 per "
        "coordinate (interior, on, ulp/hair/near the 1%-of-radius threshold, outside), scaled and unscaled, user/default rhobeg; (b) direct calls of both direction generators over all active-set patterns; (c) every "
        "generator call observed inside real runs with random initialisation, growing and restarts; non-trivial = some coordinate step flipped or shortened by a bound / some direction shortened or coordinate active; "
        "distinct by (n, npt, per-coordinate placement class, scaling) or (generator, n, count, active pattern)")
ASSUMPTIONS = ["generic residuals that do not trigger termination during initialisation", "distances are measured in the solver's own (scaled) coordinates when internal scaling is on",
               "a generator may return a shorter (even zero) direction when a bound blocks it: the property only bounds the length from above"]
EPS = np.finfo(float).eps


def cases(seed, tier):
    N = 12000 if tier == "quick" else 120000
    for i in range(N):
        yield make(gen.rng_for("c14", seed, i))
    for i in range(1200 if tier == "quick" else 40000):
        yield {"direct": True, "seed": seed, "i": i, "count": 60}
    for i in range(600 if tier == "quick" else 15000):
        g = gen.rng_for("c14live", seed, i)
        sp = gen.gen_case(g, dict(maxfun=(15, 90), p_bounds=0.8, p_reg=0.0, p_proj=0.0, p_random=0.5, p_growing=0.4, p_restart=0.6, nmax=5))
        yield {"live": sp}


def make(g):
    n = int(g.integers(1, 9))
    npt = int(g.integers(n + 1, 2 * n + 2)) if g.random() < 0.75 else n + 1
    m = int(g.integers(1, n + 4))
    spec = {"prob": {"fam": "trig", "n": n, "m": m, "seed": int(g.integers(1, 2**31 - 1)), "scale": 10.0}, "npseed": int(g.integers(1000))}
    mode = ["box", "box", "box", "scaled", "none"][int(g.integers(5))]
    rho = float(10.0 ** g.uniform(-4, 2)) if g.random() < 0.8 else float(g.choice([1.0, 0.5, 0.25, 0.1]))
    scaled = mode == "scaled"
    if scaled:
        lo, hi = gen.gen_bounds(g, n, float(10.0 ** g.uniform(-3, 3)), "both")
        rho = float(min(0.5, 10.0 ** g.uniform(-3, -0.31))) if g.random() < 0.7 else float(g.choice([0.5, 0.1, 0.25]))
        w = rho * (hi - lo)
        spec["scaling_within_bounds"] = True
    else:
        lo, hi = gen.gen_bounds(g, n, rho, "both")
        w = np.full(n, rho)
        if mode == "none":
            lo[:], hi[:] = -np.inf, np.inf
        else:
            for j in range(n):
                r = g.random()
                if r < 0.12: hi[j] = np.inf
                elif r < 0.24: lo[j] = -np.inf
                elif r < 0.28: lo[j], hi[j] = -np.inf, np.inf
    x0 = np.array([gen.place_x0(g, lo[j], hi[j], w[j]) for j in range(n)])
    if mode != "none":
        for j in range(n):   # the interplay of the two sides: x0 a given fraction of the radius from one bound when the gap is tight
            if g.random() < 0.15 and np.isfinite(lo[j]):
                x0[j] = lo[j] + w[j] * float(g.choice([0.009, 0.0099999, 0.01, 0.010001, 0.011, 0.02, 0.5, 0.99, 1.0, 1.01, 1.98, 1.99, 2.0]))
            elif g.random() < 0.15 and np.isfinite(hi[j]):
                x0[j] = hi[j] - w[j] * float(g.choice([0.009, 0.0099999, 0.01, 0.010001, 0.011, 0.02, 0.5, 0.99, 1.0, 1.01, 1.98, 1.99, 2.0]))
    if g.random() < 0.15 and not scaled and mode == "none":
        d = 0.1 * max(float(np.max(np.abs(x0))), 1.0)
        rho = d
    else:
        spec["rhobeg"] = rho
    big = 1e20
    if mode != "none":
        spec["bounds"] = [np.where(np.isfinite(lo), lo, -big).tolist(), np.where(np.isfinite(hi), hi, big).tolist()]
    spec["x0"] = x0.tolist()
    spec["rhoend"] = rho * 1e-3
    if npt > n + 1 or g.random() < 0.3:
        spec["npt"] = npt
    else:
        npt = n + 1
    k = 1
    if g.random() < 0.15:
        k = 2
        spec["nsamples"] = {"kind": "const", "v": 2}
    spec["maxfun"] = k * npt
    spec["prob"]["centre"] = np.clip(x0, np.where(np.isfinite(lo), lo, -1e6), np.where(np.isfinite(hi), hi, 1e6)).tolist()
    spec["prob"]["width"] = (w * 3).tolist()
    up = {}
    if g.random() < 0.05: up["init.run_in_parallel"] = True
    if g.random() < 0.1: up["interpolation.precondition"] = False
    if up: spec["user_params"] = up
    spec["meta"] = {"npt": npt, "k": k, "rho": rho}
    return spec


def init_case(spec, R):
    mt = spec["meta"]
    npt, k, rho = mt["npt"], mt["k"], mt["rho"]
    tr = trace.run({a: b for a, b in spec.items() if a != "meta"})
    n = len(spec["x0"])
    x0 = np.array(spec["x0"], float)
    lo = np.full(n, -np.inf) if spec.get("bounds") is None else np.array(spec["bounds"][0], float)
    hi = np.full(n, np.inf) if spec.get("bounds") is None else np.array(spec["bounds"][1], float)
    lo_in = np.where(lo <= -1e20, -np.inf, lo); hi_in = np.where(hi >= 1e20, np.inf, hi)
    what = "x0=%s bounds=%s rhobeg=%r npt=%d scaling=%s" % (spec["x0"], spec.get("bounds"), rho, npt, bool(spec.get("scaling_within_bounds")))
    s = tr.soln
    if s is not None and s.x is None and (spec.get("user_params") or {}).get("init.run_in_parallel"):
        R.stats["parallel_coordinate_initialisation_refused"] += 1
        return
    if s is None or s.x is None:
        R.bad("no-result", "%s: exc=%r msg=%s" % (what, tr.exc, getattr(s, "msg", None)))
        return
    if tr.ncalls < k * npt:
        stop = s.msg
        if "small" in stop:     # legitimately finished at x0 or during initialisation
            R.stats["stopped_early_small"] += 1
            return
        R.bad("too-few-evaluations", "%s: %d evaluations, wanted %d (%s)" % (what, tr.ncalls, k * npt, stop))
        return
    X = np.array([c[0] for c in tr.calls[:k * npt]])
    if k > 1:
        for i in range(npt):
            for j in range(1, k):
                if X[k * i + j].tobytes() != X[k * i].tobytes():
                    R.bad("resample-elsewhere", "%s: samples of initial point %d differ: %s %s" % (what, i, X[k * i].tolist(), X[k * i + j].tolist()))
                    return
        X = X[::k]
    xp = np.clip(x0, lo, hi)
    scaled = bool(spec.get("scaling_within_bounds"))
    if scaled:
        tol0 = 8 * EPS * (np.abs(lo) + np.abs(hi) + np.abs(xp))
    else:
        tol0 = np.zeros(n)
    if np.any(np.abs(X[0] - xp) > tol0):
        R.bad("first-point", "%s: first evaluation at %s, projected x0 is %s" % (what, X[0].tolist(), xp.tolist()))
        return
    if np.any(X < lo) or np.any(X > hi):
        R.bad("out-of-bounds", "%s: initial points outside the bounds: %s" % (what, X[np.any((X < lo) | (X > hi), axis=1)].tolist()))
        return
    sc = (hi - lo) if scaled else np.ones(n)
    D = (X[1:] - X[0]) / sc
    # rounding of the evaluated points, relative to rhobeg
    fb = lambda v: np.where(np.isfinite(v), np.abs(v), 0.0)
    err = float(np.max(16 * EPS * (np.abs(X[0]) + fb(lo_in) + fb(hi_in)) / sc))
    dist = np.sqrt(np.sum(D * D, axis=1))
    R.stats["initial_points_judged"] += npt
    if np.any(dist < 0.01 * rho - err) or np.any(dist > 2 * rho + err) or not np.all(np.isfinite(dist)):
        R.bad("distance", "%s: distances/rhobeg %s (rounding %.3g)" % (what, (dist / rho).tolist(), err / rho))
        return
    # scaled interpolation matrix: rows (1, (y - x0)/delta), delta = largest distance
    W = np.hstack([np.ones((npt, 1)), np.vstack([np.zeros(n), D]) / float(np.max(dist))])
    sv = np.linalg.svd(W, compute_uv=False)
    rel = err / rho
    cond = sv[0] / sv[-1] if sv[-1] > 0 else np.inf
    if rel < 1e-5 and not cond < 1e4:
        R.bad("poorly-poised", "%s: condition number %.4g of the scaled interpolation matrix, points %s" % (what, cond, X.tolist()))
        return
    if rel >= 1e-5:
        R.stats["poisedness_not_judged_rounding"] += 1
    cls = []
    for j in range(n):
        dl, du = (xp[j] - lo_in[j]) / sc[j] / rho, (hi_in[j] - xp[j]) / sc[j] / rho
        f = lambda d: "0" if d == 0 else "h" if d <= 0.01 else "n" if d < 1 else "f"
        cls.append(f(dl) + f(du) + ("o" if x0[j] != xp[j] else ""))
    flipped = int(np.sum(np.min(D[:n], axis=1) < 0)); short = int(np.sum(dist[:n] < rho * (1 - 1e-9) - err))
    R.stats["coordinate_steps_flipped"] += flipped
    R.stats["coordinate_steps_shortened"] += short
    R.stats["cond_above_100"] += cond > 100
    R.stats["x0_projected"] += bool(np.any(x0 != xp))
    if flipped or short or npt > n + 1:
        R.sig(n, npt, sorted(cls), scaled)
    R.sample = {"x0": spec["x0"], "bounds": spec.get("bounds"), "rhobeg": rho, "npt": npt, "distances_over_rhobeg": (dist / rho).tolist(), "cond": cond}


def judge_dirs(R, name, out, num, delta, lo, hi, where):
    n = len(lo)
    what = "%s(num_pts=%d, delta=%r, lower=%s, upper=%s)%s" % (name, num, delta, lo.tolist(), hi.tolist(), where)
    out = np.asarray(out)
    if out.shape != (num, n):
        R.bad("wrong-count", "%s returned shape %r" % (what, out.shape)); return
    if not np.all(np.isfinite(out)):
        R.bad("non-finite-direction", "%s returned %s" % (what, out.tolist())); return
    if np.any(out < lo) or np.any(out > hi):
        R.bad("direction-out-of-bounds", "%s returned %s" % (what, out[np.any((out < lo) | (out > hi), axis=1)].tolist())); return
    L = np.sqrt(np.sum(out.astype(np.longdouble) ** 2, axis=1)).astype(float)
    if np.any(L > delta * (1 + 1e-12)):
        R.bad("direction-too-long", "%s: length/delta up to %r" % (what, float(np.max(L)) / delta)); return
    R.stats["directions_judged"] += num
    R.stats["directions_shortened"] += int(np.sum(L < delta * (1 - 1e-9)))
    R.stats["directions_zero"] += int(np.sum(L == 0))
    act = "".join("l" if l == 0 else "u" if u == 0 else "h" if (-l < 1e-6 * delta or u < 1e-6 * delta) else "n" if (-l < delta or u < delta) else "." for l, u in zip(lo, hi))
    if act.strip("."):
        R.sig(name, n, num, "".join(sorted(act)))


def direct(g):
    n = int(g.integers(1, 9))
    num = int(g.integers(1, n + 1)) if g.random() < 0.4 else int(g.integers(1, 3 * n + 3))
    delta = float(10.0 ** g.uniform(-10, 6)) if g.random() < 0.5 else float(10.0 ** g.uniform(-1, 1))
    lo, hi = np.empty(n), np.empty(n)
    pa = [0.0, 0.3, 0.6, 1.0][int(g.integers(4))]
    for j in range(n):
        far = [1e20, delta * 10 ** g.uniform(0, 3), delta * g.uniform(0.05, 1.2), delta, 2 * delta]
        lo[j], hi[j] = -far[int(g.integers(5))], far[int(g.integers(5))]
        if g.random() < pa:
            k = int(g.integers(3))
            d = 0.0 if k == 0 else delta * 10.0 ** g.uniform(-18, -2) if k == 1 else delta * g.uniform(0, 1)
            if g.random() < 0.5: lo[j] = -d
            else: hi[j] = d
            if lo[j] == 0: lo[j] = -0.0 if g.random() < 0.3 else 0.0
    return n, num, delta, lo, hi, bool(g.random() < 0.5)


def run_case(spec):
    R = Result()
    if spec.get("direct"):
        from dfols import util as U
        rs = np.random.get_state()
        for j in range(spec["count"]):
            g = gen.rng_for("c14d", spec["seed"] * 1000003 + spec["i"], j)
            n, num, delta, lo, hi, neg = direct(g)
            np.random.seed(int(g.integers(2**31 - 1)))
            for name in ("random_orthog_directions_within_bounds", "random_directions_within_bounds"):
                fn = getattr(U, name)
                a, b = lo.copy(), hi.copy()
                k = {"with_neg_dirns": neg} if name.startswith("random_orthog") else {}
                R.evals += 1
                try:
                    out = fn(num, delta, a, b, **k)
                except Exception as e:
                    R.bad("generator-raised", "%s(num_pts=%d, delta=%r, lower=%s, upper=%s, %s): %r" % (name, num, delta, lo.tolist(), hi.tolist(), k, e))
                    continue
                if not (np.array_equal(a, lo) and np.array_equal(b, hi)):
                    R.bad("generator-modified-bounds", "%s modified its bounds" % name)
                judge_dirs(R, name, out, num, delta, lo, hi, " %s" % k)
                R.stats["direct_generator_calls"] += 1
        np.random.set_state(rs)
        return R
    if "live" in spec:
        import dfols.controller as C
        saved = {}
        rec = []
        for name in ("random_orthog_directions_within_bounds", "random_directions_within_bounds"):
            orig = getattr(C, name, None)
            if orig is None:
                continue
            saved[name] = orig

            def wrapped(num_pts, delta, lower, upper, *a, _o=orig, _n=name, **k):
                l, u = np.array(lower, copy=True), np.array(upper, copy=True)
                out = _o(num_pts, delta, lower, upper, *a, **k)
                rec.append((_n, np.array(out, copy=True), int(num_pts), float(delta), l, u))
                return out
            setattr(C, name, wrapped)
        try:
            tr = trace.run(spec["live"])
        finally:
            for name, o in saved.items():
                setattr(C, name, o)
        for name, out, num, delta, l, u in rec:
            R.evals += 1
            R.stats["live_generator_calls"] += 1
            judge_dirs(R, name, out, num, delta, l, u, " in a real run")
        return R
    R.evals = 1
    init_case(spec, R)
    return R
