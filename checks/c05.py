"""C05: linear least squares (optionally bounded / scaled) is solved to global optimality within the default budget."""
import numpy as np
from vlib import gen, trace, problems
from vlib.runner import Result

RULE = ("random linear residuals A x - b (full column rank, cond <= 1e3, m from n to n+8, residual zero / small / large, scales 1e-2..1e2), unbounded or bounded (optimum inside, on faces, on "
        "vertices, start on / outside bounds), with and without internal scaling, npt n+1..2n+1; f* from an independent active-set least squares with KKT certificate; non-trivial = certified "
        "f* and at least npt+1 evaluations; distinct by (n, m, bounds kind, active set at the optimum, scaling, npt, start placement)")
ASSUMPTIONS = ["moderate conditioning means cond(A) <= 1e3 and, for bounds, box widths within four orders of magnitude of the distance to the solution"]


def cases(seed, tier):
    N = 5000 if tier == "quick" else 70000
    for i in range(N):
        g = gen.rng_for("c05", seed, i)
        yield make(g)


def make(g):
    n = int(g.integers(1, 6 if g.random() < 0.85 else 9))
    m = n + int(g.integers(0, 9))
    cond = float(10.0 ** g.uniform(0, 3 if g.random() < 0.3 else 1.5))
    scale = float(10.0 ** g.uniform(-2, 2)) if g.random() < 0.5 else 1.0
    kind = ["none", "both", "both", "lower", "upper", "mixed"][int(g.integers(6))]
    scaling = kind == "both" and g.random() < 0.4
    xs = g.normal(size=n) * 10.0 ** g.uniform(-1, 1)
    prob = {"fam": "linear", "n": n, "m": m, "seed": int(g.integers(1, 2**31 - 1)), "cond": cond, "scale": scale, "shuffle_s": True,
            "resid": float(scale * [0.0, 0.0, 1e-3, 0.1, 1.0, 10.0][int(g.integers(6))]), "xstar": xs.tolist()}
    spec = {"prob": prob, "npseed": 0}
    x0 = xs + g.normal(size=n) * 10.0 ** g.uniform(-1, 1)
    lo, hi = np.full(n, -np.inf), np.full(n, np.inf)
    if kind != "none":
        w = 10.0 ** g.uniform(-0.3, 1.5, size=n)
        off = g.normal(size=n) * w * g.choice([0.2, 1.0, 2.0])
        lo, hi = xs + off - 0.5 * w, xs + off + 0.5 * w
        if kind == "lower": hi[:] = np.inf
        if kind == "upper": lo[:] = -np.inf
        if kind == "mixed":
            for j in range(n):
                r = g.random()
                if r < 0.3: hi[j] = np.inf
                elif r < 0.6: lo[j] = -np.inf
        if g.random() < 0.6:
            x0 = np.array([gen.place_x0(g, lo[j], hi[j], 0.1) for j in range(n)])
            x0 = np.clip(x0, lo - 10, hi + 10)
        if scaling:
            spec["scaling_within_bounds"] = True
        else:
            # the documented requirement gap >= 2*rhobeg
            default = 0.1 * max(float(np.max(np.abs(x0))), 1.0)
            gap = float(np.min(hi - lo))
            if gap < 2.0 * default:
                spec["rhobeg"] = float(0.5 * gap * g.uniform(0.2, 0.999))
        big = 1e20
        spec["bounds"] = [None if kind == "upper" else np.where(np.isfinite(lo), lo, -big).tolist(), None if kind == "lower" else np.where(np.isfinite(hi), hi, big).tolist()]
    if g.random() < 0.25:
        spec["npt"] = int(g.integers(n + 1, 2 * n + 2))
    spec["x0"] = x0.tolist()
    return spec


def bls(A, b, lo, hi):
    """min ||Ax-b||^2 over the box: projected active set from scipy's bvls, certified by KKT; returns (x, f, active, ok)"""
    from scipy.optimize import lsq_linear
    n = A.shape[1]
    best = None
    if not np.any(np.isfinite(lo)) and not np.any(np.isfinite(hi)):
        x = np.linalg.lstsq(A, b, rcond=None)[0]
        cands = [x]
    else:
        cands = []
        for meth in ("bvls", "trf"):
            try:
                cands.append(np.clip(lsq_linear(A, b, bounds=(lo, hi), method=meth, tol=1e-14, max_iter=500).x, lo, hi))
            except Exception:
                pass
    for x in cands:
        # polish on the identified face
        for _ in range(30):
            grad = A.T.dot(A.dot(x) - b)
            tl = np.isfinite(lo) & (x - lo <= 1e-9 * (1 + np.abs(x))) & (grad > 0)
            tu = np.isfinite(hi) & (hi - x <= 1e-9 * (1 + np.abs(x))) & (grad < 0)
            fr = ~(tl | tu)
            y = x.copy(); y[tl] = lo[tl]; y[tu] = hi[tu]
            if fr.any():
                y[fr] = np.linalg.lstsq(A[:, fr], b - A[:, ~fr].dot(y[~fr]), rcond=None)[0]
            y = np.clip(y, lo, hi)
            if np.array_equal(y, x):
                break
            if np.sum((A.dot(y) - b) ** 2) <= np.sum((A.dot(x) - b) ** 2) * (1 + 1e-15):
                x = y
            else:
                break
        r = A.dot(x) - b
        f = float(r.dot(r))
        # dual certificate: f* >= f - 2*sum(max descent over box component) - by convexity f(y) >= f(x) + 2 g.(y-x); bound via strong convexity
        grad = A.T.dot(r)
        viol = np.where((x <= lo) & (grad > 0), 0.0, np.where((x >= hi) & (grad < 0), 0.0, grad))
        smin = np.linalg.svd(A, compute_uv=False)[-1]
        # f(y) >= f(x) + 2 viol.(y-x) + smin^2|y-x|^2 >= f(x) - |viol|^2/smin^2
        gap = float(viol.dot(viol)) / smin ** 2
        if best is None or f < best[1]:
            best = (x, f, gap)
    return best


def run_case(spec):
    R = Result()
    p = spec["prob"]
    A = problems.linear_matrix(p)
    b = problems.linear_rhs(p, A)
    n = p["n"]
    tr = trace.run(spec)
    ex = tr.ex
    lo = ex["lo"] if ex["lo"] is not None else np.full(n, -np.inf)
    hi = ex["hi"] if ex["hi"] is not None else np.full(n, np.inf)
    lo, hi = np.where(lo <= -1e19, -np.inf, lo), np.where(hi >= 1e19, np.inf, hi)
    R.evals = 1
    best = bls(A, b, lo, hi)
    if best is None or best[2] > 1e-8 * (1 + best[1]):
        R.stats["oracle_not_certified"] += 1
        return R
    xs, fs, gap = best
    R.stats["oracle_certified"] += 1
    s = tr.soln
    if s is None or s.x is None:
        R.bad("no-solution", "linear problem: %r %s" % (tr.exc, getattr(s, "msg", None)))
        return R
    R.stats["msg: " + s.msg] += 1
    if np.any(s.x < lo) or np.any(s.x > hi):
        R.bad("infeasible", "soln.x=%s outside bounds" % s.x.tolist())
    fx = float(np.sum((A.dot(s.x) - b) ** 2))
    R.stats["evaluations_used"] += tr.ncalls
    what = "n=%d m=%d cond=%.3g scale=%.3g evals=%d msg=%s" % (n, p["m"], p["cond"], p.get("scale", 1.0), tr.ncalls, s.msg)
    tol = 1e-6 * (1 + fs)
    if not (fx <= fs + tol and s.obj <= fs + tol):
        R.bad("not-optimal", "objective %r (soln.obj %r), true minimum %r, excess %.3g (allowed %.3g); %s" % (fx, s.obj, fs, fx - fs, tol, what))
    if s.flag != s.EXIT_SUCCESS:
        R.bad("not-success", "flag %r; excess %.3g; %s" % (s.flag, fx - fs, what))
    if s.obj < fs - 1e-7 * (1 + fs):
        R.bad("below-optimum", "soln.obj=%r is below the certified minimum %r; %s" % (s.obj, fs, what))
    act = "".join("l" if a else "u" if c else "-" for a, c in zip(xs <= lo + 1e-12, xs >= hi - 1e-12))
    R.stats["optimum_on_bounds"] += act.strip("-") != ""
    R.stats["vertex_optimum"] += "-" not in act
    st = "".join("o" if (v < l or v > h) else "b" if (v == l or v == h) else "i" for v, l, h in zip(spec["x0"], lo, hi))
    if tr.ncalls > spec.get("npt", n + 1):
        R.sig(n, p["m"], act, st, bool(spec.get("scaling_within_bounds")), spec.get("npt"))
        R.sample = {"n": n, "m": p["m"], "active": act, "start": st, "cond": p["cond"], "f*": fs, "obj": float(s.obj), "evals": tr.ncalls, "msg": s.msg}
    return R
