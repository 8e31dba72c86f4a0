"""C01: every x handed to the residual function, and soln.x, satisfies the user's bounds exactly."""
import numpy as np
from vlib import gen, cuts, trace
from vlib.runner import Result

RULE = ("random solve() configurations (bounds both/one-sided/tight, x0 interior/on/hair/ulp/outside, scaling, averaging, soft+hard restarts, "
        "regression, growing, random directions, regulariser, projections); non-trivial = bounded run with at least one evaluation after x0 that "
        "lies exactly on a bound or within 1e-9 of one; distinct by configuration features, exit flag and touched-bound pattern")
ASSUMPTIONS = ["user's objective does not modify x in place"]


def cases(seed, tier):
    for i in range(60 if tier == "quick" else 800):
        g = gen.rng_for("c01cut", seed, i)
        s = cuts.base(g, reg=0.12, proj=0.1)
        s["cuts"] = {"seed": int(g.integers(0, 2**31 - 1))}
        yield s
    N = 2400 if tier == "quick" else 40000
    for i in range(N):
        g = gen.rng_for("c01", seed, i)
        prof = dict(p_bounds=1.0, maxfun=(3, 90))
        if i % 8 == 0:
            prof["p_scaling"] = 1.0
        if i % 16 == 3:
            prof["p_reg"] = 1.0
        if i % 16 == 5:
            prof["p_proj"] = 1.0
        sp = gen.gen_case(g, prof)
        if i % 8 == 1: sp = gen.soft_restart_focus(g, sp)
        elif i % 8 == 2: sp = gen.growing_focus(g, sp)
        yield sp


def run_case(spec):
    R = Result()
    if "cuts" in spec:
        cuts.run_cut_case(spec, judge, R, ('budget', 'linalg', 'nan', 'big'))
    else:
        judge(spec, R)
    return R


def judge(spec, R):
    tr = trace.run(spec)
    ex = tr.ex
    n = len(ex["x0"])
    lo = ex["lo"] if ex["lo"] is not None else np.full(n, -np.inf)
    hi = ex["hi"] if ex["hi"] is not None else np.full(n, np.inf)
    R.evals += tr.ncalls
    touched = set()
    for i, (x, r) in enumerate(tr.calls):
        below, above = x < lo, x > hi
        R.stats["components_compared"] += 2 * n
        if np.any(below) or np.any(above) or np.any(np.isnan(x)):
            R.bad("eval-out-of-bounds", "call %d of %d: x=%s lo-x=%s x-hi=%s" % (i + 1, tr.ncalls, x.tolist(), (lo - x).tolist(), (x - hi).tolist()))
            break
        if i > 0:
            tl, th = (x == lo), (x == hi)
            R.stats["on_bound_components"] += int(tl.sum() + th.sum())
            touched.update([("l", j) for j in np.where(tl)[0]] + [("u", j) for j in np.where(th)[0]])
            w = np.minimum(x - lo, hi - x)
            R.stats["near_bound_components"] += int(np.sum((w > 0) & (w < 1e-9 * (1 + np.abs(x)))))
    s = tr.soln
    if s is not None and s.x is not None:
        x = s.x
        R.stats["solutions"] += 1
        if np.any(x < lo) or np.any(x > hi) or np.any(np.isnan(x)):
            R.bad("soln-out-of-bounds", "soln.x=%s lo-x=%s x-hi=%s msg=%s" % (x.tolist(), (lo - x).tolist(), (x - hi).tolist(), s.msg))
    elif tr.exc is not None:
        R.stats["raised_" + type(tr.exc).__name__] += 1
    R.stats["soft_restarts"] += tr.soft_done
    R.stats["hard_restarts"] += max(0, tr.main_runs - 1)
    if touched:
        R.sig(gen.features(spec), s.flag if s is not None else "exc", sorted(touched))
        R.sample = {"features": gen.features(spec), "x0": spec["x0"], "bounds": spec["bounds"], "evals": tr.ncalls, "touched": sorted(map(str, touched)), "msg": getattr(s, "msg", None)}
    return tr
