"""C06: linear residuals + convex Lipschitz regulariser reach the regularised optimum; extra arguments are passed through unchanged."""
import numpy as np
from vlib import gen, trace, problems
from vlib.runner import Result

RULE = ("random linear residuals plus a convex Lipschitz regulariser (l1, weighted l1, shifted l1, l2, shifted l2, l-infinity, total variation, huber) with its exact prox, unbounded / bounded, "
        "start anywhere, with and without argsf/argsh/argsprox; reference optimum from ADMM + local polish (any feasible better point is a sound witness); argument monitor on every call of h, prox and "
        "objfun; non-trivial = regulariser changes the minimiser; distinct by (regulariser, n, m, bounds kind, zero/kink pattern at the optimum, args)")
ASSUMPTIONS = ["moderate conditioning (cond <= 30), internal scaling excluded (its combination with a regulariser is a separate, stated limitation)",
               "lh is a valid Lipschitz constant (exact, or up to 3x too large)"]
CASE_LIMIT = 200
KINDS = ["l1", "l2", "wl1", "sl1", "sl2", "linf", "tv", "huber"]


# fixed case that shows the recorded finding
SLOW_CASE = {'prob': {'fam': 'linear', 'n': 1, 'm': 5, 'seed': 828256979, 'cond': 6.678611854789137, 'shuffle_s': True, 'scale': 0.5442294303232073, 'resid': 0.1, 'xstar': [-2.244363600555733]}, 'r': {'kind': 'sl1', 'lam': 0.07529396643375667, 'c': [-2.2445432690508342], 'lhfac': 1.0}, 'npseed': 0, 'x0': [-1.7502699384720524], 'args': [False, True, False]}


def proj_l1ball(v, r):
    a = np.abs(v)
    if a.sum() <= r:
        return v.copy()
    u = np.sort(a)[::-1]
    cs = np.cumsum(u) - r
    k = np.nonzero(u - cs / np.arange(1, len(u) + 1) > 0)[0][-1]
    t = cs[k] / (k + 1.0)
    return np.sign(v) * np.maximum(a - t, 0.0)


def tv_prox(x, t):
    """prox of t*sum|x[i+1]-x[i]| by exact dual active-set over a tiny box QP (n <= 6): coordinate descent to machine precision"""
    n = len(x)
    if n == 1:
        return x.copy()
    D = np.diff(np.eye(n), axis=0)
    z = np.zeros(n - 1)
    Q = D.dot(D.T); q = D.dot(x)
    for _ in range(400):
        z0 = z.copy()
        for j in range(n - 1):
            z[j] = min(t, max(-t, z[j] + (q[j] - Q[j].dot(z)) / Q[j, j]))
        if np.max(np.abs(z - z0)) <= 1e-15 * (t + 1e-300):
            break
    return x - D.T.dot(z)


def make_reg(q, n):
    """(h(x), prox(x,u), lh) as plain functions"""
    k, lam = q["kind"], q["lam"]
    soft = lambda x, t: np.sign(x) * np.maximum(np.abs(x) - t, 0.0)

    def l2p(x, t):
        nx = np.linalg.norm(x)
        return np.zeros_like(x) if nx <= t else (1 - t / nx) * x
    if k == "l1": return (lambda x: lam * np.sum(np.abs(x))), (lambda x, u: soft(x, lam * u)), lam * np.sqrt(n)
    if k == "wl1":
        w = np.array(q["w"])
        return (lambda x: lam * np.sum(w * np.abs(x))), (lambda x, u: soft(x, lam * u * w)), lam * np.linalg.norm(w)
    if k == "sl1":
        c = np.array(q["c"])
        return (lambda x: lam * np.sum(np.abs(x - c))), (lambda x, u: c + soft(x - c, lam * u)), lam * np.sqrt(n)
    if k == "l2": return (lambda x: lam * np.linalg.norm(x)), (lambda x, u: l2p(x, lam * u)), lam
    if k == "sl2":
        c = np.array(q["c"])
        return (lambda x: lam * np.linalg.norm(x - c)), (lambda x, u: c + l2p(x - c, lam * u)), lam
    if k == "linf": return (lambda x: lam * np.max(np.abs(x))), (lambda x, u: x - proj_l1ball(x, lam * u)), lam
    if k == "tv": return (lambda x: lam * np.sum(np.abs(np.diff(x)))), (lambda x, u: tv_prox(x, lam * u)), lam * 2 * np.sqrt(max(n - 1, 1)) if n > 1 else 1e-3 * lam
    if k == "huber":   # sum of huber functions with slope lam and knee dl
        dl = q["dl"]
        def h(x):
            a = np.abs(x)
            return float(lam * np.sum(np.where(a <= dl, 0.5 * a * a / dl, a - 0.5 * dl)))
        def prox(x, u):
            t = lam * u
            return np.where(np.abs(x) <= dl + t, x * dl / (dl + t), x - t * np.sign(x))
        return h, prox, lam * np.sqrt(n)
    raise ValueError(k)


def cases(seed, tier):
    yield SLOW_CASE
    N = 180 if tier == "quick" else 1600
    for i in range(N):
        yield make(gen.rng_for("c06", seed, i), i)


def make(g, i=0):
    n = int(g.integers(1, 5))
    m = n + int(g.integers(0, 5))
    kind = KINDS[i % len(KINDS)]
    if kind == "tv" and n == 1:
        n, m = 2, m + 1
    xs = g.normal(size=n) * 10.0 ** g.uniform(-0.5, 0.5)
    prob = {"fam": "linear", "n": n, "m": m, "seed": int(g.integers(1, 2**31 - 1)), "cond": float(10.0 ** g.uniform(0, 1.5)), "shuffle_s": True,
            "scale": float(10.0 ** g.uniform(-0.5, 0.7)), "resid": float([0.0, 0.1, 1.0][int(g.integers(3))]), "xstar": xs.tolist()}
    q = {"kind": kind, "lam": float(10.0 ** g.uniform(-2, 0.7))}
    if kind == "wl1": q["w"] = g.uniform(0.0 if g.random() < 0.3 else 0.2, 2.0, size=n).tolist()
    if kind in ("sl1", "sl2"): q["c"] = (xs + g.normal(size=n) * g.choice([0.1, 1.0])).tolist()
    if kind == "huber": q["dl"] = float(10 ** g.uniform(-1.5, 0))
    q["lhfac"] = float([1.0, 1.0, 1.5, 3.0][int(g.integers(4))])
    spec = {"prob": prob, "r": q, "npseed": 0}
    x0 = xs + g.normal(size=n) * 10.0 ** g.uniform(-1, 0.5)
    if g.random() < 0.1: x0 = np.zeros(n)
    b = ["none", "none", "both", "lower", "upper"][int(g.integers(5))]
    if b != "none":
        w = g.uniform(0.8, 5.0, size=n)
        off = g.normal(size=n) * w * g.choice([0.2, 0.6])
        lo, hi = xs + off - 0.5 * w, xs + off + 0.5 * w
        if g.random() < 0.3:
            hi[:] = np.maximum(hi, 1.0); lo[:] = 0.0
        if b == "lower": hi[:] = 1e20
        if b == "upper": lo[:] = -1e20
        default = 0.1 * max(float(np.max(np.abs(x0))), 1.0)
        if float(np.min(hi - lo)) < 2 * default:
            spec["rhobeg"] = float(0.4 * np.min(hi - lo))
        spec["bounds"] = [None if b == "upper" else lo.tolist(), None if b == "lower" else hi.tolist()]
        if g.random() < 0.4:
            x0 = np.where(g.random(n) < 0.5, np.clip(x0, lo, hi), x0)
    spec["x0"] = x0.tolist()
    spec["args"] = [bool(g.random() < 0.5) for _ in range(3)]
    if g.random() < 0.15:
        spec["npt"] = n + 2
    return spec


def finish(stats, R):
    """the recorded finding is rare (about 0.6% of runs); if it becomes frequent that is a different failure"""
    runs = sum(v for k, v in stats.items() if k.startswith("kind_"))
    if stats["slow_warning_at_optimum"] > 4 + 0.04 * runs:
        R.bad("slow-warning-rate", "%d of %d runs ended with the slow-progress warning instead of success" % (stats["slow_warning_at_optimum"], runs))


def reference(A, b, h, prox, lo, hi, x0, xsol):
    """good feasible points: ADMM with three blocks (least squares / regulariser / box), then a pattern-search polish"""
    n = A.shape[1]
    F = lambda x: float(np.sum((A.dot(x) - b) ** 2) + h(x))
    cl = lambda x: np.clip(x, lo, hi)
    best = min([cl(x0), cl(xsol), cl(np.zeros(n)), cl(np.linalg.lstsq(A, b, rcond=None)[0])], key=F)
    fb = F(best)
    s2 = np.linalg.svd(A, compute_uv=False)
    for rho in (2 * s2[-1] * s2[0] + 1e-12, 2 * s2[0] ** 2):
        M = np.linalg.inv(2 * A.T.dot(A) + 2 * rho * np.eye(n)); c = 2 * A.T.dot(b)
        z1 = best.copy(); z2 = best.copy(); u1 = np.zeros(n); u2 = np.zeros(n)
        for k in range(3000):
            x = M.dot(c + rho * (z1 - u1) + rho * (z2 - u2))
            z1o = z1
            z1 = prox(x + u1, 1.0 / rho); z2 = cl(x + u2)
            u1 = u1 + x - z1; u2 = u2 + x - z2
            if k % 10 == 9:
                for v in (z2, cl(z1)):
                    f = F(v)
                    if f < fb: best, fb = v.copy(), f
                if np.linalg.norm(x - z1) + np.linalg.norm(x - z2) + np.linalg.norm(z1 - z1o) <= 1e-11 * (1 + np.linalg.norm(x)):
                    break
    st = 1e-3 * (1 + np.linalg.norm(best))
    D = np.vstack([np.eye(n), -np.eye(n)])
    for _ in range(200):
        c = [cl(best + st * d) for d in D]
        fs = [F(v) for v in c]
        j = int(np.argmin(fs))
        if fs[j] < fb: best, fb = c[j], fs[j]
        else:
            st *= 0.5
            if st < 1e-8: break
    return best, fb


def run_case(spec):
    R = Result()
    R.evals = 1
    p, q = spec["prob"], spec["r"]
    A = problems.linear_matrix(p); b = problems.linear_rhs(p, A)
    n = p["n"]
    h, prox, lh = make_reg(q, n)
    lh *= q["lhfac"]
    tok = [("f", object(), np.array([1.5, 2.5]), {"a": [1, 2]}), ("h", object(), np.array([[3.0, 4.0]])), ("p", object(), [1, [2, 3]], np.arange(3.0))]
    use = spec["args"]
    import copy
    copies = [copy.deepcopy(t[2:]) for t in tok]

    def check(which, args):
        want = tok[which] if use[which] else ()
        R.stats["arg_checks_" + "fhp"[which]] += 1
        if len(args) != len(want) or any(x is not y for x, y in zip(args, want)):
            R.bad("args-not-passed", "%s called with extra arguments %r, expected %r" % (("objfun", "h", "prox_uh")[which], args, want))

    def hh(x, *a):
        check(1, a)
        if np.shape(x) != (n,): R.bad("h-x-shape", "h called with shape %r" % (np.shape(x),))
        return h(np.array(x, copy=True))

    def pp(x, u, *a):
        check(2, a)
        if not (u > 0): R.bad("prox-u", "prox called with u=%r" % (u,))
        return prox(np.array(x, copy=True), u)
    over = {"h": hh, "prox_uh": pp, "lh": lh}
    if use[0]: over["argsf"] = tok[0]
    if use[1]: over["argsh"] = tok[1]
    if use[2]: over["argsprox"] = tok[2]
    import dfols

    def solve(objfun, x0, **kw):
        def f(x, *a):
            check(0, a)
            return objfun(x)
        return dfols.solve(f, x0, **kw)
    tr = trace.run(spec, kw_override=over, solve=solve)
    for t, c in zip(tok, copies):
        if repr(t[2:]) != repr(c):
            R.bad("args-modified", "extra arguments changed: %r" % (t[2:],))
    if R.viol:
        return R
    ex = tr.ex
    lo = ex["lo"] if ex["lo"] is not None else np.full(n, -np.inf)
    hi = ex["hi"] if ex["hi"] is not None else np.full(n, np.inf)
    s = tr.soln
    what = "%s lam=%.3g n=%d m=%d cond=%.3g bounds=%s evals=%d/%d" % (q["kind"], q["lam"], n, p["m"], p["cond"], spec.get("bounds") is not None, tr.ncalls, tr.maxfun)
    if s is None or s.x is None:
        R.bad("no-solution", "%s: %r %s" % (what, tr.exc, getattr(s, "msg", None)))
        return R
    R.stats["msg: " + s.msg] += 1
    R.stats["kind_" + q["kind"]] += 1
    if np.any(s.x < lo) or np.any(s.x > hi):
        R.bad("infeasible", "%s: soln.x=%s" % (what, s.x.tolist()))
        return R
    F = float(np.sum((A.dot(s.x) - b) ** 2) + h(s.x))
    xb, fb = reference(A, b, h, prox, lo, hi, ex["x0"], s.x)
    tol = 1e-3 * (1 + fb)
    R.stats["evaluations_used"] += tr.ncalls
    if not (F <= fb + tol and s.obj <= fb + tol):
        R.bad("not-optimal", "%s: F(soln.x)=%r soln.obj=%r but F(%s)=%r (excess %.3g allowed %.3g) msg=%s" % (what, F, s.obj, xb.tolist(), fb, F - fb, tol, s.msg))
    if abs(F - s.obj) > 1e-9 * (1 + abs(F)):
        R.bad("objective-mismatch", "%s: soln.obj=%r, sum(r^2)+h=%r" % (what, s.obj, F))
    if s.flag == s.EXIT_SLOW_WARNING and F <= fb + tol:
        R.stats["slow_warning_at_optimum"] += 1
        R.bad("slow-warning-at-optimum", "%s: flag %r (excess %.3g) msg=%s" % (what, s.flag, F - fb, s.msg))
    elif s.flag != s.EXIT_SUCCESS:
        R.bad("not-success", "%s: flag %r (excess %.3g) msg=%s" % (what, s.flag, F - fb, s.msg))
    R.stats["excess_over_1e-5"] += F - fb > 1e-5 * (1 + fb)
    kk = "".join("z" if abs(v) < 1e-7 else "l" if v <= l else "u" if v >= u else "." for v, l, u in zip(xb, lo, hi))
    R.stats["optimum_with_zero_components"] += "z" in kk
    R.stats["optimum_on_bounds"] += "l" in kk or "u" in kk
    R.sig(q["kind"], n, p["m"], kk, spec.get("bounds") is not None, use)
    R.sample = {"reg": q, "n": n, "m": p["m"], "F*": fb, "F": F, "pattern": kk, "evals": tr.ncalls, "msg": s.msg}
    return R
