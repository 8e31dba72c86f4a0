"""C12: the box trust-region subproblem solver returns feasible, decreasing steps - oracle on the real routine, driven directly and observed inside real runs."""
import numpy as np
from vlib import gen, trace
from vlib.runner import Result

DIRECT = True
RULE = ("random subproblems (n 1..10; H PSD full/low rank, indefinite, negative definite, zero, ill-conditioned, rank one; g zero / sparse / eigenvector / huge / tiny; boxes with the point inside, on "
        "faces, at vertices, within 1e-17..1 of a bound, zero-width coordinates, one-sided; radius over 12 decades) plus every call made inside real solve() runs; non-trivial = non-zero step; "
        "distinct by (n, H kind, g kind, bounds hit, on-boundary, fixed initially)")
ASSUMPTIONS = ["pure Python path (the optional trustregion Fortran package is not installed)", "box exactness is judged on d against the rounded differences sl-xopt, su-xopt"]
LD = np.longdouble


def cases(seed, tier):
    N = 700 if tier == "quick" else 16000
    for i in range(N):
        yield {"seed": seed, "i": i, "count": 150}
    for i in range(60 if tier == "quick" else 1200):
        g = gen.rng_for("c12live", seed, i)
        yield {"live": gen.gen_case(g, dict(maxfun=(10, 120), p_bounds=0.85, p_reg=0.0, p_proj=0.0))}


def make(g):
    n = int(g.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 10]))
    hk = ["psd", "psdlow", "indef", "negdef", "zero", "ill", "rank1", "diag", "eye", "sparse"][int(g.integers(10))]
    sH = 10.0 ** g.uniform(-6, 6) if g.random() < 0.5 else 1.0
    if hk in ("psd", "psdlow"):
        J = g.normal(size=(n + 2 if hk == "psd" else max(1, n // 2), n)); H = 2 * J.T.dot(J)
    elif hk == "indef":
        A = g.normal(size=(n, n)); H = A + A.T
    elif hk == "negdef":
        A = g.normal(size=(n, n)); H = -A.dot(A.T)
    elif hk == "zero":
        H = np.zeros((n, n))
    elif hk == "ill":
        Q = np.linalg.qr(g.normal(size=(n, n)))[0]; H = (Q * 10.0 ** g.uniform(-10, 2, size=n)).dot(Q.T); H = 0.5 * (H + H.T)
    elif hk == "rank1":
        v = g.normal(size=n); H = np.outer(v, v) * g.choice([-1, 1])
    elif hk == "diag":
        H = np.diag(g.normal(size=n) * 10.0 ** g.uniform(-3, 3, size=n))
    elif hk == "eye":
        H = np.eye(n) * g.choice([-1.0, 1.0])
    else:
        H = np.round(g.normal(size=(n, n))) * (g.random((n, n)) < 0.4); H = H + H.T
    H = H * sH
    gk = ["gen", "gen", "gen", "zero", "sparse", "unit", "eig", "ints", "mix"][int(g.integers(9))]
    if gk == "gen": v = g.normal(size=n)
    elif gk == "zero": v = np.zeros(n)
    elif gk == "sparse": v = g.normal(size=n) * (g.random(n) < 0.4)
    elif gk == "unit": v = np.zeros(n); v[int(g.integers(n))] = g.choice([-1.0, 1.0])
    elif gk == "eig": v = np.linalg.eigh(H)[1][:, int(g.integers(n))].copy()
    elif gk == "ints": v = np.round(g.normal(size=n) * 2)
    else: v = g.normal(size=n) * 10.0 ** g.uniform(-8, 2, size=n)
    if g.random() < 0.3: v = v * max(sH, 1e-8)
    if g.random() < 0.2: v = v * 10.0 ** g.uniform(-8, 8)
    delta = float(10.0 ** g.uniform(-8, 4)) if g.random() < 0.5 else float(10.0 ** g.uniform(-1, 1))
    x = g.normal(size=n) * (10.0 ** g.uniform(-3, 3) if g.random() < 0.6 else 0.0)
    sl, su = np.full(n, -1e20), np.full(n, 1e20)
    bk = int(g.integers(6))
    for j in range(n):
        for side in (0, 1):
            r = g.random()
            if bk == 0: dist = np.inf
            elif bk == 1: dist = delta * g.uniform(0.05, 1.5)
            elif bk == 2: dist = 0.0 if r < 0.4 else delta * g.uniform(0.1, 2)
            elif bk == 3: dist = delta * 10.0 ** g.uniform(-17, 1)
            elif bk == 4: dist = [0.0, delta, 0.5 * delta, np.inf, 1e-16 * delta, delta / np.sqrt(n)][int(g.integers(6))]
            else: dist = [0.0, np.inf, delta * 10.0 ** g.uniform(-12, 1), delta * g.uniform(0.05, 1.2)][int(g.integers(4))]
            if np.isfinite(dist):
                if side == 0: sl[j] = min(x[j], x[j] - dist)
                else: su[j] = max(x[j], x[j] + dist)
    return dict(n=n, hk=hk, gk=gk, bk=bk, x=x, g=v, H=H, sl=sl, su=su, delta=delta)


def judge(R, c, d, gnew, where=""):
    x, g, H, sl, su, delta = c["x"], c["g"], c["H"], c["sl"], c["su"], c["delta"]
    n = len(x)
    what = "%s%s" % (where, {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in c.items()})
    d = np.asarray(d)
    if d.shape != (n,) or not np.all(np.isfinite(d)):
        R.bad("bad-step", "d=%r %s" % (d, what)); return
    if np.any(d < sl - x) or np.any(d > su - x):
        R.bad("box", "d-(su-x)=%s (sl-x)-d=%s %s" % ((d - (su - x)).tolist(), ((sl - x) - d).tolist(), what)); return
    nd = float(np.sqrt(np.sum(d.astype(LD) ** 2)))
    if nd > delta * (1 + 1e-8):
        R.bad("norm", "|d|/delta-1=%.3e %s" % (nd / delta - 1, what)); return
    gl, Hl, dl = g.astype(LD), H.astype(LD), d.astype(LD)
    q = lambda s: float(gl.dot(s) + LD(0.5) * s.dot(Hl.dot(s)))
    eps = np.finfo(float).eps
    # magnitude of the terms the routine itself adds up along its path
    nH = float(np.linalg.norm(H))
    mag = float(np.abs(g).dot(np.abs(d))) + 0.5 * nH * nd * nd
    qd = q(dl)
    s = -gl.copy()
    s[(x <= sl) & (g >= 0)] = 0
    s[(x >= su) & (g <= 0)] = 0
    ns = float(np.sqrt(s.dot(s)))
    qc = 0.0
    if ns > 0:
        tmax = LD(delta) / LD(ns)
        for j in range(n):
            if s[j] > 0: tmax = min(tmax, (LD(su[j]) - LD(x[j])) / s[j])
            elif s[j] < 0: tmax = min(tmax, (LD(sl[j]) - LD(x[j])) / s[j])
        curv = s.dot(Hl.dot(s))
        t = tmax if curv <= 0 else min(tmax, LD(ns) ** 2 / curv)
        qc = q(t * s)
    tolq = 200 * n * eps * mag
    if qd > tolq:
        R.bad("increase", "model change %r (tolerance %.3g) %s" % (qd, tolq, what)); return
    R.stats["cauchy_positive"] += qc < 0
    if qd > qc * (1 - 1e-6) + tolq and not c.get("tiny"):
        R.bad("cauchy", "model change %r, truncated steepest descent gives %r %s" % (qd, qc, what)); return
    true = (gl + Hl.dot(dl)).astype(float)
    gt = 1000 * n * eps * (float(np.linalg.norm(g)) + nH * max(nd, 0.0)) + 1e-300
    err = float(np.max(np.abs(true - gnew)))
    R.stats["max_grad_err_over_tol_ppm"] = max(R.stats["max_grad_err_over_tol_ppm"], 0)
    if not (err <= gt):
        R.bad("gradient", "returned gradient off by %.3g (tolerance %.3g) %s" % (err, gt, what)); return
    hit = int(np.sum((d == sl - x) & (d != 0)) + np.sum((d == su - x) & (d != 0)))
    R.stats["steps_judged"] += 1
    R.stats["steps_on_ball"] += nd > 0.999 * delta
    R.stats["steps_hitting_bounds"] += hit > 0
    R.stats["zero_steps"] += nd == 0
    R.stats["beyond_cauchy"] += qd < qc * (1 + 1e-9)
    if nd > 0:
        R.sig(n, c.get("hk"), c.get("gk"), c.get("bk"), hit, nd > 0.999 * delta, int(np.sum(x <= sl) + np.sum(x >= su)))


def run_case(spec):
    from dfols import trust_region as TR
    R = Result()
    if "live" in spec:
        import dfols.controller as C
        orig = C.trsbox
        rec = []

        def wrapped(xopt, g, H, sl, su, delta, *a, **k):
            c = dict(x=xopt.copy(), g=g.copy(), H=H.copy(), sl=sl.copy(), su=su.copy(), delta=float(delta), hk="live", gk="live", bk="live")
            out = orig(xopt, g, H, sl, su, delta, *a, **k)
            rec.append((c, (np.array(out[0], copy=True), np.array(out[1], copy=True))))
            return out
        C.trsbox = wrapped
        try:
            trace.run(spec["live"])
        finally:
            C.trsbox = orig
        for c, out in rec:
            R.evals += 1
            R.stats["live_calls"] += 1
            if np.all(np.isfinite(c["g"])) and np.all(np.isfinite(c["H"])):
                judge(R, c, out[0], out[1], "in a real run: ")
        return R
    for j in range(spec["count"]):
        if spec.get("only") is not None and j != spec["only"]:
            continue
        g = gen.rng_for("c12", spec["seed"] * 1000003 + spec["i"], j)
        c = make(g)
        R.evals += 1
        args = [c["x"].copy(), c["g"].copy(), c["H"].copy(), c["sl"].copy(), c["su"].copy()]
        try:
            d, gnew, crvmin = TR.trsbox(*args, c["delta"])
        except Exception as e:
            R.bad("raised-" + type(e).__name__, "%r on %s" % (e, c))
            continue
        for a, k in zip(args, ("x", "g", "H", "sl", "su")):
            if not np.array_equal(a, c[k]):
                R.bad("inputs-modified", "%s modified: %s" % (k, c))
        n0 = len(R.viol)
        judge(R, c, d, gnew)
        if len(R.viol) > n0:
            R.stats["instance_%d_violates" % j] += 1
    R.sample = {"last": {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in c.items()}, "d": np.asarray(d).tolist()}
    return R
