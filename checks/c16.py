"""C16: interpolation models reproduce their data, Lagrange functions are dual to the points, and base shifts change nothing - Model driven directly through random operation histories."""
import numpy as np
from vlib import gen
from vlib.runner import Result

DIRECT = True
RULE = ("random operation histories on a Model object (n, m <= 6; 2..2n+1 points incl. the growing phase and appended points; spreads over 4 decades; base points up to 1e4 spreads from the origin; with/without preconditioning "
        "and full-rank completion; operations: replace, append, swap, resample, base shift, re-fit, Lagrange query, save) against an independent record of absolute points and residual samples, judged after every fit, Lagrange "
        "query and shift with tolerances proportional to the condition number; plus the same oracle on every fit inside real runs; non-trivial = a judged fit after at least one mutation; distinct by (n, m, number of points, "
        "phase, fit options, last three operations)")
ASSUMPTIONS = ["affinely independent sets: condition number of the scaled interpolation matrix below 1e8 (others only counted)", "finite residuals",
               "full-rank completion interpolates when the fitted Jacobian's singular values are above the documented floors"]
EPS = np.finfo(float).eps
BIG = 1e20


def cases(seed, tier):
    for i in range(3500 if tier == "quick" else 110000):
        yield {"seed": seed, "i": i, "count": 8}
    for i in range(400 if tier == "quick" else 10000):
        g = gen.rng_for("c16live", seed, i)
        yield {"live": gen.gen_case(g, dict(maxfun=(10, 80), p_reg=0.0, p_proj=0.03, p_growing=0.35, p_restart=0.5))}


class Shadow(object):
    def __init__(self, Y0, r0):
        self.Y = [Y0.copy()]; self.S = [[r0.copy()]]; self.err = [0.0]

    def R(self):
        return np.array([np.mean(s, axis=0) for s in self.S])


def run_case(spec):
    R = Result()
    if "live" in spec:
        return live(spec["live"], R)
    for j in range(spec["count"]):
        if spec.get("only") is not None and j != spec["only"]:
            continue
        history(gen.rng_for("c16", spec["seed"] * 1000003 + spec["i"], j), R, "case %d/%d: " % (spec["i"], j))
    return R


def geometry(M):
    """(Y relative to xopt as the model holds them, W scaled, cond)"""
    k = M.npt()
    P = np.array([M.xpt(i) for i in range(k)])
    D = P - P[M.kopt]
    dl = float(np.sqrt(np.max(np.sum(D * D, axis=1))))
    if dl == 0:
        return P, D, dl, None, np.inf
    W = np.hstack([np.ones((k, 1)), D / dl])
    s = np.linalg.svd(W, compute_uv=False)
    return P, D, dl, W, (s[0] / s[-1] if s[-1] > 0 else np.inf)


def judge_fit(M, R, Rs, where, full_rank, ops, absY=None, shadow_err=0.0, precond=True, kw={}):
    """Rs: residual means kept by the harness"""
    k, n, m = M.npt(), M.n(), M.m()
    P, D, dl, W, cond = geometry(M)
    if not cond < 1e8:
        R.stats["fit_ill_conditioned_set"] += 1
        return None
    # conditioning of the matrix the routine actually factorises
    c2 = cond
    if not precond:
        W2 = np.hstack([np.ones((k, 1)), D]); s = np.linalg.svd(W2, compute_uv=False); c2 = s[0] / s[-1]
        if not c2 < 1e10:
            R.stats["fit_ill_conditioned_set"] += 1
            return None
    J = M.model_jac
    nJ = float(np.linalg.norm(J)); mr = float(np.max(np.abs(Rs))) if Rs.size else 0.0
    xm = float(np.max(np.abs(P))) + float(np.max(np.abs(M.xopt())))
    val = np.array([M.model_value(P[i], d_based_at_xopt=False, with_const_term=True) for i in range(k)])
    tol = 200 * (n + 1) * EPS * (c2 * (mr + nJ * dl) + nJ * xm + float(np.max(np.abs(M.model_const)))) + 1e-300
    e = Rs - val
    kind = "growing" if k < n + 1 else "square" if k == n + 1 else "regression"
    if full_rank:
        # singular values of the minimal norm fit
        Jm = np.linalg.lstsq(D, Rs - Rs[M.kopt], rcond=None)[0].T if k <= n + 1 else None
        if Jm is not None:
            s = np.linalg.svd(Jm, compute_uv=False); r = min(k - 1, n, m)
            fl = max(s[0] / kw.get("max_jac_cond", 1e8), kw.get("min_sing_val", 1e-6))
            frac = kw.get("sing_val_frac", 1.0)
            if s[r - 1] < 2 * fl or frac > 1.0:
                R.stats["full_rank_floor_active"] += 1
                return None
            tol *= 1 + s[0] / s[r - 1]
    R.stats["fits_judged_" + kind + ("_full_rank" if full_rank else "")] += 1
    if k <= n + 1:
        bad = float(np.max(np.abs(e)))
        if not bad <= tol:
            R.bad("data-not-interpolated", "%s%s set of %d points (n=%d m=%d cond=%.3g): model misses the stored residuals by %.3g (tolerance %.3g); ops %s" % (where, kind, k, n, m, cond, bad, tol, ops))
            return None
    else:
        ne = W.T.dot(e)
        t2 = tol * float(np.linalg.norm(W)) * np.sqrt(k) + 200 * k * EPS * c2 * float(np.max(np.abs(e)))
        if not float(np.max(np.abs(ne))) <= t2:
            R.bad("not-least-squares", "%sregression on %d points (n=%d m=%d cond=%.3g): residual of the fit not orthogonal to the design columns: %.3g (tolerance %.3g); ops %s" %
                  (where, k, n, m, cond, float(np.max(np.abs(ne))), t2, ops))
            return None
    # Gauss-Newton model assembled from it, at xopt
    gm, H = M.build_full_model()
    ro = val[M.kopt]
    ge = 2 * J.T.dot(ro)
    if not float(np.max(np.abs(gm - ge))) <= 2 * nJ * tol * np.sqrt(m) + 100 * EPS * nJ * (float(np.linalg.norm(ro)) + 1e-300) * m:
        R.bad("gradient", "%sassembled gradient %s, 2 J^T r = %s" % (where, gm.tolist(), ge.tolist()))
    if not float(np.max(np.abs(H - 2 * J.T.dot(J)))) <= 100 * m * EPS * nJ * nJ:
        R.bad("hessian", "%sassembled Hessian is not 2 J^T J" % where)
    return cond


def judge_lagrange(M, R, where, ops, precond=True):
    k, n = M.npt(), M.n()
    P, D, dl, W, cond = geometry(M)
    lim = 1e8
    c2 = cond
    if W is not None and not precond:
        s = np.linalg.svd(np.hstack([np.ones((k, 1)), D]), compute_uv=False); c2 = s[0] / s[-1] if s[-1] > 0 else np.inf
    if not (cond < lim and c2 < 1e10):
        R.stats["lagrange_ill_conditioned_set"] += 1
        return
    cs, gs = M.lagrange_gradient()
    V = cs[None, :] + D.dot(gs)     # V[j, i] = L_i(y_j)
    gmax = float(np.max(np.sqrt(np.sum(gs * gs, axis=0)))) * dl
    tol = 500 * k * EPS * c2 * (1 + gmax)
    R.stats["lagrange_judged"] += 1
    if k <= n + 1:
        e = float(np.max(np.abs(V - np.eye(k))))
        if not e <= tol:
            R.bad("lagrange-delta", "%sL_k(y_j) differs from delta_kj by %.3g (tolerance %.3g), %d points n=%d cond=%.3g; ops %s" % (where, e, tol, k, n, cond, ops))
    if k >= n + 1:
        e = max(float(np.max(np.abs(np.sum(V, axis=1) - 1.0))), float(np.max(np.abs(np.sum(gs, axis=1)))) * dl)
        if not e <= tol * k:
            R.bad("lagrange-sum", "%sLagrange functions sum to 1 only within %.3g (tolerance %.3g); ops %s" % (where, e, tol * k, ops))
        # regression: hat matrix is the projector onto the design columns
        Q = np.linalg.qr(W)[0]
        e = float(np.max(np.abs(V - Q.dot(Q.T))))
        if not e <= tol * k:
            R.bad("lagrange-regression", "%sLagrange values differ from the least-squares hat matrix by %.3g (tolerance %.3g); ops %s" % (where, e, tol * k, ops))
    # single-index call agrees
    i = int(k // 2)
    c, gr = M.lagrange_gradient(k=i)
    if abs(c - cs[i]) + float(np.max(np.abs(gr - gs[:, i]))) * dl > tol:
        R.bad("lagrange-single", "%slagrange_gradient(k=%d) disagrees with the matrix of all Lagrange functions" % (where, i))


def history(g, R, where):
    from dfols.model import Model
    n, m = int(g.integers(1, 7)), int(g.integers(1, 7))
    npt = int(g.integers(n + 1, 2 * n + 2)) if g.random() < 0.5 else n + 1
    sp = float(10.0 ** g.uniform(-3, 1))
    base = g.normal(size=n) * sp * (10.0 ** g.uniform(0, 4) if g.random() < 0.5 else 1.0)
    fs = float(10.0 ** g.uniform(-3, 3)) if g.random() < 0.3 else 1.0
    A = g.normal(size=(m, n)); A2 = g.normal(size=(m, n))
    xc = base.copy()
    fk = int(g.integers(3))

    def f(x):
        z = (x - xc) / sp
        if fk == 0: return fs * (A.dot(z) + 0.5)
        if fk == 1: return fs * (A.dot(z) + 0.3 * A2.dot(z * z) + 1)
        return fs * g.normal(size=m)
    precond = bool(g.random() < 0.8)
    bd = g.random() < 0.3
    xl = base - sp * g.uniform(1, 6, size=n) if bd else np.full(n, -BIG)
    xu = base + sp * g.uniform(1, 6, size=n) if bd else np.full(n, BIG)
    r0 = f(base)
    M = Model(npt, base.copy(), r0.copy(), xl.copy(), xu.copy(), [], 1, precondition=precond, do_logging=False)
    sh = Shadow(base, r0)
    ops = []
    fit = None        # dict describing the last fit still valid as a function of absolute x
    probe = [base + sp * g.normal(size=n) for _ in range(2)]
    neval = 1
    mutated = False

    def newpoint():
        c = sh.Y[M.kopt] if g.random() < 0.7 else base
        s2 = sp * (10.0 ** g.uniform(-3, 0) if g.random() < 0.3 else 1.0)
        y = np.clip(c + s2 * g.normal(size=n), xl, xu)
        return y

    def rel(y):
        return y - M.xbase
    for step in range(int(g.integers(6, 40))):
        k = M.npt()
        can_grow = M.npt_so_far < M.num_pts
        o = str(g.choice(["grow", "grow", "replace", "replace", "append", "swap", "sample", "shift", "shift", "fit", "fit", "lagr", "save", "noswap"]))
        if o == "grow" and not can_grow: o = "fit"
        if o == "append" and (can_grow or k >= 2 * n + 1): o = "replace"
        ops.append(o)
        R.evals += 1
        if o == "grow":
            y = newpoint(); r = f(y); neval += 1
            M.change_point(k, rel(y), r, neval)
            sh.Y.append(y); sh.S.append([r.copy()]); fit = None; mutated = True
        elif o in ("replace", "noswap"):
            i = int(g.integers(k)); y = newpoint(); r = f(y); neval += 1
            M.change_point(i, rel(y), r, neval, allow_kopt_update=(o == "replace"))
            sh.Y[i] = y; sh.S[i] = [r.copy()]; fit = None; mutated = True
        elif o == "append":
            y = newpoint(); r = f(y); neval += 1
            M.add_new_point(rel(y), r, neval)
            sh.Y.append(y); sh.S.append([r.copy()]); fit = None; mutated = True
        elif o == "swap" and k >= 2:
            i, j = int(g.integers(k)), int(g.integers(k))
            M.swap_points(i, j)
            sh.Y[i], sh.Y[j] = sh.Y[j], sh.Y[i]; sh.S[i], sh.S[j] = sh.S[j], sh.S[i]; mutated = True
        elif o == "sample":
            i = int(g.integers(k)); r = f(sh.Y[i]) + 0.3 * fs * g.normal(size=m)
            M.add_new_sample(i, r)
            sh.S[i].append(r.copy()); fit = None; mutated = True
        elif o == "shift":
            s = M.xopt().copy() if g.random() < 0.4 else sp * g.normal(size=n) * (10.0 ** g.uniform(0, 2) if g.random() < 0.3 else 1.0)
            if fit is not None:
                v0 = [M.model_value(p - M.xbase, d_based_at_xopt=False, with_const_term=True) for p in probe]
                w0 = [M.model_value(p - M.xbase - M.xopt(), d_based_at_xopt=True, with_const_term=True) for p in probe]
                g0, H0 = M.build_full_model()
                sc0 = float(np.max(np.abs(M.model_const))) + 0.0
            x_before = [M.xpt(i, abs_coordinates=True) for i in range(k)]
            M.shift_base(s)
            mag = float(np.max(np.abs(M.xbase))) + float(np.max(np.abs(s))) + max(float(np.max(np.abs(M.points[:k]))), 0.0)
            R.stats["shifts_judged"] += 1
            for i in range(k):
                if float(np.max(np.abs(M.xpt(i, abs_coordinates=True) - x_before[i]))) > 8 * EPS * mag:
                    R.bad("shift-moves-points", "%spoint %d moved by %s under a base shift; ops %s" % (where, i, (M.xpt(i, abs_coordinates=True) - x_before[i]).tolist(), ops[-6:])); return
            if fit is not None:
                nJ = float(np.linalg.norm(M.model_jac))
                t = 100 * n * EPS * (nJ * (mag + max(float(np.max(np.abs(p))) for p in probe)) + sc0 + float(np.max(np.abs(M.model_const))))
                v1 = [M.model_value(p - M.xbase, d_based_at_xopt=False, with_const_term=True) for p in probe]
                w1 = [M.model_value(p - M.xbase - M.xopt(), d_based_at_xopt=True, with_const_term=True) for p in probe]
                e = max(float(np.max(np.abs(a - b))) for a, b in zip(v0 + w0, v1 + w1))
                if not e <= t:
                    R.bad("shift-changes-values", "%smodel values at fixed points changed by %.3g (tolerance %.3g) under a shift %s; ops %s" % (where, e, t, s.tolist(), ops[-6:])); return
                g1, H1 = M.build_full_model()
                if not float(np.max(np.abs(g1 - g0))) <= 4 * nJ * t * m or not np.array_equal(H0, H1):
                    R.bad("shift-changes-model", "%sgradient changed by %s, Hessian changed: %s under a shift %s; ops %s" % (where, (g1 - g0).tolist(), not np.array_equal(H0, H1), s.tolist(), ops[-6:])); return
                R.stats["shifts_with_model_judged"] += 1
        elif o == "fit" and k >= 2:
            growing = k < n + 1
            fr = growing and g.random() < 0.5
            kw = {}
            if fr and g.random() < 0.3: kw = dict(sing_val_frac=float(g.uniform(0, 1)), min_sing_val=float(10 ** g.uniform(-10, -4)))
            verbose = bool(g.random() < 0.3)
            try:
                out = M.interpolate_mini_models_svd(make_full_rank=fr, verbose=verbose, get_chg_J=bool(g.random() < 0.3), **kw)
            except Exception as e:
                R.bad("fit-raised", "%s%r; ops %s" % (where, e, ops)); return
            P, D, dl, W, cond = geometry(M)
            if not out[0]:
                fit = None
                if cond < 1e8 and precond: R.bad("fit-refused", "%sfit failed on a set with condition number %.3g; ops %s" % (where, cond, ops)); return
                continue
            n0 = len(R.viol)
            c = judge_fit(M, R, sh.R(), where, fr, ops, precond=precond, kw=kw)
            if len(R.viol) > n0: return
            if list(M.model_jac_eval_nums) != list(M.eval_num): R.bad("fit-eval-nums", "%sfit not labelled with the current evaluation numbers" % where)
            fit = True if np.all(np.isfinite(M.model_jac)) and np.all(np.isfinite(M.model_const)) else None
            if c is not None and mutated:
                R.sig(n, m, k, growing, fr, precond, *ops[-3:])
            if R.sample is None and c is not None and len(ops) > 8:
                R.sample = {"n": n, "m": m, "points": k, "cond": c, "ops": list(ops)}
        elif o == "lagr" and k >= 2:
            n0 = len(R.viol)
            judge_lagrange(M, R, where, ops[-6:], precond)
            if len(R.viol) > n0: return
        elif o == "save":
            M.save_point(M.xopt(abs_coordinates=True), M.ropt().copy(), 1, neval)
        # the stored points are the ones we put in
        if o in ("grow", "replace", "append", "swap", "noswap", "shift"):
            mag = float(np.max(np.abs(M.xbase))) + float(np.max(np.abs(M.points[:M.npt()])))
            for i in range(M.npt()):
                if float(np.max(np.abs(M.xpt(i, abs_coordinates=True) - sh.Y[i]))) > 60 * (1 + ops.count("shift")) * EPS * (mag + 1e3 * sp * ops.count("shift")):
                    R.bad("points-drift", "%sstored point %d is %s, put in %s; ops %s" % (where, i, M.xpt(i, abs_coordinates=True).tolist(), sh.Y[i].tolist(), ops[-8:])); return


def live(sp, R):
    """the same oracles on every fit made inside a real run"""
    from vlib import trace
    from dfols import model as MM
    trace._install_hooks()
    cls = MM.Model
    name = "interpolate_mini_models_svd"
    if not hasattr(cls, name):
        return R
    orig = getattr(cls, name)
    cnt = [0]

    def wrapped(self, *a, **k):
        out = orig(self, *a, **k)
        try:
            if out[0] and len(R.viol) == 0 and np.all(np.isfinite(self.fval_v[:self.npt()])) and self.npt() >= 2 and not self.projections:
                fr = bool(k.get("make_full_rank", a[1] if len(a) > 1 else False))
                cnt[0] += 1
                R.evals += 1
                kk = {q: k[q] for q in ("min_sing_val", "sing_val_frac", "max_jac_cond") if q in k}
                judge_fit(self, R, self.fval_v[:self.npt()].copy(), "live fit %d: " % cnt[0], fr and self.npt() < self.n() + 1, [], precond=self.precondition, kw=kk) if (not fr or self.npt() < self.n() + 1) else None
                if cnt[0] % 5 == 0: judge_lagrange(self, R, "live fit %d: " % cnt[0], [], self.precondition)
        except (AttributeError, TypeError, KeyError):
            R.stats["live_monitor_unavailable"] += 1
        return out
    setattr(cls, name, wrapped)
    try:
        trace.run(sp)
    finally:
        setattr(cls, name, orig)
    R.stats["live_fits"] += cnt[0]
    if cnt[0]: R.sig("live", gen.features(sp))
    return R
