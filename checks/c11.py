"""C11: soln.jacobian is the (least-squares) fit through the evaluations listed in soln.jacmin_eval_nums, in the user's coordinates."""
import numpy as np
from vlib import gen, trace, problems
from vlib.runner import Result

DIRECT = True
RULE = ("solve() on smooth (and some rough / noisy) problems; bounds, internal scaling with anisotropic boxes, npt in [n+1,2n+1], averaging, soft and hard restarts (with and without growing npt), budget and normal exits; "
        "soln.jacobian is compared with an independent least-squares fit to the recorded residuals at the evaluation points it names, and with A for linear residuals; non-trivial = nonlinear residuals (a wrong "
        "label changes the fit) or scaled linear ones; distinct by (problem family, n, m, number of points, scaling, bounds, restart kind and number, which points are named relative to the last one)")
ASSUMPTIONS = ["condition number of the named point set (scaled by its diameter) at most 1e9; others are only counted", "finite residuals at the named points", "no growing phase, regulariser or projections"]
EPS = np.finfo(float).eps


def cases(seed, tier):
    N = 5000 if tier == "quick" else 120000
    for i in range(N):
        g = gen.rng_for("c11", seed, i)
        prof = dict(p_bounds=0.6, p_scaling=0.5, p_reg=0.0, p_proj=0.0, p_growing=0.0, p_regr=0.45, p_bignpt=0.0, p_restart=0.5, maxfun=(4, 90), p_noise=0.08, p_nsamples=0.12, fams=gen.SMOOTH + (["rough", "abs"] if i % 5 == 0 else []), p_diag=0.02)
        if i % 7 == 2:
            prof.update(p_bounds=1.0, p_scaling=1.0)
        if i % 6 == 1:
            prof.update(fams=["linear"])
        s = gen.gen_case(g, prof)
        n = len(s["x0"])
        if s.get("npt", 0) > 2 * n + 1:
            s["npt"] = 2 * n + 1
        up = s.get("user_params", {})
        if "restarts.max_npt" in up:
            up["restarts.max_npt"] = max(s.get("npt", n + 1), min(up["restarts.max_npt"], 2 * n + 1))
        yield s


def run_case(spec):
    R = Result()
    tr = trace.run(spec)
    R.evals = tr.ncalls
    s = tr.soln
    n = len(spec["x0"])
    m = spec["prob"]["m"]
    if s is None or s.x is None:
        R.stats["no_result"] += 1
        return R
    if s.jacobian is None:
        R.stats["no_jacobian"] += 1
        if s.jacmin_eval_nums is not None:
            R.bad("names-without-jacobian", "jacobian is None but jacmin_eval_nums=%r" % (s.jacmin_eval_nums,))
        return R
    J = np.asarray(s.jacobian)
    up = spec.get("user_params") or {}
    what = "%s n=%d m=%d npt=%s scaling=%s bounds=%s soft=%d hard=%d evals=%d/%d [%s]" % (spec["prob"]["fam"], n, m, spec.get("npt", n + 1), spec.get("scaling_within_bounds", False), spec.get("bounds") is not None,
                                                                                tr.soft_done, tr.main_runs - 1, tr.ncalls, tr.maxfun, s.msg)
    if J.shape != (m, n):
        R.bad("jacobian-shape", "%s: shape %r" % (what, J.shape))
        return R
    if s.jacmin_eval_nums is None:
        R.stats["jacobian_without_names"] += 1
        if s.flag != s.EXIT_LINALG_ERROR:
            R.bad("jacobian-without-names", "%s: jacobian=%s but jacmin_eval_nums is None" % (what, J.tolist()))
        return R
    names = [int(v) for v in s.jacmin_eval_nums]
    npt0 = spec.get("npt", n + 1)
    if not tr.log_complete():
        R.stats["log_incomplete"] += 1
        return R
    gr = tr.groups()
    if len(names) < n + 1 or len(set(names)) != len(names) or any(k not in gr for k in names):
        R.bad("names", "%s: jacmin_eval_nums=%s, %d points evaluated" % (what, names, len(gr)))
        return R
    if len(names) < npt0 or (len(names) > npt0 and not up.get("restarts.increase_npt")):
        R.bad("names-count", "%s: %d evaluations named, npt=%d" % (what, len(names), npt0))
        return R
    Y = np.array([tr.calls[gr[k][0]][0] for k in names])
    S = [np.array([tr.calls[i][1] for i in gr[k]]) for k in names]
    if not all(np.all(np.isfinite(v)) for v in S) or max(float(np.max(np.abs(v))) for v in S) > 1e100:
        R.stats["nonfinite_named"] += 1
        return R
    if not np.all(np.isfinite(J)):
        R.bad("jacobian-not-finite", "%s: J=%s though all named residuals are finite" % (what, J.tolist()))
        return R
    Rm = np.array([np.mean(v, axis=0) for v in S])
    # work in the coordinates the solver uses: per-coordinate width only matters with internal scaling
    if spec.get("scaling_within_bounds"):
        lo, hi = tr.ex["lo"], tr.ex["hi"]
        wd = hi - lo
        U = (Y - lo) / wd
        Js = J * wd
        xerr = 8 * EPS * (np.max(np.abs(lo) + np.abs(hi) + wd) / np.min(wd) if False else np.max((np.abs(lo) + np.abs(hi)) / wd) + 1.0)
    else:
        U, Js = Y.copy(), J
        xerr = 8 * EPS * float(np.max(np.abs([c[0] for c in tr.calls])))
    c = U.mean(axis=0)
    D = U - c
    dl = float(np.max(np.linalg.norm(D, axis=1)))
    if dl == 0:
        R.stats["degenerate_named_set"] += 1
        return R
    W = np.hstack([np.ones((len(names), 1)), D / dl])
    sv = np.linalg.svd(W, compute_uv=False)
    cond = sv[0] / sv[-1] if sv[-1] > 0 else np.inf
    # the solver factorises the matrix based at one of the points: condition at most a small factor larger; without preconditioning it scales with the diameter
    c2 = 3 * cond
    if not up.get("interpolation.precondition", True):
        c2 *= max(dl, 1.0 / dl)
    nr = float(np.linalg.norm(Rm, axis=1).max())
    C = np.linalg.lstsq(W, Rm, rcond=None)[0]
    fit = C[1:].T / dl
    resid = float(np.linalg.norm(Rm - W.dot(C)))
    nJ = max(float(np.linalg.norm(fit)), float(np.linalg.norm(Js)))
    rel = c2 * xerr / dl
    # least-squares perturbation: kappa*(data error) + kappa^2*(matrix error)*(fit residual)
    tol = 40 * (n + 1) * (c2 * (EPS * nr + xerr * nJ) + c2 * c2 * (xerr / dl + EPS) * resid) / dl + 1e-300
    if not (cond < 1e9 and rel < 1e-3):
        R.stats["ill_conditioned_named_set"] += 1
        return R
    e = float(np.linalg.norm(Js - fit))
    kind = "square" if len(names) == n + 1 else "regression"
    R.stats["fits_judged_" + kind] += 1
    R.stats["fits_judged_scaled"] += bool(spec.get("scaling_within_bounds"))
    R.stats["fits_judged_after_soft_restart"] += tr.soft_done > 0
    R.stats["fits_judged_after_hard_restart"] += tr.main_runs > 1
    R.stats["fits_judged_averaged"] += any(len(v) > 1 for v in S)
    R.stats["fits_judged_flag_%d" % s.flag] += 1
    R.stats["tolerance_below_1e-3_relative"] += tol < 1e-3 * nJ
    R.stats["tolerance_below_1e-6_relative"] += tol < 1e-6 * nJ
    if nJ > 0:
        R.stats["observed_error_over_tol_below_%s" % ("0.01" if e < 0.01 * tol else "0.1" if e < 0.1 * tol else "1")] += 1
    if not e <= tol:
        R.bad("jacobian-not-the-fit", "%s: |J - fit to points %s| = %.3g (relative %.3g), tolerance %.3g, cond=%.3g diameter %.3g" % (what, names, e, e / (nJ or 1), tol, cond, dl))
        return R
    lin = spec["prob"]["fam"] == "linear"
    if lin and not spec.get("noise"):
        A = problems.linear_matrix(spec["prob"])
        As = A * wd if spec.get("scaling_within_bounds") else A
        eA = float(np.linalg.norm(Js - As))
        R.stats["linear_compared_with_A"] += 1
        # the recorded residuals themselves carry rounding ~eps*(|A||x|+|b|)
        rr = EPS * 4 * (n + 1) * (float(np.max(np.abs(A).dot(np.max(np.abs(Y), axis=0)))) + float(np.max(np.abs(problems.linear_rhs(spec["prob"], A)))))
        tA = tol + 10 * c2 * rr * np.sqrt(len(names) * m) / dl
        if not eA <= tA:
            R.bad("jacobian-not-A", "%s: linear residuals but |J - A| = %.3g (relative %.3g), tolerance %.3g" % (what, eA, eA / np.linalg.norm(As), tA))
            return R
    last = max(gr)
    if (not lin) or spec.get("scaling_within_bounds"):
        R.sig(spec["prob"]["fam"], n, m, len(names), bool(spec.get("scaling_within_bounds")), spec.get("bounds") is not None, min(tr.soft_done, 3), min(tr.main_runs - 1, 3), sorted(last - k for k in names)[:3], names != sorted(names))
        R.sample = {"problem": spec["prob"]["fam"], "n": n, "m": m, "names": names, "rel_error": e / (nJ or 1), "rel_tol": tol / (nJ or 1), "cond": cond, "soft": tr.soft_done, "hard": tr.main_runs - 1, "msg": s.msg}
    return R
