"""Deterministic oracles over a recorded Trace (see trace.py).  Each takes (tr, R) and reports through R.bad(mechanism, message)."""
import numpy as np
from .problems import regulariser

EPS = np.finfo(float).eps


def hval(tr, x):
    h = tr.ex["h"]
    return 0.0 if h is None else float(h(x, *tr.ex.get("argsh", ())))


def sumsq(r):
    with np.errstate(all="ignore"):
        return float(np.dot(r, r))


def finished(tr, R):
    """counts and classifies runs that gave no result object"""
    if tr.soln is None:
        R.stats["raised_" + type(tr.exc).__name__] += 1
        return False
    if tr.soln.x is None:
        R.stats["input_error_results"] += 1
        return False
    R.stats["exit_flag_%d" % tr.soln.flag] += 1
    return True


# ------------------------------------------------------------------------------------------------ C02
def c02(tr, R):
    cap, nc = tr.maxfun, tr.ncalls
    R.stats["calls_observed"] += nc
    if nc > cap:
        R.bad("budget-exceeded", "objfun called %d times, maxfun=%d" % (nc, cap))
    s = tr.soln
    logging_on = tr.spec.get("do_logging", True)
    g = None
    if logging_on:
        done = sum(1 for c in tr.calls if c[1] is not None)
        if len(tr.pts) != done:
            R.bad("log-count", "%d completed calls but %d log records" % (done, len(tr.pts)))
        else:
            R.stats["log_records"] += done
            prev = 0
            for i, (nf, nx, _) in enumerate(tr.pts):
                if nf != i + 1:
                    R.bad("eval-numbering", "record %d is numbered %d" % (i + 1, nf)); break
                if tr.pt_call[i] != i + 1:
                    R.bad("log-order", "record %d emitted after %d calls" % (i + 1, tr.pt_call[i])); break
                if nx not in (prev, prev + 1) or nx < 1:
                    R.bad("point-numbering", "record %d: point %d follows point %d" % (i + 1, nx, prev)); break
                if nx == prev and tr.calls[i][0].tobytes() != tr.calls[i - 1][0].tobytes():
                    R.bad("same-point-different-x", "calls %d and %d both point %d, x differ: %s vs %s" % (i, i + 1, nx, tr.calls[i - 1][0].tolist(), tr.calls[i][0].tolist())); break
                prev = nx
            g = tr.groups()
    if s is not None and s.flag != s.EXIT_INPUT_ERROR and not tr.exc:
        if s.nf != nc:
            R.bad("nf-mismatch", "soln.nf=%r but %d calls were made (%s)" % (s.nf, nc, s.msg))
        if g is not None:
            last = tr.pts[-1][1] if tr.pts else 0
            if s.nx != last:
                R.bad("nx-mismatch", "soln.nx=%r but last point number is %d (%s)" % (s.nx, last, s.msg))
        if not tr.spec.get("nsamples") and s.nx != s.nf:
            R.bad("nx-ne-nf", "no averaging but nx=%r nf=%r" % (s.nx, s.nf))
        if s.flag == s.EXIT_INPUT_ERROR and nc:
            R.bad("input-error-evals", "input error after %d calls" % nc)
    if g is not None and tr.exc is None:
        # sample counts
        ns = tr.ns
        for pt, idx in g.items():
            want = 1
            if tr.spec.get("nsamples"):
                prior = [v for v in ns if v[0] <= idx[0]]
                if not prior:
                    R.bad("nsamples-not-asked", "point %d evaluated before nsamples was ever called" % pt); break
                want = max(1, int(prior[-1][1]))
                # a callback answer given after the point started is not allowed to change its count
            got = len(idx)
            R.stats["points_checked"] += 1
            if want > 1:
                R.stats["multi_sample_points"] += 1
            if got != want:
                if got < want and idx[-1] == nc - 1 and nc >= cap:
                    R.stats["points_cut_by_budget"] += 1
                else:
                    R.bad("sample-count", "point %d sampled %d times, nsamples asked for %d (calls %d of %d, maxfun %d)" % (pt, got, want, idx[-1] + 1, nc, cap)); break


# ------------------------------------------------------------------------------------------------ C03
def xtol(tr, x):
    sc = max([float(np.max(np.abs(c[0]))) for c in tr.calls if np.all(np.isfinite(c[0]))] + [1e-300])
    if tr.spec.get("scaling_within_bounds") and tr.ex["lo"] is not None:
        sc = max(sc, float(np.max(np.abs(tr.ex["lo"]))), float(np.max(np.abs(tr.ex["hi"]))))
    if tr.spec.get("projs"):
        p = len(tr.spec["projs"]) + 1
        tol = (tr.spec.get("user_params") or {}).get("dykstra.d_tol", 1e-10)
        return 1e-11 * sc + 20 * np.sqrt(p * tol)
    return 1e-11 * sc


def same(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    nb = ~((a == b) | (np.isnan(a) & np.isnan(b)))
    if not np.any(nb):
        return True
    d = np.abs(a[nb] - b[nb])
    t = np.broadcast_to(np.asarray(tol, float), a.shape)[nb]
    return bool(np.all(d <= t))


def mean_resid(tr, idx):
    rs = np.array([tr.calls[i][1] for i in idx], float)
    return np.mean(rs, axis=0), np.max(np.abs(rs), axis=0)


def c03_end(tr, R, mech=""):
    s = tr.soln
    if not tr.log_complete():
        return
    g = tr.groups()
    if s.xmin_eval_num not in g:
        R.bad(mech + "eval-num-unknown", "xmin_eval_num=%r is not an evaluated point (points 1..%d) msg=%s" % (s.xmin_eval_num, len(g), s.msg))
        return
    idx = g[s.xmin_eval_num]
    xe = tr.calls[idx[0]][0]
    tol = xtol(tr, xe)
    if not same(s.x, xe, tol):
        R.bad(mech + "x-not-named-point", "soln.x=%s but point %d was at %s (diff %s) msg=%s" % (s.x.tolist(), s.xmin_eval_num, xe.tolist(), (s.x - xe).tolist(), s.msg))
        return
    rm, rmax = mean_resid(tr, idx)
    if not same(s.resid, rm, 1e-12 * rmax * len(idx) + 1e-300):
        R.bad(mech + "resid-not-mean", "soln.resid=%s but mean of the %d samples of point %d is %s msg=%s" % (np.asarray(s.resid).tolist(), len(idx), s.xmin_eval_num, rm.tolist(), s.msg))
        return
    f = sumsq(s.resid) + hval(tr, s.x)
    ftol = 1e-11 * (abs(f) + abs(hval(tr, s.x))) + (tr.spec["reg"]["lam"] * tr.spec["reg"]["n"] * tol if tr.spec.get("reg") else 0) + 1e-300
    if not same(s.obj, f, ftol if np.isfinite(ftol) else 0.0):
        R.bad(mech + "obj-mismatch", "soln.obj=%r but sum(resid^2)+h(x)=%r msg=%s" % (s.obj, f, s.msg))
        return
    R.stats["solutions_checked"] += 1


def c03_live(R):
    """returns a callback run once per main-loop iteration"""
    def cb(model, tr):
        if not tr.log_complete() or R.viol:
            return
        g = tr.groups()
        R.stats["live_iterations"] += 1
        try:
            npt = model.npt()
            items = [(int(model.eval_num[k]), int(model.nsamples[k]), model.fval_v[k, :], float(model.objval[k]), model.xpt(k, abs_coordinates=True), "point %d" % k) for k in range(npt)]
            if model.objsave is not None:
                items.append((int(model.eval_num_save), int(model.nsamples_save), model.rsave, float(model.objsave), np.asarray(model.xsave), "saved point"))
            sc = model.scaling_changes
        except AttributeError:
            R.stats["live_hook_incompatible"] += 1
            return
        for ev, nsmp, r, obj, x, what in items:
            if ev not in g:
                R.bad("live-eval-num", "%s carries evaluation number %d; points so far 1..%d" % (what, ev, len(g))); return
            idx = g[ev]
            xe = tr.calls[idx[0]][0]
            xu = x if sc is None else sc[0] + x * sc[1]
            tol = xtol(tr, xe)
            if not same(xu, xe, tol):
                R.bad("live-x", "%s (evaluation point %d) is stored at %s but was evaluated at %s" % (what, ev, xu.tolist(), xe.tolist())); return
            rm, rmax = mean_resid(tr, idx)
            if nsmp != len(idx):
                R.bad("live-nsamples", "%s (evaluation point %d) has sample count %d but was sampled %d times" % (what, ev, nsmp, len(idx))); return
            if not same(r, rm, 1e-11 * rmax * len(idx) + 1e-300):
                R.bad("live-resid", "%s (evaluation point %d) residual %s, mean of samples %s" % (what, ev, np.asarray(r).tolist(), rm.tolist())); return
            f = sumsq(r) + hval(tr, xe)
            ftol = 1e-10 * (abs(f) + abs(hval(tr, xe))) + (tr.spec["reg"]["lam"] * tr.spec["reg"]["n"] * tol if tr.spec.get("reg") else 0) + 1e-300
            if not same(obj, f, ftol if np.isfinite(ftol) else 0.0):
                R.bad("live-obj", "%s (evaluation point %d) objective %r, recomputed %r" % (what, ev, obj, f)); return
            R.stats["live_points_checked"] += 1
    return cb


# ------------------------------------------------------------------------------------------------ C04
def objective_of_call(tr, i):
    x, r = tr.calls[i]
    return sumsq(r) + hval(tr, x)


def objtol(tr, f):
    # soln.obj is sumsq + h at the stored x, which may differ from the evaluated x by base-point rounding (h only)
    t = 1e-12 * abs(f) + 1e-300
    if tr.ex["h"] is not None:
        t += 1e-11 * abs(f) + tr.spec["reg"]["lam"] * tr.spec["reg"]["n"] * xtol(tr, None)
    return t


def c04_end(tr, R):
    s = tr.soln
    fs = [objective_of_call(tr, i) for i in range(tr.ncalls) if tr.calls[i][1] is not None]
    fin = [f for f in fs if not np.isnan(f)]
    R.stats["objectives_compared"] += len(fin)
    if not fin:
        return
    best = min(fin)
    if not (s.obj <= best + objtol(tr, best)):
        i = fs.index(best)
        R.bad("best-point-lost", "soln.obj=%r but call %d of %d (point %s) had objective %r; f(x0)=%r msg=%s nruns=%r" % (
            s.obj, i + 1, tr.ncalls, tr.pts[i][1] if i < len(tr.pts) else "?", best, fs[0], s.msg, s.nruns))


def c04_live(R):
    st = {"n": 0, "best": np.inf}

    def cb(model, tr):
        if R.viol:
            return
        R.stats["live_iterations"] += 1
        for i in range(st["n"], tr.ncalls):
            f = objective_of_call(tr, i)
            if f < st["best"]:
                st["best"], st["at"] = f, i
        st["n"] = tr.ncalls
        try:
            cur = [float(model.objopt())] + ([float(model.objsave)] if model.objsave is not None else [])
        except AttributeError:
            R.stats["live_hook_incompatible"] += 1
            return
        cur = [c for c in cur if not np.isnan(c)]
        have = min(cur) if cur else np.inf
        # within a hard restart the result of the previous run is held outside the model
        if tr.main_runs > 1:
            return
        if np.isfinite(st["best"]) and not (have <= st["best"] + objtol(tr, st["best"])):
            R.bad("live-best-lost", "at an iteration top after %d calls the model holds %r but call %d had objective %r" % (tr.ncalls, have, st["at"] + 1, st["best"]))
    return cb


# ------------------------------------------------------------------------------------------------ C10
def c10(tr, R):
    s = tr.soln
    up = tr.spec.get("user_params") or {}
    abs_tol, rel_tol = up.get("model.abs_tol", 1e-12), up.get("model.rel_tol", 1e-20)
    msg = s.msg or ""
    succ = s.flag == s.EXIT_SUCCESS
    R.stats["msg: " + msg] += 1
    # the class announced by the message stem is the class of the flag
    cls = "Success" if succ else "Error" if s.flag < 0 else "Warning"
    for stem in ("Success", "Warning", "Error", "Unknown"):
        if msg.startswith(stem) and stem != cls:
            R.bad("stem-vs-flag", "flag %d (%s) with message %r" % (s.flag, cls, msg))
    if succ and not np.isfinite(s.obj):
        R.bad("success-nonfinite", "flag success with obj=%r msg=%s" % (s.obj, msg))
    if succ and "sufficiently small" in msg:
        g = tr.groups()
        idx = g.get(1, [0])
        f0 = sumsq(mean_resid(tr, idx)[0]) + hval(tr, tr.calls[0][0])
        thr = [max(abs_tol, rel_tol * f0)]
        # a restarted run measures against the objective at its own starting point, which is never larger
        if not (s.obj <= thr[0] * (1 + 1e-12) + 1e-300 + (objtol(tr, s.obj) if tr.ex["h"] is not None else 0)):
            R.bad("small-objective-lie", "obj=%r > max(abs_tol=%r, rel_tol*f0=%r) msg=%s" % (s.obj, abs_tol, rel_tol * f0, msg))
        R.stats["claims_small"] += 1
    if succ and "rhoend" in msg:
        di = s.diagnostic_info
        R.stats["claims_rhoend"] += 1
        if di is not None and len(di):
            rho = float(di["rho"].iloc[-1])
            want = tr.spec.get("rhoend", 1e-8)
            k = s.nruns - 1 if (up.get("restarts.use_restarts", bool(tr.spec.get("objfun_has_noise")))) else 0
            want = [want * up.get("restarts.rhoend_scale", 1.0) ** j for j in ([k] if k >= 0 else [0])]
            R.stats["rhoend_rows_checked"] += 1
            if not any(abs(rho - w) <= 1e-9 * w for w in want):
                R.bad("rhoend-lie", "message %r but last recorded rho=%r, rhoend=%r" % (msg, rho, want))
    if s.flag == s.EXIT_MAXFUN_WARNING:
        R.stats["claims_maxfun"] += 1
        if tr.ncalls != tr.maxfun or s.nf != tr.maxfun:
            R.bad("maxfun-lie", "max-evaluations warning with nf=%r (calls %d), maxfun=%d" % (s.nf, tr.ncalls, tr.maxfun))
    if "unsuccessful restarts" in msg:
        R.stats["claims_unsuccessful"] += 1
        lim = up.get("restarts.max_unsuccessful_restarts", 10)
        if s.nruns < lim:
            R.bad("restarts-lie", "%r but nruns=%r < %r" % (msg, s.nruns, lim))
        if not up.get("restarts.use_restarts", bool(tr.spec.get("objfun_has_noise"))):
            R.bad("restarts-lie-off", "%r although restarts are disabled (nruns=%r)" % (msg, s.nruns))
    # nruns
    soft_log = sum(1 for m in tr.msgs if m[1].startswith("Soft restart ["))
    hard_log = sum(1 for m in tr.msgs if m[1].startswith("Restarting from"))
    if tr.main_runs and (tr.soft_hook or not soft_log):   # hooks alive
        done = tr.soft_done + max(0, tr.main_runs - 1)
        ok = [1 + done + a for a in range(tr.soft_aborted + 1)]
        if tr.main_runs > 1 and tr.soft_done + tr.soft_aborted > 0:
            ok = range(1, done + tr.soft_aborted + 3)
    else:
        ok = range(max(1, soft_log + hard_log - 1), 2 + soft_log + hard_log)   # a restart cut short may or may not be counted
    R.stats["nruns_checked"] += 1
    R.stats["restarts_seen"] += tr.soft_done + max(0, tr.main_runs - 1)
    if s.nruns not in ok:
        R.bad("nruns", "soln.nruns=%r but restarts performed: soft %d (+%d aborted), hard %d; msg=%s" % (s.nruns, tr.soft_done, tr.soft_aborted, max(0, tr.main_runs - 1), msg))
    if s.flag == s.EXIT_INPUT_ERROR and tr.ncalls:
        R.bad("input-error-after-evals", msg)


# ------------------------------------------------------------------------------------------------ C18
COLS = ["fk", "rho", "delta", "interpolation_error", "interpolation_condition_number", "interpolation_change_J_norm", "interpolation_total_residual",
        "poisedness", "max_distance_xk", "norm_gk", "norm_sk", "nruns", "nf", "nx", "npt", "nsamples", "iter_this_run", "iters_total",
        "iter_type", "ratio", "slow_iter"]


def c18(tr, R):
    s = tr.soln
    sp, up = tr.spec, tr.spec.get("user_params") or {}
    df = s.diagnostic_info
    if not up.get("logging.save_diagnostic_info"):
        if df is not None:
            R.bad("table-unasked", "diagnostic table present although not requested")
        return
    if df is None:
        R.bad("no-table", "no diagnostic table"); return
    want = set(COLS) | ({"xk"} if up.get("logging.save_xk") else set()) | ({"rk"} if up.get("logging.save_rk") else set())
    if set(df.columns) != want:
        R.bad("columns", "columns differ: missing %s extra %s" % (sorted(want - set(df.columns)), sorted(set(df.columns) - want)))
        return
    N = len(df)
    R.stats["rows"] += N
    R.stats["tables"] += 1
    if N == 0:
        R.stats["empty_tables"] += 1
        return
    n = len(sp["x0"])
    rhobeg = sp.get("rhobeg")
    if rhobeg is None:
        rhobeg = 0.1 if sp.get("scaling_within_bounds") else 0.1 * max(float(np.max(np.abs(np.array(sp["x0"])))), 1.0)
    rhoend = sp.get("rhoend", 1e-8)
    scale = up.get("restarts.rhoend_scale", 1.0)
    npt0 = sp.get("npt", n + 1)
    # "the allowed maximum" is npt, or restarts.max_npt when the restarts may increase it
    npt_max = max(npt0, up.get("restarts.max_npt", npt0)) if up.get("restarts.increase_npt") else npt0
    col = {c: df[c].tolist() for c in df.columns}
    noisy = bool(sp.get("noise")) or bool(sp.get("nsamples"))
    reset_rho = bool(up.get("growing.reset_rho"))
    e = 1 + 1e-12
    prev = None
    best = np.inf
    for i in range(N):
        row = {c: col[c][i] for c in ("rho", "delta", "nruns", "nf", "nx", "npt", "iter_this_run", "iters_total", "fk", "nsamples")}
        def bad(m, t):
            R.bad(m, "row %d of %d: %s %s msg=%s" % (i, N, t, {k: row[k] for k in ("rho", "delta", "nruns", "nf", "nx", "npt", "iter_this_run", "fk")}, s.msg))
        if not (row["rho"] > 0): bad("rho-nonpositive", ""); return
        if not (row["delta"] * e >= row["rho"]): bad("delta-below-rho", ""); return
        if not (row["delta"] <= 1e10): bad("delta-above-1e10", ""); return
        if not (row["rho"] <= rhobeg * e): bad("rho-above-rhobeg", "rhobeg=%r" % rhobeg); return
        k = row["nruns"]
        lim = rhoend * scale ** k
        if not (row["rho"] * (1 + 1e-9) >= min(lim, rhoend * scale ** max(k, 0))): bad("rho-below-rhoend", "rhoend=%r after %d restarts" % (lim, k)); return
        if row["iters_total"] != i: bad("iters-total", ""); return
        if not (2 <= row["npt"] <= npt_max): bad("npt-range", "allowed [2,%d]" % npt_max); return
        if not (1 <= row["nx"] <= row["nf"]): bad("nx-nf", ""); return
        if row["nf"] > s.nf or row["nx"] > s.nx or row["nruns"] > s.nruns - 0 or row["nruns"] < 0: bad("counter-above-final", "final nf=%r nx=%r nruns=%r" % (s.nf, s.nx, s.nruns)); return
        if prev is None:
            if row["iter_this_run"] != 0 : bad("first-iter", ""); return
        else:
            if row["nf"] < prev["nf"] or row["nx"] < prev["nx"] or row["nruns"] < prev["nruns"]: bad("counter-decreased", "previous %s" % prev); return
            if row["nruns"] == prev["nruns"]:
                if row["iter_this_run"] != prev["iter_this_run"] + 1: bad("iteration-number", "previous iter_this_run %d" % prev["iter_this_run"]); return
                if row["rho"] > prev["rho"] * e and not reset_rho: bad("rho-increased", "previous rho %r" % prev["rho"]); return
            elif row["iter_this_run"] != 0 :
                bad("restart-iteration-number", "first row of run %d" % row["nruns"]); return
            hard = not up.get("restarts.use_soft_restarts", True)
            if not noisy:
                if row["nruns"] == prev["nruns"] or not hard:
                    if row["fk"] > prev["fk"] + objtol(tr, prev["fk"]) and not np.isnan(prev["fk"]): bad("best-increased", "previous fk %r" % prev["fk"]); return
        prev = row
    R.stats["rows_checked"] += N
    R.stats["runs_in_tables"] += len(set(col["nruns"]))
    # last rows against the final result
    R.stats["rho_levels"] += len(set(col["rho"]))
