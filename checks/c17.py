"""C17: Model bookkeeping - random operation sequences on the real Model against a shadow model kept by the harness."""
import numpy as np
from vlib import gen
from vlib.runner import Result

DIRECT = True
RULE = ("random sequences (length up to 50) of change_point / add_new_point / add_new_sample / swap_points / shift_base / save_point (absolute and relative) / re-fit / get_final_results on a Model object, n 1..5, m 1..5, "
        "growing and full sets, with/without regulariser, scaling, bounds and a projection; residual data with exact ties, duplicated points, NaN, +-inf, overflow (1e160..1e300), zeros and denormals; every public attribute "
        "compared with the shadow after each operation; plus live monitoring of the same invariants in real runs with faults; non-trivial = sequences with a swap or resample and a non-finite or tied value; "
        "distinct by (n, m, regulariser, value classes, last four operations)")
ASSUMPTIONS = ["regulariser deterministic", "the stored point is the one Model.xpt reports (bounds applied)"]
EPS = np.finfo(float).eps


def cases(seed, tier):
    for i in range(2500 if tier == "quick" else 90000):
        yield {"seed": seed, "i": i, "count": 8}
    for i in range(300 if tier == "quick" else 8000):
        g = gen.rng_for("c17live", seed, i)
        sp = gen.gen_case(g, dict(maxfun=(8, 60), p_nsamples=0.5, p_restart=0.5, p_reg=0.1))
        if g.random() < 0.6:
            sp["fault"] = {"at": int(g.integers(1, 25)), "kind": str(g.choice(["nan", "inf", "1e200"])), "mode": str(g.choice(["one", "from", "every"])), "comp": "all" if g.random() < 0.5 else int(g.integers(0, 7))}
        yield {"live": sp}


def ss(r):
    with np.errstate(all="ignore"):
        return float(np.dot(r, r))


def close(a, b, scale=0.0, rel=1e-11):
    """equal up to rounding, nan and inf included"""
    if np.isnan(a) or np.isnan(b): return bool(np.isnan(a) and np.isnan(b))
    if np.isinf(a) or np.isinf(b):
        return a == b or (max(abs(a) if np.isfinite(a) else 0, abs(b) if np.isfinite(b) else 0) > 1e307 and np.sign(a) == np.sign(b))
    return abs(a - b) <= rel * max(abs(a), abs(b)) + scale


def vclose(a, b, scale):
    return all(close(float(x), float(y), scale) for x, y in zip(a, b))


def better(a, b):
    """a strictly better than b; inf and nan rank equal (the property only asks for finite before NaN)"""
    if not np.isfinite(a): return False
    if not np.isfinite(b): return True
    return a < b


def run_case(spec):
    R = Result()
    if "live" in spec:
        return live(spec["live"], R)
    for j in range(spec["count"]):
        if spec.get("only") is not None and j != spec["only"]: continue
        sequence(gen.rng_for("c17", spec["seed"] * 1000003 + spec["i"], j), R, "case %d/%d: " % (spec["i"], j))
    return R


def sequence(g, R, where):
    from dfols.model import Model
    n, m = int(g.integers(1, 6)), int(g.integers(1, 6))
    npt = int(g.integers(n + 1, 2 * n + 3))
    x0 = np.round(g.normal(size=n) * 4) / 4 if g.random() < 0.5 else g.normal(size=n) * 10 ** g.uniform(-1, 3)
    reg = g.random() < 0.4
    lam = float(10 ** g.uniform(-2, 1)); cc = g.normal(size=n)
    scal = None
    if g.random() < 0.3:
        shift, wd = g.normal(size=n), 10.0 ** g.uniform(-1, 1, size=n)
        scal = (shift, wd)
    hx = (lambda x: lam * float(np.sum(np.abs(x - cc)))) if reg else None
    tok = object()
    hargs = (tok,) if reg and g.random() < 0.3 else ()
    hcall = None
    if reg:
        hcall = (lambda x, t: hx(x) if t is tok else 1 / 0) if hargs else hx
    unscale = lambda x: x if scal is None else scal[0] + x * scal[1]
    bd = g.random() < 0.4
    xl = x0 - g.uniform(0.5, 3, size=n) if bd else np.full(n, -1e20)
    xu = x0 + g.uniform(0.5, 3, size=n) if bd else np.full(n, 1e20)
    projs = []
    if not bd and scal is None and g.random() < 0.15:
        rr = 5.0
        projs = [lambda w: w.copy() if np.linalg.norm(w - x0) <= rr else x0 + (rr / np.linalg.norm(w - x0)) * (w - x0)]
    pool = [np.round(g.normal(size=m) * 2) / 2 for _ in range(3)]
    mode = ["finite", "ties", "ties", "nan", "wild"][int(g.integers(5))]
    used = set()

    def rv():
        r = g.normal(size=m) * 10 ** g.uniform(-1, 1)
        u = g.random()
        if mode in ("ties", "nan", "wild") and u < 0.5:
            used.add("tie"); r = pool[int(g.integers(3))].copy()
            if g.random() < 0.3: r = -r
        if mode == "nan" and g.random() < 0.35:
            used.add("nan"); r[int(g.integers(m))] = np.nan
        if mode == "wild" and g.random() < 0.5:
            k = int(g.integers(7))
            v = [np.nan, np.inf, -np.inf, 1e160, -1e300, 0.0, 5e-324][k]
            used.add(("nan", "inf", "inf", "big", "big", "zero", "den")[k])
            if g.random() < 0.3: r[:] = v
            else: r[int(g.integers(m))] = v
        return r

    def pt():
        if g.random() < 0.15 and Ys: return Ys[int(g.integers(len(Ys)))].copy()
        return np.clip(x0 + g.normal(size=n) * g.choice([0.01, 1.0]), xl, xu)
    r0 = rv()
    num0 = int(g.integers(1, 4)); ev0 = int(g.integers(1, 9))
    Ys = []
    M = Model(npt, x0.copy(), r0.copy(), xl.copy(), xu.copy(), projs, num0, h=hcall, argsh=hargs, n=n, m=m, do_logging=False, scaling_changes=scal, r0_eval_num=ev0)
    Ys = [x0.copy()]
    S = [[(r0.copy(), num0)]]       # (mean of a block, number of samples in it)
    E = [ev0]
    saved = None                    # (obj, x, r, nsamples, evalnum, jac, jacnums) of the best saved point; list of candidates on ties
    sync = True                     # incumbent must be the best stored value
    ev = ev0
    ops = []
    drift = 0.0

    def mean(s):
        with np.errstate(all="ignore"):
            a, c = s[0][0].astype(np.longdouble) * 1, s[0][1]
            if len(s) == 1: return s[0][0]
            tot = sum(x[0].astype(np.longdouble) * x[1] for x in s); cnt = sum(x[1] for x in s)
            return (tot / cnt).astype(float)

    def bad(mech, msg):
        R.bad(mech, "%s%s; ops %s" % (where, msg, ops))
        return True

    def check():
        k = len(Ys)
        if M.npt() != k: return bad("count", "npt()=%d, %d points were stored" % (M.npt(), k))
        R.stats["states_checked"] += 1
        xs = []
        sc_x = 64 * EPS * (1 + ops.count("shift")) * (float(np.max(np.abs(M.xbase))) + drift + float(np.max(np.abs(x0))) + 10)
        for i in range(k):
            xa = M.xpt(i, abs_coordinates=True)
            if float(np.max(np.abs(xa - Ys[i]))) > sc_x + (1e-4 if projs else 0): return bad("point-moved", "stored point %d is %s, expected %s" % (i, xa.tolist(), Ys[i].tolist()))
            mu = mean(S[i]); mx = max([float(np.max(np.abs(np.where(np.isfinite(s[0]), s[0], 0)))) for s in S[i]])
            r = M.fval_v[i, :]
            ok = True
            for a, b in zip(r, mu):
                if len(S[i]) == 1: ok = ok and (a == b or (np.isnan(a) and np.isnan(b)))
                elif mx > 1e290: ok = ok and (np.isnan(a) == np.isnan(b) or mx > 1e290)
                else: ok = ok and close(float(a), float(b), 1e-13 * mx + 1e-300)
            if not ok: return bad("residual-not-mean", "stored residual %d is %s, mean of its samples is %s" % (i, r.tolist(), mu.tolist()))
            cnt = sum(s[1] for s in S[i])
            if int(M.nsamples[i]) != cnt: return bad("sample-count", "point %d has nsamples=%d, %d samples were given" % (i, int(M.nsamples[i]), cnt))
            if int(M.eval_num[i]) != E[i]: return bad("eval-number", "point %d has evaluation number %d, expected %d" % (i, int(M.eval_num[i]), E[i]))
            o = ss(r)
            if hx is not None: o = o + hx(unscale(xa))
            if not close(float(M.objval[i]), o, 1e-13 + lam * n * sc_x * (float(np.max(scal[1])) if scal else 1.0) if reg else 0.0):
                return bad("objective", "stored objective %d is %r, sum(r^2)+h = %r" % (i, float(M.objval[i]), o))
        ko = M.kopt
        if not 0 <= ko < k: return bad("incumbent-index", "kopt=%r of %d points" % (ko, k))
        ov = M.objval[:k]
        if sync and any(better(v, ov[ko]) for v in ov):
            return bad("incumbent-not-best", "incumbent has objective %r, stored objectives %s" % (float(ov[ko]), ov.tolist()))
        if not (M.objopt() == ov[ko] or np.isnan(ov[ko])) or not np.array_equal(M.ropt(), M.fval_v[ko, :], equal_nan=True): return bad("incumbent-accessors", "objopt/ropt are not those of kopt")
        # final selection
        with np.errstate(all="ignore"):
            x, r, obj, jac, ns, en, jn = M.get_final_results()
        cands = [("incumbent", float(ov[ko]), M.xopt(abs_coordinates=True), M.ropt(), int(M.nsamples[ko]), int(M.eval_num[ko]))]
        cands += [("saved",) + t for t in (saved or [])]
        best = cands[0][1]
        for c in cands:
            if better(c[1], best): best = c[1]
        if better(best, float(obj)): return bad("final-not-best", "get_final_results gives objective %r, candidates %s" % (float(obj), [(c[0], c[1]) for c in cands]))
        match = [c for c in cands if (c[1] == obj or (np.isnan(c[1]) and np.isnan(obj))) and np.array_equal(c[2], x) and np.array_equal(c[3], r, equal_nan=True) and c[4] == int(ns) and c[5] == int(en)]
        if not match: return bad("final-mixed", "get_final_results gives (x=%s, obj=%r, nsamples=%r, eval=%r) matching none of %s" % (x.tolist(), float(obj), ns, en, [(c[0], c[1], c[2].tolist(), c[4], c[5]) for c in cands]))
        R.stats["final_from_" + match[0][0]] += 1
        R.stats["final_nan"] += bool(np.isnan(obj))
        return False
    if check(): return
    for step in range(int(g.integers(5, 51))):
        k = len(Ys)
        can_grow = M.npt_so_far < M.num_pts
        o = str(g.choice(["grow", "grow", "replace", "replace", "noupd", "append", "swap", "swap", "sample", "sample", "shift", "save", "save", "saverel", "fit", "xopt"]))
        if o == "grow" and not can_grow: o = "replace"
        if o == "append" and can_grow: o = "grow"
        if o == "append" and k > 12: o = "swap"
        R.evals += 1
        before = M.objval[:k].copy(); ko = M.kopt
        isync = not any(better(v, before[ko]) for v in before)   # actual state before
        if o in ("grow", "replace", "noupd", "xopt"):
            i = k if o == "grow" else M.kopt if o == "xopt" else int(g.integers(k))
            y, r = pt(), rv(); ev += 1
            ops.append("%s(%d)" % (o, i))
            M.change_point(i, y - M.xbase, r.copy(), ev, allow_kopt_update=(o != "noupd"))
            if i == k: Ys.append(y); S.append([(r, 1)]); E.append(ev)
            else: Ys[i], S[i], E[i] = y, [(r, 1)], ev
            new = float(M.objval[i])
            if i == ko and better(before[ko], new): sync = False      # the incumbent itself was overwritten by a worse point
            elif o == "noupd" and better(new, float(before[ko])) and i != ko: sync = False   # the caller asked not to update the incumbent
            elif not isync: sync = not any(better(v, M.objval[M.kopt]) for v in M.objval[:len(Ys)])
            else: sync = True
            if not isync and o != "noupd" and i != ko and better(new, float(before[ko])) and M.kopt != i:
                bad("incumbent-not-updated", "new value %r better than the incumbent's %r, kopt=%d" % (new, float(before[ko]), M.kopt)); return
        elif o == "append":
            y, r = pt(), rv(); ev += 1
            ops.append("append")
            M.add_new_point(y - M.xbase, r.copy(), ev)
            Ys.append(y); S.append([(r, 1)]); E.append(ev)
            new = float(M.objval[-1])
            if isync: sync = True
            else: sync = not any(better(v, M.objval[M.kopt]) for v in M.objval[:len(Ys)])
        elif o == "swap":
            i, j = int(g.integers(k)), int(g.integers(k))
            if g.random() < 0.4: i = M.kopt
            ops.append("swap(%d,%d)" % (i, j))
            M.swap_points(i, j)
            for L in (Ys, S, E): L[i], L[j] = L[j], L[i]
            exp = j if ko == i else i if ko == j else ko
            if M.kopt != exp: bad("swap-incumbent", "incumbent index %d after swapping %d,%d (was %d)" % (M.kopt, i, j, ko)); return
        elif o == "sample":
            i = M.kopt if g.random() < 0.3 else int(g.integers(k))
            r = rv()
            if g.random() < 0.5: r = S[i][0][0] + 0.1 * g.normal(size=m)
            ops.append("sample(%d)" % i)
            with np.errstate(all="ignore"): M.add_new_sample(i, r.copy())
            S[i] = S[i] + [(r, 1)]
            sync = True
        elif o == "shift":
            s = g.normal(size=n) * g.choice([0.1, 1, 10]) if g.random() < 0.5 else M.xopt().copy()
            ops.append("shift"); drift = max(drift, float(np.max(np.abs(s))) + float(np.max(np.abs(M.points[:k]))))
            M.shift_base(s)
            if M.kopt != ko: bad("shift-incumbent", "incumbent moved under a base shift"); return
        elif o in ("save", "saverel"):
            if g.random() < 0.5:
                y, r, ns, en = M.xopt(abs_coordinates=True).copy(), M.ropt().copy(), int(M.nsamples[ko]), int(M.eval_num[ko])
            else:
                y, r, ns, en = pt(), rv(), int(g.integers(1, 5)), ev
            ops.append(o)
            was = [t for t in (saved or [])]
            xin = y.copy() if o == "save" else y - M.xbase
            xabs = y if o == "save" else M.as_absolute_coordinates(xin)
            with np.errstate(all="ignore"): took = M.save_point(xin, r.copy(), ns, en, x_in_abs_coords=(o == "save"))
            ob = ss(r) + (hx(unscale(xabs)) if reg else 0.0)
            cur = (ob, xabs.copy(), r.copy(), ns, en)
            if not was:
                if not took: bad("save-refused", "first save refused"); return
                saved = [cur]
            else:
                old = was[0][0]
                if better(ob, old) and not close(ob, old):
                    if not took: bad("save-refused", "saving objective %r over %r refused" % (ob, old)); return
                if took and better(old, ob) and not close(ob, old): bad("save-worse", "saved objective %r replaced by %r" % (old, ob)); return
                saved = [cur] if took else was
            # compare the saved fields as held by the model
            if took and not (close(float(M.objsave), ob, 1e-12) and np.array_equal(M.xsave, xabs) and np.array_equal(M.rsave, r, equal_nan=True) and M.nsamples_save == ns and M.eval_num_save == en):
                bad("save-fields", "saved (%r, %s, %r, %r), expected (%r, %s, %r, %r)" % (M.objsave, M.xsave.tolist(), M.nsamples_save, M.eval_num_save, ob, xabs.tolist(), ns, en)); return
            if took: saved = [(float(M.objsave),) + cur[1:]]
            if took:
                r[:] = 123.0; y[:] = 77.0; xin[:] = 55.0     # later changes to the caller's arrays must not leak in
        elif o == "fit" and k >= 2:
            ops.append("fit")
            try:
                with np.errstate(all="ignore"): M.interpolate_mini_models_svd()
            except Exception as e:
                R.stats["fit_raised_" + type(e).__name__] += 1
        else:
            continue
        R.stats["ops_" + o] += 1
        if check(): return
    if used and any(x.startswith(("swap", "sample")) for x in ops):
        R.sig(n, m, reg, sorted(used), [x.split("(")[0] for x in ops[-4:]], bd, bool(projs), scal is not None)
    if R.sample is None: R.sample = {"n": n, "m": m, "npt": npt, "reg": reg, "values": sorted(used), "ops": list(ops)}


def live(sp, R):
    """the invariants that hold between operations, checked before every model fit of a real run (with faults and averaging)"""
    from vlib import trace
    from vlib.problems import regulariser
    h = regulariser(sp["reg"])[0] if sp.get("reg") else None

    def mon(M, tr):
        try:
            k = M.npt()
            for i in range(k):
                r = M.fval_v[i, :]
                xa = M.xpt(i, abs_coordinates=True)
                xu = xa if M.scaling_changes is None else M.scaling_changes[0] + xa * M.scaling_changes[1]
                o = ss(r) + (h(xu) if h is not None else 0.0)
                if not close(float(M.objval[i]), o, 1e-9 * (1 + abs(o)) if h is not None and np.isfinite(o) else 0.0):
                    R.bad("live-objective", "point %d stored objective %r, sum(r^2)+h=%r" % (i, float(M.objval[i]), o)); return
            R.stats["live_states"] += 1
        except AttributeError:
            R.stats["live_monitor_unavailable"] += 1
        if tr.log_complete():
            try:
                G = tr.groups()
                for i in range(k):
                    idx = G.get(int(M.eval_num[i]))
                    if idx is None: R.bad("live-eval-number", "point %d has evaluation number %d, never used" % (i, int(M.eval_num[i]))); return
                    if int(M.nsamples[i]) != len(idx): R.bad("live-sample-count", "point %d (evaluation %d) has nsamples %d, %d evaluations logged" % (i, int(M.eval_num[i]), int(M.nsamples[i]), len(idx))); return
                    rs = [tr.calls[j][1] for j in idx]
                    if all(np.all(np.isfinite(q)) for q in rs):
                        mu = np.mean(rs, axis=0); sc = float(np.max(np.abs(rs)))
                        if float(np.max(np.abs(mu - M.fval_v[i, :]))) > 1e-12 * sc: R.bad("live-residual-not-mean", "point %d" % i); return
                R.stats["live_full_states"] += 1
            except (AttributeError, KeyError, TypeError):
                R.stats["live_monitor_unavailable"] += 1
    tr = trace.run(sp, live=mon)
    R.evals += tr.live
    if tr.live and not R.viol: R.sig("live", gen.features(sp))
    return R
