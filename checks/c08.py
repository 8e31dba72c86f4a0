"""C08: bad objective values (or an exception) at any single evaluation are survived (or propagated) - exhaustive over the fault position."""
import numpy as np
from vlib import gen, trace, monitors as mon
from vlib.runner import Result

LEVEL = "fault_enumeration"
RULE = ("for every reference configuration, the fault-free run is made first and then one run per (evaluation index k, fault kind); non-trivial = the fault was actually "
        "delivered; distinct by (configuration, k, kind, exit flag)")
ASSUMPTIONS = ["the residual function is otherwise deterministic or seeded noise", "averaged runs: a finite result is required once some point has only finite samples"]
CASE_LIMIT = 240

NAMED = {  # name -> spec
    "plain": {},
    "plain2": {"prob": {"fam": "quad", "n": 2, "m": 5, "seed": 3}, "x0": [1.0, -2.0]},
    "n1": {"prob": {"fam": "expfit", "n": 1, "m": 2, "seed": 5}, "x0": [0.4]},
    "box": {"bounds": [[-1.0, -0.9, -1.5], [0.3, 2.0, 1.1]]},
    "scaled": {"bounds": [[-10.0, -2.0, -1.5], [15.0, 2.0, 3.0]], "scaling_within_bounds": True, "rhobeg": 0.1},
    "regr": {"npt": 6, "user_params": {"regression.num_extra_steps": 2}},
    "regrmom": {"npt": 7, "user_params": {"regression.num_extra_steps": 2, "regression.momentum_extra_steps": True}},
    "avg2": {"nsamples": {"kind": "const", "v": 2}},
    "avgiter": {"nsamples": {"kind": "iter", "v": 3}, "noise": {"kind": "add", "level": 1e-2, "seed": 4}},
    "soft": {"user_params": {"restarts.use_restarts": True, "restarts.auto_detect": False}, "rhoend": 3e-2},
    "softnomove": {"user_params": {"restarts.use_restarts": True, "restarts.soft.move_xk": False, "restarts.soft.num_geom_steps": 2}, "rhoend": 5e-2, "npt": 5},
    "softnpt": {"user_params": {"restarts.use_restarts": True, "restarts.increase_npt": True, "restarts.max_npt": 7, "restarts.max_unsuccessful_restarts": 3}, "rhoend": 5e-2},
    "hard": {"user_params": {"restarts.use_restarts": True, "restarts.use_soft_restarts": False, "restarts.max_unsuccessful_restarts": 3}, "rhoend": 5e-2},
    "hardnew": {"user_params": {"restarts.use_restarts": True, "restarts.use_soft_restarts": False, "restarts.hard.use_old_rk": False, "restarts.increase_npt": True, "restarts.max_npt": 7}, "rhoend": 5e-2},
    "hardavg": {"nsamples": {"kind": "runs", "v": 2}, "user_params": {"restarts.use_restarts": True, "restarts.use_soft_restarts": False, "restarts.max_unsuccessful_restarts": 2}, "rhoend": 5e-2},
    "grow": {"user_params": {"growing.ndirs_initial": 1}},
    "growgeom": {"user_params": {"growing.ndirs_initial": 1, "growing.do_geom_steps": True, "growing.num_new_dirns_each_iter": 1}},
    "growpert": {"user_params": {"growing.ndirs_initial": 2, "growing.full_rank.use_full_rank_interp": False, "growing.perturb_trust_region_step": True}},
    "growbox": {"bounds": [[-1.0, -0.9, -1.5], [0.3, 2.0, 1.1]], "user_params": {"growing.ndirs_initial": 1, "growing.safety.full_geom_step": True}},
    "underdet": {"prob": {"fam": "quad", "n": 3, "m": 2, "seed": 8}},
    "underdetgrow": {"prob": {"fam": "trig", "n": 3, "m": 2, "seed": 8}, "user_params": {"growing.ndirs_initial": 1}},
    "randpar": {"user_params": {"init.random_initial_directions": True, "init.run_in_parallel": True}},
    "randinit": {"user_params": {"init.random_initial_directions": True}, "npt": 6, "bounds": [[-1.0, -0.9, -1.5], [0.3, 2.0, 1.1]]},
    "noisy": {"objfun_has_noise": True, "noise": {"kind": "mul", "level": 1e-2, "seed": 3}, "npt": 6},
    "noisequit": {"objfun_has_noise": True, "noise": {"kind": "add", "level": 5e-2, "seed": 3}, "user_params": {"noise.additive_noise_level": 5e-2, "restarts.max_unsuccessful_restarts": 2}},
    "proj": {"projs": [{"kind": "ball", "c": [0.2, 0.1, 0.0], "r": 1.8}], "maxfun": 14},
    "proj2": {"projs": [{"kind": "ball", "c": [0.2, 0.1, 0.0], "r": 1.8}, {"kind": "half", "a": [1.0, 0.0, 1.0], "b": 1.5}], "maxfun": 12, "bounds": [[-1.0, -2.0, -1.5], [1.5, 2.0, 3.0]]},
    "reg": {"reg": {"kind": "l1", "lam": 0.5, "n": 3}, "maxfun": 12, "user_params": {"func_tol.max_iters": 25}},
    "regbox": {"reg": {"kind": "l2", "lam": 2.0, "n": 3}, "maxfun": 12, "bounds": [[-1.0, -0.9, -1.5], [0.3, 2.0, 1.1]], "user_params": {"func_tol.max_iters": 25}},
    "diag": {"user_params": {"logging.save_diagnostic_info": True, "logging.save_xk": True}},
    "noprecond": {"user_params": {"interpolation.precondition": False}},
    "nocheck": {"user_params": {"general.check_objfun_for_overflow": False}},
    "slow": {"user_params": {"slow.max_slow_iters": 2, "slow.thresh_for_slow": 1.0, "slow.history_for_slow": 1, "restarts.use_restarts": True}},
    "linear": {"prob": {"fam": "linear", "n": 3, "m": 4, "seed": 2, "cond": 10.0, "resid": 1.0}},
    "zero": {"prob": {"fam": "zeroresid", "n": 3, "m": 4, "seed": 2}, "maxfun": 40},
    "rough": {"prob": {"fam": "rough", "n": 2, "m": 3, "seed": 2}, "x0": [0.3, 0.1]},
    "shift": {"x0": [100.3, -200.8, 50.1], "prob": {"fam": "rosen", "n": 3, "m": 4, "seed": 11, "centre": [100.0, -200.0, 50.0]}, "rhobeg": 0.3},
}
KINDS_Q = [("nan", "all"), ("nan", 0), ("inf", "all"), ("-inf", 1), ("1e200", "all"), ("1e154", 0), ("1e300", "all")]
EXCS = ["Injected", "LinAlgError", "ValueError", "OverflowError", "ZeroDivisionError", "KeyboardInterrupt", "AssertionError", "FloatingPointError", "TypeError"]


def named_spec(name):
    s = {"prob": {"fam": "rosen", "n": 3, "m": 4, "seed": 11}, "x0": [0.3, -0.8, 1.1], "rhobeg": 0.2, "rhoend": 1e-4, "maxfun": 30, "npseed": 5}
    d = {k: (dict(v) if isinstance(v, dict) else v) for k, v in NAMED[name].items()}
    s.update(d)
    return s


def cases(seed, tier):
    out = []
    for name in NAMED:
        s = named_spec(name)
        for kind, comp in KINDS_Q:
            out.append({"name": name, "spec": s, "kind": kind, "comp": comp, "mode": "one"})
        out.append({"name": name, "spec": s, "kind": "nan", "comp": "all", "mode": "from"})
        out.append({"name": name, "spec": s, "kind": "inf", "comp": 0, "mode": "from"})
        out.append({"name": name, "spec": s, "kind": "1e200", "comp": 0, "mode": "period"})
        out.append({"name": name, "spec": s, "kind": "nan", "comp": 0, "mode": "period"})
        out.append({"name": name, "spec": s, "kind": "exc", "comp": "all", "mode": "one"})
    N = 100 if tier == "quick" else 2000
    for i in range(N):
        g = gen.rng_for("c08", seed, i)
        sp = gen.gen_case(g, dict(maxfun=(8, 28), p_reg=0.04, p_proj=0.03))
        kind, comp = KINDS_Q[int(g.integers(len(KINDS_Q)))] if g.random() < 0.85 else ("exc", "all")
        mode = ["one", "one", "from", "period"][int(g.integers(4))] if kind != "exc" else "one"
        out.append({"name": "rand%d" % i, "spec": sp, "kind": kind, "comp": comp, "mode": mode, "period": int(g.integers(2, 6))})
    if tier != "quick":
        # a second residual family for every named configuration, more fault kinds
        for name in NAMED:
            for fam in ("quad", "expfit", "abs", "rough"):
                s = named_spec(name)
                s["prob"] = dict(s["prob"], fam=fam)
                s["maxfun"] = min(60, s["maxfun"] * 2)
                for kind, comp in KINDS_Q + [("-1e200", 1)]:
                    for mode in ("one", "from", "period"):
                        out.append({"name": name + "-" + fam, "spec": s, "kind": kind, "comp": comp, "mode": mode})
                out.append({"name": name + "-" + fam, "spec": s, "kind": "exc", "comp": "all", "mode": "one"})
    return out


class Boom(BaseException):
    pass


def make_exc(nm, k):
    msg = "injected at evaluation %d" % k
    return {"Injected": trace.InjectedError, "LinAlgError": np.linalg.LinAlgError, "KeyboardInterrupt": KeyboardInterrupt}.get(nm, getattr(__builtins__, nm, None) if not isinstance(__builtins__, dict) else __builtins__.get(nm))(msg)


def run_case(c):
    R = Result()
    spec = dict(c["spec"])
    base = trace.run(spec)
    if base.soln is None or base.soln.x is None:
        R.stats["reference_run_without_result"] += 1
        if isinstance(base.exc, trace.Hang):
            R.stats["reference_hang"] += 1
        return R
    N = base.ncalls
    R.stats["reference_runs"] += 1
    for k in range(1, N + 1):
        if c["kind"] == "exc":
            exc_run(R, spec, c, k, base)
        else:
            value_run(R, spec, c, k)
    R.sample = {"config": c["name"], "kind": c["kind"], "mode": c["mode"], "positions": N, "base_msg": base.soln.msg}
    return R


def exc_run(R, spec, c, k, base):
    import dfols
    nm = EXCS[(k + len(c["name"])) % len(EXCS)]
    e = make_exc(nm, k)
    cnt = [0]
    tr0, x0, kw, ex = None, None, None, None
    f, x0, kw, ex = trace.build(spec)
    nz = trace.noise_fn(spec)
    if spec.get("nsamples"):
        kw["nsamples"] = trace.make_nsamples(spec["nsamples"])

    def objfun(x):
        cnt[0] += 1
        if cnt[0] == k:
            raise e
        r = f(x)
        return nz(r) if nz is not None else r
    np.random.seed(spec.get("npseed", 0))
    R.evals += 1
    got = None
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            s = dfols.solve(objfun, x0, **kw)
        except BaseException as e2:
            if type(e2).__name__ == "CaseTimeout":
                raise
            got = e2
    R.stats["exceptions_injected"] += 1
    if got is not e:
        R.bad("exception-swallowed", "%s: %s raised by the objective at evaluation %d, solve %s (calls %d)" % (
            c["name"], nm, k, "returned flag %r msg %r" % (s.flag, s.msg) if got is None else "raised a different exception %r" % got, cnt[0]))
    elif cnt[0] != k:
        R.bad("calls-after-exception", "%s: %d calls, exception at call %d" % (c["name"], cnt[0], k))
    else:
        R.sig(c["name"], k, nm)


def value_run(R, spec, c, k):
    sp = dict(spec)
    sp["fault"] = {"at": k, "kind": c["kind"], "mode": c["mode"], "comp": c["comp"], "period": c.get("period", 3)}
    tr = trace.run(sp)
    R.evals += 1
    what = "%s fault %s/%s/%s at evaluation %d" % (c["name"], c["kind"], c["comp"], c["mode"], k)
    if tr.ncalls < k:
        R.stats["fault_not_delivered"] += 1
        return
    R.stats["faults_delivered"] += 1
    R.stats["fault_" + c["kind"]] += 1
    ex = tr.ex
    n = len(ex["x0"])
    # bounds and budget
    for i, (x, r) in enumerate(tr.calls):
        if not np.all(np.isfinite(x)):
            R.bad("nonfinite-point", "%s: call %d evaluated at %s" % (what, i + 1, x.tolist())); return
        if (ex["lo"] is not None and np.any(x < ex["lo"])) or (ex["hi"] is not None and np.any(x > ex["hi"])):
            R.bad("bounds", "%s: call %d at %s" % (what, i + 1, x.tolist())); return
    if tr.ncalls > tr.maxfun:
        R.bad("budget", "%s: %d calls, maxfun %d" % (what, tr.ncalls, tr.maxfun)); return
    if tr.exc is not None:
        if isinstance(tr.exc, trace.Hang):
            R.bad("hang", "%s: no evaluation and no return after %d model fits" % (what, tr._idle_max)); return
        up = sp.get("user_params") or {}
        if up.get("interpolation.throw_error_on_nans") and isinstance(tr.exc, np.linalg.LinAlgError):
            return
        import traceback
        loc = traceback.extract_tb(tr.exc.__traceback__)[-1]
        R.bad("raised-%s@%s" % (type(tr.exc).__name__, loc.name), "%s: raised %s: %s (%s:%d)" % (what, type(tr.exc).__name__, tr.exc, loc.filename.split("/")[-1], loc.lineno)); return
    s = tr.soln
    if s.nf != tr.ncalls:
        R.bad("nf", "%s: soln.nf=%r, %d calls" % (what, s.nf, tr.ncalls)); return
    if s.x is None or not np.all(np.isfinite(s.x)):
        R.bad("x-nonfinite", "%s: soln.x=%r msg=%s" % (what, s.x, s.msg)); return
    if (ex["lo"] is not None and np.any(s.x < ex["lo"])) or (ex["hi"] is not None and np.any(s.x > ex["hi"])):
        R.bad("soln-bounds", "%s: soln.x=%s" % (what, s.x.tolist())); return
    tol = mon.xtol(tr, s.x)
    if not any(mon.same(s.x, x, tol) for x, r in tr.calls):
        R.bad("x-not-evaluated", "%s: soln.x=%s was never evaluated msg=%s" % (what, s.x.tolist(), s.msg)); return
    try:
        str(s)
    except Exception as e:
        R.bad("print-raised", "%s: %r" % (what, e)); return
    if not s.msg:
        R.bad("no-message", what)
    if s.flag == s.EXIT_SUCCESS and not np.isfinite(s.obj):
        R.bad("success-nonfinite", "%s: obj=%r msg=%s" % (what, s.obj, s.msg)); return
    with np.errstate(all="ignore"):
        fs = [mon.objective_of_call(tr, i) for i in range(tr.ncalls)]
    avg = bool(sp.get("nsamples"))
    if not avg:
        fin = [f for f in fs[:k - 1] if np.isfinite(f)]
        if fin:
            best = min(fin)
            R.stats["finite_best_before_fault"] += 1
            if not np.isfinite(s.obj) or not (s.obj <= best + mon.objtol(tr, best)):
                R.bad("finite-best-displaced", "%s: soln.obj=%r but the best evaluation before the fault (call %d) had objective %r; msg=%s" % (what, s.obj, fs.index(best) + 1, best, s.msg)); return
        fin = [f for f in fs if np.isfinite(f)]
        if fin and not (s.obj <= min(fin) + mon.objtol(tr, min(fin))):
            R.bad("finite-best-lost", "%s: soln.obj=%r but call %d had objective %r; msg=%s" % (what, s.obj, fs.index(min(fin)) + 1, min(fin), s.msg)); return
    else:
        g = tr.groups() if tr.log_complete() else {}
        ok = [p for p, idx in g.items() if all(np.isfinite(fs[i]) for i in idx) and idx[-1] < k - 1]
        if ok:
            R.stats["finite_point_before_fault"] += 1
            if not np.isfinite(s.obj):
                R.bad("finite-best-displaced-avg", "%s: soln.obj=%r although point %d has only finite samples; msg=%s" % (what, s.obj, ok[0], s.msg)); return
    if tr.log_complete():
        R2 = Result()
        mon.c03_end(tr, R2)
        for m, t in R2.viol:
            if m == "obj-mismatch" and not np.isfinite(mon.sumsq(s.resid)):
                continue   # overflow-sized residuals are documented to be capped
            R.bad("fault-" + m, "%s: %s" % (what, t)); return
    R.sig(c["name"], k, c["kind"], c["comp"], c["mode"], s.flag)
    R.stats["flag_%d" % s.flag] += 1
