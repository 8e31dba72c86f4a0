"""Event cuts: run one base configuration to the end, then again with the run ended (or disturbed) at every single evaluation.

A cut is maxfun=k, an absolute tolerance met exactly by evaluation k, or a fault (NaN, overflow) injected at evaluation k (once or
from there on), or a singular-matrix error raised by the k-th solve with the interpolation system.  Every early-exit route of the solver (sampling of x0, each stage of the initialisation, growing, geometry and safety
steps, soft restarts, momentum, extra regression steps, ...) is thus taken at every moment a base configuration reaches it."""
import copy, time
import numpy as np
from . import gen


def base(g, reg=0.0, proj=0.0, noise=0.15, nsamples=0.35):
    """a short run through as many stages as possible"""
    prof = dict(nmax=4, mmax=6, maxfun=(18, 45), p_nsamples=nsamples, p_noise=noise, p_restart=0.5, p_growing=0.35, p_regr=0.5,
                p_random=0.35, p_misc=0.5, p_reg=reg, p_proj=proj, p_tiny_maxfun=0.0, p_bignpt=0.02)
    s = gen.gen_case(g, prof)
    r = g.random()
    if r < 0.35: s = gen.soft_restart_focus(g, s)
    elif r < 0.5: s = gen.growing_focus(g, s)
    elif r < 0.68: s = gen.growing_safety_focus(g, s)
    elif r < 0.72: s = gen.wedge_projections(g, s)
    up = s.setdefault("user_params", {})
    if s.get("reg") or s.get("projs"):
        up["func_tol.max_iters"] = 20
        if g.random() < 0.7:
            up["restarts.use_restarts"] = True
            up["restarts.use_soft_restarts"] = bool(g.random() < 0.7)
            if g.random() < 0.5: up["restarts.soft.move_xk"] = bool(g.random() < 0.5)
            if g.random() < 0.5: up["restarts.soft.num_geom_steps"] = int(g.integers(0, 5))
            up["restarts.max_unsuccessful_restarts"] = int(g.integers(1, 5))
            rho = s.get("rhobeg", 0.1)
            s["rhoend"] = float(rho * 10 ** g.uniform(-1.5, -0.3))
    if s.get("noise") and g.random() < 0.5:
        up["noise.quit_on_noise_level"] = True
        up["noise.additive_noise_level" if s["noise"]["kind"] == "add" else "noise.multiplicative_noise_level"] = s["noise"]["level"]
        up["noise.scale_factor_for_quit"] = float(10 ** g.uniform(-1, 3))
    s["maxfun"] = min(s["maxfun"], 16 if (s.get("reg") or s.get("projs")) else 45)
    return s


def variants(g, spec, tr, kmax=30, kinds=("budget", "tol", "linalg", "nan", "big"), objective=None):
    """specs of the cut runs; `objective(tr, i)` = objective of call i (deterministic configurations only)"""
    n = tr.ncalls
    ks = list(range(1, n + 1))
    out = []
    if "budget" in kinds:
        for k in (ks if n <= kmax else sorted(g.choice(ks, size=kmax, replace=False).tolist())):
            s = copy.deepcopy(spec); s["maxfun"] = int(k)
            out.append(("maxfun=%d" % k, s))
    if "tol" in kinds and objective is not None:
        best, rec = np.inf, []
        for i in range(n):
            f = objective(tr, i)
            if f < best:
                best = f
                rec.append((i, f))
        for i, f in rec[-kmax // 2:]:
            if f > 0 and np.isfinite(f):
                s = copy.deepcopy(spec)
                s.setdefault("user_params", {})["model.abs_tol"] = float(f * (1 + 1e-12))
                out.append(("abs_tol@%d" % (i + 1), s))
    if "linalg" in kinds and tr.lin_calls:
        L = list(range(1, tr.lin_calls + 1))
        for k in (L if len(L) <= kmax // 2 else sorted(g.choice(L, size=kmax // 2, replace=False).tolist())):
            s = copy.deepcopy(spec); s["linalg_fault"] = int(k)
            s.setdefault("user_params", {})["logging.save_poisedness"] = False
            out.append(("linalg@%d" % k, s))
    fk = ks if n <= kmax // 2 else sorted(g.choice(ks, size=kmax // 2, replace=False).tolist())
    for kind, label in (("nan", "nan"), ("big", None)):
        if kind not in kinds:
            continue
        for k in fk:
            s = copy.deepcopy(spec)
            fault = label or gen.pick(g, ["1e200", "1e154", "inf", "1e300"])
            s["fault"] = {"at": int(k), "kind": fault, "mode": gen.pick(g, ["one", "one", "from", "every"]), "period": 3, "comp": "all" if g.random() < 0.5 else int(g.integers(0, 5))}
            if g.random() < 0.5:
                s.setdefault("user_params", {})["general.check_objfun_for_overflow"] = False
            out.append(("%s@%d" % (fault, k), s))
    return out


def run_cut_case(spec, judge, R, kinds, objective=None, kmax=30):
    """judge(spec, R) -> trace; stops at the first violating variant (its spec is reported)"""
    c = spec["cuts"]
    b = {k: v for k, v in spec.items() if k != "cuts"}
    tr = judge(b, R)
    if R.viol:
        return
    g = gen.rng_for("cuts", c["seed"], 0)
    if tr is None or tr.exc is not None:
        return
    R.stats["cut_bases"] += 1
    if b.get("reg") or b.get("projs"):
        kmax = 10
    t0 = time.time()
    for label, s in variants(g, b, tr, kmax, kinds, objective):
        n0 = len(R.viol)
        if time.time() - t0 > 20:     # slow subproblems (projections): the remaining cuts of this base are not run
            R.stats["cut_bases_cut_short"] += 1
            return
        judge(s, R)
        R.stats["cut_runs"] += 1
        R.stats["cut_runs: " + ("maxfun" if label.startswith("max") else "tolerance" if label.startswith("abs") else "nan" if label.startswith("nan") else "linear-algebra failure" if label.startswith("lin") else "overflow")] += 1
        if len(R.viol) > n0:
            R.viol = [(m, "[cut %s] %s" % (label, t)) for m, t in R.viol[n0:]]
            return
