"""Workload generator: solve() configurations over the supported option space, as plain JSON specs."""
import numpy as np

FAMS = ["linear", "quad", "rosen", "expfit", "trig", "zeroresid", "step", "rough", "const", "abs", "flatvalley"]
SMOOTH = ["linear", "quad", "rosen", "expfit", "trig", "zeroresid"]


def rng_for(tag, seed, i):
    import zlib
    return np.random.default_rng([zlib.crc32(tag.encode()) & 0x7fffffff, int(seed) & 0xffffffff, int(i)])


def pick(g, opts, p=None):
    return opts[int(g.choice(len(opts), p=p))]


def gen_problem(g, n, m, fams=None):
    fam = pick(g, fams or FAMS)
    p = {"fam": fam, "n": n, "m": m, "seed": int(g.integers(1, 2**31 - 1))}
    if g.random() < 0.3:
        p["scale"] = float(10.0 ** g.uniform(-4, 4))
    if fam == "linear":
        p["cond"] = float(10.0 ** g.uniform(0, 3))
        p["resid"] = float(pick(g, [0.0, 0.0, 0.1, 1.0, 10.0]))
    return p


def ulps(x, k):
    for _ in range(abs(k)):
        x = np.nextafter(x, np.inf if k > 0 else -np.inf)
    return float(x)


def gen_bounds(g, n, rhobeg_eff, kind):
    """returns lower, upper lists (or None) with gap >= 2*rhobeg_eff (verified with the float test the solver documents)"""
    off = 0.0 if g.random() < 0.4 else float(g.choice([-1, 1]) * 10.0 ** g.uniform(-1, 4))
    gaps = []
    for j in range(n):
        r = g.random()
        if r < 0.25:
            gap = 2.0 * rhobeg_eff                     # tight
        elif r < 0.5:
            gap = 2.0 * rhobeg_eff * (1 + g.random())
        elif r < 0.9:
            gap = 2.0 * rhobeg_eff * 10.0 ** g.uniform(0, 2)
        else:
            gap = 2.0 * rhobeg_eff * 10.0 ** g.uniform(2, 6)
        gaps.append(gap)
    gaps = np.array(gaps)
    if g.random() < 0.5:   # non-dyadic ends: sums and differences round
        lo = off + g.normal(size=n) * rhobeg_eff * 10.0 ** g.uniform(-2, 2, size=n)
    else:
        lo = off + np.round(g.normal(size=n) * 10) * 0.1 * rhobeg_eff
    hi = lo + gaps
    for j in range(n):
        while hi[j] - lo[j] < 2.0 * rhobeg_eff:
            hi[j] = np.nextafter(hi[j], np.inf)
    return lo, hi


def place_x0(g, lo, hi, rho):
    """one coordinate placement relative to [lo,hi] (either may be infinite)"""
    L, H = np.isfinite(lo), np.isfinite(hi)
    if not L and not H:
        return float(g.normal() * 10.0 ** g.uniform(-1, 1.5))
    if L and H and g.random() < 0.35:
        return float(lo + (hi - lo) * g.random())
    up = (g.random() < 0.5 if (L and H) else H)
    b = hi if up else lo
    s = -1.0 if up else 1.0   # inward
    k = pick(g, ["on", "ulp", "hair", "hair", "near", "mid", "out", "outfar", "outulp", "thresh"])
    if k == "on":
        return float(b)
    if k == "ulp":
        return ulps(b, int(s) * int(g.integers(1, 4)))
    if k == "outulp":
        return ulps(b, -int(s) * int(g.integers(1, 4)))
    if k == "hair":
        return float(b + s * 10.0 ** g.uniform(-16, -3) * rho)
    if k == "near":
        return float(b + s * g.uniform(0.0, 1.2) * rho)
    if k == "thresh":
        return float(b + s * 0.01 * rho * g.choice([0.999999, 1.0, 1.000001, 0.5, 2.0]))
    if k == "mid":
        return float(b + s * g.uniform(0.5, 3) * rho)
    if k == "out":
        return float(b - s * g.uniform(0, 2) * rho)
    return float(b - s * 10.0 ** g.uniform(0, 4) * rho)


def gen_case(g, prof=None):
    """prof: dict of switches/probabilities; missing keys take the defaults below."""
    P = dict(nmax=4, mmax=7, maxfun=(1, 120), p_bounds=0.6, p_scaling=0.3, p_nsamples=0.2, p_noise=0.15, p_restart=0.35,
             p_growing=0.15, p_regr=0.25, p_reg=0.06, p_proj=0.05, p_diag=0.1, p_random=0.1, p_misc=0.3, fams=None, p_mlt=0.15,
             p_bignpt=0.05, p_autodetect=None, one_sided=0.25, p_tiny_maxfun=0.08, p_rhoend=0.5)
    P.update(prof or {})
    n = int(g.integers(1, P["nmax"] + 1))
    if g.random() < P["p_mlt"] and n > 1:
        m = int(g.integers(1, n))
    else:
        m = int(g.integers(n, max(n, P["mmax"]) + 1))
    spec = {"npseed": int(g.integers(0, 1000))}
    up = {}
    use_proj = g.random() < P["p_proj"] and n >= 2
    use_reg = g.random() < P["p_reg"]
    has_b = g.random() < P["p_bounds"]
    scaling = has_b and not use_proj and not use_reg and g.random() < P["p_scaling"]
    rhobeg = None if g.random() < 0.4 else float(10.0 ** g.uniform(-3, 1))
    prob = gen_problem(g, n, m, P["fams"])
    # ---------------- bounds and x0
    if scaling:
        lo, hi = gen_bounds(g, n, float(10.0 ** g.uniform(-3, 3)), "both")
        rb = float(min(0.5, 10.0 ** g.uniform(-3, -0.31))) if rhobeg is not None else None
        if g.random() < 0.1 and rhobeg is not None:
            rb = 0.5
        rho = 0.1 if rb is None else rb
        width = hi - lo
        x0 = np.array([place_x0(g, lo[j], hi[j], rho * width[j]) for j in range(n)])
        spec["scaling_within_bounds"] = True
        spec["bounds"] = [lo.tolist(), hi.tolist()]
        rhobeg = rb
        prob["centre"] = (lo + width * g.uniform(-0.5, 1.5, size=n)).tolist()
        prob["width"] = width.tolist()
    elif has_b:
        rb = rhobeg if rhobeg is not None else None
        lo, hi = gen_bounds(g, n, rb if rb is not None else 1.0, "both")
        side = pick(g, ["both", "lower", "upper", "mixed"], [1 - P["one_sided"]] + [P["one_sided"] / 3] * 3)
        big = 1e20
        L, H = lo.copy(), hi.copy()
        if side == "lower":
            H[:] = np.inf
        elif side == "upper":
            L[:] = -np.inf
        elif side == "mixed":
            for j in range(n):
                r = g.random()
                if r < 0.3: H[j] = np.inf
                elif r < 0.6: L[j] = -np.inf
        if rb is None:
            # default rhobeg depends on x0: rescale the box around 0..so that gap >= 2*rhobeg
            x0 = np.array([place_x0(g, L[j], H[j], 0.1) for j in range(n)])
            rho = 0.1 * max(float(np.max(np.abs(x0))), 1.0)
            gap_needed = 2.0 * rho
            for j in range(n):
                if np.isfinite(L[j]) and np.isfinite(H[j]) and H[j] - L[j] < gap_needed:
                    H[j] = L[j] + gap_needed * (1 + g.random())
        else:
            rho = rb
            x0 = np.array([place_x0(g, L[j], H[j], rho) for j in range(n)])
        bl = None if side == "upper" and g.random() < 0.7 else np.where(np.isfinite(L), L, -big).tolist()
        bu = None if side == "lower" and g.random() < 0.7 else np.where(np.isfinite(H), H, big).tolist()
        spec["bounds"] = [bl, bu]
        prob["centre"] = (np.where(np.isfinite(L), L, np.where(np.isfinite(H), H, 0.0)) + rho * g.normal(size=n) * 3).tolist()
        prob["width"] = (rho * 10.0 ** g.uniform(0, 1.5, size=n)).tolist()
    else:
        x0 = g.normal(size=n) * 10.0 ** g.uniform(-1, 1.5)
        if g.random() < 0.1:
            x0 = np.zeros(n)
        if g.random() < 0.2:   # far from the origin
            x0 = x0 + g.choice([-1, 1], size=n) * 10.0 ** g.uniform(1, 4)
        rho = rhobeg if rhobeg is not None else 0.1 * max(float(np.max(np.abs(x0))), 1.0)
        prob["centre"] = (x0 + rho * 5 * g.normal(size=n)).tolist()
        prob["width"] = (rho * 10.0 ** g.uniform(0, 1.5, size=n)).tolist()
    if prob["fam"] == "linear":
        prob["xstar"] = (np.array(prob["centre"]) + np.array(prob["width"]) * g.normal(size=n)).tolist()
        prob["resid"] = prob["resid"] * float(np.mean(prob["width"]))
    if rhobeg is not None:
        spec["rhobeg"] = rhobeg
    if g.random() < P["p_rhoend"]:
        spec["rhoend"] = float(rho * 10.0 ** g.uniform(-8, -0.3))
    else:
        spec["rhoend"] = float(min(1e-8, rho * 1e-3)) if g.random() < 0.5 else float(rho * 10 ** g.uniform(-4, -1))
    spec["prob"] = prob
    spec["x0"] = x0.tolist()
    # ---------------- npt / budget
    npt = n + 1
    if not use_proj and g.random() < P["p_regr"]:
        npt = int(g.integers(n + 1, 2 * n + 2))
        if g.random() < 0.3:
            npt = int(g.integers(n + 1, (n + 1) * (n + 2) // 2 + 1))
        if g.random() < P["p_bignpt"]:
            npt = (n + 1) * (n + 2) // 2 + int(g.integers(1, 4))
        spec["npt"] = npt
    lo_f, hi_f = P["maxfun"]
    spec["maxfun"] = int(g.integers(lo_f, hi_f + 1))
    if g.random() < P["p_tiny_maxfun"]:
        spec["maxfun"] = int(g.integers(1, 2 * npt + 2))
    # ---------------- sampling / noise
    if g.random() < P["p_nsamples"]:
        spec["nsamples"] = pick(g, [{"kind": "const", "v": 2}, {"kind": "const", "v": 3}, {"kind": "iter", "v": 3}, {"kind": "runs", "v": 3},
                                    {"kind": "rho", "v": 4}, {"kind": "zero"}])
    if g.random() < P["p_noise"]:
        spec["noise"] = {"kind": pick(g, ["add", "mul"]), "level": float(10.0 ** g.uniform(-6, -0.5)), "seed": int(g.integers(0, 2**31 - 1))}
        spec["objfun_has_noise"] = bool(g.random() < 0.7)
        if g.random() < 0.4:
            up["noise.quit_on_noise_level"] = True
            up["noise.additive_noise_level" if spec["noise"]["kind"] == "add" else "noise.multiplicative_noise_level"] = spec["noise"]["level"]
    # ---------------- restarts
    if g.random() < P["p_restart"]:
        up["restarts.use_restarts"] = True
        soft = bool(g.random() < 0.55)
        up["restarts.use_soft_restarts"] = soft
        if g.random() < 0.6:
            up["restarts.max_unsuccessful_restarts"] = int(g.integers(0, 5)) if g.random() < 0.5 else int(g.integers(1, 4))
        if g.random() < 0.3:
            up["restarts.rhoend_scale"] = float(pick(g, [1.0, 0.5, 0.1, 1e-2]))
        if g.random() < 0.25:
            up["restarts.auto_detect"] = bool(g.random() < 0.7)
            up["restarts.auto_detect.history"] = int(g.integers(2, 8))
            if g.random() < 0.5:
                up["restarts.auto_detect.min_chgJ_slope"] = 0.0
                up["restarts.auto_detect.min_correl"] = 0.0
        if soft:
            if g.random() < 0.4: up["restarts.soft.move_xk"] = bool(g.random() < 0.5)
            if g.random() < 0.4: up["restarts.soft.num_geom_steps"] = int(g.integers(0, 6))
            if g.random() < 0.2: up["restarts.soft.max_fake_successful_steps"] = int(g.integers(1, 5))
        else:
            if g.random() < 0.5: up["restarts.hard.use_old_rk"] = bool(g.random() < 0.5)
            if g.random() < 0.2: up["restarts.hard.increase_ndirs_initial_amt"] = int(g.integers(0, 3))
        if g.random() < 0.3 and not use_proj:
            up["restarts.increase_npt"] = True
            up["restarts.increase_npt_amt"] = int(g.integers(1, 3))
            # the coordinate initialisation of a hard restart is limited to (n+1)(n+2)/2 points
            up["restarts.max_npt"] = max(npt, int(min(npt + g.integers(0, 4), max((n + 1) * (n + 2) // 2, npt))))
        if spec["rhoend"] < rho * 1e-3:
            spec["rhoend"] = float(rho * 10 ** g.uniform(-3, -0.5))   # so that restarts really happen within the budget
        if g.random() < 0.3:
            up["slow.max_slow_iters"] = int(g.integers(1, 6))
            up["slow.thresh_for_slow"] = float(10.0 ** g.uniform(-4, 0))
            up["slow.history_for_slow"] = int(g.integers(1, 5))
    # ---------------- growing
    if npt > 2 and not use_proj and g.random() < P["p_growing"]:
        up["growing.ndirs_initial"] = int(g.integers(1, npt - 1))
        if g.random() < 0.4: up["growing.num_new_dirns_each_iter"] = int(g.integers(1, 3))
        if g.random() < 0.3: up["growing.delta_scale_new_dirns"] = float(10 ** g.uniform(-1.5, 0.3))
        if g.random() < 0.3: up["growing.do_geom_steps"] = True
        if g.random() < 0.3:
            up["growing.reset_delta"] = True
            if g.random() < 0.5: up["growing.reset_rho"] = True
        r = g.random()
        if r < 0.25: up["growing.safety.do_safety_step"] = False
        elif r < 0.5: up["growing.safety.reduce_delta"] = True
        elif r < 0.75: up["growing.safety.full_geom_step"] = True
        if g.random() < 0.3:
            up["growing.full_rank.use_full_rank_interp"] = False
            up["growing.perturb_trust_region_step"] = bool(g.random() < 0.7)
        if g.random() < 0.3: up["growing.gamma_dec"] = float(g.uniform(0.3, 0.95))
    # ---------------- regression extras
    if npt > n + 1 and g.random() < 0.5 and not use_proj:
        up["regression.num_extra_steps"] = int(g.integers(1, 4))
        if g.random() < 0.5: up["regression.momentum_extra_steps"] = True
        if g.random() < 0.3: up["regression.increase_num_extra_steps_with_restart"] = 1
    # ---------------- initialisation
    if g.random() < P["p_random"] and not use_proj:
        up["init.random_initial_directions"] = True
        if g.random() < 0.5: up["init.random_directions_make_orthogonal"] = False
        if g.random() < 0.4: up["init.run_in_parallel"] = True
    # ---------------- misc
    if g.random() < P["p_misc"]:
        if g.random() < 0.3: up["general.rounding_error_constant"] = float(pick(g, [0.0, 1e-3, 0.1, 1.0, 10.0]))
        if g.random() < 0.2: up["general.safety_step_thresh"] = float(g.uniform(0.05, 1.0))
        if g.random() < 0.2: up["interpolation.precondition"] = False
        if g.random() < 0.2: up["model.abs_tol"] = float(10.0 ** g.uniform(-20, 2))
        if g.random() < 0.2: up["model.rel_tol"] = float(10.0 ** g.uniform(-20, -0.1))
        if g.random() < 0.15: up["slow.max_slow_iters"] = int(g.integers(1, 8)); up["slow.thresh_for_slow"] = float(10.0 ** g.uniform(-4, 0))
        if g.random() < 0.2: up["tr_radius.gamma_dec"] = float(g.uniform(0.2, 0.95))
        if g.random() < 0.2: up["tr_radius.alpha1"] = float(g.uniform(0.05, 0.9)); up["tr_radius.alpha2"] = float(g.uniform(up["tr_radius.alpha1"], 0.95))
        if g.random() < 0.1: up["tr_radius.gamma_inc"] = float(g.uniform(1.0, 10)); up["tr_radius.gamma_inc_overline"] = float(g.uniform(1.0, 20))
        if g.random() < 0.2: up["logging.n_to_print_whole_x_vector"] = int(g.integers(0, 10))
        if g.random() < 0.1: up["general.check_objfun_for_overflow"] = False
    if g.random() < P["p_diag"]:
        up["logging.save_diagnostic_info"] = True
        if g.random() < 0.5: up["logging.save_poisedness"] = False
    for k in list(up):   # no double definition of the slow keys
        pass
    # ---------------- regulariser / projections
    if use_reg:
        spec["reg"] = {"kind": pick(g, ["l1", "l2"]), "lam": float(10.0 ** g.uniform(-2, 1)), "n": n}
        up["func_tol.max_iters"] = int(pick(g, [20, 40]))
        spec["maxfun"] = min(spec["maxfun"], 25)
    if use_proj:
        add_projections(g, spec, n, rho)
        spec["maxfun"] = min(spec["maxfun"], 20)
    if up:
        spec["user_params"] = up
    return spec


def soft_restart_focus(g, spec):
    """turn a generated case into one that performs several soft restarts with a growing interpolation set"""
    if spec.get("projs") or spec.get("reg"): return spec
    up = spec.setdefault("user_params", {})
    n = len(spec["x0"]); npt = spec.get("npt", n + 1)
    up["restarts.use_restarts"] = True; up["restarts.use_soft_restarts"] = True
    up.pop("restarts.hard.use_old_rk", None); up.pop("restarts.hard.increase_ndirs_initial_amt", None)
    if g.random() < 0.7:
        up["restarts.increase_npt"] = True; up["restarts.increase_npt_amt"] = int(g.integers(1, 4))
        up["restarts.max_npt"] = npt + int(g.integers(1, 6))
    if g.random() < 0.5: up["restarts.soft.move_xk"] = bool(g.random() < 0.5)
    if g.random() < 0.5: up["restarts.soft.num_geom_steps"] = int(g.integers(0, 6))
    up["restarts.max_unsuccessful_restarts"] = int(g.integers(2, 8))
    b = spec.get("bounds")
    rho = spec.get("rhobeg", 0.1)
    spec["rhoend"] = float(rho * 10 ** g.uniform(-2, -0.3))
    spec["maxfun"] = int(g.integers(40, 140))
    return spec


def growing_focus(g, spec):
    """turn a generated case into one that grows its interpolation set, with the radius-reset options"""
    if spec.get("projs") or spec.get("reg"): return spec
    up = spec.setdefault("user_params", {})
    n = len(spec["x0"]); npt = spec.get("npt", n + 1)
    if npt <= 2: return spec
    up["growing.ndirs_initial"] = int(g.integers(1, npt - 1))
    up["growing.reset_delta"] = True
    up["growing.reset_rho"] = bool(g.random() < 0.4)
    for k, q in (("growing.do_geom_steps", 0.3), ("growing.safety.reduce_delta", 0.4), ("growing.safety.full_geom_step", 0.3)):
        up.pop(k, None)
        if g.random() < q: up[k] = True
    if up.get("growing.safety.reduce_delta") and up.get("growing.safety.full_geom_step"): up.pop("growing.safety.full_geom_step")
    up["growing.safety.do_safety_step"] = bool(g.random() < 0.8)
    rho = spec.get("rhobeg", 0.1)
    spec["rhoend"] = float(rho * 10 ** g.uniform(-4, -0.5))
    spec["maxfun"] = int(g.integers(25, 130))
    return spec


def growing_safety_focus(g, spec):
    """safety steps while the interpolation set is still growing (flat objectives, long new directions)"""
    if spec.get("projs") or spec.get("reg"): return spec
    n = len(spec["x0"]); npt = spec.get("npt", n + 1)
    if npt <= 2: return spec
    up = spec.setdefault("user_params", {})
    for k in list(up):
        if k.startswith("growing."): up.pop(k)
    spec["prob"]["fam"] = pick(g, ["const", "step", "flatvalley", spec["prob"]["fam"]])
    up["growing.ndirs_initial"] = int(g.integers(1, max(2, npt - 2)))
    up["growing.num_new_dirns_each_iter"] = int(g.integers(0, 2))
    up["growing.delta_scale_new_dirns"] = float(pick(g, [1.0, 5.0, 15.0, 30.0]))
    r = g.random()
    if r < 0.4: up["growing.safety.reduce_delta"] = True
    elif r < 0.9: up["growing.safety.full_geom_step"] = True
    if g.random() < 0.4:
        up["growing.full_rank.use_full_rank_interp"] = False
        up["growing.perturb_trust_region_step"] = bool(g.random() < 0.3)
    rho = spec.get("rhobeg", 0.1)
    spec["rhoend"] = float(rho * 10 ** g.uniform(-4, -0.5))
    return spec


def wedge_projections(g, spec):
    """two half-spaces meeting at x0 in an acute wedge: several coordinate steps project onto (nearly) the same points"""
    n = len(spec["x0"])
    if n < 2 or spec.get("reg") or spec.get("scaling_within_bounds"): return spec
    spec.pop("bounds", None)
    x0 = np.array(spec["x0"])
    d = np.zeros(n) if g.random() < 0.5 else g.normal(size=n)
    d[0] = 1.0 if g.random() < 0.5 else -1.0                  # the wedge opens in direction d
    d /= np.linalg.norm(d)
    e = g.normal(size=n); e -= e.dot(d) * d; e /= np.linalg.norm(e)
    th = float(pick(g, [0.02, 0.1, 0.3, 0.7]))
    a1, a2 = np.sin(th) * -d + np.cos(th) * e, np.sin(th) * -d - np.cos(th) * e
    spec["projs"] = [{"kind": "half", "a": a1.tolist(), "b": float(a1.dot(x0))}, {"kind": "half", "a": a2.tolist(), "b": float(a2.dot(x0))}]
    spec.pop("npt", None)
    up = spec.get("user_params") or {}
    for k in list(up):
        if k.startswith(("growing.", "regression.", "restarts.increase_npt", "restarts.max_npt", "init.")): up.pop(k)
    return spec


def add_projections(g, spec, n, rho, kinds=("ball", "half", "box"), k=None):
    """convex sets all containing a ball of radius ~rho around a common interior point"""
    x0 = np.array(spec["x0"])
    b = spec.get("bounds")
    c = x0 + rho * g.normal(size=n) * g.choice([0.0, 0.3, 2.0])
    if b is not None:
        lo = np.array(b[0]) if b[0] is not None else np.full(n, -1e20)
        hi = np.array(b[1]) if b[1] is not None else np.full(n, 1e20)
        marg = np.minimum(2 * rho, 0.25 * (hi - lo))
        c = np.minimum(np.maximum(c, lo + marg), hi - marg)
    sets = []
    for _ in range(k or int(g.integers(1, 4))):
        kind = pick(g, list(kinds))
        inner = rho * g.uniform(1.0, 5.0)
        if kind == "ball":
            r = inner * g.uniform(1.2, 4)
            d = g.normal(size=n); d /= np.linalg.norm(d)
            sets.append({"kind": "ball", "c": (c + d * (r - inner) * g.random()).tolist(), "r": float(r)})
        elif kind == "half":
            a = g.normal(size=n); a /= np.linalg.norm(a)
            sets.append({"kind": "half", "a": a.tolist(), "b": float(a.dot(c) + inner)})
        else:
            sets.append({"kind": "box", "l": (c - inner * g.uniform(1, 3, size=n)).tolist(), "u": (c + inner * g.uniform(1, 3, size=n)).tolist()})
    spec["projs"] = sets
    return sets


def features(spec):
    """coarse signature of a configuration (used to count distinct behaviours)"""
    up = spec.get("user_params") or {}
    n = len(spec["x0"])
    f = [spec["prob"]["fam"], "n%d" % n, "m<n" if spec["prob"]["m"] < n else "m>=n"]
    b = spec.get("bounds")
    f.append("nob" if b is None else ("scaled" if spec.get("scaling_within_bounds") else "box"))
    if spec.get("npt", n + 1) > n + 1: f.append("regr")
    if spec.get("nsamples"): f.append("ns-" + spec["nsamples"]["kind"])
    if spec.get("noise"): f.append("noise")
    if up.get("restarts.use_restarts") or spec.get("objfun_has_noise"): f.append("soft" if up.get("restarts.use_soft_restarts", True) else "hard")
    if "growing.ndirs_initial" in up: f.append("grow")
    if up.get("init.random_initial_directions"): f.append("randinit")
    if spec.get("reg"): f.append("reg-" + spec["reg"]["kind"])
    if spec.get("projs"): f.append("proj%d" % len(spec["projs"]))
    if spec.get("fault"): f.append("fault")
    return "/".join(f)
