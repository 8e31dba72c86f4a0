"""C07: solve() always returns a well-formed result; bad input is reported with the input-error flag and zero evaluations, never raised."""
import re
import numpy as np
import dfols
from vlib import gen, trace
from vlib.problems import regulariser
from vlib.runner import Result

RULE = ("enumerated argument matrix (every parameter key x in-range / boundary / out-of-range / wrong-type values over several base configurations, "
        "invalid arguments one by one, contradictory options, unknown names) plus random valid configurations; non-trivial = a call whose result object "
        "(or ValueError) was inspected; distinct by (matrix cell, exit flag, message) for the matrix and (features, flag, message) for the random part")
ASSUMPTIONS = ["integers given for float parameters, booleans given for integer parameters and numpy scalars are not classified as valid or invalid; the result must only be well formed",
               "documented domain for restarts.rhoend_scale is (0,1] ('factor to reduce rhoend by')"]
CASE_LIMIT = 60
DOC_FLAGS = ["EXIT_SUCCESS", "EXIT_MAXFUN_WARNING", "EXIT_SLOW_WARNING", "EXIT_FALSE_SUCCESS_WARNING", "EXIT_TR_INCREASE_WARNING",
             "EXIT_INPUT_ERROR", "EXIT_TR_INCREASE_ERROR", "EXIT_LINALG_ERROR", "EXIT_EVAL_ERROR"]

F, I, B = "float", "int", "bool"
# key -> (type, lower, upper, values inside the range worth running)
KEYS = {
    "general.rounding_error_constant": (F, 0.0, None, [0.0, 1e-3, 10.0]),
    "general.safety_step_thresh": (F, 0.0, None, [0.0, 0.1, 1.0, 3.0]),
    "general.check_objfun_for_overflow": (B, None, None, [True, False]),
    "init.random_initial_directions": (B, None, None, [True, False]),
    "init.run_in_parallel": (B, None, None, [True, False]),
    "init.random_directions_make_orthogonal": (B, None, None, [True, False]),
    "interpolation.precondition": (B, None, None, [True, False]),
    "interpolation.throw_error_on_nans": (B, None, None, [True, False]),
    "logging.n_to_print_whole_x_vector": (I, 0, None, [0, 1, 100]),
    "logging.save_diagnostic_info": (B, None, None, [True, False]),
    "logging.save_poisedness": (B, None, None, [True, False]),
    "logging.save_xk": (B, None, None, [True, False]),
    "logging.save_rk": (B, None, None, [True, False]),
    "tr_radius.eta1": (F, 0.0, 1.0, [0.0, 0.3, 1.0]),
    "tr_radius.eta2": (F, 0.0, 1.0, [0.0, 0.5, 1.0]),
    "tr_radius.gamma_dec": (F, 0.0, 1.0, [0.0, 0.05, 0.9, 1.0]),
    "tr_radius.gamma_inc": (F, 1.0, None, [1.0, 3.0, 100.0]),
    "tr_radius.gamma_inc_overline": (F, 1.0, None, [1.0, 2.0, 100.0]),
    "tr_radius.alpha1": (F, 0.0, 1.0, [0.0, 0.02, 0.7, 1.0]),
    "tr_radius.alpha2": (F, 0.0, 1.0, [0.0, 0.2, 0.9, 1.0]),
    "model.abs_tol": (F, 0.0, None, [0.0, 1e-3, 10.0]),
    "model.rel_tol": (F, 0.0, 1.0, [0.0, 0.3, 1.0]),
    "slow.history_for_slow": (I, 1, None, [1, 3]),
    "slow.thresh_for_slow": (F, 0.0, None, [0.0, 1e-2, 1.0, 10.0]),
    "slow.max_slow_iters": (I, 0, None, [0, 1, 5]),
    "noise.quit_on_noise_level": (B, None, None, [True, False]),
    "noise.scale_factor_for_quit": (F, 0.0, None, [0.0, 1.0, 10.0]),
    "noise.multiplicative_noise_level": (F, 0.0, None, [0.0, 1e-2, 3.0]),
    "noise.additive_noise_level": (F, 0.0, None, [0.0, 1e-2, 100.0]),
    "regression.num_extra_steps": (I, 0, None, [0, 1, 2, 50]),
    "regression.increase_num_extra_steps_with_restart": (I, 0, None, [0, 1, 3]),
    "regression.momentum_extra_steps": (B, None, None, [True, False]),
    "restarts.use_restarts": (B, None, None, [True, False]),
    "restarts.max_unsuccessful_restarts": (I, 0, None, [0, 1, 3]),
    "restarts.rhoend_scale": (F, 0.0, None, [0.1, 1.0]),
    "restarts.use_soft_restarts": (B, None, None, [True, False]),
    "restarts.soft.num_geom_steps": (I, 0, None, [0, 1, 50]),
    "restarts.soft.move_xk": (B, None, None, [True, False]),
    "restarts.soft.max_fake_successful_steps": (I, 1, None, [1, 2]),
    "restarts.hard.use_old_rk": (B, None, None, [True, False]),
    "restarts.increase_npt": (B, None, None, [True, False]),
    "restarts.increase_npt_amt": (I, 0, None, [0, 1, 3]),
    "restarts.hard.increase_ndirs_initial_amt": (I, 0, None, [0, 2, 20]),
    "restarts.max_npt": (I, "npt", None, ["npt", "npt+1", "npt+2"]),
    "restarts.auto_detect": (B, None, None, [True, False]),
    "restarts.auto_detect.history": (I, 1, None, [1, 2, 5]),
    "restarts.auto_detect.min_chgJ_slope": (F, 0.0, None, [0.0, 1.0]),
    "restarts.auto_detect.min_correl": (F, 0.0, 1.0, [0.0, 0.5, 1.0]),
    "growing.ndirs_initial": (I, 1, "npt-1", [1, "npt-1"]),
    "growing.num_new_dirns_each_iter": (I, 0, None, [0, 1, 10]),
    "growing.delta_scale_new_dirns": (F, 0.0, None, [0.01, 0.5, 2.0]),
    "growing.do_geom_steps": (B, None, None, [True, False]),
    "growing.reset_delta": (B, None, None, [True, False]),
    "growing.reset_rho": (B, None, None, [True, False]),
    "growing.gamma_dec": (F, 0.0, 1.0, [0.0, 0.3, 1.0]),
    "growing.safety.do_safety_step": (B, None, None, [True, False]),
    "growing.safety.reduce_delta": (B, None, None, [True, False]),
    "growing.safety.full_geom_step": (B, None, None, [True, False]),
    "growing.full_rank.use_full_rank_interp": (B, None, None, [True, False]),
    "growing.full_rank.scale_factor": (F, 0.0, None, [0.0, 1e-2, 1.0]),
    "growing.full_rank.min_sing_val": (F, 0.0, 1.0, [0.0, 1e-3, 1.0]),
    "growing.full_rank.svd_scale_factor": (F, 0.0, 1.0, [0.0, 0.5, 1.0]),
    "growing.full_rank.svd_max_jac_cond": (F, 1.0, None, [1.0, 1e4]),
    "growing.perturb_trust_region_step": (B, None, None, [False]),
    "dykstra.d_tol": (F, 0.0, None, [0.0, 1e-6, 1.0]),
    "dykstra.max_iters": (I, 0, None, [0, 1, 30]),
    "matrix_rank.r_tol": (F, 0.0, None, [0.0, 1e-12]),
    "func_tol.criticality_measure": (F, 0.0, 1.0, [0.0, 1e-2, 1.0]),
    "func_tol.tr_step": (F, 0.0, 1.0, [0.0, 0.5, 1.0]),
    "func_tol.max_iters": (I, 0, None, [0, 1, 30]),
    "sfista.max_iters_scaling": (F, 1.0, None, [1.0, 3.0]),
}
# base configurations the keys are tried on
BASES = {
    "plain": {},
    "box": {"bounds": [[-1.0, -2.0, -1.5], [1.5, 2.0, 3.0]]},
    "scaled": {"bounds": [[-1.0, -2.0, -1.5], [1.5, 2.0, 3.0]], "scaling_within_bounds": True},
    "regr": {"npt": 6},
    "noisy": {"objfun_has_noise": True, "noise": {"kind": "add", "level": 1e-2, "seed": 3}, "npt": 6},
    "soft": {"user_params": {"restarts.use_restarts": True}, "rhoend": 1e-2},
    "hard": {"user_params": {"restarts.use_restarts": True, "restarts.use_soft_restarts": False}, "rhoend": 1e-2},
    "grow": {"user_params": {"growing.ndirs_initial": 1}},
    "underdet": {"m": 2},
    "proj": {"projs": [{"kind": "ball", "c": [0.2, 0.1, 0.0], "r": 2.0}], "maxfun": 15},
    "reg": {"reg": {"kind": "l1", "lam": 0.5, "n": 3}, "maxfun": 12, "user_params": {"func_tol.max_iters": 30}},
}


def base_spec(name, fam="rosen"):
    d = dict(BASES[name])
    m = d.pop("m", 4)
    s = {"prob": {"fam": fam, "n": 3, "m": m, "seed": 11}, "x0": [0.3, -0.8, 1.1], "rhobeg": 0.2, "rhoend": 1e-3, "maxfun": 45, "npseed": 1}
    s.update(d)
    if "user_params" in s:
        s["user_params"] = dict(s["user_params"])
    if s.get("scaling_within_bounds"):
        s["rhobeg"] = 0.1
    return s


def subst(v, npt):
    if isinstance(v, str) and v.startswith("npt"):
        return npt + int(v[3:] or 0)
    return v


def bad_values(key):
    t, lo, hi, _ = KEYS[key]
    out = []
    if t == F:
        out += [("low", lo - 0.5), ("low", lo - 1e-9), ("nan", float("nan")), ("type", "0.5"), ("type", [0.5]), ("type", {}), ("-inf", float("-inf"))]
        if hi is not None:
            out += [("high", hi + 0.5), ("high", hi + 1e-9), ("inf", float("inf"))]
    elif t == I:
        lo_ = lo if lo != "npt" else "npt"
        out += [("low", "npt-1" if lo_ == "npt" else lo_ - 1), ("type", 2.5), ("type", "2"), ("type", [2]), ("type", float("nan"))]
        if hi is not None:
            out += [("high", "npt+0")]
    else:
        out += [("type", "True"), ("type", 2.5), ("type", 7), ("type", [True])]
    return out


ARGS = [  # (name, spec changes or callable name, expected input error)
    "rhobeg=0", "rhobeg<0", "rhoend=0", "rhoend<0", "rhobeg=rhoend", "rhobeg<rhoend", "rhobeg=nan", "rhoend=nan", "npt=n", "npt=1", "npt=0", "npt<0",
    "maxfun=0", "maxfun<0", "gap-narrow", "gap-crossed", "gap-equal", "gap-scaled-rhobeg", "gap-one-coordinate", "gap-default-rhobeg",
    "lower-short", "upper-short", "lower-long", "upper-long", "lower-scaled-short", "x0-matrix", "reg-no-prox", "reg-no-lh", "reg-lh=0", "reg-lh<0",
    "reg-no-both", "reg-lh=nan", "default-rhobeg-small-gap", "gap-ulp", "gap-crossed-scaled", "gap-equal-scaled", "gap-one-crossed-scaled", "upper-scaled-long", "bounds-nan"]


def arg_case(name):
    """-> (spec, kw_override)"""
    s = base_spec("plain")
    kw = {}
    lo, hi = np.array([-1.0, -2.0, -1.5]), np.array([1.5, 2.0, 3.0])
    if name == "rhobeg=0": kw["rhobeg"] = 0.0
    elif name == "rhobeg<0": kw["rhobeg"] = -0.1
    elif name == "rhoend=0": kw["rhoend"] = 0.0
    elif name == "rhoend<0": kw["rhoend"] = -1e-8
    elif name == "rhobeg=rhoend": kw.update(rhobeg=1e-3, rhoend=1e-3)
    elif name == "rhobeg<rhoend": kw.update(rhobeg=1e-4, rhoend=1e-3)
    elif name == "rhobeg=nan": kw["rhobeg"] = float("nan")
    elif name == "rhoend=nan": kw["rhoend"] = float("nan")
    elif name == "npt=n": kw["npt"] = 3
    elif name == "npt=1": kw["npt"] = 1
    elif name == "npt=0": kw["npt"] = 0
    elif name == "npt<0": kw["npt"] = -4
    elif name == "maxfun=0": kw["maxfun"] = 0
    elif name == "maxfun<0": kw["maxfun"] = -10
    elif name == "gap-narrow": kw["bounds"] = (lo, lo + 0.39)
    elif name == "gap-crossed": kw["bounds"] = (hi, lo)
    elif name == "gap-crossed-scaled": kw.update(bounds=(hi, lo), scaling_within_bounds=True)
    elif name == "gap-equal-scaled": kw.update(bounds=(lo, lo.copy()), scaling_within_bounds=True)
    elif name == "gap-one-crossed-scaled": kw.update(bounds=(lo, np.array([1.5, -2.5, 3.0])), scaling_within_bounds=True)
    elif name == "upper-scaled-long": kw.update(bounds=(lo, np.append(hi, 1.0)), scaling_within_bounds=True)
    elif name == "bounds-nan": kw.update(bounds=(np.array([-1.0, np.nan, -1.0]), hi))
    elif name == "gap-equal": kw["bounds"] = (lo, lo.copy())
    elif name == "gap-scaled-rhobeg": kw.update(bounds=(lo, hi), scaling_within_bounds=True, rhobeg=0.6)
    elif name == "gap-one-coordinate":
        h = hi.copy(); h[1] = lo[1] + 0.3; kw["bounds"] = (lo, h)
    elif name == "gap-default-rhobeg": kw.update(rhobeg=None, bounds=(lo, lo + 0.2))
    elif name == "default-rhobeg-small-gap":
        kw.update(rhobeg=None, bounds=(np.array([90.0, 90.0, 90.0]), np.array([110.0, 105.0, 110.0])))
        s["x0"] = [100.0, 100.0, 100.0]
    elif name == "gap-ulp": kw.update(bounds=(np.zeros(3), np.array([1.0, np.nextafter(0.4, 0), 1.0])), rhobeg=0.2)
    elif name == "lower-short": kw["bounds"] = (lo[:2], hi)
    elif name == "upper-short": kw["bounds"] = (lo, hi[:2])
    elif name == "lower-long": kw["bounds"] = (np.append(lo, -1.0), hi)
    elif name == "upper-long": kw["bounds"] = (lo, np.append(hi, 1.0))
    elif name == "lower-scaled-short": kw.update(bounds=(lo[:2], hi), scaling_within_bounds=True)
    elif name == "x0-matrix": s["x0"] = [[0.3, -0.8, 1.1], [0.1, 0.2, 0.3], [0.1, 0.2, 0.3]]
    elif name.startswith("reg"):
        h, prox, lh = regulariser({"kind": "l1", "lam": 0.5, "n": 3})
        kw.update(h=h, prox_uh=prox, lh=lh)
        if name == "reg-no-prox": kw["prox_uh"] = None
        elif name == "reg-no-lh": kw["lh"] = None
        elif name == "reg-lh=0": kw["lh"] = 0.0
        elif name == "reg-lh<0": kw["lh"] = -1.0
        elif name == "reg-no-both": kw.update(lh=None, prox_uh=None)
        elif name == "reg-lh=nan": kw["lh"] = float("nan")
    return s, kw


CONTRA = [
    ("full_geom+reduce_delta", "grow", {"growing.safety.full_geom_step": True, "growing.safety.reduce_delta": True}),
    ("full_rank+perturb", "grow", {"growing.full_rank.use_full_rank_interp": True, "growing.perturb_trust_region_step": True}),
    ("both-noise-levels", "noisy", {"noise.quit_on_noise_level": True, "noise.additive_noise_level": 0.1, "noise.multiplicative_noise_level": 0.1}),
    ("both-noise-levels-2", "plain", {"noise.quit_on_noise_level": True, "noise.additive_noise_level": 0.0, "noise.multiplicative_noise_level": 0.0}),
    ("coordinate-too-many", "plain", {"init.random_initial_directions": False, "npt": 11}),
    ("rhoend_scale=0", "soft", {"restarts.rhoend_scale": 0.0}),
    ("delta_scale_new_dirns=0", "grow", {"growing.delta_scale_new_dirns": 0.0}),
    ("reset_rho-only", "grow", {"growing.reset_rho": True}),
    ("reset_rho-only-2", "plain", {"growing.reset_rho": True, "growing.reset_delta": False}),
]
UNKNOWN = ["no.such.parameter", "tr_radius.gamma", "Growing.ndirs_initial", "", "restarts", "logging.save_diagnostic_info "]
ELSEWHERE = {"thorough": list(BASES), "quick": None}


def cases(seed, tier):
    g = gen.rng_for("c07m", seed, 0)
    out = []
    for a in ARGS:
        out.append({"kind": "arg", "name": a})
    for i, c in enumerate(CONTRA):
        out.append({"kind": "contra", "i": i})
    for u in UNKNOWN:
        out.append({"kind": "unknown", "key": u})
    names = list(BASES)
    for key in KEYS:
        vals = KEYS[key][3]
        for v in vals:
            if tier == "thorough":
                bs = names
            else:   # a seeded choice of base configurations; over several seeds all of them
                bs = [names[j] for j in sorted(g.choice(len(names), size=4, replace=False))]
            for b in bs:
                fams = ["rosen"] if tier == "quick" else ["rosen", "zeroresid", "const", "abs"]
                for f in fams:
                    out.append({"kind": "good", "key": key, "value": v, "base": b, "fam": pickf(g) if tier == "quick" else f})
        for why, v in bad_values(key):
            b = names[int(g.integers(len(names)))]
            out.append({"kind": "bad", "key": key, "value": v, "why": why, "base": b})
    N = 600 if tier == "quick" else 16000
    for i in range(N):
        gg = gen.rng_for("c07r", seed, i)
        sp = gen.gen_case(gg, dict(p_misc=0.6, p_diag=0.25))
        if gg.random() < 0.06: sp["maxfun"] = 1
        if gg.random() < 0.06 and sp.get("rhobeg"): sp["rhoend"] = float(sp["rhobeg"] * (1 - 10.0 ** gg.uniform(-15, -1)))
        if i % 6 == 1: sp = gen.soft_restart_focus(gg, sp)
        elif i % 6 == 2: sp = gen.growing_focus(gg, sp)
        out.append({"kind": "random", "spec": sp})
    N = 300 if tier == "quick" else 8000
    for i in range(N):   # several keys changed at once, in range
        gg = gen.rng_for("c07k", seed, i)
        ks = [list(KEYS)[j] for j in gg.choice(len(KEYS), size=int(gg.integers(2, 7)), replace=False)]
        out.append({"kind": "multi", "base": names[int(gg.integers(len(names)))], "fam": pickf(gg),
                    "params": {k: KEYS[k][3][int(gg.integers(len(KEYS[k][3])))] for k in ks}})
    return out


def pickf(g):
    return ["rosen", "rosen", "zeroresid", "const", "abs", "quad", "step"][int(g.integers(7))]


EDGE = {"tr_radius.alpha1": 1.0, "tr_radius.gamma_dec": 1.0}


def run_case(c):
    R = Result()
    R.evals = 1
    kind = c["kind"]
    kw = {}
    expect = "any"
    cell = None
    if kind == "arg":
        s, kw = arg_case(c["name"])
        expect, cell = "input", "arg:" + c["name"]
    elif kind == "contra":
        name, b, up = CONTRA[c["i"]]
        s = base_spec(b)
        up = dict(up)
        if "npt" in up:
            s["npt"] = up.pop("npt")
        s.setdefault("user_params", {}).update(up)
        expect, cell = "input", "contra:" + name
    elif kind == "unknown":
        s = base_spec("plain")
        s["user_params"] = {c["key"]: 1.0}
        expect, cell = "ValueError", "unknown:" + repr(c["key"])
    elif kind in ("good", "bad"):
        s = base_spec(c["base"], c.get("fam", "rosen"))
        npt = s.get("npt", 4)
        v = subst(c["value"], npt)
        s.setdefault("user_params", {})[c["key"]] = v
        fix_up(s)
        cell = "%s:%s=%r@%s" % (kind, c["key"], c["value"], c["base"])
        if kind == "bad":
            expect = "input"
        else:
            expect = "valid"
    elif kind == "multi":
        s = base_spec(c["base"], c["fam"])
        npt = s.get("npt", 4)
        s.setdefault("user_params", {}).update({k: subst(v, npt) for k, v in c["params"].items()})
        fix_up(s)
        cell = "multi"
    else:
        s = c["spec"]
        cell = "random:" + gen.features(s)
        expect = "valid"      # the generator stays inside the documented domain
    if kind != "bad" and restricted(s) and expect == "valid":
        expect = "any"
    if "x0" in s and np.ndim(s["x0"]) > 1:
        tr = trace.Trace()
        class Ex(object): pass
        n = [0]
        def f(x):
            n[0] += 1
            return np.ones(4)
        try:
            tr.soln = dfols.solve(f, np.array(s["x0"]))
        except Exception as e:
            tr.exc = e
        tr.calls = [0] * n[0]
        tr.spec = s
    else:
        tr = trace.run(s, kw_override=kw)
    judge(R, tr, s, expect, cell, c)
    return R


def fix_up(s):
    """make single-key changes meaningful: options that must come in pairs"""
    up = s["user_params"]
    if up.get("init.run_in_parallel") is True:
        up.setdefault("init.random_initial_directions", True)
    if up.get("growing.safety.full_geom_step") is True and up.get("growing.safety.reduce_delta") is True:
        del up["growing.safety.reduce_delta"]
    if up.get("growing.reset_rho") is True:
        up.setdefault("growing.reset_delta", True)
    if "noise.multiplicative_noise_level" in up and "noise.additive_noise_level" in up:
        del up["noise.additive_noise_level"]


def restricted(s):
    """combinations outside what the guide supports: projections need npt=n+1 and the full initial set"""
    up = s.get("user_params") or {}
    return bool(s.get("projs")) and ("growing.ndirs_initial" in up or up.get("init.random_initial_directions") or up.get("restarts.increase_npt"))


def hang_key(s):
    up = s.get("user_params") or {}
    for k in ("tr_radius.alpha1", "tr_radius.gamma_dec", "growing.gamma_dec"):
        if up.get(k) == 1.0:
            return "hang:%s=1.0" % k
    if up.get("restarts.rhoend_scale") == 0.0:
        return "hang:restarts.rhoend_scale=0.0"
    return "hang"


def judge(R, tr, s, expect, cell, c):
    exc, soln = tr.exc, tr.soln
    if isinstance(exc, trace.Hang):
        R.bad(hang_key(s), "%s: no evaluation and no return after %d model fits (%d evaluations so far)" % (cell, tr._idle_max, tr.ncalls))
        return
    if isinstance(exc, trace.OverBudget):
        R.bad("budget", "%s: objective called far more often than maxfun" % cell)
        return
    R.stats["cells_" + c["kind"]] += 1
    if expect == "ValueError":
        if not isinstance(exc, ValueError):
            R.bad("unknown-name-accepted", "%s: expected ValueError, got %r / %r" % (cell, exc, soln and soln.msg))
        elif tr.ncalls:
            R.bad("unknown-name-evaluated", "%s: %d evaluations before ValueError" % (cell, tr.ncalls))
        R.sig(cell)
        return
    if exc is not None:
        up = s.get("user_params") or {}
        if up.get("interpolation.throw_error_on_nans"):
            if isinstance(exc, np.linalg.LinAlgError) and any(c[1] is not None and not np.all(np.isfinite(c[1])) for c in tr.calls):
                return
        R.bad("raised-%s%s" % (type(exc).__name__, ":projections-unsupported" if restricted(s) else ""), "%s: %s: %s" % (cell, type(exc).__name__, exc))
        return
    if soln is None:
        R.bad("no-result", cell)
        return
    # well formed
    flags = {}
    for nm in DOC_FLAGS:
        if not hasattr(soln, nm):
            R.bad("missing-constant", "%s: results object has no %s" % (cell, nm))
        else:
            flags[getattr(soln, nm)] = nm
    if len(flags) != len(DOC_FLAGS) and not R.viol:
        R.bad("constants-clash", "%s: exit constants are not distinct: %s" % (cell, flags))
    if soln.flag not in flags and not R.viol:
        R.bad("undocumented-flag", "%s: flag %r msg %r" % (cell, soln.flag, soln.msg))
    if not isinstance(soln.msg, str) or not soln.msg.strip():
        R.bad("empty-message", "%s: flag %r message %r" % (cell, soln.flag, soln.msg))
    try:
        t = str(soln)
        if not t.strip() or str(soln.msg) not in t:
            R.bad("print-incomplete", "%s: printed %r" % (cell, t[:200]))
    except Exception as e:
        R.bad("print-raised", "%s: str(soln) raised %s: %s (flag %r msg %r)" % (cell, type(e).__name__, e, soln.flag, soln.msg))
    name = flags.get(soln.flag, "?")
    if name == "EXIT_INPUT_ERROR":
        R.stats["input_error_results"] += 1
        if tr.ncalls or soln.nf != 0:
            R.bad("input-error-evaluated", "%s: input error after %d evaluations (nf=%r)" % (cell, tr.ncalls, soln.nf))
        if expect == "valid":
            R.bad("valid-rejected", "%s: %s" % (cell, soln.msg))
    else:
        if expect == "input":
            R.bad("invalid-accepted", "%s: flag %r msg %r after %d evaluations" % (cell, soln.flag, soln.msg, tr.ncalls))
        # a result with a solution is complete
        n = len(s["x0"])
        ok = (isinstance(soln.x, np.ndarray) and soln.x.shape == (n,) and isinstance(soln.resid, np.ndarray) and soln.resid.ndim == 1 and np.isscalar(float(soln.obj))
              and soln.nf >= 1 and 1 <= soln.nx <= soln.nf and soln.nruns >= 1 and soln.xmin_eval_num is not None)
        if not ok:
            R.bad("incomplete-result", "%s: x=%r resid=%r obj=%r nf=%r nx=%r nruns=%r msg=%r" % (cell, soln.x, soln.resid, soln.obj, soln.nf, soln.nx, soln.nruns, soln.msg))
        if soln.jacobian is not None and (np.shape(soln.jacobian) != (len(soln.resid), n)):
            R.bad("jacobian-shape", "%s: %r" % (cell, np.shape(soln.jacobian)))
    R.stats["flag_" + name] += 1
    R.sig(cell, name, re.sub(r"[0-9.e+-]+", "#", soln.msg))
    R.sample = {"cell": cell, "flag": name, "msg": soln.msg, "evals": tr.ncalls}
