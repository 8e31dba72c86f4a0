"""C13: geometry / projected-gradient / S-FISTA / convex geometry steps stay in their regions; the regularised step never has a negative predicted reduction."""
import numpy as np
from vlib import gen, trace, problems
from vlib.runner import Result

DIRECT = True
RULE = ("(a) random linear geometry problems over box and ball (point inside / on faces / at vertices / a hair from a bound, one-sided, zero and mixed-scale gradients, c=0/1/random) against a bisection "
        "on the clipped ray; (b) random convex-constrained subproblems for the projected-gradient, S-FISTA and convex geometry solvers (balls, half-spaces, boxes; iteration caps hit or not; zero / PSD / "
        "low-rank Hessians); (c) every call of those routines and of Controller.trust_region_step inside real runs, also re-called with perturbed radius and model; non-trivial = non-zero step; distinct "
        "by routine, dimension and boundary pattern")
ASSUMPTIONS = ["gradient components are zero or not below 1e-9 of the largest; the step norm is judged up to the rounding of absolute coordinates (4 eps |x|)"]
CASE_LIMIT = 200
LD = np.longdouble


def cases(seed, tier):
    q = tier == "quick"
    for i in range(300 if q else 8000):
        yield {"k": "geom", "seed": seed, "i": i, "count": 120}
    for i in range(650 if q else 7000):
        yield {"k": "conv", "seed": seed, "i": i, "count": 4}
    for i in range(90 if q else 1000):
        g = gen.rng_for("c13live", seed, i)
        which = i % 3
        sp = gen.gen_case(g, dict(maxfun=(8, 25), p_reg=1.0 if which == 0 else 0.0, p_proj=1.0 if which == 1 else 0.0, p_bounds=0.8 if which == 2 else 0.5, p_misc=0.2))
        if which == 0 and g.random() < 0.4:   # regulariser and projections together
            gen.add_projections(g, sp, len(sp["x0"]), 0.3)
            sp["maxfun"] = 12
            sp.pop("npt", None)
            for k in list(sp.get("user_params", {})):
                if k.startswith(("growing", "init", "regression", "restarts")): del sp["user_params"][k]
            if sp.get("bounds") is not None: sp["bounds"] = None
        yield {"k": "live", "spec": sp}


# ------------------------------------------------------------------------------------------------ (a)
def lin_max(g, a, b, Delta):
    """max g's over a<=s<=b, |s|<=Delta (a<=0<=b): s = clip(t g); exact up to bisection"""
    g, a, b = g.astype(LD), a.astype(LD), b.astype(LD)
    nz = g != 0
    if not nz.any():
        return np.zeros(len(g), dtype=LD)
    def s(t):
        v = np.where(nz, t * g, 0)
        return np.minimum(np.maximum(v, a), b)
    top = np.where(g > 0, b, np.where(g < 0, a, 0))
    if np.all(np.isfinite(top)) and top.dot(top) <= LD(Delta) ** 2:
        return top
    gs = np.abs(g[nz]).min()
    hi = LD(Delta) / np.sqrt(g.dot(g))
    while True:
        v = s(hi)
        if v.dot(v) >= LD(Delta) ** 2 or hi > LD(Delta) / gs * 2:
            break
        hi *= 2
    lo = LD(0)
    for _ in range(130):
        mid = (lo + hi) / 2
        v = s(mid)
        if v.dot(v) <= LD(Delta) ** 2: lo = mid
        else: hi = mid
    return s(lo)


def make_geom(g):
    n = int(g.integers(1, 9))
    Delta = float(10.0 ** g.uniform(-6, 3)) if g.random() < 0.6 else float(g.uniform(0.1, 3))
    x = g.normal(size=n) * (Delta * 10.0 ** g.uniform(-2, 3) if g.random() < 0.7 else 0.0)
    lo, up = np.full(n, -1e20), np.full(n, 1e20)
    bk = int(g.integers(6))
    for j in range(n):
        for side in (0, 1):
            r = g.random()
            if bk == 0: dist = np.inf
            elif bk == 1: dist = Delta * g.uniform(0.02, 1.5)
            elif bk == 2: dist = 0.0 if r < 0.4 else Delta * g.uniform(0.02, 2)
            elif bk == 3: dist = Delta * 10.0 ** g.uniform(-14, 0.5)
            elif bk == 4: dist = [0.0, Delta, 0.5 * Delta, np.inf, Delta / np.sqrt(n)][int(g.integers(5))]
            else: dist = Delta * g.uniform(0.0, 0.8)
            if np.isfinite(dist):
                if side == 0: lo[j] = min(x[j], x[j] - dist)
                else: up[j] = max(x[j], x[j] + dist)
    gk = int(g.integers(5))
    if gk == 0: v = g.normal(size=n)
    elif gk == 1: v = g.normal(size=n) * (g.random(n) < 0.5)
    elif gk == 2: v = g.normal(size=n) * 10.0 ** g.uniform(-5, 0, size=n)
    elif gk == 3: v = np.round(g.normal(size=n) * 2)
    else: v = g.choice([-1.0, 1.0], size=n)
    v = v / Delta * 10.0 ** (g.uniform(-2, 4) if g.random() < 0.5 else 0.0)
    c = [0.0, 1.0, float(g.normal()), -float(np.abs(v).sum() * Delta * g.random())][int(g.integers(4))]
    return dict(n=n, x=x, c=c, g=v, lo=lo, up=up, Delta=Delta, bk=bk, gk=gk)


def judge_geom(R, P, xnew, where=""):
    x, c, g, lo, up, Delta = P["x"], P["c"], P["g"], P["lo"], P["up"], P["Delta"]
    what = where + str({k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in P.items()})
    n = len(x)
    xnew = np.asarray(xnew)
    if xnew.shape != (n,) or not np.all(np.isfinite(xnew)):
        R.bad("geom-bad-point", "%r %s" % (xnew, what)); return
    fin = np.concatenate([np.abs(lo[lo > -1e19]), np.abs(up[up < 1e19]), np.abs(x), [Delta]])
    scale = float(np.max(fin))
    tolb = 1e-12 * max(scale, 1.0 if P.get("live") else scale) + 1.5e-14
    over = max(float(np.max(lo - xnew)), float(np.max(xnew - up)))
    if over > tolb:
        R.bad("geom-box", "outside the box by %.3g (allowed %.3g) %s" % (over, tolb, what)); return
    s = xnew.astype(LD) - x.astype(LD)
    ns = float(np.sqrt(s.dot(s)))
    rnd = 4 * np.finfo(float).eps * float(np.max(np.abs(x)) + np.max(np.abs(xnew))) * np.sqrt(n) + 3e-14 * np.sqrt(n)
    if ns > Delta * (1 + 1e-8) + rnd:
        R.bad("geom-ball", "|s|=%r > Delta=%r %s" % (ns, Delta, what)); return
    a, b = np.minimum(lo - x, 0.0), np.maximum(up - x, 0.0)
    val = abs(LD(c) + g.astype(LD).dot(s))
    best = max(abs(LD(c) + g.astype(LD).dot(lin_max(g, a, b, Delta))), abs(LD(c) + g.astype(LD).dot(lin_max(-g, a, b, Delta))))
    slack = float(np.abs(g).sum()) * rnd
    if val < best * (1 - 1e-6) - slack:
        R.bad("geom-max", "|c+g's|=%r but the maximum is %r %s" % (float(val), float(best), what)); return
    if val < abs(c) * (1 - 1e-12) - slack:
        R.bad("geom-worse-than-zero", "|c+g's|=%r < |c| %s" % (float(val), what)); return
    hit = int(np.sum(np.abs(xnew - lo) <= tolb) + np.sum(np.abs(xnew - up) <= tolb))
    R.stats["geom_judged"] += 1
    R.stats["geom_on_bounds"] += hit > 0
    R.stats["geom_on_ball"] += ns > 0.999 * Delta
    if ns > 0:
        R.sig("geom", n, P.get("bk"), P.get("gk"), hit, ns > 0.999 * Delta)


# ------------------------------------------------------------------------------------------------ (b)
def make_corner(g):
    """several sets active (or nearly) at the current point, radius comparable with their size: Dykstra's increments matter"""
    n = int(g.integers(3, 9))
    delta = float(10.0 ** g.uniform(-2, 0.7))
    sets = []
    for _ in range(int(g.integers(1, 7))):
        kind = int(g.integers(3))
        if kind == 0:
            a = g.normal(size=n); a /= np.linalg.norm(a)
            sets.append({"kind": "half", "a": a.tolist(), "b": float(g.uniform(0, 0.3)) if g.random() < 0.5 else 0.0})
        elif kind == 1:
            c = g.normal(size=n)
            sets.append({"kind": "ball", "c": c.tolist(), "r": float(np.linalg.norm(c) * (1.1 if g.random() < 0.5 else 1.0 + 1e-15))})
        else:
            sets.append({"kind": "box", "l": (-g.uniform(0, 0.5, size=n)).tolist(), "u": g.uniform(0, 0.5, size=n).tolist()})
    x = np.zeros(n)
    if g.random() < 0.5:   # same problem away from the origin
        t = g.normal(size=n) * 10.0 ** g.uniform(-1, 1)
        x = x + t
        for q in sets:
            if q["kind"] == "half": q["b"] = float(q["b"] + np.array(q["a"]).dot(t))
            elif q["kind"] == "ball": q["c"] = (np.array(q["c"]) + t).tolist()
            else: q["l"] = (np.array(q["l"]) + t).tolist(); q["u"] = (np.array(q["u"]) + t).tolist()
    proj = [problems.projection(q)[0] for q in sets]
    J = g.normal(size=(n, n))
    hk = ["psd", "zero"][int(g.integers(2))]
    H = J.dot(J.T) if hk == "psd" else np.zeros((n, n))
    v = g.normal(size=n) * 10.0 ** g.uniform(-1.5, 1.5)
    return n, delta, x, sets, proj, H, v, "corner-" + hk


def make_conv(g):
    if g.random() < 0.6:
        return make_corner(g)
    n = int(g.integers(1, 6))
    delta = float(10.0 ** g.uniform(-4, 1.5))
    x = g.normal(size=n) * (delta * 10.0 ** g.uniform(-1, 2) if g.random() < 0.7 else 0.0)
    sp = {"x0": x.tolist(), "bounds": None}
    sets = []
    for s in gen.add_projections(g, sp, n, delta * 10.0 ** g.uniform(-1, 0.3), k=int(g.integers(0, 4)) or 1):
        sets.append(s)
    proj = [problems.projection(s)[0] for s in sets]
    # the current point of the solver is feasible: move x into all sets
    y = x.copy()
    for _ in range(300):
        for p in proj: y = p(y)
    hk = ["psd", "low", "zero", "big", "small"][int(g.integers(5))]
    J = g.normal(size=(n + 1 if hk != "low" else max(1, n // 2), n))
    H = 2 * J.T.dot(J)
    if hk == "zero": H = np.zeros((n, n))
    if hk == "big": H *= 10.0 ** g.uniform(2, 8)
    if hk == "small": H *= 10.0 ** g.uniform(-10, -2)
    v = g.normal(size=n) * 10.0 ** g.uniform(-4, 4)
    if g.random() < 0.1: v = np.zeros(n)
    return n, delta, y, sets, proj, H, v, hk


def norm_check(R, name, d, x, delta, what):
    d = np.asarray(d)
    nd = float(np.linalg.norm(d))
    rnd = 4 * np.finfo(float).eps * float(np.linalg.norm(x)) * 2
    if not (nd <= delta * (1 + 1e-8) + rnd):
        R.bad(name + "-norm", "|d|=%r delta=%r (|d|/delta-1=%.3g) %s" % (nd, delta, nd / delta - 1, what))
        return False
    R.stats[name + "_judged"] += 1
    R.stats[name + "_on_ball"] += nd > 0.999 * delta
    R.sig(name, len(d), nd > 0.999 * delta, nd == 0, what.split("|")[0][:30])
    return True


def conv_case(R, spec, j):
    from dfols import trust_region as TR
    g = gen.rng_for("c13conv", spec["seed"] * 1000003 + spec["i"], j)
    n, delta, x, sets, proj, H, v, hk = make_conv(g)
    what = "%s,%d sets| n=%d x=%s g=%s H=%s delta=%r sets=%s" % (hk, len(sets), n, x.tolist(), v.tolist(), H.tolist(), delta, sets)
    dmax = int([100, 100, 30, 10, 10, 4, 3, 1][int(g.integers(8))])
    dtol = float([1e-10, 1e-10, 1e-4, 1e-16][int(g.integers(4))])
    R.evals += 3
    with np.errstate(all="ignore"):
        d, gnew, _ = TR.ctrsbox_pgd(x.copy(), v.copy(), H.copy(), proj, delta, d_max_iters=dmax, d_tol=dtol)
        norm_check(R, "pgd", d, x, delta, what)
        s = TR.ctrsbox_geometry(x.copy(), float(g.normal()), v.copy(), proj, delta, d_max_iters=dmax, d_tol=dtol)
        norm_check(R, "cgeom", s, x, delta, what)
        q = {"kind": ["l1", "l2"][int(g.integers(2))], "lam": float(10.0 ** g.uniform(-3, 2)), "n": n}
        h, prox, lh = problems.regulariser(q)
        d, gnew, _ = TR.ctrsbox_sfista(x.copy(), v.copy(), H.copy(), proj, delta, h, lh, prox, func_tol=float(10.0 ** g.uniform(-8, 1)), max_iters=int([30, 80, 1][int(g.integers(3))]),
                                       d_max_iters=dmax, d_tol=dtol)
        norm_check(R, "sfista", d, x, delta, what + " reg=%s" % q)


# ------------------------------------------------------------------------------------------------ (c)
def live_case(R, spec):
    import dfols.controller as C
    from dfols.util import remove_scaling
    reg = spec.get("reg")
    saved = {k: getattr(C, k) for k in ("trsbox_geometry", "ctrsbox_pgd", "ctrsbox_sfista", "ctrsbox_geometry") if hasattr(C, k)}
    st = {"in": False}
    g = np.random.default_rng(len(spec["x0"]) + spec["npseed"])

    def w_geom(xbase, c, gg, lower, upper, Delta, *a, **k):
        P = dict(n=len(xbase), x=np.array(xbase), c=float(c), g=np.array(gg), lo=np.array(lower), up=np.array(upper), Delta=float(Delta), bk="live", gk="live", live=True)
        out = saved["trsbox_geometry"](xbase, c, gg, lower, upper, Delta, *a, **k)
        if np.all(np.isfinite(P["g"])) and np.all((P["g"] == 0) | (np.abs(P["g"]) > 1e-9 * np.max(np.abs(P["g"])))) and np.max(np.abs(P["g"])) > 1e-10:
            R.evals += 1
            judge_geom(R, P, np.array(out), "in a real run: ")
        return out

    def w_conv(name, idelta):
        def w(*a, **k):
            x, dl = np.array(a[0], copy=True), float(a[idelta])
            fin = all(np.all(np.isfinite(z)) for z in a[:3] if isinstance(z, np.ndarray))
            out = saved[name](*a, **k)
            if fin:
                R.evals += 1
                norm_check(R, name.replace("ctrsbox_", "live_"), np.array(out[0] if isinstance(out, tuple) else out), x, dl, "in a real run| %s" % gen.features(spec))
            return out
        return w
    orig_tr = C.Controller.trust_region_step

    def w_step(self, params, *a, **k):
        out = orig_tr(self, params, *a, **k)
        if reg and not st["in"]:
            st["in"] = True
            try:
                pred(self, out, "main loop")
                d0, J0, c0 = self.delta, self.model.model_jac.copy(), self.model.model_const.copy()
                for _ in range(2):
                    self.delta = float(d0 * 10.0 ** g.uniform(-2, 2))
                    self.model.model_jac = J0 * g.uniform(-1, 3) + g.normal(size=J0.shape) * 10.0 ** g.uniform(-3, 2)
                    self.model.model_const = c0 + g.normal(size=c0.shape) * 10.0 ** g.uniform(-3, 1)
                    pred(self, orig_tr(self, params, float(10.0 ** g.uniform(-8, 2))), "perturbed model")
                self.delta, self.model.model_jac, self.model.model_const = d0, J0, c0
            finally:
                st["in"] = False
        return out

    def pred(ctl, out, where):
        d, gopt, H = np.array(out[0]), np.array(out[1]), np.array(out[2])
        if not (np.all(np.isfinite(gopt)) and np.all(np.isfinite(H))):
            return
        x = ctl.model.xopt(abs_coordinates=True)
        un = (lambda z: z) if ctl.scaling_changes is None else (lambda z: remove_scaling(z, ctl.scaling_changes))
        h = ctl.h
        h0, h1 = float(h(un(x))), float(h(un(x + d)))
        red = h0 - (float(gopt.dot(d)) + 0.5 * float(d.dot(H).dot(d)) + h1)
        mag = abs(h0) + abs(h1) + float(np.abs(gopt).dot(np.abs(d))) + float(np.linalg.norm(H)) * float(d.dot(d))
        R.evals += 1
        R.stats["reg_steps_judged"] += 1
        R.stats["reg_zero_steps"] += not np.any(d)
        R.sig("regstep", where, len(d), not np.any(d))
        if red < -1e-12 * mag - 1e-300:
            R.bad("negative-predicted-reduction", "%s: predicted reduction %r (magnitude %.3g) d=%s delta=%r" % (where, red, mag, d.tolist(), ctl.delta))
        nd = float(np.linalg.norm(d))
        if nd > ctl.delta * (1 + 1e-8) + 8 * np.finfo(float).eps * float(np.linalg.norm(x)):
            R.bad("regstep-norm", "|d|=%r delta=%r" % (nd, ctl.delta))
    for k in saved:
        setattr(C, k, w_geom if k == "trsbox_geometry" else w_conv(k, {"ctrsbox_pgd": 4, "ctrsbox_sfista": 4, "ctrsbox_geometry": 4}[k]))
    C.Controller.trust_region_step = w_step
    try:
        tr = trace.run(spec)
    finally:
        for k, v in saved.items():
            setattr(C, k, v)
        C.Controller.trust_region_step = orig_tr
    R.stats["live_runs"] += 1


def run_case(spec):
    from dfols import trust_region as TR
    R = Result()
    if spec["k"] == "live":
        live_case(R, spec["spec"])
        return R
    for j in range(spec["count"]):
        if spec["k"] == "conv":
            conv_case(R, spec, j)
            continue
        g = gen.rng_for("c13geom", spec["seed"] * 1000003 + spec["i"], j)
        P = make_geom(g)
        R.evals += 1
        xx, gg, lo, up = P["x"].copy(), P["g"].copy(), P["lo"].copy(), P["up"].copy()
        out = TR.trsbox_geometry(xx, P["c"], gg, lo, up, P["Delta"])
        if not (np.array_equal(xx, P["x"]) and np.array_equal(gg, P["g"]) and np.array_equal(lo, P["lo"]) and np.array_equal(up, P["up"])):
            R.bad("inputs-modified", str(P))
        judge_geom(R, P, out)
    R.sample = {"kind": spec["k"], "i": spec["i"], "count": spec["count"]}
    return R
