"""C15: Dykstra's projection routine - feasible within its stopping rule, near the true projection, exact in a last box, never more than max_iter sweeps."""
import numpy as np
from scipy.optimize import nnls
from vlib import gen
from vlib.runner import Result

DIRECT = True
RULE = ("random intersections (1..4 sets; balls, half-spaces, boxes incl. degenerate/one-sided boxes, sets containing a common interior ball of radius 1e-2..10, sliver angles, tangent-like sets) in dimension 1..6, starting "
        "points inside / near / far (up to 1e6), default and user tolerances 1e-16..1e-4, max_iter 1..20000; projectors wrapped to count calls; distances measured by closed-form oracles; reference projection = independent "
        "textbook Dykstra run to machine precision, accepted only with an a-posteriori KKT error certificate <= 2e-4; non-trivial = starting point outside at least one set; distinct by (n, set kinds, inside/active pattern, "
        "stop kind, tolerance decade)")
ASSUMPTIONS = ["max_iter >= 1", "sets share an interior ball (needed by the error certificate of the reference)"]
# a fixed case that shows the recorded finding: a wedge of two half-planes, loose user tolerance
KNOWN_CASE = dict(n=2, sets=[{"kind": "half", "a": [0.0, 1.0], "b": 0.0}, {"kind": "half", "a": [0.3, -1.0], "b": 0.0}], c=[-10.0, -1.5], rad=1.0, x=[3.0, 1.0],
                  tol=1e-5, max_iter=2000, where="explicit", geo="wedge", default=False)
EPS = np.finfo(float).eps


class Set(object):
    def __init__(self, s):
        self.k = s["kind"]
        self.s = s
        if self.k == "ball": self.c, self.r = np.array(s["c"], float), float(s["r"])
        elif self.k == "half":
            self.a, self.b = np.array(s["a"], float), float(s["b"]); self.na = float(np.linalg.norm(self.a))
        else: self.l, self.u = np.array(s["l"], float), np.array(s["u"], float)

    def proj(self, x):
        if self.k == "ball":
            d = np.linalg.norm(x - self.c)
            return x.copy() if d <= self.r else self.c + (self.r / d) * (x - self.c)
        if self.k == "half":
            t = float(self.a.dot(x)) - self.b
            return x.copy() if t <= 0 else x - (t / self.na ** 2) * self.a
        return np.minimum(np.maximum(x, self.l), self.u)

    def dist(self, x):
        if self.k == "ball": return max(0.0, float(np.linalg.norm(x - self.c)) - self.r)
        if self.k == "half": return max(0.0, (float(self.a.dot(x)) - self.b) / self.na)
        return float(np.linalg.norm(np.maximum(0.0, np.maximum(self.l - x, x - self.u))))

    def normals(self, z, tol):
        """outward unit normals nearly active at z, with slack bound s: n.(y-z) <= s for every y in the set"""
        out = []
        if self.k == "ball":
            d = z - self.c; nd = float(np.linalg.norm(d))
            if nd > 0 and self.r - nd <= tol: out.append((d / nd, max(self.r - nd, 0.0)))
        elif self.k == "half":
            t = (self.b - float(self.a.dot(z))) / self.na
            if t <= tol: out.append((self.a / self.na, max(t, 0.0)))
        else:
            for j in range(len(z)):
                e = np.zeros(len(z))
                if z[j] - self.l[j] <= tol: e[j] = -1; out.append((e.copy(), max(z[j] - self.l[j], 0.0)))
                if self.u[j] - z[j] <= tol: e[j] = 1; out.append((e.copy(), max(self.u[j] - z[j], 0.0)))
        return out

    def scale(self):
        if self.k == "ball": return float(np.linalg.norm(self.c)) + self.r
        if self.k == "half": return abs(self.b) / self.na
        f = np.concatenate([self.l[np.abs(self.l) < 1e19], self.u[np.abs(self.u) < 1e19], [0.0]])
        return float(np.linalg.norm(f))


def textbook(sets, x0, max_iter, tol):
    x = x0.copy(); p = len(sets); y = np.zeros((p, len(x0))); n = 0
    while n < max_iter:
        c = 0.0
        for i in range(p):
            t = x - y[i]
            xn = sets[i].proj(t)
            yn = xn - t
            dy = yn - y[i]
            c += float(dy.dot(dy))
            y[i] = yn; x = xn
        n += 1
        if c < tol: break
    return x, n


def certify(sets, x0, z, centre, rad):
    """upper bound on |z - P(x0)|"""
    viol = max(s.dist(z) for s in sets)
    theta = viol / (viol + rad)
    best = np.inf
    for tol in (1e-9, 1e-6, 1e-4):
        N = [t for s in sets for t in s.normals(z, tol * (1 + np.linalg.norm(z - centre)))]
        v = x0 - z
        if not N:
            e, lam, sl = float(np.linalg.norm(v)), np.zeros(0), np.zeros(0)
        else:
            A = np.array([t[0] for t in N]).T
            try: lam, e = nnls(A, v, maxiter=200)
            except RuntimeError: continue
            sl = np.array([t[1] for t in N])
        a = float(lam.dot(sl)) if len(lam) else 0.0
        a += (float(np.linalg.norm(v)) + 1.0) * theta * float(np.linalg.norm(centre - z))
        # t^2 <= a + e t
        best = min(best, 0.5 * (e + np.sqrt(e * e + 4 * a)))
    return best


def cases(seed, tier):
    yield {"explicit": KNOWN_CASE}
    for i in range(1800 if tier == "quick" else 36000):
        yield {"seed": seed, "i": i, "count": 12}


def make(g):
    n = int(g.integers(1, 7)); p = int(g.integers(1, 5))
    far = float(10.0 ** g.uniform(0, 3)) if g.random() < 0.3 else float(g.uniform(0, 3))
    c = g.normal(size=n) * far
    if g.random() < 0.1: c = np.zeros(n)
    rad = float(10.0 ** g.uniform(-2, 1)) if g.random() < 0.4 else float(10.0 ** g.uniform(-0.5, 0.5))
    sets = []
    base = None
    geo = ["rand", "rand", "rand", "sliver", "near-opposite"][int(g.integers(5))]
    for i in range(p):
        k = ["ball", "half", "box"][int(g.integers(3))]
        if geo != "rand" and i < 2: k = "half" if g.random() < 0.7 else "ball"
        inner = rad * (1.0 if g.random() < 0.3 else g.uniform(1, 4))
        if k == "ball":
            r = inner * (1.0 if g.random() < 0.1 else g.uniform(1.01, 6) if g.random() < 0.8 else 10 ** g.uniform(1, 3))
            d = g.normal(size=n); d /= np.linalg.norm(d)
            if geo != "rand" and base is not None:
                d = base * (1 if geo == "sliver" else -1) + 10.0 ** g.uniform(-2, 0) * d; d /= np.linalg.norm(d)
            cc = c - d * (r - inner)
            if base is None: base = d
            sets.append({"kind": "ball", "c": cc.tolist(), "r": float(np.linalg.norm(cc - c) + inner)})
        elif k == "half":
            a = g.normal(size=n)
            if g.random() < 0.2: a = a * (g.random(n) < 0.5)
            if np.linalg.norm(a) == 0: a = np.ones(n)
            a /= np.linalg.norm(a)
            if geo != "rand" and base is not None:
                a = base * (1 if geo == "sliver" else -1) + 10.0 ** g.uniform(-2, 0) * a; a /= np.linalg.norm(a)
            if base is None: base = a
            a = a * (10.0 ** g.uniform(-3, 3) if g.random() < 0.3 else 1.0)
            sets.append({"kind": "half", "a": a.tolist(), "b": float(a.dot(c) + inner * np.linalg.norm(a))})
        else:
            l = c - inner * np.where(g.random(n) < 0.5, 1.0, g.uniform(1, 5, size=n)); u = c + inner * np.where(g.random(n) < 0.5, 1.0, g.uniform(1, 5, size=n))
            l = np.where(g.random(n) < 0.15, -1e20, l); u = np.where(g.random(n) < 0.15, 1e20, u)
            sets.append({"kind": "box", "l": l.tolist(), "u": u.tolist()})
    if g.random() < 0.35:   # as the solver does: box appended last
        sets = [s for s in sets if s["kind"] != "box"][:3] + [{"kind": "box", "l": (c - rad * g.uniform(1, 3, size=n)).tolist(), "u": (c + rad * g.uniform(1, 3, size=n)).tolist()}]
    S = [Set(s) for s in sets]
    w = ["inside", "near", "near", "mid", "far", "veryfar", "boundary"][int(g.integers(7))]
    d = g.normal(size=n); d /= np.linalg.norm(d)
    if w == "inside": x = c + d * rad * g.random() ** (1.0 / n)
    elif w == "near": x = c + d * rad * g.uniform(0.9, 4)
    elif w == "mid": x = c + d * rad * 10 ** g.uniform(0.5, 1.5)
    elif w == "far": x = c + d * 10 ** g.uniform(1, 3)
    elif w == "veryfar": x = c + d * 10 ** g.uniform(3, 6)
    else: x = S[0].proj(c + d * rad * 10)
    tol = 1e-10 if g.random() < 0.6 else float(10.0 ** g.uniform(-16, -4))
    mi = 100 if g.random() < 0.4 else int(10 ** g.uniform(0, 2.3)) if g.random() < 0.4 else 20000 if g.random() < 0.3 else 2000
    return dict(n=n, sets=sets, c=c, rad=rad, x=x, tol=tol, max_iter=mi, where=w, geo=geo, default=bool(tol == 1e-10 and mi == 100))


def run_case(spec):
    R = Result()
    if "explicit" in spec:
        c = dict(spec["explicit"])
        c["c"], c["x"] = np.array(c["c"], float), np.array(c["x"], float)
        one(c, R, gen.rng_for("c15e", 0, 0))
        return R
    for j in range(spec["count"]):
        if spec.get("only") is not None and j != spec["only"]:
            continue
        g = gen.rng_for("c15", spec["seed"] * 1000003 + spec["i"], j)
        one(make(g), R, g)
    return R


def one(c, R, g):
    from dfols import util as U
    R.evals += 1
    S = [Set(s) for s in c["sets"]]
    n, p, x, tol, mi = c["n"], len(S), c["x"], c["tol"], c["max_iter"]
    what = str({k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in c.items()})
    cnt = [0] * p
    order = []

    def wrap(i):
        lib = S[i]
        use_lib = g.random() < 0.4

        def P(w):
            cnt[i] += 1
            if len(order) < 4000: order.append(i)
            if use_lib and lib.k == "ball": return U.pball(w, lib.c, lib.r)
            if use_lib and lib.k == "box": return U.pbox(w, lib.l, lib.u)
            return lib.proj(w)
        return P
    P = [wrap(i) for i in range(p)]
    x_in = x.copy()
    scale = max([s.scale() for s in S]) + float(np.linalg.norm(x)) + 1e-300
    try:
        out = U.dykstra(P, x_in) if c["default"] else U.dykstra(P, x_in, max_iter=mi, tol=tol)
    except Exception as e:
        R.bad("raised", "%r on %s" % (e, what)); return
    out = np.asarray(out)
    if out.shape != (n,) or not np.all(np.isfinite(out)):
        R.bad("bad-result", "returned %r on %s" % (out, what)); return
    if not np.array_equal(x_in, x):
        R.bad("input-modified", what)
    sweeps = max(cnt)
    R.stats["sweeps"] += sweeps
    if sweeps > mi or sweeps < 1 or min(cnt) != sweeps:
        R.bad("sweeps", "projector calls %s, max_iter=%d: %s" % (cnt, mi, what)); return
    rule = sweeps < mi
    R.stats["stopped_by_rule" if rule else "stopped_at_max_iter"] += 1
    if S[-1].k == "box" and (np.any(out < S[-1].l) or np.any(out > S[-1].u)):
        R.bad("last-box", "result %s not exactly in the last box: %s" % (out.tolist(), what)); return
    R.stats["last_box_exact"] += S[-1].k == "box"
    rnd = 50 * (p + n) * EPS * scale
    d = [s.dist(out) for s in S]
    if rule:
        if max(d) > np.sqrt(p * tol) * (1 + 1e-9) + rnd:
            R.bad("feasibility", "distances %s exceed sqrt(p*tol)=%.3g after %d sweeps: %s" % (d, np.sqrt(p * tol), sweeps, what)); return
        R.stats["feasibility_judged"] += 1
    d0 = [s.dist(x) for s in S]
    if max(d0) == 0.0:
        R.stats["already_feasible"] += 1
        if float(np.max(np.abs(out - x))) > rnd:
            R.bad("feasible-moved", "feasible point moved by %s: %s" % ((out - x).tolist(), what)); return
    if rule:
        z, k = textbook(S, x, 4000 if sweeps < 500 else 20000, 1e-32)
        cert = certify(S, x, z, c["c"], c["rad"])
        if cert <= 2e-4:
            R.stats["reference_certified"] += 1
            gap = float(np.linalg.norm(out - z))
            if gap > 1e-3 + cert + rnd:
                tb, k2 = textbook(S, x, mi, tol)
                # does the textbook iteration with the same stopping rule stop equally far away?
                inherent = float(np.linalg.norm(tb - z)) > 1e-3 - cert - rnd and float(np.linalg.norm(tb - out)) <= 1e-4 + 1e-3 * gap
                R.stats["inherent_gap" if inherent else "gap"] += 1
                R.bad("stopping-rule-slow-geometry" if inherent else "not-nearest", "result is %.3g from the projection (certificate %.2g) after %d sweeps, tol %.3g: %s" % (gap, cert, sweeps, tol, what))
                return
            R.stats["reference_gap_above_1e-4"] += gap > 1e-4
        else:
            R.stats["reference_not_certified"] += 1
    if max(d0) > 0:
        act = "".join(sorted(s.k[0] + ("a" if s.normals(out, 1e-6 * scale) else ".") for s in S))
        R.sig(n, act, rule, int(np.floor(np.log10(tol))), c["where"])
    # the library's own projectors
    for s in S:
        if s.k == "ball":
            y = U.pball(x.copy(), s.c, s.r)
            if float(np.linalg.norm(y - s.proj(x))) > 20 * EPS * scale: R.bad("pball", "pball(%s, %s, %r) = %s" % (x.tolist(), s.c.tolist(), s.r, np.asarray(y).tolist()))
            R.stats["pball_checked"] += 1
        elif s.k == "box":
            y = U.pbox(x.copy(), s.l, s.u)
            if not np.array_equal(y, s.proj(x)): R.bad("pbox", "pbox(%s) = %s" % (x.tolist(), np.asarray(y).tolist()))
            R.stats["pbox_checked"] += 1
    if R.sample is None and max(d0) > 0:
        R.sample = {"sets": c["sets"], "x": x.tolist(), "out": out.tolist(), "sweeps": sweeps, "distances": d, "tol": tol}
