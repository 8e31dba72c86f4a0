"""Deterministic residual functions, described by plain JSON specs."""
import numpy as np


def make_residual(p):
    """p: dict(fam, n, m, seed, ...) -> function x -> r (pure function of x)."""
    fam, n, m = p["fam"], p["n"], p["m"]
    g = np.random.RandomState(p["seed"])
    sc = float(p.get("scale", 1.0))
    c = np.array(p.get("centre", np.zeros(n)), dtype=float)
    w = np.array(p.get("width", np.ones(n)), dtype=float)   # typical length in each coordinate
    if fam == "linear":
        A = linear_matrix(p)
        b = linear_rhs(p, A)
        return lambda x: A.dot(x) - b
    if fam == "quad":
        A = g.normal(size=(m, n)); B = 0.3 * g.normal(size=(m, n, n)); b = g.normal(size=m)
        return lambda x: sc * (A.dot((x - c) / w) + np.einsum("ijk,j,k->i", B, (x - c) / w, (x - c) / w) - b)
    if fam == "rosen":
        def f(x):
            z = (x - c) / w
            r = np.empty(m)
            for i in range(m):
                j = i % n
                k = (j + 1) % n
                r[i] = 10.0 * (z[k] - z[j] ** 2) if (i // n) % 2 == 0 and n > 1 else 1.0 - z[j] + 0.1 * (i // n)
            return sc * r
        return f
    if fam == "expfit":
        A = g.normal(size=(m, n)) * 0.7; y = g.uniform(0.2, 3.0, size=m)
        return lambda x: sc * (np.exp(np.clip(A.dot((x - c) / w), -20.0, 20.0)) - y)
    if fam == "trig":
        A = g.normal(size=(m, n)); ph = g.uniform(0, 6, size=m); b = g.normal(size=m) * 0.3
        return lambda x: sc * (np.sin(A.dot((x - c) / w) + ph) - b)
    if fam == "zeroresid":
        z0 = g.normal(size=n) * 0.5
        A = g.normal(size=(m, n))
        def f(x):
            z = (x - c) / w - z0
            return sc * (A.dot(z) + 0.2 * A.dot(z ** 2))
        return f
    if fam == "step":      # discontinuous
        A = g.normal(size=(m, n)); b = g.normal(size=m); q = 10.0 ** g.uniform(-3, 0)
        return lambda x: sc * (np.floor(A.dot((x - c) / w) / q) * q - b)
    if fam == "rough":     # pseudo-random function of x (deterministic): rejects most steps
        A = g.normal(size=(m, n)) * 3; b = g.normal(size=m); amp = 10.0 ** g.uniform(-6, 0.5)
        return lambda x: sc * (A.dot((x - c) / w) * 0.3 - b + amp * np.sin(1e4 * A.dot((x - c) / w)))
    if fam == "const":
        b = g.normal(size=m) * 2 + 3
        return lambda x: sc * b.copy()
    if fam == "abs":
        A = g.normal(size=(m, n)); b = g.normal(size=m)
        return lambda x: sc * (np.abs(A.dot((x - c) / w) - b) + 0.1)
    if fam == "domain":    # deterministic, but undefined (nan / inf / overflow) in part of the space
        A = g.normal(size=(m, n)); b = g.normal(size=m); a = g.normal(size=n); a /= np.linalg.norm(a); lim = g.uniform(0.3, 3.0); kind = g.randint(4)
        def f(x):
            z = (x - c) / w
            r = A.dot(z) + 0.3 * A.dot(z ** 2) - b
            t = a.dot(z) - lim
            if t > 0:
                if kind == 0: r[0] = np.nan
                elif kind == 1: r[:] = np.inf
                elif kind == 2: r[-1] = 1e170
                else: r[:] = np.log(-t - 1e-300) if t < 0 else np.nan
            return sc * r
        return f
    if fam == "flatvalley":
        A = g.normal(size=(m, n)); u = A[:, 0].copy(); A = np.outer(u, g.normal(size=n))  # rank one Jacobian
        b = g.normal(size=m)
        return lambda x: sc * (A.dot((x - c) / w) - b)
    raise ValueError(fam)


def linear_matrix(p):
    n, m = p["n"], p["m"]
    g = np.random.RandomState(p["seed"])
    k = min(n, m)
    U = np.linalg.qr(g.normal(size=(m, m)))[0][:, :k]
    V = np.linalg.qr(g.normal(size=(n, n)))[0][:, :k]
    cond = float(p.get("cond", 10.0))
    s = np.exp(np.linspace(0, -np.log(cond), k)) if k > 1 else np.ones(1)
    if p.get("shuffle_s"):
        s = g.permutation(s)
    return float(p.get("scale", 1.0)) * (U * s).dot(V.T)


def linear_rhs(p, A):
    g = np.random.RandomState(p["seed"] + 77)
    xs = np.array(p.get("xstar", g.normal(size=p["n"])), dtype=float)
    b = A.dot(xs)
    rr = float(p.get("resid", 0.0))
    if rr:
        e = g.normal(size=p["m"])
        b = b + rr * e
    return b


def regulariser(q):
    """q: dict(kind, lam) -> (h, prox, lh) with h(x, *argsh), prox(x, u, *argsprox)."""
    kind, lam = q["kind"], float(q["lam"])
    n = q["n"]
    if kind == "l1":
        return (lambda x: lam * np.sum(np.abs(x)),
                lambda x, u: np.sign(x) * np.maximum(np.abs(x) - lam * u, 0.0), lam * np.sqrt(n))
    if kind == "l2":
        def prox(x, u):
            nx = np.linalg.norm(x)
            return np.zeros_like(x) if nx <= lam * u else (1 - lam * u / nx) * x
        return (lambda x: lam * np.linalg.norm(x), prox, lam)
    raise ValueError(kind)


def projection(s):
    """s: dict(kind=ball|half|box, ...) -> (projector, distance function)."""
    k = s["kind"]
    if k == "ball":
        c, r = np.array(s["c"], float), float(s["r"])
        def proj(x):
            d = np.linalg.norm(x - c)
            return x.copy() if d <= r else c + (r / d) * (x - c)
        return proj, lambda x: max(0.0, float(np.linalg.norm(x - c)) - r)
    if k == "half":   # a.x <= b
        a, b = np.array(s["a"], float), float(s["b"])
        aa = float(a.dot(a))
        def proj(x):
            t = float(a.dot(x)) - b
            return x.copy() if t <= 0 else x - (t / aa) * a
        return proj, lambda x: max(0.0, (float(a.dot(x)) - b) / np.sqrt(aa))
    if k == "box":
        l, u = np.array(s["l"], float), np.array(s["u"], float)
        proj = lambda x: np.minimum(np.maximum(x, l), u)
        return proj, lambda x: float(np.linalg.norm(x - proj(x)))
    raise ValueError(k)
