"""C20: results survive a JSON round trip and always print - real results over the option space (with faults) and synthetic results."""
import json
import numpy as np
from vlib import gen, trace
from vlib.runner import Result

DIRECT = True
RULE = ("result objects of random solve() runs (all exits, budgets from 1, diagnostics with/without poisedness/xk/rk, NaN faults, exceptions excluded) and synthetic OptimResults (NaN / None fields, m, n, Jacobian and point lists "
        "below, at and beyond each printing threshold, diagnostic tables of 0..40 rows with None/NaN cells and vector columns): to_dict -> strict json.dumps -> json.loads -> from_dict compared field by field bit for bit, "
        "str() compared, to_dict idempotent, original untouched; also with replace_nan=False; non-trivial = result with NaN, None, a diagnostic table or a size beyond a threshold; distinct by (source, flag, features)")
ASSUMPTIONS = ["dtype of all-missing diagnostic columns is not part of a field's value (None is read back as NaN)"]


def cases(seed, tier):
    yield {"syn": True, "seed": seed, "i": -1, "count": 1, "inf_example": True}
    for i in range(700 if tier == "quick" else 16000):
        g = gen.rng_for("c20", seed, i)
        sp = gen.gen_case(g, dict(maxfun=(1, 60), p_diag=0.6, p_restart=0.5, p_tiny_maxfun=0.25, p_reg=0.04, p_proj=0.04))
        up = sp.setdefault("user_params", {})
        if up.get("logging.save_diagnostic_info"):
            if g.random() < 0.4: up["logging.save_xk"] = True
            if g.random() < 0.4: up["logging.save_rk"] = True
        if g.random() < 0.25:
            sp["fault"] = {"at": int(g.integers(1, 12)), "kind": str(g.choice(["nan", "nan", "1e200", "inf"])), "mode": str(g.choice(["one", "from", "every"])), "comp": "all" if g.random() < 0.5 else int(g.integers(0, 7))}
        if g.random() < 0.06:
            sp["prob"]["m"] = int(g.choice([99, 100, 101, 120])); sp["maxfun"] = min(sp["maxfun"], 25)
        if g.random() < 0.04:   # many parameters
            n = int(g.choice([14, 15, 20])); m = n + int(g.integers(0, 3))
            sp = {"prob": {"fam": "trig", "n": n, "m": m, "seed": int(g.integers(1, 10**6))}, "x0": g.normal(size=n).tolist(), "maxfun": n + int(g.integers(0, 8)), "npseed": 0, "rhoend": 1e-3,
                  "user_params": {"logging.save_diagnostic_info": bool(g.random() < 0.5)}}
        yield {"run": sp}
    for i in range(400 if tier == "quick" else 10000):
        yield {"syn": True, "seed": seed, "i": i, "count": 8}


def same(a, b):
    if a is None and b is None: return True
    if a is None or b is None: return False
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape: return False
    if a.dtype.kind in "iuf" and b.dtype.kind not in "iuf": return False   # e.g. an object array with None cells instead of a numeric one
    if a.dtype.kind in "iu" and b.dtype.kind != a.dtype.kind and b.dtype.kind not in "iu": return False
    return bool(np.array_equal(a, b, equal_nan=(a.dtype.kind == "f")))


def null(v):
    return v is None or (isinstance(v, (float, np.floating)) and np.isnan(v)) or type(v).__name__ == "NAType"


def table_diff(a, b):
    if (a is None) != (b is None): return "one table is None"
    if a is None: return None
    if list(a.columns) != list(b.columns): return "columns %s vs %s" % (list(a.columns), list(b.columns))
    if len(a) != len(b) or list(a.index) != list(b.index): return "index %s vs %s" % (list(a.index)[:5], list(b.index)[:5])
    for c in a.columns:
        ka, kb = a[c].dtype.kind, b[c].dtype.kind
        if len(a) and ka in "iufb" and kb != ka: return "column %s has dtype %s, reloaded %s" % (c, a[c].dtype, b[c].dtype)
        for i, (u, v) in enumerate(zip(a[c].tolist(), b[c].tolist())):
            if isinstance(u, np.ndarray) or isinstance(v, np.ndarray):
                if not (isinstance(v, np.ndarray) and isinstance(u, np.ndarray) and same(u, v)): return "column %s row %d: %r vs %r" % (c, i, u, v)
            elif null(u) or null(v):
                if not (null(u) and null(v)): return "column %s row %d: %r vs %r" % (c, i, u, v)
            elif u != v or type(u) != type(v) and not (isinstance(u, (int, float)) and isinstance(v, (int, float))): return "column %s row %d: %r vs %r" % (c, i, u, v)
    return None


def has_inf(o):
    if isinstance(o, dict): return any(has_inf(v) for v in o.values())
    if isinstance(o, list): return any(has_inf(v) for v in o)
    return isinstance(o, float) and np.isinf(o)


FIELDS = ["x", "resid", "obj", "jacobian", "nf", "nx", "nruns", "flag", "msg", "xmin_eval_num", "jacmin_eval_nums"]


def judge(s, R, what):
    import copy, dfols
    from dfols.solver import OptimResults
    try:
        keep = copy.deepcopy({f: getattr(s, f) for f in FIELDS}); ktab = None if s.diagnostic_info is None else s.diagnostic_info.copy(deep=True)
        t0 = str(s)
    except Exception as e:
        R.bad("str-raised", "%s: str(soln) raised %r" % (what, e)); return
    R.stats["printed"] += 1
    for rn in (True, False):
        try:
            d = s.to_dict() if rn else s.to_dict(replace_nan=False)
        except Exception as e:
            R.bad("to_dict-raised", "%s: to_dict(replace_nan=%s) raised %r" % (what, rn, e)); return
        try:
            txt = json.dumps(d, allow_nan=not rn)
        except Exception as e:
            if rn and isinstance(e, ValueError) and has_inf(d):
                R.stats["infinite_entries"] += 1
                R.bad("inf-strict-json", "%s: infinite entry is not strict JSON: %r" % (what, e))
                txt = json.dumps(d)
            else:
                R.bad("not-json", "%s: json.dumps(to_dict(replace_nan=%s)) raised %r" % (what, rn, e)); return
        try:
            back = OptimResults.from_dict(json.loads(txt))
        except Exception as e:
            R.bad("from_dict-raised", "%s: %r" % (what, e)); return
        for f in FIELDS:
            a, b = getattr(s, f), getattr(back, f)
            ok = same(a, b) if f in ("x", "resid", "jacobian", "jacmin_eval_nums") else (a == b or (null(a) and null(b)))
            if not ok:
                R.bad("field-" + f, "%s: %s is %r, reloaded %r (replace_nan=%s)" % (what, f, a, b, rn)); return
        for f in ("x", "resid", "jacobian"):
            if getattr(back, f) is not None and not isinstance(getattr(back, f), np.ndarray): R.bad("not-array", "%s: reloaded %s is a %s" % (what, f, type(getattr(back, f)))); return
        e = table_diff(s.diagnostic_info, back.diagnostic_info)
        if e: R.bad("diagnostic-table", "%s: %s (replace_nan=%s)" % (what, e, rn)); return
        for k in [k for k in dir(s) if k.startswith("EXIT_")]:
            if getattr(back, k, None) != getattr(s, k): R.bad("exit-codes", "%s: %s" % (what, k)); return
        try:
            t1 = str(back)
        except Exception as ex:
            R.bad("str-reloaded-raised", "%s: %r" % (what, ex)); return
        if t1 != t0: R.bad("str-differs", "%s: str differs after reloading (replace_nan=%s):\n%s\n---\n%s" % (what, rn, t0, t1)); return
        # a second trip changes nothing
        if rn and json.dumps(back.to_dict()) != txt: R.bad("second-trip", "%s: second to_dict differs" % what); return
        R.stats["round_trips"] += 1
    for f in FIELDS:
        a, b = keep[f], getattr(s, f)
        if not (same(a, b) if isinstance(a, np.ndarray) else (a == b or (null(a) and null(b)))): R.bad("original-modified", "%s: %s changed by to_dict" % (what, f)); return
    e = table_diff(ktab, s.diagnostic_info)
    if e: R.bad("original-modified", "%s: diagnostic table changed by to_dict: %s" % (what, e))


def synth(g):
    from dfols.solver import OptimResults
    import pandas as pd
    from dfols.diagnostic_info import DiagnosticInfo
    n = int(g.choice([1, 2, 3, 5, 9, 10, 20])); m = int(g.choice([1, 2, 5, 10, 20, 21, 99, 100, 101, 150]))
    v = lambda k: (g.normal(size=k) * 10.0 ** g.uniform(-300, 300, size=k)) if g.random() < 0.3 else g.normal(size=k)
    nanp = g.choice([0.0, 0.0, 0.2, 1.0])

    def arr(*sh):
        a = v(int(np.prod(sh))).reshape(sh)
        a[g.random(sh) < nanp] = np.nan
        if g.random() < 0.1: a = np.round(a)
        if g.random() < 0.1: a = np.asfortranarray(a)
        if g.random() < 0.05: a[...] = -0.0
        return a
    x, r = arr(n), arr(m)
    obj = [np.float64(np.nan), float("nan"), np.float64(g.normal() ** 2), float(g.normal() ** 2), np.float64(0.0), 1e-300, np.float64(1.7e308)][int(g.integers(7))]
    J = None if g.random() < 0.25 else arr(m, n)
    nums = None if g.random() < 0.25 else g.integers(1, 10**6, size=int(g.choice([2, 3, 99, 100, 101, n + 1]))).astype([np.int64, int, np.int32][int(g.integers(3))])
    flag = int(g.choice([0, 1, 2, 3, 5, -2, -3, -4]))
    I = [int, np.int64][int(g.integers(2))]
    msg = str(g.choice(["Success: rho has reached rhoend", "Warning (max evals): Objective has been called MAXFUN times", "Error (linear algebra): Singular matrix \"quote\" \\ back", "unicode \u00e9\u221e\nnewline", ""]))
    s = OptimResults(x, r, obj, J, I(g.integers(1, 10**6)), I(g.integers(1, 10**6)), I(g.integers(1, 4)), flag, msg, I(g.integers(1, 1000)), nums)
    feat = ["J" if J is not None else "-", "N" if nums is not None else "-", "m%d" % m, "n%d" % n, "nan%g" % nanp, "objnan" if np.isnan(obj) else "", flag]
    if g.random() < 0.6:
        D = DiagnosticInfo()
        rows = int(g.choice([0, 1, 2, 11, 40]))
        wx, wr = bool(g.random() < 0.3), bool(g.random() < 0.3)
        for k in D.data:
            for i in range(rows):
                if k == "xk": c = arr(n)
                elif k == "rk": c = arr(m)
                elif k in ("nruns", "nf", "nx", "npt", "iter_this_run", "iters_total"): c = int(g.integers(0, 100))
                elif k == "nsamples": c = np.int64(g.integers(1, 100))
                elif k == "iter_type": c = None if g.random() < 0.2 else str(g.choice(["Very successful", "Safety", "Acceptable (geom fixed)"]))
                elif k == "slow_iter": c = None if g.random() < 0.3 else int(g.integers(-1, 2))
                else:
                    c = np.float64(v(1)[0])
                    if g.random() < nanp: c = np.nan
                    if k not in ("fk", "rho", "delta") and g.random() < 0.2: c = None
                D.data[k].append(c)
        s.diagnostic_info = D.to_dataframe(with_xk=wx, with_rk=wr)
        feat += ["tab%d" % rows, "xk" if wx else "", "rk" if wr else ""]
    return s, feat


def run_case(spec):
    R = Result()
    if spec.get("syn"):
        if spec.get("inf_example"):
            from dfols.solver import OptimResults
            R.evals += 1
            judge(OptimResults(np.array([1.0]), np.array([np.inf, 2.0]), np.inf, None, 1, 1, 1, 1, "Warning (max evals): x", 1, None), R, "fixed example with an infinite residual")
            R.sig("inf example")
            return R
        for j in range(spec["count"]):
            g = gen.rng_for("c20s", spec["seed"] * 1000003 + spec["i"], j)
            s, feat = synth(g)
            R.evals += 1
            R.stats["synthetic_results"] += 1
            judge(s, R, "synthetic result %d/%d %s" % (spec["i"], j, feat))
            R.sig("syn", *feat)
        return R
    tr = trace.run(spec["run"])
    s = tr.soln
    if s is None or s.flag == s.EXIT_INPUT_ERROR or s.x is None:
        R.stats["no_solution"] += 1
        return R
    R.evals += 1
    R.stats["real_results_flag_%d" % s.flag] += 1
    judge(s, R, "real result (%s; %s)" % (gen.features(spec["run"]), s.msg))
    t = s.diagnostic_info
    up = spec["run"].get("user_params") or {}
    if up.get("logging.save_diagnostic_info") and t is None: R.stats["table_missing"] += 1
    if t is not None: R.stats["tables"] += 1; R.stats["table_rows"] += len(t)
    if s.jacobian is None: R.stats["no_jacobian"] += 1
    nan = bool(np.isnan(s.obj) or np.any(np.isnan(s.resid)) or (s.jacobian is not None and np.any(np.isnan(s.jacobian))))
    R.stats["with_nan"] += nan
    if t is not None or nan or s.jacobian is None or len(s.resid) >= 100:
        R.sig("real", s.flag, None if t is None else (tuple(t.columns), min(len(t), 3)), nan, s.jacobian is None, s.jacmin_eval_nums is None, len(s.resid) >= 100, gen.features(spec["run"]))
    R.sample = {"flag": s.flag, "msg": s.msg, "rows": None if t is None else len(t), "features": gen.features(spec["run"])}
    return R
