"""C19: evaluation sequences depend only on the arguments, and the caller's data are never modified."""
import copy, random
import numpy as np
from vlib import gen, trace
from vlib.runner import Result

RULE = ("random solve() configurations without the options documented as random (default, bounded, scaled, regression, averaged and noisy-but-reproducible objectives, soft and hard restarts, convex constraints, regularised, "
        "diagnostics, faults), each executed three times in one process under different states of NumPy's and Python's global generators, with an unrelated solve in between, fresh copies of the arguments, and one run through "
        "read-only non-contiguous argument arrays; call sequences, log numbering, nsamples arguments and every result field compared bit for bit; arguments compared with copies after each run; "
        "non-trivial = more than npt evaluations; distinct by (features, exit flag, number of evaluations)")
ASSUMPTIONS = ["options documented as random excluded: random_initial_directions (default when npt > (n+1)(n+2)/2), growing, momentum steps, increase_npt"]
CASE_LIMIT = 150
SKIP = ("init.random", "init.run_in_parallel", "growing.", "restarts.increase_npt", "restarts.max_npt", "restarts.hard.increase_ndirs", "regression.momentum")


def cases(seed, tier):
    for i in range(800 if tier == "quick" else 16000):
        g = gen.rng_for("c19", seed, i)
        sp = gen.gen_case(g, dict(maxfun=(5, 90), p_growing=0.0, p_random=0.0, p_bignpt=0.0, p_reg=0.03, p_proj=0.06, p_diag=0.15, p_restart=0.45))
        n = len(sp["x0"])
        if sp.get("npt") and sp["npt"] > (n + 1) * (n + 2) // 2: sp["npt"] = n + 1
        if sp.get("user_params"):
            sp["user_params"] = {k: v for k, v in sp["user_params"].items() if not k.startswith(SKIP)}
        if g.random() < 0.15:
            sp["fault"] = {"at": int(g.integers(1, 30)), "kind": str(g.choice(["nan", "inf", "1e200"])), "mode": str(g.choice(["one", "every", "from"])), "comp": "all" if g.random() < 0.5 else int(g.integers(0, 7))}
        if i % (100 if tier == "quick" else 200) == 7: sp["subprocess"] = True
        yield sp


def digest(tr):
    import hashlib
    h = hashlib.sha256()
    for p in tr.calls: h.update(p[0].tobytes())
    h.update(repr((tr.pts, tr.ns, result_key(tr.soln), repr(tr.exc))).encode())
    return h.hexdigest()


def in_subprocess(spec):
    """the same call in a fresh interpreter with another hash seed"""
    import subprocess, sys, os, json
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    code = ("import sys, json; sys.path.insert(0, %r)\nfrom vlib import boot, trace\nfrom checks import c19\nsp = json.load(sys.stdin)\nprint('DIGEST', c19.digest(trace.run(sp)))" % here)
    env = dict(os.environ, PYTHONHASHSEED="4711", PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-c", code], input=json.dumps(spec), capture_output=True, text=True, timeout=100, env=env)
    for line in p.stdout.splitlines():
        if line.startswith("DIGEST"): return line.split()[1]
    raise RuntimeError("no digest: " + p.stderr[-500:])


def bits(a):
    return None if a is None else (a.dtype.str, a.shape, np.ascontiguousarray(a).tobytes())


def result_key(s):
    if s is None: return None
    k = {}
    for f in ("x", "resid", "jacobian", "jacmin_eval_nums"):
        v = getattr(s, f); k[f] = bits(np.asarray(v)) if v is not None else None
    for f in ("obj",): k[f] = None if s.obj is None else np.float64(s.obj).tobytes()
    for f in ("nf", "nx", "nruns", "flag", "msg", "xmin_eval_num"): k[f] = getattr(s, f)
    if s.diagnostic_info is not None:
        k["diag"] = s.diagnostic_info.to_csv()
    return k


class PDict(dict):
    pass


def run_case(spec):
    import dfols
    R = Result()
    runs = []
    n = len(spec["x0"])
    store = {}

    def solve(objfun, x0, **kw):
        """hand over argument objects we keep, in several array flavours"""
        v = store["variant"]
        if v == 2:
            big = np.empty(2 * n); big[::2] = x0; x0 = big[::2]; x0.setflags(write=False)
            if kw.get("bounds") is not None:
                nb = []
                for b in kw["bounds"]:
                    if b is None: nb.append(None); continue
                    big = np.empty((n, 3)); big[:, 1] = b; c = big[:, 1]; c.setflags(write=False); nb.append(c)
                kw["bounds"] = tuple(nb)
        elif kw.get("bounds") is not None and v == 1:
            kw["bounds"] = list(kw["bounds"])
        store["x0"] = x0; store["x0c"] = np.array(x0, copy=True)
        store["b"] = kw.get("bounds"); store["bc"] = None if store["b"] is None else [None if b is None else np.array(b, copy=True) for b in store["b"]]
        store["up"] = kw.get("user_params"); store["upc"] = copy.deepcopy(store["up"])
        store["pr"] = kw.get("projections"); store["prc"] = None if store["pr"] is None else list(store["pr"])
        return dfols.solve(objfun, x0, **kw)
    for v in range(3):
        store.clear(); store["variant"] = v
        sp = copy.deepcopy(spec)
        sp["npseed"] = [3, 12345, 777][v] + spec.get("npseed", 0)
        random.seed(v)
        if v == 1:   # unrelated work in between: other sizes, options and random state
            trace.run({"prob": {"fam": "quad", "n": 3, "m": 4, "seed": 5}, "x0": [0.3, -2.0, 1.0], "maxfun": 12, "npseed": 9, "rhobeg": 0.3,
                       "user_params": {"init.random_initial_directions": True, "restarts.use_restarts": True, "growing.ndirs_initial": 2, "tr_radius.gamma_dec": 0.3, "model.abs_tol": 1e-3}})
        st = store.copy()
        tr = trace.run(sp, solve=solve)
        R.evals += 1
        R.stats["runs"] += 1
        # caller's data
        if bits(np.asarray(store["x0"])) != bits(store["x0c"]): R.bad("x0-modified", "x0 %s became %s" % (store["x0c"].tolist(), np.asarray(store["x0"]).tolist()))
        if store["b"] is not None:
            for nm, a, c in zip(("lower", "upper"), store["b"], store["bc"]):
                if (a is None) != (c is None) or (a is not None and bits(np.asarray(a)) != bits(c)): R.bad("bounds-modified", "%s bounds %s became %s" % (nm, c, a))
        if store["up"] != store["upc"] or (store["up"] is not None and [type(x) for x in store["up"].values()] != [type(x) for x in store["upc"].values()]): R.bad("user_params-modified", "%r became %r" % (store["upc"], store["up"]))
        if store["pr"] is not None and (len(store["pr"]) != len(store["prc"]) or any(a is not b for a, b in zip(store["pr"], store["prc"]))): R.bad("projections-modified", "list of projections changed")
        if tr.exc is not None and not isinstance(tr.exc, trace.InjectedError) and isinstance(tr.exc, ValueError) and "read-only" in str(tr.exc):
            R.bad("writes-to-argument", "in-place write to a read-only argument: %r" % tr.exc)
        runs.append(tr)
        R.stats["evaluations"] += tr.ncalls
    a = runs[0]
    for b, nm in zip(runs[1:], ("second call (other random state, unrelated solve in between)", "third call (read-only strided arguments)")):
        for i, (p, q) in enumerate(zip(a.calls, b.calls)):
            if p[0].tobytes() != q[0].tobytes():
                R.bad("sequence-differs", "%s: evaluation %d at %s, first call %s [%s]" % (nm, i + 1, q[0].tolist(), p[0].tolist(), gen.features(spec))); break
            R.stats["points_compared"] += 1
        else:
            if len(a.calls) != len(b.calls): R.bad("length-differs", "%s: %d evaluations, first call %d [%s]" % (nm, len(b.calls), len(a.calls), gen.features(spec)))
            elif a.pts != b.pts or a.ns != b.ns: R.bad("log-differs", "%s: log records / nsamples arguments differ [%s]" % (nm, gen.features(spec)))
            elif type(a.exc) != type(b.exc) or str(a.exc) != str(b.exc): R.bad("outcome-differs", "%s: %r vs %r" % (nm, a.exc, b.exc))
            else:
                ka, kb = result_key(a.soln), result_key(b.soln)
                if ka != kb: R.bad("result-differs", "%s: fields %s differ [%s]" % (nm, [f for f in ka if ka[f] != kb.get(f)] if ka and kb else (ka, kb), gen.features(spec)))
        if R.viol: break
    if spec.get("subprocess") and not R.viol:
        sp = {k: v for k, v in spec.items() if k != "subprocess"}
        R.stats["fresh_interpreter_runs"] += 1
        if in_subprocess(sp) != digest(a): R.bad("other-process-differs", "a fresh interpreter gives another sequence or result [%s]" % gen.features(spec))
    if a.ncalls > spec.get("npt", n + 1):
        R.sig(gen.features(spec), a.soln.flag if a.soln is not None else repr(type(a.exc)), a.ncalls)
    R.stats["soft_restarts"] += a.soft_done
    R.stats["hard_restarts"] += max(0, a.main_runs - 1)
    R.sample = {"features": gen.features(spec), "evaluations": a.ncalls, "msg": getattr(a.soln, "msg", None)}
    return R
