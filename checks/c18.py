"""C18: radii and diagnostic-table invariants on every recorded row."""
from vlib import gen, cuts, trace, monitors as mon
from vlib.runner import Result

RULE = ("random solve() configurations with logging.save_diagnostic_info on (all radius parameters varied, restarts, growing with resets, regression, averaging, bounds, projections, "
        "regulariser); time-series monitor over every row; non-trivial = table with at least two rows; distinct by configuration features, flag and (rows, runs, rho levels)")
ASSUMPTIONS = ["restarts.rhoend_scale <= 1 ('factor to reduce rhoend by')", "best-objective monotonicity only for deterministic objectives without averaging and not across a hard restart"]


def cases(seed, tier):
    for i in range(80 if tier == "quick" else 1000):
        g = gen.rng_for("c18cut", seed, i)
        s = cuts.base(g, reg=0.12, proj=0.1)
        s["cuts"] = {"seed": int(g.integers(0, 2**31 - 1))}
        s.setdefault("user_params", {})["logging.save_diagnostic_info"] = True
        yield s
    N = 2200 if tier == "quick" else 26000
    for i in range(N):
        g = gen.rng_for("c18", seed, i)
        prof = dict(maxfun=(2, 130), p_diag=1.0, p_restart=0.45, p_growing=0.25, p_misc=0.6, p_nsamples=0.12, p_noise=0.12)
        if i % 16 == 3:
            prof["p_reg"] = 1.0
        if i % 16 == 5:
            prof["p_proj"] = 1.0
        s = gen.gen_case(g, prof)
        if i % 8 == 1: s = gen.soft_restart_focus(g, s)
        elif i % 4 == 2: s = gen.growing_focus(g, s)
        up = s.setdefault("user_params", {})
        if g.random() < 0.3:
            up["tr_radius.eta1"] = float(g.uniform(0.0, 0.3)); up["tr_radius.eta2"] = float(g.uniform(0.3, 1.0))
        if g.random() < 0.3:
            up["tr_radius.gamma_inc"] = float(10 ** g.uniform(0, 3)); up["tr_radius.gamma_inc_overline"] = float(10 ** g.uniform(0, 4))
        if g.random() < 0.3:
            up["tr_radius.gamma_dec"] = float(g.uniform(0.05, 0.98))
        if g.random() < 0.3:
            up["tr_radius.alpha1"] = float(g.uniform(0.01, 0.9)); up["tr_radius.alpha2"] = float(g.uniform(up["tr_radius.alpha1"], 0.98))
        if g.random() < 0.15:
            up["logging.save_xk"] = True
        if g.random() < 0.15:
            up["logging.save_rk"] = True
        yield s


def run_case(spec):
    R = Result()
    if "cuts" in spec:
        cuts.run_cut_case(spec, judge, R, ('budget', 'tol', 'linalg', 'nan', 'big'), objective=mon.objective_of_call)
    else:
        judge(spec, R)
    return R


def judge(spec, R):
    tr = trace.run(spec)
    R.evals += 1
    if mon.finished(tr, R):
        mon.c18(tr, R)
        s = tr.soln
        df = s.diagnostic_info
        if df is not None and len(df) > 1:
            R.stats["restarts"] += tr.soft_done + max(0, tr.main_runs - 1)
            R.sig(gen.features(spec), s.flag, len(df), int(df["nruns"].iloc[-1]), df["rho"].nunique() if "rho" in df else -1)
            R.sample = {"features": gen.features(spec), "rows": len(df), "rho": [float(df["rho"].iloc[0]), float(df["rho"].iloc[-1])], "max_delta": float(df["delta"].max()), "msg": s.msg}
    return tr
