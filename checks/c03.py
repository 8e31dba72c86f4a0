"""C03: soln.x / resid / obj are the point, mean residual and objective of the evaluation soln.xmin_eval_num names (end of run + every iteration on the live model)."""
from vlib import gen, cuts, trace, monitors as mon
from vlib.runner import Result

RULE = ("random solve() configurations over all termination routes (x0 exits, tiny budgets, restarts soft/hard, averaging, noise, scaling, regulariser, projections, growing, "
        "NaN/inf regions); every stored point of the live model is compared with the recorded evaluation it claims to be at the top of every iteration, and the returned "
        "solution at the end; non-trivial = solution checked; distinct by configuration features, flag, message and named evaluation")
ASSUMPTIONS = ["x compared to 1e-11 relative to the largest coordinate evaluated (base point arithmetic)"]


def cases(seed, tier):
    for i in range(110 if tier == "quick" else 1200):
        g = gen.rng_for("c03cut", seed, i)
        s = cuts.base(g, reg=0.12, proj=0.1)
        s["cuts"] = {"seed": int(g.integers(0, 2**31 - 1))}
        yield s
    N = 2400 if tier == "quick" else 30000
    for i in range(N):
        g = gen.rng_for("c03", seed, i)
        prof = dict(maxfun=(1, 80), p_nsamples=0.35, p_noise=0.3, p_restart=0.5, p_misc=0.5, p_tiny_maxfun=0.15)
        if i % 16 == 3:
            prof["p_reg"] = 1.0
        if i % 16 == 5:
            prof["p_proj"] = 1.0
        s = gen.gen_case(g, prof)
        if i % 8 == 1: s = gen.soft_restart_focus(g, s)
        elif i % 8 == 2: s = gen.growing_focus(g, s)
        if g.random() < 0.1:
            s["prob"]["fam"] = "domain"
        if g.random() < 0.06:   # exit at the starting point
            s.setdefault("user_params", {})["model.abs_tol"] = 1e12
        yield s


def run_case(spec):
    R = Result()
    if "cuts" in spec:
        cuts.run_cut_case(spec, judge, R, ('budget', 'tol', 'linalg', 'nan', 'big'), objective=mon.objective_of_call)
    else:
        judge(spec, R)
    return R


def judge(spec, R):
    tr = trace.run(spec, live=mon.c03_live(R))
    R.evals += 1
    if mon.finished(tr, R):
        n0 = R.stats["solutions_checked"]
        mon.c03_end(tr, R)
        s = tr.soln
        if R.stats["solutions_checked"] > n0:
            R.stats["msg: " + s.msg] += 1
            R.stats["restarts"] += tr.soft_done + max(0, tr.main_runs - 1)
            g = tr.groups()
            R.stats["multi_sample_solutions"] += len(g[s.xmin_eval_num]) > 1
            R.stats["solution_is_x0"] += s.xmin_eval_num == 1
            R.sig(gen.features(spec), s.flag, s.msg, s.xmin_eval_num)
            R.sample = {"features": gen.features(spec), "calls": tr.ncalls, "xmin_eval_num": int(s.xmin_eval_num), "samples_there": len(g[s.xmin_eval_num]), "msg": s.msg}
    return tr
