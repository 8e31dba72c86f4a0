"""C04: for deterministic objectives without averaging the returned objective is no larger than the objective at any evaluated point."""
from vlib import gen, cuts, trace, monitors as mon
from vlib.runner import Result

RULE = ("random deterministic solve() configurations (restarts soft/hard, growing, regression, momentum, regulariser, projections, scaling, rough / discontinuous / partly undefined "
        "objectives, tiny budgets); online running minimum over every recorded call, compared with the live model at every iteration (first run) and with soln.obj; non-trivial = at "
        "least two different objective values; distinct by configuration features, flag, message, index of the best call")
ASSUMPTIONS = ["regularised objective compared up to the base-point rounding of the stored x"]


def cases(seed, tier):
    for i in range(110 if tier == "quick" else 1400):
        g = gen.rng_for("c04cut", seed, i)
        s = cuts.base(g, noise=0.0, nsamples=0.0, reg=0.12, proj=0.1)
        s["cuts"] = {"seed": int(g.integers(0, 2**31 - 1))}
        yield s
    N = 3000 if tier == "quick" else 36000
    for i in range(N):
        g = gen.rng_for("c04", seed, i)
        prof = dict(maxfun=(2, 90), p_nsamples=0.0, p_noise=0.0, p_restart=0.5, p_growing=0.25, p_misc=0.4)
        if i % 3 == 0:
            prof["fams"] = ["rough", "step", "abs", "flatvalley", "rosen", "domain"]
        if i % 16 == 3:
            prof["p_reg"] = 1.0
        if i % 16 == 5:
            prof["p_proj"] = 1.0
        s = gen.gen_case(g, prof)
        if i % 8 == 1: s = gen.soft_restart_focus(g, s)
        elif i % 8 == 2: s = gen.growing_focus(g, s)
        if g.random() < 0.15:
            s["objfun_has_noise"] = True    # a deterministic objective with noisy-mode defaults
        yield s


def run_case(spec):
    R = Result()
    if "cuts" in spec:
        cuts.run_cut_case(spec, judge, R, ('budget', 'tol', 'linalg', 'nan', 'big'), objective=mon.objective_of_call)
    else:
        judge(spec, R)
    return R


def judge(spec, R):
    tr = trace.run(spec, live=mon.c04_live(R))
    R.evals += 1
    if mon.finished(tr, R):
        mon.c04_end(tr, R)
        s = tr.soln
        fs = [mon.objective_of_call(tr, i) for i in range(tr.ncalls)]
        if len(set(fs)) > 1:
            fin = [f for f in fs if f == f]
            kb = fs.index(min(fin)) if fin else -1
            R.stats["restarts"] += tr.soft_done + max(0, tr.main_runs - 1)
            R.stats["best_is_last_call"] += kb == tr.ncalls - 1
            R.stats["best_is_x0"] += kb == 0
            R.sig(gen.features(spec), s.flag, s.msg, kb)
            R.sample = {"features": gen.features(spec), "calls": tr.ncalls, "best_call": kb + 1, "obj": float(s.obj), "msg": s.msg}
    return tr
