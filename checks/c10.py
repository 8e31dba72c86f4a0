"""C10: what the exit flag and message claim is what happened."""
from vlib import gen, cuts, trace, monitors as mon
from vlib.runner import Result

RULE = ("random solve() configurations biased to restarts, tolerances, tiny budgets and diagnostic tables; one implication per message, the run count against restarts observed by the hooks; "
        "non-trivial = a result with a claim that was checked; distinct by configuration features, message, nruns and budget-hit")
ASSUMPTIONS = ["a soft restart cut short by its own evaluations may or may not be counted as a run"]


def cases(seed, tier):
    for i in range(110 if tier == "quick" else 1400):
        g = gen.rng_for("c10cut", seed, i)
        s = cuts.base(g, reg=0.12, proj=0.1)
        s["cuts"] = {"seed": int(g.integers(0, 2**31 - 1))}
        if g.random() < 0.6: s.setdefault("user_params", {})["logging.save_diagnostic_info"] = True
        yield s
    N = 2600 if tier == "quick" else 32000
    for i in range(N):
        g = gen.rng_for("c10", seed, i)
        prof = dict(maxfun=(1, 110), p_restart=0.6, p_diag=0.6, p_misc=0.6, p_nsamples=0.2, p_noise=0.2)
        if i % 4 == 0:
            prof["fams"] = ["zeroresid", "linear", "rosen"]
        if i % 16 == 3:
            prof["p_reg"] = 1.0
        if i % 16 == 5:
            prof["p_proj"] = 1.0
        s = gen.gen_case(g, prof)
        if i % 8 == 1: s = gen.soft_restart_focus(g, s)
        elif i % 8 == 2: s = gen.growing_focus(g, s)
        up = s.setdefault("user_params", {})
        if g.random() < 0.06:
            s["prob"]["fam"] = "domain"
        if g.random() < 0.3:
            up["model.abs_tol"] = float(10.0 ** g.uniform(-16, 3))
        if g.random() < 0.3:
            up["model.rel_tol"] = float(10.0 ** g.uniform(-12, -0.01))
        if g.random() < 0.25:
            s["maxfun"] = int(g.integers(1, 14))
        if g.random() < 0.15 and s.get("rhobeg"):   # radii within a small factor of each other
            s["rhoend"] = float(s["rhobeg"] / g.uniform(1.01, 3.0))
        if g.random() < 0.1:
            up["restarts.rhoend_scale"] = float(g.uniform(0.3, 1.0))
        yield s


def run_case(spec):
    R = Result()
    if "cuts" in spec:
        cuts.run_cut_case(spec, judge, R, ('budget', 'tol', 'linalg', 'nan', 'big'), objective=mon.objective_of_call)
    else:
        judge(spec, R)
    return R


def judge(spec, R):
    tr = trace.run(spec)
    R.evals += 1
    if mon.finished(tr, R):
        mon.c10(tr, R)
        s = tr.soln
        R.sig(gen.features(spec), s.msg, s.nruns, tr.ncalls == tr.maxfun)
        R.sample = {"features": gen.features(spec), "msg": s.msg, "nruns": int(s.nruns), "calls": tr.ncalls, "maxfun": tr.maxfun}
    return tr
