"""C02: the budget is never exceeded and every evaluation counter / number / per-point sample count is exact."""
from vlib import gen, cuts, trace, monitors as mon
from vlib.runner import Result

RULE = ("random solve() configurations biased to sample averaging (constant, per-iteration, per-run, per-rho, zero-valued callbacks), tiny budgets, soft/hard restarts, "
        "growing and regression sets; the trace (calls, log records, callback answers) is replayed through a counting automaton; non-trivial = more than one "
        "evaluation; distinct by configuration features, exit flag, budget-hit, and (points, runs) pattern")
ASSUMPTIONS = ["log records 'Function eval i at point j' are the documented report of the numbering (do_logging on)"]


def cases(seed, tier):
    for i in range(100 if tier == "quick" else 1200):
        g = gen.rng_for("c02cut", seed, i)
        s = cuts.base(g, nsamples=0.6, reg=0.12, proj=0.1)
        s["cuts"] = {"seed": int(g.integers(0, 2**31 - 1))}
        yield s
    N = 2600 if tier == "quick" else 30000
    for i in range(N):
        g = gen.rng_for("c02", seed, i)
        prof = dict(maxfun=(1, 70), p_nsamples=0.55, p_restart=0.45, p_tiny_maxfun=0.3, p_random=0.15)
        if i % 16 == 3:
            prof["p_reg"] = 1.0
        if i % 16 == 5:
            prof["p_proj"] = 1.0
        s = gen.gen_case(g, prof)
        if i % 8 == 1: s = gen.soft_restart_focus(g, s)
        elif i % 8 == 2: s = gen.growing_focus(g, s)
        if g.random() < 0.15:
            s["prob"]["fam"] = "domain"
        if g.random() < 0.12:
            s["do_logging"] = False
        if g.random() < 0.2:
            s["print_progress"] = False
        if s.get("nsamples") and g.random() < 0.15:
            s["nsamples"] = {"kind": "float", "v": [1.9, 2.0, 2.5, -3][int(g.integers(4))]}
        yield s


def run_case(spec):
    R = Result()
    if "cuts" in spec:
        cuts.run_cut_case(spec, judge, R, ('budget', 'linalg', 'nan', 'big'))
    else:
        judge(spec, R)
    return R


def judge(spec, R):
    tr = trace.run(spec)
    R.evals += 1
    if tr.overbudget:
        R.bad("budget-exceeded", "more than maxfun+200 evaluations requested (maxfun=%d)" % tr.maxfun)
        return tr
    mon.c02(tr, R)
    mon.finished(tr, R)
    if tr.ncalls > 1:
        s = tr.soln
        hit = tr.ncalls == tr.maxfun
        R.stats["runs_with_budget_hit"] += hit
        R.stats["restarts"] += tr.soft_done + max(0, tr.main_runs - 1)
        R.sig(gen.features(spec), s.flag if s is not None else "exc", hit, tr.pts[-1][1] if tr.pts else 0, getattr(s, "nruns", 0))
        R.sample = {"features": gen.features(spec), "maxfun": tr.maxfun, "calls": tr.ncalls, "points": tr.pts[-1][1] if tr.pts else None, "msg": getattr(s, "msg", None)}
    return tr
