"""Run dfols.solve on a JSON spec with every observable event recorded, plus optional live hooks (harness side, no source change)."""
import re, logging, functools, warnings
import numpy as np
from . import boot
import dfols
from dfols import solver as S, controller as C, model as M, util as U
from .problems import make_residual, regulariser, projection

FE = re.compile(r"Function eval (\d+) at point (\d+) has obj = (\S+)")


class Hang(BaseException):
    """raised from the live hook when the solver iterates without evaluating anything for a very long time"""


class InjectedError(Exception):
    pass


class OverBudget(BaseException):
    pass


class Trace(object):
    def __init__(self):
        self.calls = []      # (x copy, r copy or None)
        self.pts = []        # per log record: (nf, nx, obj string)
        self.pt_call = []    # number of calls made when the record was emitted
        self.ns = []         # (ncalls at that time, value returned)
        self.soln = None
        self.exc = None
        self.hang = False
        self.overbudget = False
        self.live = 0        # live hook firings
        self.soft_done = self.soft_refused = self.soft_aborted = 0
        self.main_runs = 0
        self.dyk = []        # dykstra calls (when recorded)
        self.msgs = []
        self.lin_calls = self.lin_fired = 0
        self.lin_fault = None
        self.soft_hook = hasattr(C.Controller, "soft_restart")

    # ---- derived -------------------------------------------------------------------------------------------
    @property
    def ncalls(self):
        return len(self.calls)

    def point_of_call(self):
        return [p[1] for p in self.pts]

    def groups(self):
        """point number -> list of call indices (needs complete log)"""
        g = {}
        for i, p in enumerate(self.pts):
            g.setdefault(p[1], []).append(i)
        return g

    def log_complete(self):
        n = sum(1 for c in self.calls if c[1] is not None)
        return len(self.pts) == n


class _Handler(logging.Handler):
    def __init__(self, tr):
        logging.Handler.__init__(self, level=logging.INFO)
        self.tr = tr

    def emit(self, rec):
        try:
            m = rec.getMessage()
        except Exception:
            return
        mm = FE.match(m)
        if mm:
            self.tr.pts.append((int(mm.group(1)), int(mm.group(2)), mm.group(3)))
            self.tr.pt_call.append(len(self.tr.calls))
        elif m.startswith("Soft restart [") or m.startswith("Restarting from") or m.startswith("New rho") or m.startswith("Finished growing"):
            self.tr.msgs.append((len(self.tr.calls), m[:60]))


_current = {"live": None, "tr": None, "dyk": None}
_hooked = False


def _install_hooks():
    """Wrap internals once per process; each wrapper is inert unless a traced run asked for it."""
    global _hooked
    if _hooked:
        return
    _hooked = True
    if hasattr(M.Model, "interpolate_mini_models_svd"):
        orig = M.Model.interpolate_mini_models_svd

        @functools.wraps(orig)
        def wrapped(self, *a, **k):
            tr = _current["tr"]
            if tr is not None:
                tr.live += 1
                if tr.ncalls != tr._last_calls:
                    tr._last_calls, tr._idle = tr.ncalls, 0
                else:
                    tr._idle += 1
                    if tr._idle > tr._idle_max:
                        tr.hang = True
                        raise Hang()
                if _current["live"] is not None:
                    _current["live"](self, tr)
            return orig(self, *a, **k)
        M.Model.interpolate_mini_models_svd = wrapped
    if hasattr(M.Model, "solve_geom_system"):
        orig_gs = M.Model.solve_geom_system

        @functools.wraps(orig_gs)
        def wgs(self, *a, **k):
            tr = _current["tr"]
            if tr is not None:
                tr.lin_calls += 1
                if tr.lin_fault is not None and tr.lin_calls == tr.lin_fault:
                    tr.lin_fired += 1
                    raise np.linalg.LinAlgError("injected: singular matrix")
            return orig_gs(self, *a, **k)
        M.Model.solve_geom_system = wgs
    if hasattr(C.Controller, "soft_restart"):
        orig_sr = C.Controller.soft_restart

        @functools.wraps(orig_sr)
        def wsr(self, *a, **k):
            tr = _current["tr"]
            if tr is None:
                return orig_sr(self, *a, **k)
            n0 = tr.ncalls
            before = len(tr.msgs)
            r = orig_sr(self, *a, **k)
            if r is None:
                tr.soft_done += 1
            elif tr.ncalls > n0 or any(m[1].startswith("Soft restart [") for m in tr.msgs[before:]):
                tr.soft_aborted += 1
            else:
                tr.soft_refused += 1
            return r
        C.Controller.soft_restart = wsr
    if hasattr(S, "solve_main"):
        orig_m = S.solve_main

        @functools.wraps(orig_m)
        def wm(*a, **k):
            tr = _current["tr"]
            if tr is not None:
                tr.main_runs += 1
            return orig_m(*a, **k)
        S.solve_main = wm
    dyk = getattr(U, "dykstra", None)
    if dyk is None:
        return

    @functools.wraps(dyk)
    def wd(P, x0, max_iter=100, tol=1e-10, **k):
        rec = _current["dyk"]
        if rec is None:
            return dyk(P, x0, max_iter=max_iter, tol=tol, **k)
        n = [0]
        P = list(P)
        if not P:
            return dyk(P, x0, max_iter=max_iter, tol=tol, **k)
        first = P[0]

        def counted(w):
            n[0] += 1
            return first(w)
        out = dyk([counted] + P[1:], x0, max_iter=max_iter, tol=tol, **k)
        rec.append((np.array(out, copy=True), n[0], max_iter, tol, len(P)))
        return out
    for mod in (U, M, S, C, boot.dfols.trust_region):
        for name in [k for k, v in vars(mod).items() if v is dyk]:
            setattr(mod, name, wd)


def make_nsamples(q):
    k = q["kind"]
    v = q.get("v", 1)
    if k == "const":
        return lambda delta, rho, it, nr: v
    if k == "iter":
        return lambda delta, rho, it, nr: 1 + (it % v)
    if k == "runs":
        return lambda delta, rho, it, nr: 1 + min(nr, v)
    if k == "rho":
        return lambda delta, rho, it, nr: int(min(v, max(0, np.ceil(-np.log10(max(rho, 1e-30))))))
    if k == "zero":
        return lambda delta, rho, it, nr: 0
    if k == "float":
        return lambda delta, rho, it, nr: v
    raise ValueError(k)


def build(spec):
    """spec -> (residual function, kwargs for dfols.solve, extras)"""
    p = spec["prob"]
    f = make_residual(p)
    kw = {}
    x0 = np.array(spec["x0"], dtype=float)
    b = spec.get("bounds")
    lo = hi = None
    if b is not None:
        lo = np.array(b[0], dtype=float) if b[0] is not None else None
        hi = np.array(b[1], dtype=float) if b[1] is not None else None
        kw["bounds"] = (lo, hi)
    for k in ("npt", "rhobeg", "rhoend", "maxfun", "objfun_has_noise", "scaling_within_bounds", "do_logging", "print_progress"):
        if spec.get(k) is not None:
            kw[k] = spec[k]
    if spec.get("user_params") is not None:
        kw["user_params"] = dict(spec["user_params"])
    ex = {"lo": lo, "hi": hi, "x0": x0, "h": None, "sets": []}
    if spec.get("reg"):
        h, prox, lh = regulariser(spec["reg"])
        kw["h"], kw["prox_uh"], kw["lh"] = h, prox, lh
        ex["h"] = h
    if spec.get("projs"):
        kw["projections"] = [projection(s)[0] for s in spec["projs"]]
        ex["sets"] = [projection(s)[1] for s in spec["projs"]]
    return f, x0, kw, ex


def noise_fn(spec):
    nz = spec.get("noise")
    if not nz:
        return None
    g = np.random.RandomState(nz["seed"])
    if nz["kind"] == "add":
        return lambda r: r + nz["level"] * g.normal(size=r.shape)
    return lambda r: r * (1 + nz["level"] * g.normal(size=r.shape))


def fault_fn(spec):
    """spec['fault'] = dict(at=k (1-based call) or 'all'/'from', kind) -> function(call index, r) -> r (may raise)"""
    ft = spec.get("fault")
    if not ft:
        return None
    at, kind, mode = ft["at"], ft["kind"], ft.get("mode", "one")
    comp = ft.get("comp", "all")

    def apply(i, r):
        hit = (i == at) if mode == "one" else (i >= at) if mode == "from" else (i >= at and (i - at) % ft.get("period", 3) == 0)
        if not hit:
            return r
        if kind == "exc":
            raise InjectedError("injected at evaluation %d" % i)
        v = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "1e200": 1e200, "-1e200": -1e200, "1e154": 1.2e154, "1e300": 1e300}[kind]
        r = r.copy()
        if comp == "all":
            r[:] = v
        else:
            r[comp % len(r)] = v
        return r
    return apply


def run(spec, live=None, record_dykstra=False, kw_override=None, solve=None):
    _install_hooks()
    f, x0, kw, ex = build(spec)
    tr = Trace()
    tr._last_calls, tr._idle = -1, 0
    tr._idle_max = 400 if (spec.get('reg') or spec.get('projs')) else 3000
    tr.spec, tr.ex = spec, ex
    tr.lin_fault = spec.get("linalg_fault")
    nz, ft = noise_fn(spec), fault_fn(spec)
    if spec.get("nsamples"):
        base_ns = make_nsamples(spec["nsamples"])

        def ns(delta, rho, it, nr):
            v = base_ns(delta, rho, it, nr)
            tr.ns.append((tr.ncalls, v, float(delta), float(rho), it, nr))
            return v
        kw["nsamples"] = ns
    n = len(x0)
    cap = spec.get("maxfun") or min(100 * (n + 1), 1000)
    tr.maxfun = cap

    def objfun(x, *args):
        tr.calls.append([np.array(x, dtype=float, copy=True), None])
        i = len(tr.calls)
        if i > cap + 200:
            tr.overbudget = True
            raise OverBudget()
        r = f(x)
        if nz is not None:
            r = nz(r)
        if ft is not None:
            r = ft(i, r)
        tr.calls[-1][1] = np.array(r, copy=True)
        return r
    if kw_override:
        kw.update(kw_override)
    lg = logging.getLogger("dfols")
    hd = _Handler(tr)
    old = lg.level
    _current.update(live=live, tr=tr, dyk=tr.dyk if record_dykstra else None)
    rs = np.random.get_state()
    np.random.seed(spec.get("npseed", 0))
    lg.addHandler(hd)
    lg.setLevel(logging.INFO)
    tr.x0_arg = x0.copy()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tr.soln = (solve or dfols.solve)(objfun, x0, **kw)
    except Exception as e:
        tr.exc = e
    except (Hang, OverBudget) as e:
        tr.exc = e
    finally:
        lg.removeHandler(hd)
        lg.setLevel(old)
        _current.update(live=None, tr=None, dyk=None)
        np.random.set_state(rs)
    return tr
