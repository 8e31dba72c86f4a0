"""Generic runner of one check: builds cases, runs them on worker processes, judges, writes evidence and replay files.

Verdicts are three-valued: VIOLATION (exit 1), held on what was observed (exit 0), inconclusive / harness error (exit 3).
"""
import os, sys, json, time, signal, traceback, hashlib, importlib, multiprocessing as mp
from collections import Counter
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.txt")


class CaseTimeout(BaseException):
    pass


class Result(object):
    """What one executed case reports back."""
    def __init__(self):
        self.viol = []          # list of (mechanism, message)
        self.stats = Counter()  # what the monitors observed
        self.sigs = []          # signatures of the distinct non-trivial behaviours observed
        self.evals = 0
        self.sample = None

    def bad(self, mech, msg):
        if len(self.viol) < 20:
            self.viol.append((mech, str(msg)))

    def sig(self, *a):
        self.sigs.append("|".join(str(x) for x in a))


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:"):
                f = dict(x.split("=", 1) for x in line[8:].split()[:2])
                if f.get("property") == prop:
                    out[f["key"]] = line[8:].split(None, 2)[2]
    return out


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


_mod = None
_limit = 60


def _alarm(sig, frm):
    raise CaseTimeout()


def _init(modname, limit):
    global _mod, _limit
    from . import boot  # noqa
    _mod = importlib.import_module(modname)
    _limit = limit
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def inside_dfols(e):
    """True if, below the innermost frame of the harness, the exception came up through a frame of the code under test.
    Interface errors (a name or signature the harness relies on is gone) are raised in a harness frame, not below one."""
    from . import boot
    root = os.path.join(boot.REPO, "dfols") + os.sep
    files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
    mine = [i for i, f in enumerate(files) if f.startswith(HERE + os.sep) and not f.startswith(root)]
    return any(f.startswith(root) for f in files[(mine[-1] + 1) if mine else 0:])


def _run(arg):
    idx, spec = arg
    t0 = time.time()
    signal.setitimer(signal.ITIMER_REAL, _limit)
    try:
        r = _mod.run_case(spec)
        status = "ok"
    except CaseTimeout:
        r, status = Result(), "timeout"
    except BaseException as e:
        r, status = Result(), "error: " + traceback.format_exc()[-1500:]
        if getattr(_mod, "DIRECT", False) and isinstance(e, Exception) and not isinstance(e, (AttributeError, NameError, KeyError, ImportError)) and inside_dfols(e):
            # the check called the code under test directly with legal input, and the code itself raised
            status = "ok"
            r.bad("raised-%s" % type(e).__name__, traceback.format_exc()[-900:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    sigs = [hashlib.blake2b(s.encode(), digest_size=8).hexdigest() for s in r.sigs]
    return idx, status, r.viol, r.stats, sigs, r.evals, jsonable(r.sample), time.time() - t0


def _run_chunk(args):
    return [_run(a) for a in args]


def run_check(prop, modname, seed, tier, jobs=None, limit=None, only=None):
    t0 = time.time()
    sys.path.insert(0, HERE)
    from . import boot  # noqa  (fail fast if /repo cannot be imported)
    mod = importlib.import_module(modname)
    specs = list(mod.cases(seed, tier))
    if only is not None:
        specs = [specs[i] for i in only]
    sub = int(os.environ.get("VERIF_SUB", "0"))     # development aid (mutation campaigns): a random fraction of the cases, stop at the first violation
    if sub > 1:
        import random
        specs = random.Random(seed).sample(specs, max(1, len(specs) // sub))
    limit = limit or getattr(mod, "CASE_LIMIT", 60)
    deadline = t0 + float(os.environ.get("VERIF_DEADLINE", 560 if tier == "quick" else 720))
    jobs = jobs or int(os.environ.get("VERIF_JOBS", min(8, os.cpu_count() or 1)))
    known = known_findings(prop)
    stats, sigs, samples, errors = Counter(), set(), [], []
    evals = timeouts = ran = 0
    viol, kf = [], {}
    skipped = 0
    ctx = mp.get_context("fork")
    chunk = max(1, min(16, len(specs) // (jobs * 8) or 1))
    with ctx.Pool(jobs, initializer=_init, initargs=(modname, limit)) as pool:
        todo = list(enumerate(specs))
        chunks = [todo[i:i + chunk] for i in range(0, len(todo), chunk)]
        it = pool.imap_unordered(_run_chunk, chunks)
        results = []
        for _ in range(len(chunks)):
            try:
                results.extend(it.next(timeout=max(1.0, deadline - time.time())))
                if sub and any(v[0] not in known for r in results[-chunk:] for v in r[2]):
                    break
            except mp.TimeoutError:
                skipped = len(specs) - len(results)
                break
        for idx, status, v, st, sg, ev, sample, dt in sorted(results, key=lambda t: t[0]):
            if status == "timeout":
                timeouts += 1
                stats["case_timeouts"] += 1
                if timeouts <= 3:
                    print("note: case %d hit the %gs watchdog (inconclusive)" % (idx, limit))
                continue
            if status != "ok":
                errors.append((idx, status))
                continue
            ran += 1
            stats.update(st)
            sigs.update(sg)
            evals += ev
            if sample is not None and len(samples) < 5:
                samples.append(sample)
            for mech, msg in v:
                if mech in known:
                    kf.setdefault(mech, (idx, msg))
                else:
                    viol.append((idx, mech, msg))
        pool.terminate()
    if hasattr(mod, "finish"):
        r = Result()
        mod.finish(stats, r)
        for mech, msg in r.viol:
            viol.append((-1, mech, msg))
    for mech in sorted(known):
        if mech in kf:
            print("KNOWN-FINDING: property=%s %s [%s]" % (prop, known[mech], mech))
    cov = {"evaluations": int(evals or ran), "distinct_nontrivial": len(sigs), "rule": mod.RULE,
           "samples": samples or [jsonable(s) for s in specs[:1]], "cases_run": ran, "observed": dict(sorted(stats.items()))}
    if skipped:
        cov["cases_skipped_at_deadline"] = skipped
    if errors:
        cov["harness_errors"] = [e[1][-300:] for e in errors[:3]]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"), "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(jsonable(ev), f, indent=1)
    print("%s %s seed=%d: %d cases, %d evaluations, %d distinct, %d timeouts, %d errors, %.1fs" %
          (prop, tier, seed, ran, cov["evaluations"], len(sigs), timeouts, len(errors), time.time() - t0))
    if viol:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        seen = Counter()
        for idx, mech, msg in sorted(viol, key=lambda t: t[0]):
            seen[mech] += 1
            if seen[mech] > 2:
                continue
            path = os.path.join(HERE, "replays", "%s_%s_%d.json" % (prop, mech.replace("/", "_").replace(" ", "_"), seen[mech]))
            with open(path, "w") as f:
                json.dump({"property": prop, "module": modname, "tier": tier, "seed": seed, "index": idx, "mechanism": mech,
                           "message": msg, "spec": jsonable(specs[idx]) if idx >= 0 else None}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("   [%s] %s" % (mech, msg[:600]))
        print("violations by mechanism: %s" % dict(seen))
        return 1
    for e in errors[:3]:
        print("harness error in case %d: %s" % e)
    if ran == 0 or (len(errors) + timeouts) > 0.2 * len(specs) or len(sigs) == 0:
        print("INCONCLUSIVE property=%s (ran=%d errors=%d timeouts=%d distinct=%d)" % (prop, ran, len(errors), timeouts, len(sigs)))
        return 3
    return 0


def replay(path):
    d = json.load(open(path))
    _init(d["module"], 100000)
    sys.path.insert(0, HERE)
    r = _mod.run_case(d["spec"])
    for v in r.viol:
        print("VIOLATION-REPLAYED", v)
    print(dict(r.stats))
    return 1 if r.viol else 0
