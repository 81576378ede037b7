"""Case runner shared by all checks: worker pool, monitors' verdict recording, known findings, evidence, replay.

A check module defines
    PROPERTY, RULE (text), BUDGET {"quick": s, "thorough": s}
    cases(ctx)            -> iterable of JSON-able dicts; every random choice comes from ctx.seed
    run_case(case, rec)   -> drives the real code and records verdicts in `rec`
and optionally REQUIRED (counter names that must be non-zero), CASE_TIMEOUT, ASSUMPTIONS, summary(ctx).
"""
import hashlib, io, json, os, signal, sys, time, traceback
import multiprocessing as mp
from multiprocessing import connection as mpc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.extra = {}

    def rng(self, *key):
        import numpy as np
        return np.random.default_rng([self.seed] + [int(hashlib.sha256(str(k).encode()).hexdigest()[:8], 16) for k in key])


def jsonable(x, depth=0):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, np.ndarray):
        if x.size > 400:
            return {"shape": list(x.shape), "head": jsonable(x.ravel()[:24].tolist())}
        return jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:300]


class Rec:
    """Verdicts of one case."""
    MAXV = 6

    def __init__(self):
        self.violations = []
        self.counts = {}
        self.keys = set()
        self.sample = None
        self.nassert = 0
        self.inconclusive = []

    def check(self, ok, key, msg="", **data):
        self.nassert += 1
        if not bool(ok):
            self.fail(key, msg, **data)
            return False
        return True

    def fail(self, key, msg="", **data):
        if sum(1 for v in self.violations if v["key"] == key) < 2 and len(self.violations) < self.MAXV:
            self.violations.append(dict(key=key, msg=str(msg)[:600], data=jsonable(data)))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def distinct(self, *key):
        self.keys.add(hashlib.sha256(repr(jsonable(key)).encode()).hexdigest()[:16])

    def undecided(self, why):
        self.inconclusive.append(str(why)[:300])


class HarnessError(Exception):
    pass


def classify_exception(e):
    """'target' when the exception was raised by (or inside a library called by) the repository's code."""
    frames = traceback.extract_tb(e.__traceback__)
    for fr in reversed(frames):
        f = fr.filename
        if f.startswith(VERIF + os.sep) and "/.cache/" not in f:
            return "harness"
        if f.startswith(REPO + os.sep):
            return "target"
    return "harness"


def _execute(mod, case):
    rec = Rec()
    try:
        mod.run_case(case, rec)
    except HarnessError as e:
        return dict(error="harness: %s" % e)
    except BaseException as e:  # noqa
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:]
        if classify_exception(e) == "target":
            where = [fr for fr in traceback.extract_tb(e.__traceback__) if fr.filename.startswith(REPO + os.sep)][-1]
            rec.fail("unexpected-exception:%s:%s" % (type(e).__name__, where.name), tb)
        else:
            return dict(error=tb)
    return dict(v=rec.violations, c=rec.counts, k=sorted(rec.keys), s=jsonable(rec.sample), n=rec.nassert, i=rec.inconclusive)


def _worker(mod, conn, quiet):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    if quiet:
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        if quiet > 1:
            os.dup2(dn, 2)
    import warnings
    warnings.simplefilter("ignore")
    while True:
        try:
            case = conn.recv()
        except EOFError:
            break
        if case is None:
            break
        t = time.time()
        try:
            out = _execute(mod, case)
        except BaseException as e:  # noqa
            out = dict(error="worker: %r" % (e,))
        out["t"] = time.time() - t
        sys.stdout.flush()
        conn.send(out)
    os._exit(0)


def case_id(case):
    return hashlib.sha256(json.dumps(jsonable(case), sort_keys=True).encode()).hexdigest()[:16]


def load_known():
    """KNOWN property=<id> key=<mechanism> :: description      |      fixed: property=<id> <commit> <what>"""
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN "):
                head, _, desc = line.partition(" :: ")
                kv = dict(x.split("=", 1) for x in head.split()[1:])
                known.append((kv["property"], kv["key"], desc))
    return known


def run_check(mod, ctx, replay=None):
    t0 = time.time()
    prop = mod.PROPERTY
    budget = float(os.environ.get("VERIF_BUDGET") or mod.BUDGET[ctx.tier])
    case_timeout = getattr(mod, "CASE_TIMEOUT", 120 if ctx.quick else 400)
    nproc = int(os.environ.get("VERIF_JOBS") or min(8, os.cpu_count() or 1))
    nproc = min(nproc, getattr(mod, "MAXPROC", nproc))
    if hasattr(mod, "setup"):
        mod.setup(ctx)
    if replay is not None:
        gen = iter([json.load(open(replay))["case"]])
        nproc = 1
    else:
        gen = iter(mod.cases(ctx))
    mpctx = mp.get_context("fork")
    workers = []
    quiet = getattr(mod, "QUIET", 2)

    def spawn():
        a, b = mpctx.Pipe()
        p = mpctx.Process(target=_worker, args=(mod, b, quiet), daemon=True)
        p.start()
        b.close()
        return dict(p=p, c=a, case=None, t=None)

    total = dict(cases=0, asserts=0, skipped=0)
    counts, keys, samples, violations, errors, undecided = {}, set(), [], [], [], []
    slow = []
    exhausted = False
    stop = False
    kinds = {}

    def absorb(w, out):
        case = w["case"]
        w["case"] = None
        total["cases"] += 1
        kinds[str(case.get("kind", "case"))] = kinds.get(str(case.get("kind", "case")), 0) + 1
        if "error" in out:
            errors.append((case, out["error"]))
            return
        total["asserts"] += out["n"]
        for k, n in out["c"].items():
            counts[k] = counts.get(k, 0) + n
        keys.update(out["k"])
        slow.append((out["t"], case.get("kind")))
        for u in out["i"]:
            undecided.append((case, u))
        if out["s"] is not None and len(samples) < 6:
            samples.append(dict(case=jsonable(case), observed=out["s"]))
        for v in out["v"]:
            violations.append((case, v))

    known = [(k, d) for p, k, d in load_known() if p == prop]
    maxviol = int(os.environ.get("VERIF_MAXVIOL", "12"))
    while True:
        now = time.time()
        if now - t0 > budget or sum(v['key'] not in dict(known) for _, v in violations) >= maxviol or len(errors) > 5:
            stop = True
        # hand out work
        busy = [w for w in workers if w["case"] is not None]
        if not stop and not exhausted:
            for _ in range(nproc - len(busy)):
                try:
                    case = next(gen)
                except StopIteration:
                    exhausted = True
                    break
                idle = [w for w in workers if w["case"] is None]
                if idle:
                    w = idle[0]
                else:
                    w = spawn()
                    workers.append(w)
                w["case"], w["t"] = case, time.time()
                w["c"].send(case)
        busy = [w for w in workers if w["case"] is not None]
        if not busy:
            if stop or exhausted:
                break
            continue
        ready = mpc.wait([w["c"] for w in busy] + [w["p"].sentinel for w in busy], timeout=1.0)
        for w in busy:
            if w["c"] in ready or w["p"].sentinel in ready:
                try:
                    if w["c"].poll(0):
                        absorb(w, w["c"].recv())
                        continue
                except (EOFError, OSError):
                    pass
                w["p"].join(5)
                code = w["p"].exitcode
                if w["p"].is_alive():
                    w["p"].kill()
                case, w["case"] = w["case"], None
                workers.remove(w)
                total["cases"] += 1
                if code is not None and code < 0 and -code in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                    violations.append((case, dict(key="native-crash", msg="the process running this case died with signal %s" % signal.Signals(-code).name, data={})))
                elif hasattr(mod, "on_exit"):
                    v = mod.on_exit(case, code)
                    if v:
                        violations.append((case, v))
                    else:
                        errors.append((case, "worker exited with %r" % (code,)))
                else:
                    errors.append((case, "worker exited with %r" % (code,)))
            elif time.time() - w["t"] > case_timeout:
                case = w["case"]
                w["p"].kill()
                workers.remove(w)
                total["cases"] += 1
                undecided.append((case, "watchdog: no answer within %ds" % case_timeout))
                if hasattr(mod, "on_timeout"):
                    v = mod.on_timeout(case)
                    if v:
                        violations.append((case, v))
    for w in workers:
        try:
            w["c"].send(None)
        except OSError:
            pass
    for w in workers:
        w["p"].join(2)
        if w["p"].is_alive():
            w["p"].kill()

    # verdict
    real, hit = [], {}
    for case, v in violations:
        for k, d in known:
            if v["key"] == k:
                hit.setdefault(k, d)
                counts["known_finding_hits"] = counts.get("known_finding_hits", 0) + 1
                break
        else:
            real.append((case, v))
    wall = time.time() - t0
    missing = [c for c in getattr(mod, "REQUIRED", []) if not counts.get(c)] if replay is None else []
    cov = dict(evaluations=total["cases"], distinct_nontrivial=len(keys), rule=mod.RULE, samples=samples,
               monitor_assertions=total["asserts"], observed=dict(sorted(counts.items())), cases_by_kind=kinds,
               undecided_cases=len(undecided), stopped_by_budget=bool(stop and not exhausted))
    cov.update(ctx.extra)
    ev = dict(property=prop, tier=ctx.tier, seed=ctx.seed, level="exploration", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(real))
    if replay is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if os.environ.get("VERIF_SLOW"):
        for t, k in sorted(slow, key=lambda x: -x[0])[:10]:
            print("slow %.1fs %s" % (t, k))
    for k, d in (known if replay is None else list(hit.items())):
        print("KNOWN-FINDING: property=%s %s%s" % (prop, d, "" if k in hit else " [listed; not met in this run]"))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d assertions, %d undecided, %.1fs; %s" % (
        prop, ctx.tier, ctx.seed, total["cases"], len(keys), total["asserts"], len(undecided), wall,
        ", ".join("%s=%d" % kv for kv in sorted(counts.items()))))
    for case, u in undecided[:4]:
        print("undecided: %s: %s" % (json.dumps(jsonable(case))[:300], u))
    if real:
        seen = set()
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        for case, v in real:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            path = os.path.join(rdir, "%s-%s-%s.json" % (prop, case_id(case), hashlib.sha256(v["key"].encode()).hexdigest()[:6]))
            with open(path, "w") as f:
                json.dump(dict(property=prop, tier=ctx.tier, seed=ctx.seed, case=jsonable(case), violation=v), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
            print("  [%s] %s %s" % (v["key"], v["msg"].strip()[-700:], json.dumps(v["data"])[:700]))
        return 1
    if errors:
        for case, e in errors[:3]:
            print("ERROR in the check: case=%s\n%s" % (json.dumps(jsonable(case))[:400], e))
        return 2
    if replay is None and (total["cases"] == 0 or missing or len(keys) < 2):
        print("INCONCLUSIVE: the deciding monitor saw too little (cases=%d, missing=%s)" % (total["cases"], missing))
        return 2
    return 0
