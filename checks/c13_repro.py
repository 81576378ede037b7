"""C13: mesh generation is reproducible and leaves its arguments alone."""
import copy, hashlib, json, os, random, subprocess, sys
import numpy as np
from vlib import meshgen as mg

PROPERTY = "C13"
RULE = ("one case = one meshing (or sliver removal) request executed several times - same process after disturbing global state, other verbosity, rebuilt arguments, "
        "fresh process with another hash seed - and compared bitwise; distinct non-trivial: (kind, family, sizing, options) with at least 20 cells")
BUDGET = {"quick": 120, "thorough": 600}
REQUIRED = ["same_process", "other_process", "verbosity", "reused_objects", "sliver_runs", "arguments_compared", "seeds_differ", "segy", "disturbed_rng"]
ASSUMPTIONS = ["same machine, library versions and thread settings"]
KINDS = ("plain2", "plain3", "pfix2", "restart2", "segy2", "sub2", "sliver3", "proc2", "plain2", "proc3", "segy3", "procsegy2", "restart3", "procsliver3")


def cases(ctx):
    n = 420 if ctx.quick else 8000
    for i in range(n):
        yield dict(kind=KINDS[i % len(KINDS)], i=i, seed=ctx.seed)


def request(case):
    """Everything that defines a request, JSON-able, from the case."""
    rng = np.random.default_rng([case["seed"], 113, case["i"]])
    k = case["kind"]
    dim = int(k[-1])
    if "segy" in k:
        r = dict(what="segy", d=mg.segy_problem(rng, dim), kw=mg.options(rng, None))
        r["kw"]["max_iter"] = min(r["kw"]["max_iter"], 25)
        if dim == 3:
            r["kw"].pop("perform_checks", None)
        return r
    pb, sz = mg.limited(rng, dim, 1500 if dim == 2 else 900)
    kw = mg.options(rng, pb, few=rng.random() < .3)
    kw["max_iter"] = min(kw["max_iter"], 30)
    if dim == 3:
        kw.pop("perform_checks", None)
    if rng.random() < .2:
        kw["seed"] = float(rng.uniform(0, 100)) if False else int(rng.integers(1 << 30))
    r = dict(what="mesh", pb=pb, sz=sz, kw=kw)
    if "pfix" in k or rng.random() < .2:
        X = mg.spread(rng, pb, 4, .8, 1.2, sz)
        if len(X):
            r["pfix"] = X.tolist()
    if "sub" in k:
        c = mg.interior_points(rng, pb, 1, .3 * pb["feat"])
        if len(c):
            r["sub"] = [c[0].tolist(), float(.5 * mg.depth_of(pb, c)[0])]
    if "restart" in k:
        r["points"] = mg.interior_points(rng, pb, 200, 0.0).tolist()
        if len(r["points"]) < 30:
            r.pop("points")
    if "sliver" in k:
        r["what"] = "sliver"
        r["skw"] = dict(max_iter=int(rng.integers(2, 25)), verbose=0, min_dh_angle_bound=float(rng.uniform(5, 15)), preserve=bool(rng.random() < .5))
    return r


def arguments(r):
    """Fresh argument objects of a request: (function name, positional list, keyword dict)."""
    import SeismicMesh as sm
    kw = dict(r["kw"])
    if r["what"] == "segy":
        dom, ef = mg.segy_build(r["d"])
        return [dom, ef], kw
    dom, k1 = mg.build_domain(r["pb"])
    eh, k2 = mg.build_sizing(r["sz"])
    kw.update(k1)
    kw.update(k2)
    if "pfix" in r:
        kw["pfix"] = np.array(r["pfix"]) if r["kw"]["seed"] % 2 else [list(v) for v in r["pfix"]]
    if "sub" in r:
        kw["subdomains"] = [(sm.Disk if r["pb"]["dim"] == 2 else sm.Ball)(list(r["sub"][0]), r["sub"][1])]
    if "points" in r:
        kw["points"] = np.array(r["points"])
    if r["kw"]["seed"] % 3 == 0:      # writing to them would not go unnoticed
        for v in kw.values():
            if isinstance(v, np.ndarray):
                v.setflags(write=False)
    return [dom, eh], kw


def execute(r, args, kw):
    import SeismicMesh as sm
    p, t = sm.generate_mesh(args[0], args[1], **kw)
    if r["what"] == "sliver":
        k2 = {k: v for k, v in kw.items() if k in ("h0", "bbox")}
        pin = np.array(p)
        pin.setflags(write=False)
        q, t = sm.sliver_removal(pin, args[0], args[1], **dict(r["skw"], **k2))
        return q, t
    return p, t


def digest(p, t):
    h = hashlib.sha256()
    for a in (p, t):
        a = np.ascontiguousarray(a)
        h.update(str((a.shape, a.dtype.str)).encode())
        h.update(a.tobytes())
    return h.hexdigest()


def state(x, depth=0):
    """Comparable deep state of an argument."""
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(state(v, depth) for v in x)
    if isinstance(x, dict):
        return tuple(sorted((str(k), state(v, depth)) for k, v in x.items()))
    if isinstance(x, (int, float, str, bool, type(None), np.generic)):
        return repr(x)
    if hasattr(x, "__dict__") and depth < 4 and type(x).__module__.startswith("SeismicMesh"):
        return (type(x).__name__,) + tuple(sorted((k, state(v, depth + 1)) for k, v in vars(x).items()))
    return type(x).__name__


def disturb(rng):
    np.random.seed(int(rng.integers(1 << 31)))
    np.random.rand(int(rng.integers(1, 50)))
    random.seed(int(rng.integers(1 << 31)))


PROG = """
import sys, json, os
sys.path[:0] = %r
import warnings; warnings.simplefilter("ignore")
from checks import c13_repro as c
import numpy as np
np.random.rand(7)
r = json.loads(sys.stdin.read())
o = os.dup(1); n = os.open(os.devnull, os.O_WRONLY); os.dup2(n, 1)
a, k = c.arguments(r)
d = c.digest(*c.execute(r, a, k))
sys.stdout.flush(); os.dup2(o, 1)
print("DIGEST", d)
"""


def run_case(case, rec):
    from vlib.harness import HarnessError
    rng = np.random.default_rng([case["seed"], 1130, case["i"]])
    r = json.loads(json.dumps(request(case)))
    args, kw = arguments(r)
    before = (state(args), state(kw))
    p, t = execute(r, args, kw)
    d0 = digest(p, t)
    after = (state(args), state(kw))
    rec.count("arguments_compared")
    rec.check(before == after, "arguments-modified", "the caller's arguments were modified by the call",
              which=[n for n, a, b in [("positional", before[0], after[0])] + [(x[0][0], x[0], x[1]) for x in zip(before[1], after[1])] if a != b])
    k = case["kind"]
    # again with the same objects, after something else
    disturb(rng)
    rec.count("disturbed_rng")
    if rng.random() < .5:
        r2 = json.loads(json.dumps(request(dict(case, i=case["i"] + 100000, kind="plain2"))))
        a2, k2 = arguments(r2)
        execute(r2, a2, dict(k2, max_iter=2))
    d1 = digest(*execute(r, args, kw))
    rec.count("reused_objects")
    rec.check(d1 == d0, "not-reproducible", "a second call with the same arguments gave another mesh")
    disturb(rng)
    # rebuilt arguments, other verbosity
    a3, k3 = arguments(r)
    k3["verbose"] = (k3["verbose"] + 1) % 3
    d2 = digest(*execute(r, a3, k3))
    rec.count("same_process")
    rec.count("verbosity")
    rec.check(d2 == d0, "not-reproducible-verbosity", "the same request with another verbosity gave another mesh")
    if k.startswith("proc"):
        env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 1000))))
        paths = [x for x in sys.path if x]
        q = subprocess.run([sys.executable, "-c", PROG % (paths,)], input=json.dumps(r), capture_output=True, text=True, env=env, timeout=100)
        m = [l for l in q.stdout.splitlines() if l.startswith("DIGEST")]
        if not m:
            raise HarnessError("fresh process gave no answer: " + q.stderr[-1500:])
        rec.count("other_process")
        rec.check(m[0].split()[1] == d0, "not-reproducible-process", "the same request in a fresh process gave another mesh")
    else:
        a4, k4 = arguments(r)
        k4["seed"] = k4["seed"] + 1
        if "points" not in r:
            rec.count("seeds_differ", digest(*execute(r, a4, k4)) != d0)
    rec.count("sliver_runs", r["what"] == "sliver")
    rec.count("segy", r["what"] == "segy")
    if len(t) >= 20:
        rec.distinct(k, r.get("pb", {}).get("fam"), r.get("sz", {}).get("kind"), str(sorted((a, str(b)[:5]) for a, b in r["kw"].items() if a != "seed")))
