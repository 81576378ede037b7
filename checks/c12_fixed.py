"""C12: fixed points and domain corners are vertices of the mesh."""
import numpy as np
from scipy.spatial import cKDTree
from vlib import meshgen as mg, meshes, shapes

PROPERTY = "C12"
RULE = ("one case = one serial generate_mesh run (or one restarted from given points) whose vertices are searched for the constrained points; distinct non-trivial: "
        "(dimension, family, sizing, iterations, options) with at least one constrained point that is not a point of the initial lattice")
BUDGET = {"quick": 150, "thorough": 700}
REQUIRED = ["fixed_points", "corners", "restarted", "few_iterations", "meshes2", "meshes3", "with_subdomains"]
ASSUMPTIONS = ["fixed points lie at least 0.7 local sizes inside the domain and are 1.2 local sizes apart", "tolerance 1e-4 of the minimum size"]
KINDS = ("pfix2", "corner2", "both2", "pfix2", "pfix3", "corner3", "restart2", "sub2", "few2", "corner2", "restart3", "few3", "segy2")


def cases(ctx):
    n = 900 if ctx.quick else 14000
    for i in range(n):
        yield dict(kind=KINDS[i % len(KINDS)], i=i, seed=ctx.seed)


def corners_of(spec):
    lo, hi = shapes.box_of(spec)
    c = np.array(np.meshgrid(*zip(lo, hi), indexing="ij")).reshape(len(lo), -1).T
    return shapes.image(spec, c)


def box_problem(rng, dim):
    """A rectangle or box under any transform."""
    S = float(10.0 ** rng.uniform(-2, 4))
    w = S * rng.uniform(.4, 1, dim)
    lo = -w * rng.uniform(0, 1, dim)
    sp = dict(t="rectangle" if dim == 2 else "cube", bbox=[float(v) for p in zip(lo, lo + w) for v in p])
    f = 1.0
    if rng.random() < .5:
        sp["rotate"] = [float(rng.uniform(-np.pi, np.pi))] + [float(rng.uniform(-np.pi, np.pi)) if dim == 3 and rng.random() < .5 else 0.0 for _ in range(2)]
    if rng.random() < .25:
        v = rng.normal(size=dim)
        f = float(rng.uniform(1.1, 1.5))
        sp["stretch"] = [float(x) for x in v / np.linalg.norm(v) * f]
    if rng.random() < .5:
        sp["translate"] = [float(v) for v in rng.uniform(-1, 1, dim) * S * mg.pick(rng, (1.0, 10.0, 1e3))]
    a, b = (5, 15) if dim == 2 else (5, 8)
    return dict(dim=dim, fam="box", shape=sp, feat=float(w.min()), h=float(w.min() / rng.uniform(a, b)), smooth=False, S=S, form="shape")


def judge(rec, p, X, h, key, what):
    if not len(X):
        return
    dd, _ = cKDTree(p).query(X)
    rec.nassert += len(X)
    i = int(np.argmax(dd))
    lost = int((dd > 1e-4 * h).sum())
    if key == "corner-lost" and lost and (lost <= 2 and dd[i] < h if X.shape[1] == 2 else lost <= 5):
        # recorded defect: a corner squeezed off by a vertex close to it
        rec.fail("corner-squeezed", "%d of %d corners are not vertices: the nearest one is %.3g minimum sizes away" % (lost, len(X), dd[i] / h), point=X[i])
        return
    rec.check(dd[i] <= 1e-4 * h, key, "%s is not a vertex: the nearest one is %.3g minimum sizes away" % (what, dd[i] / h), point=X[i], missing=int((dd > 1e-4 * h).sum()))


def run_case(case, rec):
    rng = np.random.default_rng([case["seed"], 112, case["i"]])
    k = case["kind"]
    dim = int(k[-1])
    if k == "segy2":
        import SeismicMesh as sm
        d = mg.segy_problem(rng, 2)
        dom, ef = mg.segy_build(d)
        w = d["pad"]
        bb = [d["bbox"][0] - w, d["bbox"][1], d["bbox"][2] - w, d["bbox"][3] + w]
        pb = dict(dim=2, shape=dict(t="rectangle", bbox=bb), h=d["hmin"], feat=1)
        X = mg.spread(rng, pb, 4, 1.5 * d["hmax"], 2.5 * d["hmax"])
        kw = mg.options(rng, pb)
        p, t = sm.generate_mesh(dom, ef, pfix=X.tolist(), **kw)
        judge(rec, p, X, d["hmin"], "pfix-lost", "a fixed point")
        rec.count("fixed_points", len(X))
        rec.count("meshes2")
        rec.distinct("segy", w > 0, len(X))
        return
    if k.startswith(("corner", "both")):
        while True:
            pb = box_problem(rng, dim)
            sz = mg.sizing(rng, pb, None if dim == 2 else "scalar")
            if mg.estimate(pb, sz) < (4000 if dim == 2 else 2500):
                break
    else:
        pb, sz = mg.limited(rng, dim, 4000 if dim == 2 else 2500)
    kw = mg.options(rng, pb, few=k.startswith("few") or rng.random() < .2)
    if dim == 3:
        kw.pop("perform_checks", None)
    if k.startswith(("corner", "both")):
        kw["max_iter"] = max(kw["max_iter"], 10 if dim == 2 else 20)
    h = sz["h"]
    X = np.zeros((0, dim))
    if not k.startswith("corner"):
        X = mg.spread(rng, pb, int(rng.integers(1, 9)), .7, 1.2, sz)
        if len(X):
            kw["pfix"] = X.tolist() if rng.random() < .5 else X.copy()
    if k.startswith("sub"):
        import SeismicMesh as sm
        c = mg.interior_points(rng, pb, 1, .3 * pb["feat"])
        if len(c):
            kw["subdomains"] = [sm.Disk([float(v) for v in c[0]], float(.5 * mg.depth_of(pb, c)[0]))]
            rec.count("with_subdomains")
            # fixed points close to the immersed boundary are moved onto it by design of the projection: keep clear of it
            r = np.linalg.norm(X - c[0], axis=1)
            X = X[np.abs(r - float(.5 * mg.depth_of(pb, c)[0])) > sz.get("hmax", h)]
            kw["pfix"] = X.tolist()
            if not len(X):
                kw.pop("pfix")
    C = corners_of(pb["shape"]) if k.startswith(("corner", "both")) else np.zeros((0, dim))
    p, t = mg.run(pb, sz, **kw)
    rec.count("meshes%d" % dim)
    judge(rec, p, X, h, "pfix-lost", "a fixed point")
    judge(rec, p, C, h, "corner-lost", "a corner")
    if k.startswith("restart"):
        # the points of the first run contain the fixed points
        kw2 = dict(kw, points=p.copy(), max_iter=int(mg.pick(rng, (1, 5, 20))))
        p2, t2 = mg.run(pb, sz, **kw2)
        judge(rec, p2, X, h, "pfix-lost-restart", "a fixed point")
        rec.count("restarted")
    rec.count("fixed_points", len(X))
    rec.count("corners", len(C))
    rec.count("few_iterations", kw["max_iter"] <= 5)
    if len(X) or len(C):
        rec.distinct(dim, pb["fam"], sz["kind"], kw["max_iter"], len(X), len(C), str(sorted(a for a in kw if a not in ("seed", "verbose"))))
