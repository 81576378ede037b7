"""C14: cells honour the sizing function and are well shaped in 2D."""
import numpy as np
from vlib import meshgen as mg, meshes

PROPERTY = "C14"
RULE = ("one case = one mesh (or a pair at two resolutions) whose edges are compared with the requested sizes at their midpoints and whose cell qualities are computed "
        "independently; distinct non-trivial: (dimension, family, sizing, options, order of magnitude of the vertex count)")
BUDGET = {"quick": 150, "thorough": 800}
REQUIRED = ["meshes2", "meshes3", "edges", "graded", "refined_pairs", "quality_judged", "segy", "regional", "batches", "smoothed_vertices", "unsmoothed_meshes"]
ASSUMPTIONS = ["at least 30 iterations", "the minimum size is attained in the domain", "bounds are about 1.5 times the worst observed on the unchanged tree"]
KINDS = ("plain2", "graded2", "quality2", "plain3", "graded2", "refine2", "segy2", "graded3", "quality2", "segy3", "refine3", "batch2", "batch3")
SMOOTH2 = ("disk", "annulus", "polar", "ellipse")

BATCH = {2: ((1.04, 1.16), (.086, .12), (.74, 1), (.95, 1.18)), 3: ((1.16, 1.34), (.118, .16), (0, 1), (1.0, 1.35))}


def cases(ctx):
    n = 500 if ctx.quick else 9000
    for i in range(n):
        yield dict(kind=KINDS[i % len(KINDS)], i=i, seed=ctx.seed)


def edge_lengths(p, t):
    k = t.shape[1]
    e = np.unique(np.sort(np.concatenate([t[:, [i, j]] for i in range(k) for j in range(i)]), 1), axis=0)
    return np.linalg.norm(p[e[:, 0]] - p[e[:, 1]], axis=1), p[e].mean(1), e


def quality(p, t):
    L = np.stack([np.linalg.norm(p[t[:, a]] - p[t[:, b]], axis=1) for a, b in ((0, 1), (1, 2), (2, 0))], 1)
    A = np.abs(meshes.signed_volumes(p, t))
    s = L.sum(1) / 2
    return 8 * A * A / (s * L.prod(1))


def judge(rec, p, t, dim, fh, h0, tag, graded):
    rec.count("meshes%d" % dim)
    L, M, e = edge_lengths(p, t)
    f = fh(M)
    r = L / f
    rec.count("edges", len(L))
    m, sd = r.mean(), r.std() / r.mean()
    rec.distinct(dim, int(np.log2(len(p))), *tag)
    rec.sample = dict(mean=float(m), spread=float(sd), min=float(r.min() / m), max=float(r.max() / m), vertices=len(p))
    lo, hi = (0.88, 1.4) if dim == 2 else (0.95, 1.65)
    rec.check(lo <= m <= hi, "mean-size", "the mean ratio of edge length to requested size is %.3f" % m)
    rec.check(sd <= (0.27 if dim == 2 else 0.29), "size-spread", "edge lengths scatter by %.3f around the requested sizes" % sd)
    q = np.quantile(r / m, (.02, .98))
    rec.check(q[0] >= .28 and q[1] <= (1.65 if dim == 2 else 1.8), "size-tails", "2%% of the edges are below %.3f or above %.3f of the requested size" % (q[0], q[1]))
    if graded:
        # the ratio must not depend on the requested size: compare the lower and the upper third
        a, b = np.quantile(f, (1 / 3., 2 / 3.))
        if b > 1.15 * a and len(L) > 1000:
            x, y = r[f <= a].mean(), r[f >= b].mean()
            rec.count("regional")
            rec.check(0.72 <= x / y <= 1.4, "size-trend", "the ratio of edge length to requested size is %.3f where small and %.3f where large sizes are requested" % (x, y), n=len(L))
    return m, sd


def smoothing(rec, p, t, h, on):
    """2D: vertices none of whose neighbours is on the boundary are at the mean of their neighbours, if smoothing is on."""
    bv = np.unique(np.array(sorted(meshes.boundary_faces(t))))
    _, _, e = edge_lengths(p, t)
    n = len(p)
    s, d = np.zeros_like(p), np.zeros(n)
    c = p.mean(0)
    for a, b in ((0, 1), (1, 0)):
        np.add.at(s, e[:, a], p[e[:, b]] - c)
        np.add.at(d, e[:, a], 1)
    r = np.linalg.norm(s / d[:, None] - (p - c), axis=1) / h
    near = np.zeros(n, bool)
    near[bv] = True
    near[e[near[e].any(1)].ravel()] = True
    r = r[~near]
    if on:
        rec.count("smoothed_vertices", len(r))
        if len(r):
            rec.check(r.max() <= 1e-5, "smoothing", "an interior vertex is %.3g minimum sizes away from the mean of its neighbours although smoothing is on" % r.max(), vertices=n)
    elif len(r) >= 30:
        rec.count("unsmoothed_meshes")
        rec.check(np.mean(r > 1e-5) > .2, "no-smoothing", "all vertices are at the mean of their neighbours although smoothing is off", worst=float(r.max()))


def attained(rng, pb, kind):
    """A graded sizing whose minimum is attained inside the domain."""
    sz = mg.sizing(rng, pb, kind)
    if sz["kind"] != "scalar":
        c = mg.interior_points(rng, pb, 1, .2 * pb["feat"])
        if not len(c):
            return None
        sz["c"] = [float(v) for v in c[0]]
    return sz


def run_case(case, rec):
    rng = np.random.default_rng([case["seed"], 114, case["i"]])
    k = case["kind"]
    dim = int(k[-1])
    kw = dict(verbose=0, seed=int(rng.integers(0, 1000)), max_iter=int(mg.pick(rng, (30, 40, 50, 75))))
    if rng.random() < .2:
        kw["delta_t"] = float(rng.uniform(.15, .35))
    if rng.random() < .2:
        kw["geps_mult"] = float(rng.uniform(.05, .15))
    if rng.random() < .2 and not k.startswith("quality"):
        kw["mesh_improvement"] = False
    if k.startswith("batch"):
        # averages over several meshes vary little, so they are judged more tightly
        S = []
        for j in range(8):
            while True:
                pb = mg.problem(rng, dim, mg.pick(rng, ("disk", "rect", "rotrect", "ellipse", "lens", "annulus") if dim == 2 else ("ball", "cube", "ellipsoid", "cylinder", "lens3")), fine=(9, 12) if dim == 2 else (5, 6))
                sz = dict(kind="scalar", h=pb["h"]) if j % 2 else attained(rng, pb, "radial")
                if sz and 150 < mg.estimate(pb, sz) < (1500 if dim == 2 else 1200):
                    break
            p, t = mg.run(pb, sz, verbose=0, seed=int(rng.integers(1000)), max_iter=50)
            L, M, _ = edge_lengths(p, t)
            r = L / mg.fh_ref(sz, M)
            S.append((r.mean(), r.std() / r.mean(), np.quantile(quality(p, t), .01) if dim == 2 else 0, mg.estimate(pb, sz) / len(p)))
        rec.count("batches")
        S = np.mean(S, 0)
        rec.sample = S.tolist()
        rec.distinct("batch", dim, case["i"])
        B = BATCH[dim]
        for n, v, (a, b) in zip(("mean size ratio", "spread", "first percentile of the quality", "vertex ratio"), S, B):
            rec.check(a <= v <= b, "batch", "average over 8 meshes: %s %.4f, expected %.3f to %.3f" % (n, v, a, b))
        return
    if k.startswith("segy"):
        import SeismicMesh as sm
        d = mg.segy_problem(rng, dim)
        dom, ef = mg.segy_build(d)
        p, t = sm.generate_mesh(dom, ef, **kw)
        judge(rec, p, t, dim, lambda X: np.asarray(ef.eval(X)), d["hmin"], ("segy", d["pad"] > 0), True)
        rec.count("segy")
        return
    kind = "scalar" if k.startswith("plain") else mg.pick(rng, ("radial", "plane"))
    if k.startswith("refine"):
        kind = mg.pick(rng, ("scalar", "radial", "plane"))
    while True:
        pb = mg.problem(rng, dim, mg.pick(rng, SMOOTH2) if k.startswith("quality") else None, fine=(8, 20) if dim == 2 else (4, 6))
        sz = attained(rng, pb, kind)
        if sz and 60 < mg.estimate(pb, sz) < (5000 if dim == 2 else 2200) / (2.0 ** dim if k.startswith("refine") and dim == 2 else 3 if k.startswith("refine") else 1):
            break
    if sz["kind"] != "scalar" and rng.random() < .2:
        kw["r0m_is_h0"] = True
    rec.count("graded", sz["kind"] != "scalar")
    p, t = mg.run(pb, sz, **kw)
    tag = (pb["fam"], sz["kind"], str(sorted((a, str(b)[:4]) for a, b in kw.items() if a != "seed")))
    m, sd = judge(rec, p, t, dim, lambda X: mg.fh_ref(sz, X), sz["h"], tag, sz["kind"] != "scalar")
    if dim == 2:
        smoothing(rec, p, t, sz["h"], kw.get("mesh_improvement", True))
    est = mg.estimate(pb, sz)
    rec.check(0.5 <= est / len(p) <= 2, "vertex-count", "%d vertices where about %d are expected" % (len(p), est))
    if k.startswith("quality"):
        q = quality(p, t)
        rec.count("quality_judged", len(q))
        rec.check(q.mean() >= .93, "mean-quality", "the mean quality is %.3f" % q.mean())
        rec.check(np.mean(q < .5) <= .02 + 2.5 / len(q), "poor-cells", "%.1f%% of the cells have quality below 0.5" % (100 * np.mean(q < .5)))
        rec.check(np.sum(q < .1) <= 1 + 1e-3 * len(q) and q.min() > .005, "poor-cell", "the worst cell has quality %.3g" % q.min())
    if k.startswith("refine"):
        f = 2.0 if dim == 2 else 1.4
        s2 = dict(sz, h=sz["h"] / f, g=sz.get("g", 0) / f)
        if "hmax" in sz:
            s2["hmax"] = sz["hmax"] / f
        p2, t2 = mg.run(pb, s2, **kw)
        m2, _ = judge(rec, p2, t2, dim, lambda X: mg.fh_ref(s2, X), s2["h"], ("refined",) + tag, sz["kind"] != "scalar")
        x = len(t2) / len(t) / f ** dim
        rec.count("refined_pairs")
        rec.check(.75 <= x <= (1.35 if dim == 2 else 1.9), "refinement", "refining by %g multiplies the number of cells by %.3f" % (f, len(t2) / len(t)), cells=[len(t), len(t2)])
