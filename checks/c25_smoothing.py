"""C25: Laplacian smoothing against neighbour means."""
import numpy as np
from vlib import meshes as M

PROPERTY = "C25"
RULE = ("one case = one valid 2D mesh (holes, components, non-convex, offsets up to 1e5 sizes) smoothed by the one-shot or the iterative variant, "
        "with and without fixed points and limits; distinct non-trivial: meshes with a movable vertex")
BUDGET = {"quick": 40, "thorough": 400}
REQUIRED = ["one_shot", "iterative", "fixed_points", "movable_vertices", "offset_meshes", "stopped_by_tolerance", "stopped_by_limit", "no_free_vertex", "large_meshes", "unused_vertices"]
ASSUMPTIONS = []


def cases(ctx):
    n = 1200 if ctx.quick else 14000
    for i in range(n):
        yield dict(kind=("one", "iter", "big")[min(i % 5 // 2, 2)], i=i, seed=ctx.seed)


def neighbour_mean(x, t):
    n = len(x)
    e = np.array(sorted(M.faces(t, 2)))
    s, d = np.zeros_like(x), np.zeros(n)
    np.add.at(s, e[:, 0], x[e[:, 1]])
    np.add.at(s, e[:, 1], x[e[:, 0]])
    np.add.at(d, e.ravel(), 1)
    return s / d[:, None]


def run_case(case, rec):
    import SeismicMesh as sm
    geo = sm.geometry
    rng = np.random.default_rng([case["seed"], 125, case["i"]])
    big = case["kind"] == "big"
    p, t = M.random_mesh(rng, 2, n=int(rng.integers(200, 900)) if big else (int(rng.integers(3, 120)) if rng.random() < 0.8 else None), holes=rng.random() < 0.5, components=not big)
    if case["i"] % 150 == 31:
        p, t = M.random_mesh(rng, 2, n=int(rng.integers(15000, 40000)), holes=False, components=False, min_flat=1e-10)
        rec.count("large_meshes")
    if rng.random() < 0.3:      # anisotropic
        p = p * np.array([1.0, 10.0 ** rng.uniform(-1.5, 1.5)])
    size = np.ptp(p, axis=0).max()
    if rng.random() < 0.5:
        p = p + rng.normal(size=2) * size * 10.0 ** rng.uniform(0, 5)
        rec.count("offset_meshes")
    p = p * 10.0 ** rng.uniform(-3, 3)
    if rng.random() < 0.3:
        t = t.astype(np.int32)
    if rng.random() < 0.3:
        p = np.asfortranarray(p)
    size = float(np.ptp(p, axis=0).max())
    one = case["kind"] != "iter" and not (big and rng.random() < 0.4)
    unused = np.zeros(0, int)
    if not one and rng.random() < 0.15:     # vertices of no cell, inside the mesh's bounding box
        lo, hi = p.min(0), p.max(0)
        k = int(rng.integers(1, 4))
        p, t = M.insert_unused(rng, p, t, k)
        unused = np.setdiff1d(np.arange(len(p)), t)
        p[unused] = lo + rng.random((len(unused), 2)) * (hi - lo)
        rec.count("unused_vertices", len(unused))
    # rounding of the input coordinates limits what can be asked
    off = float(np.abs(p).max())
    bv = np.array(sorted({v for f in M.boundary_faces(t) for v in f}))
    free = np.setdiff1d(np.arange(len(p)), np.append(bv, unused))
    pfix = None
    if rng.random() < 0.5 and len(p) > 3:
        ids = rng.permutation(len(p))[: 1 + int(rng.integers(4))]
        # closest vertex decides: perturb by much less than the distance to the second closest
        pfix = p[ids] + rng.normal(size=(len(ids), 2)) * 1e-9 * size * (rng.random() < 0.5)
        d = np.linalg.norm(p[None] - pfix[:, None], axis=2)
        srt = np.sort(d, 1)
        if (srt[:, 1] < 4 * srt[:, 0] + 1e-9 * size).any():
            pfix = None
        else:
            free = np.setdiff1d(free, ids)
            rec.count("fixed_points", len(ids))
    p0, t0 = p.copy(), t.copy()
    fix0 = None if pfix is None else pfix.copy()
    kw = {}
    if pfix is not None:
        kw["pfix"] = pfix
    tol = 0.01
    if one:
        q, s = geo.laplacian2_fixed_point(p, t, **kw)
    else:
        kw["verbose"] = int(rng.integers(2))
        it = int(rng.integers(1, 40)) if rng.random() < 0.8 else 20
        if it != 20 or rng.random() < 0.5:
            kw["max_iter"] = it
        if rng.random() < 0.6:
            tol = kw["tol"] = float(10.0 ** rng.uniform(-4, -0.5))
        q, s = geo.laplacian2(p, t, **kw)
    q, s = np.asarray(q), np.asarray(s)
    info = dict(kind="one-shot" if one else "iterative", vertices=len(p), cells=len(t), free=len(free), offset=off / size,
                opts={k: v for k, v in kw.items() if k != "pfix"}, fixed=0 if pfix is None else len(pfix))
    rec.check(np.array_equal(p, p0) and np.array_equal(t, t0) and (pfix is None or np.array_equal(pfix, fix0)), "input-modified", "an argument was modified", **info)
    rec.check(s.shape == t0.shape and np.array_equal(s, t0), "connectivity", "connectivity changed", **info)
    if not rec.check(q.shape == p0.shape and np.isfinite(q).all(), "finite", "coordinates missing or not finite", shape=q.shape, **info):
        return
    fixed = np.setdiff1d(np.arange(len(p)), free)
    dev = np.abs(q[fixed] - p0[fixed]).max() if len(fixed) else 0.0
    rec.check(dev <= 1e-12 * size + 4e-16 * off, "fixed-moved", "a boundary or fixed vertex moved", by=float(dev / size), **info)
    eps = 1e-15 * off
    if len(free):
        lo, hi = p0[bv].min(0), p0[bv].max(0)
        u = np.setdiff1d(np.arange(len(p)), unused)
        ex = max((lo - q[u]).max(), (q[u] - hi).max())
        rec.check(ex <= 1e-6 * size + eps * 100, "hull", "a vertex left the bounding box of the boundary", by=float(ex / size), **info)
        # convex hull of the boundary: support in random directions (fixed interior points lie inside it as well)
        th = rng.uniform(0, 2 * np.pi, 16)
        D = np.column_stack([np.cos(th), np.sin(th)])
        c = p0[bv].mean(0)
        ex = (((q[u] - c) @ D.T).max(0) - ((p0[bv] - c) @ D.T).max(0)).max()
        rec.check(ex <= 1e-6 * size + eps * 100, "hull", "a vertex left the convex hull of the boundary", by=float(ex / size), **info)
    else:
        rec.count("no_free_vertex")
    c = p0.mean(0)
    if one:
        if len(free):
            r = np.abs(neighbour_mean(q - c, t0) - (q - c))[free].max()
            rec.check(r <= 1e-6 * size + eps * 100, "one-shot-mean", "an interior vertex is not at the mean of its neighbours", residual=float(r / size), **info)
        rec.count("one_shot")
    else:
        # the result is the k-th neighbour-averaging iterate for some 1 <= k <= max_iter, stopping as soon as movement is below tol
        x = p0 - c
        lim = kw.get("max_iter", 20)
        e = np.array([[a, b] for tri in t0.tolist() for a, b in ((tri[0], tri[1]), (tri[0], tri[2]), (tri[1], tri[2]))])
        Lold = np.linalg.norm(x[e[:, 0]] - x[e[:, 1]], axis=1)
        hit, want_stop = None, None
        y = q - c
        if len(unused) and np.abs(x - y).max() <= 1e-12 * size + 4 * eps:
            hit = 0         # a mesh with vertices of no cell may be refused: returned as it came
        best = np.inf
        for k in range(1, lim + 1):
            m = neighbour_mean(x, t0)
            x2 = x.copy()
            x2[free] = m[free]
            x = x2
            L = np.linalg.norm(x[e[:, 0]] - x[e[:, 1]], axis=1)
            with np.errstate(all="ignore"):
                move = float(np.nanmax((L - Lold) / np.maximum(L, 1e-300)))
            Lold = L
            d = np.abs(x - y).max()
            best = min(best, d / size)
            if d <= 1e-9 * size + 50 * eps * (1 + k) and hit is None:
                hit = k
            if want_stop is None and move < tol:
                want_stop = k
                sure = abs(move - tol) > 1e-6 + 1e-12 * off / size
                break
        stop = want_stop or lim
        rec.check(hit is not None, "iterates", "the result is not a neighbour-averaging iterate", nearest=best, stop=stop, **info)
        if hit is not None and len(free):
            rec.count("stopped_by_tolerance" if want_stop else "stopped_by_limit")
        rec.count("iterative")
    rec.count("movable_vertices", len(free))
    if len(free):
        rec.distinct(len(p), len(t), p0.sum(0).tolist())
