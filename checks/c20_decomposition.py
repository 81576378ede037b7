"""C20: domain decomposition loses nothing and localises consistently."""
import numpy as np
from vlib import meshes, vmpi

PROPERTY = "C20"
RULE = ("one case = one call (or one collective operation over all ranks of a virtual world) of a decomposition or migration function judged against a direct reference; "
        "distinct non-trivial: (operation, dimension, ranks, axis, input style, size class)")
BUDGET = {"quick": 60, "thorough": 500}
REQUIRED = ["large_sets", "splits", "points_split", "ties", "distributed", "local_sizes", "gathered_cells", "exports", "exported", "exported_both", "must_export", "exchanged_rows",
            "external_cells", "external_removed", "size_functions", "hull_seen"]
ASSUMPTIONS = ["every block receives points", "circumscribed balls of cells that are not flat; balls within 1e-6 of touching a box are not judged"]
KINDS = ("blocker", "enqueue", "exchange", "aggregate", "localize", "distribute", "external", "enqueue")


def cases(ctx):
    n = 2400 if ctx.quick else 40000
    for i in range(n):
        yield dict(kind=KINDS[i % len(KINDS)], i=i, seed=ctx.seed)


def cloud(rng, dim, n):
    S = 10.0 ** rng.uniform(-3, 5)
    style = int(rng.integers(4))
    p = rng.uniform(-1, 1, (n, dim))
    if style == 1:
        p = np.round(p * 6) / 6                     # ties and points on the interfaces
    elif style == 2:
        p = np.sign(p) * np.abs(p) ** 3             # unevenly spread
    elif style == 3:
        p = p * np.logspace(0, -1, dim)
    p[:2] = [[-1] * dim, [1] * dim]
    return p * S + rng.uniform(-1, 1, dim) * S * int(rng.choice([0, 0, 1, 30])), style


def world(rec, size, fn, seed):
    w = vmpi.run(size, fn, strategy=vmpi.STRATEGIES[seed % len(vmpi.STRATEGIES)], delivery=("mixed", "rendezvous", "eager", "size")[seed % 4], seed=seed)
    for k, m in w.problems:
        rec.fail(k, m)
    for r, e in enumerate(w.error):
        if e is not None:
            raise e
    return w


def rows(a):
    return sorted(map(bytes, np.ascontiguousarray(a, dtype=float) + 0.0))


def dimkw(rng, dim):
    """Two dimensions are the default."""
    return {} if dim == 2 and rng.random() < .5 else dict(dim=dim)


def blocker(rec, rng, i):
    from SeismicMesh.decomp import blocker as bl
    dim = int(rng.integers(2, 4))
    nb = int(rng.integers(1, 8))
    big = rng.random() < .02
    p, style = cloud(rng, dim, int(rng.integers(33000, 140000) if big else rng.integers(4 * nb, 40 * nb + 4)))
    rec.count("large_sets", big)
    axis = int(rng.integers(dim))
    q = p.copy()
    blocks, ext = bl(p, int(rng.integers(3)), nb, axis)
    rec.count("splits")
    rec.count("points_split", len(p))
    rec.check(np.array_equal(p, q), "input-modified", "the point set was modified")
    rec.distinct("blocker", dim, nb, axis, style, len(p) // 50)
    got = rows(np.concatenate(blocks))
    rec.check(got == rows(p), "points-lost", "%d points in, %d out of the blocks (%d missing, %d repeated)" % (len(p), len(got), len(set(rows(p)) - set(got)), len(got) - len(set(got))), blocks=nb, axis=axis)
    rec.check(len(ext) == len(blocks) and len(blocks) <= nb, "block-count", "%d blocks and %d extents for %d requested" % (len(blocks), len(ext), nb))
    for b, e in zip(blocks, ext):
        rec.check(np.array_equal(np.asarray(e, float), np.r_[b.min(0), b.max(0)]), "extent", "an extent is not the tight bounding box of its block")
    # ordered slabs of equal width, parallel to the chosen axis: along y for 0, along x for 1, along z for 2
    a = (1, 0, 2)[axis]
    x = p[:, a]
    L = np.linspace(x.min(), x.max(), nb + 1)
    t = 1e-9 * np.abs(p).max()
    rec.count("ties", int((np.abs(x[:, None] - L[1:-1]) <= t).sum()))
    last = -1
    for b in blocks:
        k = [k for k in range(nb) if b[:, a].min() >= L[k] - t and b[:, a].max() <= L[k + 1] + t]
        if not rec.check(k, "not-slab", "a block is not inside one of the %d slabs of equal width stacked along coordinate %d" % (nb, a), lo=b[:, a].min(), hi=b[:, a].max()):
            return
        k = [v for v in k if v > last]
        if not rec.check(k, "slab-order", "the blocks are not in the order of their slabs along coordinate %d" % a):
            return
        last = k[0]


def distribute(rec, rng, i):
    import SeismicMesh as sm
    from SeismicMesh.decomp import blocker as bl
    dim = int(rng.integers(2, 4))
    size = int(rng.integers(2, 7))
    big = rng.random() < .02
    p, style = cloud(rng, dim, 60 * size if not big else int(rng.integers(33000, 140000)))
    rec.count("large_sets", big)
    axis = int(rng.integers(dim))
    blocks, ext = bl(p, 0, size, axis)
    if len(blocks) < size:
        return
    keep = [b.copy() for b in blocks]

    def f(c):
        if c.Get_rank() == 0:
            return sm.migration.localize_points(blocks, ext, c, dim)
        return sm.migration.localize_points(None, None, c, dim)

    w = world(rec, size, f, int(rng.integers(1 << 20)))
    rec.count("distributed", size)
    rec.distinct("distribute", dim, size, axis, style)
    for r in range(size):
        pts, e = w.result[r]
        rec.check(np.array_equal(pts, keep[r]), "wrong-block", "rank %d did not receive block %d" % (r, r), size=size)
        rec.check(e == ext, "extents-differ", "rank %d has other extents" % r)


def grid_fn(rng, dim, bbox):
    """A sizing object and an exact reference that is linear between the nodes of its grid, or an analytic function."""
    from scipy.interpolate import RegularGridInterpolator
    L = bbox[:, 1] - bbox[:, 0]
    h0 = float(L.max() / rng.uniform(12, 40 if dim == 2 else 22))
    if rng.random() < .5:
        n = [int(v) for v in rng.integers(4, 12, dim)]
        vec = [np.linspace(a, b, k) for (a, b), k in zip(bbox, n)]
        V = h0 * (1 + rng.random(n))
        it = RegularGridInterpolator(vec, V, bounds_error=False, fill_value=None)
        slope = max(np.abs(np.diff(V, axis=k)).max() / (vec[k][1] - vec[k][0]) for k in range(dim)) * dim
        return h0, (lambda x: it(x)), slope, "grid"
    a, d = rng.uniform(.02, .3), rng.normal(size=dim)
    d /= np.linalg.norm(d)
    c = bbox.mean(1)
    lin = rng.random() < .5

    def f(x):
        X = np.moveaxis(np.asarray(x), 0, -1) if isinstance(x, tuple) else np.asarray(x)
        v = (X - c) @ d
        return h0 + a * (v + 2 * np.sqrt(dim) * L.max() if lin else np.abs(v))
    return h0, f, 0.0 if lin else a * np.abs(d).sum(), "linear" if lin else "plane"


def localize(rec, rng, i):
    import SeismicMesh as sm
    dim = 2 if rng.random() < .6 else 3
    size = int(rng.integers(2, 6))
    axis = int(rng.integers(dim))
    S = 10.0 ** rng.uniform(-2, 4)
    lo = rng.uniform(-2, 2, dim) * S
    bbox = np.stack([lo, lo + rng.uniform(.5, 1, dim) * S], 1)
    if i % 3 == 0:        # through a real SizeFunction
        n = [int(v) for v in rng.integers(8, 16, dim)]
        st = float(rng.choice([10., 25., 50.]))
        o = [-(n[0] - 1) * st] + [0.0] * (dim - 1)
        bb = tuple(float(v) for a, m in zip(o, n) for v in (a, a + (m - 1) * st))
        h0 = float((max(n) - 1) * st / rng.uniform(12, 22))
        v = 1500 * (1 + rng.random(n))
        ef = sm.get_sizing_function_from_segy(None, bb, velocity_data=v, hmin=h0, hmax=3 * h0, wl=1500 / h0, freq=1.0, grade=float(rng.uniform(.1, .5)), **dict(zip(("nz", "nx", "ny"), n)))
        bbox, f, style = np.array(bb).reshape(-1, 2), ef.eval, "segy"
        # slope bound of the piecewise linear field
        vec = [np.linspace(a, b, m) for (a, b), m in zip(bbox, n)]
        V = f(tuple(np.meshgrid(*vec, indexing="ij")))
        slope = sum(np.abs(np.diff(V, axis=k)).max() / st for k in range(dim))
        rec.count("size_functions")
    else:
        h0, f, slope, style = grid_fn(rng, dim, bbox)
    b0 = bbox.copy()
    w = world(rec, size, lambda c: sm.migration.localize_sizing_function(f, h0, bbox.copy() if rng.random() < .5 else bbox, dim, axis, c), int(rng.integers(1 << 20)))
    rec.check(np.array_equal(b0, bbox), "input-modified", "the bounding box was modified")
    lims = np.linspace(bbox[axis, 0], bbox[axis, 1], size + 1)
    rec.distinct("localize", dim, size, axis, style)
    for r in range(size):
        B = bbox.copy()
        B[axis] = lims[r:r + 2]
        X = rng.uniform(B[:, 0], B[:, 1], (60, dim))
        X = np.vstack([X, np.array(np.meshgrid(*B, indexing="ij")).reshape(dim, -1).T])
        a, g = np.asarray(w.result[r](X)), np.asarray(f(X))
        rec.count("local_sizes", len(X))
        e = np.abs(a - g)
        tol = 0.55 * slope * h0 + 1e-7 * np.abs(g).max()
        k = int(np.argmax(e))
        rec.check(e[k] <= tol, "localised-differs", "rank %d of %d evaluates the size %.6g where the global function gives %.6g (grid error at most %.3g)" % (r, size, a[k], g[k], tol), point=X[k], axis=axis)


def aggregate(rec, rng, i):
    import SeismicMesh as sm
    dim = int(rng.integers(2, 4))
    size = int(rng.integers(2, 7))
    M = []
    tot = 0
    big = int(rng.integers(size)) if rng.random() < .03 else -1
    rec.count("large_sets", big >= 0)
    for r in range(size):
        p, t = meshes.random_mesh(rng, dim, n=int(rng.integers(8, 40)), components=False)
        if r == big:
            p, t = meshes.insert_unused(rng, p, t, 40000)
        p = p + 10.0 * r * np.ptp(p) * (rng.random() < .6)
        if rng.random() < .4:
            p, t = meshes.insert_unused(rng, p, t, int(rng.integers(1, 6)))
        M.append((p.copy(), t.copy()))
        tot += len(t)
    cells = sorted(tuple(sorted(map(bytes, np.ascontiguousarray(p[c]) + 0.0))) for p, t in M for c in t)
    kd = dimkw(rng, dim)
    w = world(rec, size, lambda c: sm.migration.aggregate(M[c.rank][0].copy(), M[c.rank][1].copy(), c, size, c.rank, **kd), int(rng.integers(1 << 20)))
    P, T = w.result[0]
    rec.count("gathered_cells", tot)
    rec.distinct("aggregate", dim, size, tot // 50)
    ok = P.ndim == 2 and P.shape[1] == dim and T.shape[1] == dim + 1 and (len(T) == 0 or (T.min() >= 0 and T.max() < len(P)))
    rec.check(ok, "malformed", "the gathered mesh is malformed", shapes=[P.shape, T.shape])
    if ok:
        got = sorted(tuple(sorted(map(bytes, np.ascontiguousarray(P[c]) + 0.0))) for c in T)
        rec.check(got == cells, "cells-lost", "gathered %d cells of %d, %d of them not from any rank" % (len(got), tot, len(set(got) - set(cells))), size=size, dim=dim)
    for r in range(1, size):
        x = w.result[r]
        rec.check(len(x) == 2 and x[0] is True and x[1] is True, "other-ranks", "rank %d returns something else than (True, True)" % r)


def balls(p, t):
    dim = p.shape[1]
    P = p[t]
    A = 2 * (P[:, 1:] - P[:, :1])
    b = (P[:, 1:] ** 2).sum(2) - (P[:, :1] ** 2).sum(2)
    o = P[:, :1].copy()
    Q = P - o
    A = 2 * Q[:, 1:]
    b = (Q[:, 1:] ** 2).sum(2)
    s = np.abs(A).max((1, 2))
    s[s == 0] = 1
    ok = np.abs(np.linalg.det(A / s[:, None, None])) > 1e-5
    c = np.zeros((len(t), dim))
    c[ok] = np.linalg.solve(A[ok], b[ok][:, :, None])[:, :, 0]
    r = np.sqrt((c ** 2).sum(1))
    return c + o[:, 0], r, ok


def hull_facets(p, t):
    """(vertices, outer unit normals, a point) of the facets of one cell."""
    dim = p.shape[1]
    S = {}
    for c in t.tolist():
        for k in range(dim + 1):
            f = tuple(sorted(c[:k] + c[k + 1:]))
            S.setdefault(f, []).append(c[k])
    F = [(f, o[0]) for f, o in S.items() if len(o) == 1]
    V, O = np.array([f for f, _ in F]), p[[o for _, o in F]]
    a = p[V[:, 0]]
    if dim == 2:
        d = p[V[:, 1]] - a
        n = np.stack([d[:, 1], -d[:, 0]], 1)
    else:
        n = np.cross(p[V[:, 1]] - a, p[V[:, 2]] - a)
    n = n / np.maximum(np.linalg.norm(n, axis=1), 1e-300)[:, None]
    n[(n * (O - a)).sum(1) > 0] *= -1
    return V, n, a


def enqueue(rec, rng, i):
    import SeismicMesh as sm
    dim = 2 if rng.random() < .6 else 3
    size = int(rng.integers(2, 6))
    rank = int(rng.integers(size))
    S = 10.0 ** rng.uniform(-2, 4)
    off = rng.uniform(-1, 1, dim) * S * int(rng.choice([0, 0, 1, 20]))
    axis = int(rng.integers(dim))
    n = int(rng.integers(10, 160))
    p = rng.random((n, dim)) * rng.uniform(.3, 1.2, dim)
    if rng.random() < .3:
        p = np.round(p * 8) / 8 + 1e-3 * rng.random((n, dim))
    elif rng.random() < .3:     # nearly flat cells: points on lines or planes, moved by one unit in the last place
        k = n // 2
        p[:k] = p[0] + rng.random((k, dim - 1)) @ (p[1:dim] - p[0]) / (dim - 1)
        p[:k:3, 0] = np.nextafter(p[:k:3, 0], 9)
    w = np.ptp(p[:, axis])
    from scipy.spatial import Delaunay
    try:
        t = Delaunay(p).simplices.astype(int)
    except Exception:
        return
    pad = rng.uniform(0, .45)
    ext = []
    lo, hi = p.min(0), p.max(0)
    gap = rng.uniform(0.0, .06)
    for r in range(size):
        a, b = lo.copy(), hi.copy()
        a[axis] = lo[axis] + (r - rank) * (w + gap) - pad * w
        b[axis] = hi[axis] + (r - rank) * (w + gap) + pad * w
        o = [k for k in range(dim) if k != axis]
        for k in o:
            if rng.random() < .4:      # the neighbour's part of the domain is narrower or wider
                m, ww = rng.uniform(lo[k], hi[k]), rng.uniform(.02, 1)
                a[k], b[k] = m - ww * np.ptp(p[:, k]), m + ww * np.ptp(p[:, k])
        ext.append(np.r_[a, b])
    if rng.random() < .2:               # neighbours far away: nothing to export
        for r in range(size):
            if r != rank:
                ext[r] = ext[r] + 1e3
        if rng.random() < .6:           # with flat faces that cannot see them
            p = np.vstack([p * .9 + .05 * (lo + hi), np.array(np.meshgrid(*[(x, y) for x, y in zip(lo, hi)])).reshape(dim, -1).T])
            t = Delaunay(p).simplices.astype(int)
    p = p * S + off
    ext = [list(e * S + np.r_[off, off]) for e in ext]
    q, u = p.copy(), t.copy()
    X = sm.migration.enqueue(ext, p, t, rank, size, **dimkw(rng, dim))
    rec.count("exports")
    rec.check(np.array_equal(p, q) and np.array_equal(t, u), "input-modified", "enqueue modified its inputs")
    nb, na = X[0, 0], X[0, 1]
    rec.check(nb == int(nb) >= 0 and na == int(na) >= 0 and 1 + nb + na <= len(X) and X.shape[1] == dim + 1, "malformed-exports", "the export table is malformed", header=X[0], shape=X.shape)
    nb, na = int(nb), int(na)
    c, R, ok = balls(p, t)
    E = np.array(ext)
    hull = hull_facets(p, t)
    scale = np.abs(p).max()
    for name, r, part in (("below", rank - 1, X[1:1 + nb]), ("above", rank + 1, X[1 + nb:1 + nb + na])):
        if not 0 <= r < size:
            rec.check(len(part) == 0, "export-to-nobody", "%d points exported %s rank %d of %d" % (len(part), name, rank, size))
            continue
        ix = part[:, dim].astype(int)
        rec.check(np.array_equal(ix, part[:, dim]) and (len(ix) == 0 or (ix.min() >= 0 and ix.max() < len(p))), "export-index", "an exported row does not name a vertex")
        rec.check(np.array_equal(part[:, :dim], p[ix]), "export-coordinates", "an exported row has other coordinates than the vertex it names")
        rec.check(len(set(ix.tolist())) == len(ix), "export-twice", "a vertex is exported %s more than once" % name)
        rec.count("exported", len(ix))
        l, h = E[r, :dim], E[r, dim:]
        d = np.sqrt((np.maximum(np.maximum(l - c, c - h), 0) ** 2).sum(1))
        reach = d <= R + 1e-6 * (R + np.abs(h - l).max()) + 1e-12 * scale
        F, n, a = hull
        see = (n * (np.where(n > 0, h, l) - a)).sum(1) / np.linalg.norm(h - l)      # n: unit normals
        may = np.zeros(len(p), bool)
        may[F[~(see < -1e-12 * scale / np.linalg.norm(h - l))]] = True
        may[t[reach | ~ok]] = True
        bad = ix[~may[ix]]
        rec.check(len(bad) == 0, "export-needless", "a vertex is exported %s although no ball of its cells reaches the box of rank %d" % (name, r), vertex=p[bad[:1]], box=ext[r])
        need = ok & (d <= R - 1e-6 * (R + np.abs(h - l).max()) - 1e-12 * scale)
        must = np.zeros(len(p), bool)
        must[t[need]] = True
        must[F[see > 1e-6]] = True
        rec.count("hull_seen", int((see > 1e-6).sum()))
        rec.count("must_export", int(must.sum()))
        miss = np.setdiff1d(np.nonzero(must)[0], ix)
        rec.check(len(miss) == 0, "export-missing", "%d vertices of cells whose balls reach the box of rank %d are not exported %s" % (len(miss), r, name), vertex=p[miss[:1]], box=ext[r], rank=rank, size=size)
    rec.count("exported_both", len(set(X[1:1 + nb, dim]) & set(X[1 + nb:1 + nb + na, dim])))
    rec.count("empty_exports", nb + na == 0)
    rec.distinct("enqueue", dim, size, min(rank, 1) + (rank == size - 1), n // 40, nb > 0, na > 0)


def exchange(rec, rng, i):
    import SeismicMesh as sm
    dim = int(rng.integers(2, 4))
    size = int(rng.integers(2, 8))
    T = []
    many = 20 if rng.random() < .97 else int(rng.choice([33000, 70000]))
    rec.count("large_sets", many > 20)
    for r in range(size):
        nb = 0 if r == 0 else int(rng.choice([0, 1, 3, many]))
        na = 0 if r == size - 1 else int(rng.choice([0, 1, 3, many]))
        X = np.full((1 + nb + na + int(rng.integers(4)), dim + 1), -1.0)
        X[0] = 0
        X[0, :2] = nb, na
        X[1:1 + nb + na, :dim] = rng.normal(size=(nb + na, dim)) * 10 ** rng.uniform(-3, 4)
        X[1:1 + nb + na, dim] = np.arange(nb + na)
        T.append(X)
    K = [x.copy() for x in T]
    rounds = int(rng.integers(1, 4))
    kd = dimkw(rng, dim)
    w = world(rec, size, lambda c: [sm.migration.exchange(c, c.rank, size, T[c.rank], **kd) for _ in range(rounds)], int(rng.integers(1 << 20)))
    rec.distinct("exchange", dim, size, rounds)
    for r in range(size):
        want = []
        if r + 1 < size:
            want.append(K[r + 1][1:1 + int(K[r + 1][0, 0]), :dim])
        if r > 0:
            nb, na = int(K[r - 1][0, 0]), int(K[r - 1][0, 1])
            want.append(K[r - 1][1 + nb:1 + nb + na, :dim])
        want = np.concatenate(want) if want else np.zeros((0, dim))
        for got in w.result[r]:
            rec.count("exchanged_rows", len(want))
            rec.check(np.asarray(got).shape == want.shape and rows(got) == rows(want), "wrong-exchange", "rank %d of %d received %d rows where its neighbours sent %d" % (r, size, len(got), len(want)))
    rec.check(all(np.array_equal(a, b) for a, b in zip(T, K)), "input-modified", "the export tables were modified")


def external(rec, rng, i):
    import SeismicMesh as sm
    dim = int(rng.integers(2, 4))
    p, t = meshes.random_mesh(rng, dim, n=int(rng.integers(10, 120)))
    s = 10.0 ** rng.uniform(-2, 4)
    p = (p / np.abs(p).max()) * s + rng.uniform(-1, 1, dim) * s * int(rng.choice([0, 3]))
    if rng.random() < .4:
        p, t = meshes.insert_unused(rng, p, t, 3)
    lo, hi = p.min(0), p.max(0)
    a = rng.uniform(lo, hi)
    b = a + rng.uniform(.05, .8, dim) * (hi - lo)
    if rng.random() < .2:      # box faces through vertices
        a, b = np.minimum(p[0], p[-1]), np.maximum(p[0], p[-1])
    if rng.random() < .1:
        a, b = lo, hi
    q, u = p.copy(), t.copy()
    P, T, j = sm.geometry.remove_external_entities(p, t, list(a) + list(b), **dimkw(rng, dim))
    rec.check(np.array_equal(p, q) and np.array_equal(t, u), "input-modified", "the mesh was modified")
    d = np.maximum(a - p, p - b).max(1)
    tol = 1e-12 * np.abs(p).max()
    inside = (d <= -tol)[t].any(1)
    outside = (d > tol)[t].all(1)
    got = set(map(tuple, T.tolist()))
    rec.count("external_cells", len(t))
    rec.count("external_removed", len(t) - len(T))
    rec.distinct("external", dim, len(t) // 40, len(T) == len(t), len(T) == 0)
    rec.check(all(tuple(c) in got for c in t[inside].tolist()), "cell-removed", "a cell with a vertex inside the box was removed")
    rec.check(not any(tuple(c) in got for c in t[outside].tolist()), "cell-kept", "a cell with all vertices outside the box was kept")
    rec.check(got <= set(map(tuple, t.tolist())) and len(T) == len(got), "cells-changed", "cells were changed")
    rec.check(np.array_equal(P, p) and np.array_equal(j, np.arange(len(p))), "vertices-changed", "the vertices or their map changed")


def run_case(case, rec):
    rng = np.random.default_rng([case["seed"], 120, case["i"]])
    globals()[case["kind"]](rec, rng, case["i"])
