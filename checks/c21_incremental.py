"""C21: histories of the incremental Delaunay classes, judged after every operation in exact arithmetic; also the batch functions."""
import numpy as np
from vlib import dexact as D
from vlib.native import get

PROPERTY = "C21"
RULE = ("one case = one history of 6-16 insert/move/remove batches on one triangulation (lattice, cocircular, collinear, clustered, "
        "dyadic and full-precision random points), fully checked after every operation; distinct non-trivial: states (point sets) judged with cells")
BUDGET = {"quick": 60, "thorough": 600}
REQUIRED = ["insert", "move", "remove", "states_2d", "states_3d", "cells_checked", "degenerate_states", "edges_checked", "duplicates_inserted", "batch2", "batch3", "moved_onto_other", "many2", "many3"]
ASSUMPTIONS = ["3D moves are made only while the points span three dimensions (CGAL itself fails otherwise)", "a vertex is addressed by its position in the last listing; moves of one batch name distinct vertices"]


def cases(ctx):
    n = 1800 if ctx.quick else 6000
    for i in range(n):
        yield dict(kind="many" if i % 225 == 7 else ("h2", "h3", "h2", "h3", "batch", "big")[i % 6], i=i, seed=ctx.seed)


def points(rng, dim, n, style):
    if style == 0:
        return rng.integers(-3, 4, (n, dim)).astype(float)
    if style == 1:
        return np.round(rng.uniform(-1, 1, (n, dim)) * 2 ** 16) / 2 ** 16
    if style == 2:
        return rng.normal(size=(n, dim)) * 10.0 ** rng.uniform(-3, 3) + rng.normal() * 10
    if style == 3:      # cocircular / cospherical and collinear groups
        base = np.array([(3, 4), (4, 3), (5, 0), (0, 5), (-3, 4), (-4, 3), (3, -4), (4, -3), (-5, 0), (0, -5), (-3, -4), (-4, -3), (0, 0), (1, 0), (2, 0), (3, 0)], float)
        q = base[rng.integers(0, len(base), n)]
        if dim == 3:
            q = np.column_stack([q, rng.choice([-1.0, 0.0, 0.0, 2.0], n)])
        return q
    if style == 4:      # clusters
        c = rng.integers(-2, 3, (3, dim)).astype(float)
        return c[rng.integers(0, 3, n)] + np.round(rng.normal(size=(n, dim)) * 64) / 2 ** 18
    return np.column_stack([rng.integers(-9, 10, n).astype(float)] + [np.full(n, 1.0)] * (dim - 1))   # all collinear


def key(p):
    return tuple((np.asarray(p, float) + 0.0).tolist())


class Model:
    def __init__(self):
        self.live = set()


def full(live):
    """Whether the points span three dimensions. CGAL's own 3D move breaks its data structure on flatter sets (see DESIGN.md)."""
    return D.affine_dim(D.to_int(np.array(sorted(live)))) == 3


def check_state(dt, dim, model, rec, info):
    v = np.asarray(dt.get_finite_vertices())
    if not rec.check(v.ndim == 2 and v.shape[1] == dim, "listing-shape", "vertex listing has a wrong shape", shape=v.shape, **info):
        return None
    got = [key(x) for x in v]
    ok = rec.check(len(set(got)) == len(got) and set(got) == model.live, "live-points", "the listed vertices are not the live points",
                   missing=sorted(model.live - set(got))[:4], extra=sorted(set(got) - model.live)[:4], listed=len(got), live=len(model.live), **info)
    rec.check(dt.number_of_vertices() == len(model.live), "count", "number_of_vertices is wrong", got=int(dt.number_of_vertices()), want=len(model.live), **info)
    v2 = np.asarray(dt.get_finite_vertices())
    rec.check(np.array_equal(v, v2), "order", "two listings without an operation in between differ", **info)
    if hasattr(dt, "finite_vertices") and rec.nassert % 7 == 0:
        it = [key([h.point.x, h.point.y] + ([h.point.z] if dim == 3 else [])) for h in dt.finite_vertices()]
        rec.check(it == got, "iterator", "the vertex iterator disagrees with the listing", **info)
    t = np.asarray(dt.get_finite_cells())
    n = dt.number_of_faces() if dim == 2 else dt.number_of_cells()
    rec.check(t.ndim == 2 and t.shape == (n, dim + 1), "cell-count", "cell listing and cell count disagree", shape=t.shape, count=int(n), **info)
    if not ok:
        return None
    for k, m, d in D.problems(v, t.reshape(-1, dim + 1), dim):
        rec.fail(k, m, points=len(v), **d, **info)
    rec.nassert += max(1, len(t)) * len(v)
    rec.count("states_%dd" % dim)
    rec.count("cells_checked", len(t))
    if len(t):
        rec.distinct(sorted(got))
    else:
        rec.count("degenerate_states")
    return v, t


def check_edges(dt, dim, t, rng, rec, info):
    if not hasattr(dt, "get_edges") or len(t) == 0:
        return
    mask = (rng.random(len(t)) < rng.choice([0.0, 0.3, 0.7, 1.0], p=[0.05, 0.3, 0.3, 0.35])).astype(int)
    e = np.asarray(dt.get_edges(mask.tolist())).reshape(-1, 2)
    got = [tuple(sorted(x)) for x in e.tolist()]
    want = {tuple(sorted((c[i], c[j]))) for c, m in zip(t.tolist(), mask) if m for i in range(dim + 1) for j in range(i)}
    rec.check(set(got) == want and len(got) == len(want), "edges", "get_edges does not list exactly the edges of the selected cells, once each",
              selected=int(mask.sum()), cells=len(t), got=len(got), want=len(want), missing=sorted(want - set(got))[:3], extra=sorted(set(got) - want)[:3], **info)
    rec.count("edges_checked", len(want))


def history(rng, rec, dim, big):
    import importlib
    mod = importlib.import_module("_delaunay_class3" if dim == 3 else "_delaunay_class")
    dt = getattr(mod, "DelaunayTriangulation3" if dim == 3 else "DelaunayTriangulation")()
    model = Model()
    style = int(rng.choice(6, p=[0.3, 0.2, 0.2, 0.15, 0.1, 0.05]))
    cap = (60 if dim == 2 else 40) if big else (26 if dim == 2 else 18)
    if style == 2 and not big:
        cap = min(cap, 16)
    log = []
    listing = None
    for step in range(int(rng.integers(4, 8) if big else rng.integers(6, 17))):
        n = len(model.live)
        r = rng.random()
        if n == 0 or (r < 0.4 and n < cap):
            k = int(rng.integers(1, (40 if big else 12)))
            q = points(rng, dim, k, style)
            if n and rng.random() < 0.4:
                q = np.vstack([q, np.array(sorted(model.live))[rng.integers(0, n, 2)]])   # already there
            q = q[rng.permutation(len(q))]
            rec.count("duplicates_inserted", len(q) - len({key(x) for x in q} - model.live))
            log.append(("insert", len(q)))
            dt.insert(q.ravel().tolist())
            model.live |= {key(x) for x in q}
            rec.count("insert")
        elif r < 0.75 and n > 1:
            ids = rng.permutation(n)[: int(rng.integers(1, min(n, 8) + 1))]
            new = points(rng, dim, len(ids), style)
            if rng.random() < 0.5:      # small moves
                amp = 2.0 ** -int(rng.integers(2, 12))
                new = listing[ids] + (np.round(rng.normal(size=new.shape) * 8) / 8) * amp
            cur = [key(x) for x in listing]
            use, pos = [], []
            live = set(model.live)
            for i, w in zip(ids, new):
                if key(w) in live and key(w) != cur[i]:
                    continue
                nxt = (live - {cur[i]}) | {key(w)}
                if dim == 3 and not (full(live) and full(nxt)):
                    continue
                live = nxt
                use.append(int(i))
                pos.append(w)
            if rng.random() < 0.25 and n > 3:    # the last move lands on another live vertex: the moved one disappears
                i = next((j for j in range(n) if j not in use), None)
                if i is not None and len(live) > 1:
                    tgt = next((x for x in sorted(live) if x != cur[i]), None)
                    if tgt is not None and (dim == 2 or full(live) and full(live - {cur[i]})):
                        use.append(i)
                        pos.append(np.array(tgt))
                        live.discard(cur[i])
                        rec.count("moved_onto_other")
            if not use:
                continue
            log.append(("move", len(use)))
            dt.move(use, np.array(pos).ravel().tolist())
            model.live = live
            rec.count("move")
        elif n:
            ids = rng.permutation(n)[: int(rng.integers(1, max(2, n // 2 + 1)))]
            if rng.random() < 0.08:
                ids = rng.permutation(n)
            cur = [key(x) for x in listing]
            log.append(("remove", len(ids)))
            dt.remove([int(i) for i in ids])
            model.live -= {cur[i] for i in ids}
            rec.count("remove")
        info = dict(dim=dim, style=style, ops=list(log[-6:]), step=step)
        st = check_state(dt, dim, model, rec, info)
        if st is None or rec.violations:
            return
        listing = st[0]
        check_edges(dt, dim, st[1], rng, rec, info)


def batch(rng, rec):
    dim = int(rng.integers(2, 4))
    f = get("_delaunay", "_delaunay%d" % dim)
    q = points(rng, dim, int(rng.integers(dim + 1, 40 if dim == 2 else 26)), int(rng.integers(0, 5)))
    t = np.asarray(f(*[np.ascontiguousarray(q[:, k]) for k in range(dim)]))
    info = dict(dim=dim, points=len(q))
    if not rec.check(t.ndim == 2 and t.shape[1] == dim + 1 and (t.size == 0 or (t.min() >= 0 and t.max() < len(q))), "batch-shape", "bad cell table", shape=t.shape, **info):
        return
    rec.count("batch%d" % dim)
    u, inv = np.unique(q + 0.0, axis=0, return_inverse=True)
    for k, m, d in D.problems(u, inv.reshape(-1)[t], dim):
        rec.fail("batch-" + k, m, **d, **info)
    rec.nassert += 1 + len(t)
    if len(t):
        rec.distinct(u)


def many(rng, rec, dim):
    """Tens of thousands of points: floating-point oracles instead of exact ones."""
    import importlib
    from scipy.spatial import ConvexHull, cKDTree
    mod = importlib.import_module("_delaunay_class3" if dim == 3 else "_delaunay_class")
    dt = getattr(mod, "DelaunayTriangulation3" if dim == 3 else "DelaunayTriangulation")()
    n = int(rng.integers(66000, 72000)) if dim == 2 else int(rng.integers(20000, 24000))
    live = rng.uniform(-1, 1, (n, dim)) * 10.0 ** rng.uniform(-2, 3)
    half = int(rng.integers(1, n))
    dt.insert(live[:half].ravel().tolist())
    dt.insert(live[half:].ravel().tolist())
    ext = np.ptp(live, axis=0).max()

    def judge(want, op):
        info = dict(points=len(want), dim=dim, op=op)
        v = np.asarray(dt.get_finite_vertices())
        c = np.asarray(dt.get_finite_cells()).reshape(-1, dim + 1)
        rec.nassert += 5
        ok = v.shape == want.shape and np.array_equal(v[np.lexsort(v.T)], want[np.lexsort(want.T)])
        if not rec.check(ok, "many-live", "the listed vertices are not the live points", listed=v.shape, **info):
            return None
        if not rec.check(c.min() >= 0 and c.max() < len(v), "many-index", "a cell indexes no vertex", **info):
            return None
        M = v[c[:, 1:]] - v[c[:, :1]]
        vol = np.linalg.det(M)
        rec.check(vol.min() > -1e-9 * ext ** dim / len(v), "many-orientation", "negative cells", worst=float(vol.min()), **info)
        hull = ConvexHull(v).volume
        rec.check(abs(vol.sum() / (2 if dim == 2 else 6) - hull) < 1e-9 * hull, "many-cover", "the cells do not fill the hull", cells=float(vol.sum() / (2 if dim == 2 else 6)), hull=hull, **info)
        M = M[vol > 1e-6 * np.median(vol)]
        o = v[c[vol > 1e-6 * np.median(vol), 0]]
        x = np.linalg.solve(2 * M, (M ** 2).sum(2)[..., None])[..., 0]
        R = np.linalg.norm(x, axis=1)
        good = R < ext
        d, _ = cKDTree(v).query((o + x)[good])
        rec.check((d > R[good] * (1 - 1e-6)).all(), "many-delaunay", "a live point lies inside a circumball", **info)
        got = np.sort(np.asarray(dt.get_edges([1] * len(c))).reshape(-1, 2), axis=1) if hasattr(dt, "get_edges") else None
        if got is not None:
            E = np.sort(np.vstack([c[:, [a, b]] for a in range(dim + 1) for b in range(a)]), axis=1).astype(np.int64)
            code = np.unique(E[:, 0] * len(v) + E[:, 1])
            g = np.unique(got[:, 0].astype(np.int64) * len(v) + got[:, 1])
            rec.check(np.array_equal(code, g), "many-edges", "the edges are not those of the cells", got=len(g), want=len(code), **info)
        return v

    v = judge(live, "insert")
    if v is None:
        return
    ids = rng.permutation(len(v))[:2000]
    new = v[ids] + rng.normal(size=(len(ids), dim)) * ext * 1e-3
    want = v.copy()
    want[ids] = new
    dt.move([int(i) for i in ids], new.ravel().tolist())
    v = judge(want, "move")
    if v is None:
        return
    ids = rng.permutation(len(v))[:2000]
    dt.remove([int(i) for i in ids])
    judge(np.delete(v, ids, axis=0), "remove")
    rec.count("many%d" % dim)
    rec.distinct(n, dim)


def run_case(case, rec):
    rng = np.random.default_rng([case["seed"], 121, case["i"]])
    import SeismicMesh  # noqa: F401  (the classes are used through the package's own binaries)
    if case["kind"] == "many":
        return many(rng, rec, 2 + case["i"] // 225 % 2)
    if case["kind"] == "batch":
        for _ in range(4):
            batch(rng, rec)
    elif case["kind"] == "big":
        history(rng, rec, 2 + case["i"] // 6 % 2, True)
    else:
        history(rng, rec, int(case["kind"][1]), False)
