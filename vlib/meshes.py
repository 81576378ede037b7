"""Random simplicial meshes (independent of the code under test) and mesh oracles."""
import itertools
from collections import Counter
import numpy as np
from scipy.spatial import Delaunay, cKDTree


def dim_kw(rng, dim):
    """Two dimensions are the documented default, so it may be left out."""
    return {} if dim == 2 and rng.random() < .5 else dict(dim=dim)


def signed_volumes(p, t):
    p, t = np.asarray(p, float), np.asarray(t)
    d = p[t[:, 1:]] - p[t[:, :1]]
    if p.shape[1] == 2:
        return (d[:, 0, 0] * d[:, 1, 1] - d[:, 0, 1] * d[:, 1, 0]) / 2
    return np.einsum("ij,ij->i", np.cross(d[:, 0], d[:, 1]), d[:, 2]) / 6


def orient(p, t):
    t = np.array(t)
    f = signed_volumes(p, t) < 0
    t[f, 0], t[f, 1] = t[f, 1].copy(), t[f, 0].copy()
    return t


def random_mesh(rng, dim, n=None, holes=True, components=True, min_flat=1e-3):
    """A valid mesh: Delaunay cells of random points, slivers dropped, optionally with holes and several components.
    Every vertex is used."""
    parts = 1 + (int(rng.integers(0, 3)) if components else 0)
    P, T = [], []
    base = 0
    for k in range(parts):
        m = n or int(rng.integers(dim + 1, 60))
        kind = int(rng.integers(3))
        if kind == 0:
            q = rng.random((m, dim))
        elif kind == 1:
            g = int(max(2, round(m ** (1.0 / dim))))
            q = np.stack(np.meshgrid(*[np.linspace(0, 1, g)] * dim, indexing="ij"), -1).reshape(-1, dim)
            q = q + rng.normal(size=q.shape) * 0.15 / g
        else:
            q = rng.normal(size=(m, dim))
        t = Delaunay(q).simplices
        L = max_edge(q, t)
        keep = np.abs(signed_volumes(q, t)) > min_flat * L ** dim
        if holes and rng.random() < 0.6:
            keep &= rng.random(len(t)) < rng.uniform(0.5, 0.95)
        t = t[keep]
        if len(t) == 0:
            continue
        u, inv = np.unique(t, return_inverse=True)
        q, t = q[u], inv.reshape(t.shape)
        P.append(q + np.array([12.0 * k] + [0.0] * (dim - 1)))
        T.append(t + base)
        base += len(q)
    if not T:
        return random_mesh(rng, dim, (n or 12) + 4, False, False, min_flat)
    p, t = np.vstack(P), np.vstack(T)
    # scramble numbering, cell order; positive orientation
    perm = rng.permutation(len(p))
    q = np.empty_like(p)
    q[perm] = p
    t = perm[t][rng.permutation(len(t))]
    return q, orient(q, t)


def max_edge(p, t):
    k = t.shape[1]
    return np.max([np.linalg.norm(p[t[:, i]] - p[t[:, j]], axis=1) for i in range(k) for j in range(i)], axis=0)


def shuffle_cells(rng, t, keep_orientation=True):
    t = np.array(t)
    for i in range(len(t)):
        k = rng.permutation(t.shape[1])
        if keep_orientation:
            inv = sum(1 for a in range(len(k)) for b in range(a) if k[b] > k[a])
            if inv % 2:
                k[0], k[1] = k[1], k[0]
        t[i] = t[i][k]
    return t


def insert_unused(rng, p, t, m):
    """Insert m unused vertices at random places of the numbering."""
    n = len(p)
    pos = np.sort(rng.permutation(n + m)[:n])
    q = rng.uniform(p.min(0) - 0.5, p.max(0) + 0.5, (n + m, p.shape[1]))
    q[pos] = p
    return q, pos[np.asarray(t)]


# -------------------------------------------------------------------------------------------- combinatorics (oracle)
def faces(t, k):
    """Counter of sorted k-vertex faces over all cells."""
    c = Counter()
    for cell in np.asarray(t).tolist():
        for f in itertools.combinations(sorted(cell), k):
            c[f] += 1
    return c


def boundary_faces(t):
    d = np.asarray(t).shape[1] - 1
    return {f for f, n in faces(t, d).items() if n == 1}


def components(edges):
    par = {}

    def find(x):
        while par.setdefault(x, x) != x:
            par[x] = par[par[x]]
            x = par[x]
        return x
    for a, b in edges:
        par[find(a)] = find(b)
    out = {}
    for x in list(par):
        out.setdefault(find(x), set()).add(x)
    return list(out.values())


# -------------------------------------------------------------------------------------------- validity (oracle)
def structural_problems(p, t, dim, unused_ok=False, h=None, vol_rel=1e-12, flat_ok=False):
    """List of (key, message, data). Checks what a structurally valid conforming simplicial mesh is."""
    out = []
    p, t = np.asarray(p), np.asarray(t)
    if p.ndim != 2 or p.shape[1] != dim or t.ndim != 2 or t.shape[1] != dim + 1:
        return [("shape", "points/cells have wrong shapes %s %s" % (p.shape, t.shape), {})]
    if len(t) == 0:
        return [("empty", "the mesh has no cells", {})]
    if not np.issubdtype(t.dtype, np.integer):
        return [("index-type", "cells are not integers: %s" % t.dtype, {})]
    if not np.all(np.isfinite(p)):
        out.append(("not-finite", "non-finite vertex coordinates", dict(count=int((~np.isfinite(p)).any(1).sum()))))
        return out
    if t.min() < 0 or t.max() >= len(p):
        return out + [("index-range", "cell index out of range", dict(min=int(t.min()), max=int(t.max()), n=len(p)))]
    if (np.sort(t, 1)[:, 1:] == np.sort(t, 1)[:, :-1]).any():
        out.append(("repeated-index", "a cell names a vertex twice", {}))
        return out
    used = np.zeros(len(p), bool)
    used[t] = True
    if not unused_ok and not used.all():
        out.append(("unused-vertex", "%d vertices belong to no cell" % (~used).sum(), dict(first=int(np.argmin(used)), point=p[np.argmin(used)])))
    ext = (p.max(0) - p.min(0)).max()
    pr = cKDTree(p).query_pairs(1e-12 * max(ext, 1e-300) if h is None else 1e-9 * h)
    if pr:
        out.append(("duplicate-vertex", "%d coincident vertex pairs" % len(pr), dict(pair=list(pr)[0], point=p[list(pr)[0][0]])))
    st = np.sort(t, 1)
    if len(np.unique(st, axis=0)) != len(st):
        out.append(("duplicate-cell", "duplicate cells", dict(count=len(st) - len(np.unique(st, axis=0)))))
    v = signed_volumes(p, t)
    L = max_edge(p, t)
    if flat_ok:    # flat cells may have either sign within rounding
        tol = 64 * 2.3e-16 * max(np.abs(p).max(), ext) * L ** (dim - 1)
        bad = v < -tol
        flat = np.abs(v) <= 1e-9 * L ** dim + tol
    else:
        bad = v <= vol_rel * L ** dim
        flat = np.zeros(len(t), bool)
    if bad.any():
        i = int(np.argmin(v / L ** dim))
        out.append(("orientation", "%d cells without positive volume" % bad.sum(), dict(cell=t[i], volume=float(v[i]), points=p[t[i]])))
    # conformity: a facet belongs to at most two cells, lying on opposite sides
    fs = np.concatenate([np.delete(t, k, axis=1) for k in range(dim + 1)])
    opp = np.concatenate([t[:, k] for k in range(dim + 1)])
    cell = np.tile(np.arange(len(t)), dim + 1)
    key = np.sort(fs, 1)
    order = np.lexsort(key.T[::-1])
    key, opp, cell = key[order], opp[order], cell[order]
    same = (key[1:] == key[:-1]).all(1)
    trip = same[1:] & same[:-1]
    if trip.any():
        i = int(np.argmax(trip))
        out.append(("facet-shared", "a facet belongs to more than two cells", dict(facet=key[i], cells=cell[i:i + 3])))
    i = np.nonzero(same)[0]
    i = i[~flat[cell[i]] & ~flat[cell[i + 1]]]
    if len(i):
        a = p[opp[i]]
        b = p[opp[i + 1]]
        f = p[key[i]]
        if dim == 2:
            n = f[:, 1] - f[:, 0]
            s1 = n[:, 0] * (a - f[:, 0])[:, 1] - n[:, 1] * (a - f[:, 0])[:, 0]
            s2 = n[:, 0] * (b - f[:, 0])[:, 1] - n[:, 1] * (b - f[:, 0])[:, 0]
        else:
            n = np.cross(f[:, 1] - f[:, 0], f[:, 2] - f[:, 0])
            s1 = np.einsum("ij,ij->i", n, a - f[:, 0])
            s2 = np.einsum("ij,ij->i", n, b - f[:, 0])
        w = s1 * s2 > 0
        if w.any():
            j = int(np.argmax(w))
            out.append(("same-side", "%d facets have both cells on the same side" % w.sum(), dict(facet=key[i[j]], cells=[int(cell[i[j]]), int(cell[i[j] + 1])])))
    return out


def contains(p, t, X, cells, tol):
    """Barycentric membership of points X[i] in cells[i] (strictly inside by tol)."""
    dim = p.shape[1]
    a = p[t[cells, 0]]
    M = np.stack([p[t[cells, k]] - a for k in range(1, dim + 1)], axis=-1)
    try:
        lam = np.linalg.solve(M, (X - a)[..., None])[..., 0]
    except np.linalg.LinAlgError:
        return np.zeros(len(X), bool)
    return (lam > tol).all(1) & (lam.sum(1) < 1 - tol)


def overlaps(p, t, rng=None, k=3, tol=1e-6, limit=4000):
    """Pairs of cells (i, j) such that a point strictly inside cell i lies strictly inside cell j != i.
    Probes every cell's centroid and, for a sample, random interior points; candidates by bounding boxes."""
    p, t = np.asarray(p, float), np.asarray(t)
    dim = p.shape[1]
    lo, hi = p[t].min(1), p[t].max(1)
    X = [p[t].mean(1)]
    src = [np.arange(len(t))]
    if rng is not None:
        for _ in range(k):
            w = rng.dirichlet(np.ones(dim + 1), len(t))
            X.append(np.einsum("ij,ijk->ik", w, p[t]))
            src.append(np.arange(len(t)))
    X, src = np.vstack(X), np.concatenate(src)
    c = p[t].mean(1)
    rad = np.linalg.norm(p[t] - c[:, None], axis=2).max(1)
    tree = cKDTree(c)
    out = []
    # cells with large radius are handled by brute force boxes, the others by radius queries
    R = np.quantile(rad, 0.98) if len(rad) > 50 else rad.max()
    big = np.nonzero(rad > R)[0]
    for b in range(0, len(X), limit):
        xs, ss = X[b:b + limit], src[b:b + limit]
        nb = tree.query_ball_point(xs, R * (1 + 1e-9))
        ii = np.concatenate([np.full(len(n), i) for i, n in enumerate(nb)]) if nb.size else np.zeros(0, int)
        jj = np.concatenate([np.asarray(n, int) for n in nb]) if nb.size else np.zeros(0, int)
        if len(big):
            ii = np.concatenate([ii, np.repeat(np.arange(len(xs)), len(big))])
            jj = np.concatenate([jj, np.tile(big, len(xs))])
        ii, jj = ii.astype(int), jj.astype(int)
        m = (jj != ss[ii]) & (xs[ii] > lo[jj]).all(1) & (xs[ii] < hi[jj]).all(1)
        ii, jj = ii[m], jj[m]
        if len(ii):
            ins = contains(p, t, xs[ii], jj, tol)
            for i, j in zip(ii[ins], jj[ins]):
                out.append((int(ss[i]), int(j)))
    return sorted(set(out))


def locate(p, t, X, tol=1e-9):
    """For each point of X, whether some cell contains it (closed, with tolerance)."""
    p, t, X = np.asarray(p, float), np.asarray(t), np.asarray(X, float)
    dim = p.shape[1]
    c = p[t].mean(1)
    rad = np.linalg.norm(p[t] - c[:, None], axis=2).max(1)
    tree = cKDTree(c)
    R = rad.max()
    found = np.zeros(len(X), bool)
    # nearest cells first, then everything within reach
    k = min(len(t), 24)
    _, nn = tree.query(X, k=k)
    nn = nn.reshape(len(X), -1)
    for col in range(nn.shape[1]):
        rem = np.nonzero(~found)[0]
        if not len(rem):
            return found
        found[rem] = contains(p, t, X[rem], nn[rem, col], -tol)
    for i in np.nonzero(~found)[0]:
        cand = np.asarray(tree.query_ball_point(X[i], R * (1 + 1e-9)), int)
        if len(cand):
            found[i] = contains(p, t, np.repeat(X[i:i + 1], len(cand), 0), cand, -tol).any()
    return found


def planes(p, t):
    """Unit inward normals and offsets of the facets of each cell: n.x >= c inside."""
    dim = p.shape[1]
    N, C = [], []
    for k in range(dim + 1):
        f = p[np.delete(t, k, axis=1)]
        if dim == 2:
            e = f[:, 1] - f[:, 0]
            n = np.stack([-e[:, 1], e[:, 0]], 1)
        else:
            n = np.cross(f[:, 1] - f[:, 0], f[:, 2] - f[:, 0])
        n = n / np.maximum(np.linalg.norm(n, axis=1), 1e-300)[:, None]
        s = np.sign(np.einsum("ij,ij->i", n, p[t[:, k]] - f[:, 0]))
        n = n * s[:, None]
        N.append(n)
        C.append(np.einsum("ij,ij->i", n, f[:, 0]))
    return np.stack(N, 1), np.stack(C, 1)


def overlap_depth(p, t, a, b):
    """Radius of the largest ball inside both cells."""
    from scipy.optimize import linprog
    p = np.asarray(p, float)
    o = p[t[a]].mean(0)
    N, C = planes(p - o, np.asarray(t)[[a, b]])
    N, C = N.reshape(-1, p.shape[1]), C.reshape(-1)
    sc = np.abs(p[t[a]] - o).max()
    r = linprog(np.r_[np.zeros(p.shape[1]), -1.0], A_ub=np.c_[-N, np.ones(len(N))], b_ub=-C / sc, bounds=[(None, None)] * p.shape[1] + [(0, None)])
    return float(r.x[-1] * sc) if r.status == 0 else 0.0


def overlap_problems(p, t, rng, h, dim, tol=None, k=1):
    """Pairs of cells sharing a ball of radius > tol*h."""
    tol = (1e-6 if dim == 2 else 0.03) if tol is None else tol
    out = []
    for a, b in overlaps(p, t, rng, k=k)[:400]:
        d = overlap_depth(p, t, a, b)
        if d > tol * h:
            out.append((a, b, d / h))
    return out
