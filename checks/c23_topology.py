"""C23: topology queries against a combinatorial oracle."""
from collections import Counter
import numpy as np
from vlib import meshes as M
from vlib.harness import HarnessError

from vlib.meshes import dim_kw

PROPERTY = "C23"
RULE = ("one case = one random 2D or 3D simplicial mesh (holes, several components, pinched boundaries, unused vertices, scrambled "
        "numbering, 32/64-bit and strided index arrays); every query is compared with sets computed from the cells; distinct "
        "non-trivial: meshes with interior and boundary facets")
BUDGET = {"quick": 40, "thorough": 400}
REQUIRED = ["meshes_2d", "meshes_3d", "unused_vertices", "multi_component", "pinched", "simple_loops", "non_manifold", "manifold", "unique_rows", "shared_facets", "large_numbers"]


def cases(ctx):
    n = 900 if ctx.quick else 12000
    for i in range(n):
        yield dict(kind=("2d", "3d", "2d", "rows", "ring")[i % 5], i=i, seed=ctx.seed)


def rows(a):
    return Counter(tuple(sorted(int(x) for x in r)) for r in np.asarray(a).reshape(-1, np.asarray(a).shape[-1]).tolist()) if np.asarray(a).size else Counter()


def run_case(case, rec):
    import SeismicMesh as sm
    from SeismicMesh.geometry import utils as U
    geo = sm.geometry
    rng = np.random.default_rng([case["seed"], 123, case["i"]])
    if case["kind"] == "rows":
        return unique(rng, rec, geo)
    dim = 3 if case["kind"] == "3d" else 2
    if case["kind"] == "ring":
        p, t = ring(rng)
    else:
        p, t = M.random_mesh(rng, dim)
    if rng.random() < 0.2:      # cells glued to facets that already have two (or one)
        F = list(M.faces(t, dim))
        for j in rng.permutation(len(F))[: int(rng.integers(1, 4))]:
            for _ in range(int(rng.integers(1, 3))):
                t = np.vstack([t, np.array([list(F[j]) + [len(p)]], t.dtype)])
                p = np.vstack([p, p[list(F[j])].mean(0) + rng.normal(size=dim)])
        rec.count("shared_facets", max(M.faces(t, dim).values()) > 2)
    t = M.shuffle_cells(rng, t, keep_orientation=rng.random() < 0.5)
    m = 0
    if rng.random() < 0.5:
        m = int(rng.integers(1, 8))
        p, t = M.insert_unused(rng, p, t, m)
        if rng.random() < 0.5:
            p = np.vstack([p, rng.random((2, dim))])     # trailing unused vertices
        if rng.random() < 0.5:                           # leading ones
            n = 3
            if rng.random() < 0.25:                      # numbers that do not fit in 16 bits, or whose products not in 32
                n = int(rng.choice([2 ** 15, 2 ** 16, 10 ** 5, 2 ** 17])) - int(rng.integers(len(p)))
                rec.count("large_numbers")
            p, t = np.vstack([rng.random((n, dim)), p]), t + n
    dt = np.int32 if rng.random() < 0.5 else np.int64
    t = t.astype(dt)
    if rng.random() < 0.3:
        t = np.asfortranarray(t)
    elif rng.random() < 0.3:
        t = np.repeat(t, 2, axis=0)[::2]
    if rng.random() < 0.3:
        p = np.asfortranarray(p)
    p0, t0 = p.copy(), t.copy()
    info = dict(dim=dim, cells=len(t), vertices=len(p), unused=m, dtype=str(t.dtype))
    E = M.faces(t, 2)
    F = M.faces(t, dim)
    B = {f for f, n in F.items() if n == 1}
    BV = sorted({v for f in B for v in f})

    got = rows(geo.get_edges(t, **dim_kw(rng, dim)))
    rec.check(got == E, "edges", "get_edges is not every edge of every cell", **info)
    e = geo.get_edges(t, **dim_kw(rng, dim))
    ue = np.asarray(geo.unique_edges(e))
    rec.check(rows(ue) == Counter(E.keys()) and len(ue) == len(E), "unique-edges", "unique_edges is not each edge once", got=len(ue), want=len(E), **info)
    if dim == 2:
        be = np.asarray(geo.get_boundary_edges(t))
        rec.check(rows(be) == Counter(B), "boundary-edges", "boundary edges differ", **info)
        if max(F.values()) <= 2:        # otherwise the boundary is no union of closed loops
            for_winding(rec, geo, t, B, info)
        man = U.is_manifold(p, t) if hasattr(U, "is_manifold") else None
        if man is not None:
            rec.check(bool(man) == (len(B) == len(BV)), "manifold", "manifold flag is not 'as many boundary edges as vertices'", flag=bool(man), edges=len(B),
                      verts=len(BV), **info)
            rec.count("manifold" if man else "non_manifold")
    else:
        fc = np.asarray(geo.get_facets(t))
        rec.check(rows(fc) == F, "facets", "get_facets is not every facet of every cell", **info)
        bf = np.asarray(geo.get_boundary_facets(t))
        rec.check(rows(bf) == Counter(B), "boundary-facets", "boundary facets differ", **info)
    bv = np.asarray(geo.get_boundary_vertices(t, **dim_kw(rng, dim))).ravel()
    rec.check(sorted(bv.tolist()) == BV, "boundary-vertices", "boundary vertices differ", got=len(bv), want=len(BV), **info)
    be_ = np.asarray(geo.get_boundary_entities(p, t, **dim_kw(rng, dim))).ravel()
    bvs = set(BV)
    want = [i for i, c in enumerate(t.tolist()) if bvs & set(c)]
    rec.check(sorted(be_.tolist()) == want, "boundary-entities", "boundary cells are not the cells touching a boundary vertex", got=len(be_), want=len(want), **info)
    vtoe, ptr = geo.vertex_to_entities(p, t, **dim_kw(rng, dim))
    vtoe, ptr = np.asarray(vtoe), np.asarray(ptr)
    inc = [[] for _ in range(len(p))]
    for i, c in enumerate(t.tolist()):
        for v in c:
            inc[v].append(i)
    ok = len(ptr) >= len(p) + 1 and len(vtoe) == t.size
    bad = None
    if ok:
        for v in range(len(p)):
            if sorted(vtoe[ptr[v]:ptr[v + 1]].tolist()) != inc[v]:
                ok, bad = False, v
                break
    rec.check(ok, "vertex-to-entities", "vertex-to-cell map differs", vertex=bad, **info)
    rec.check(np.array_equal(p, p0) and np.array_equal(t, t0), "input-modified", "a query modified its input", **info)
    rec.count("meshes_%dd" % dim)
    rec.count("unused_vertices", m > 0)
    nc = len(M.components([(c[0], x) for c in t.tolist() for x in c[1:]]))
    rec.count("multi_component", nc > 1)
    if len(B) < len(F):
        rec.distinct(p.ravel()[:6], t.ravel()[:6])
    rec.sample = dict(info, boundary=len(B), components=nc)


def for_winding(rec, geo, t, B, info):
    deg = Counter(v for f in B for v in f)
    w = np.asarray(geo.get_winded_boundary_edges(t))
    R = [tuple(int(x) for x in r) for r in w]
    S = [tuple(sorted(r)) for r in R]
    rec.check(set(S) <= B and len(set(S)) == len(S) and len(S) >= 3, "winding-edges", "winded boundary is not made of distinct boundary edges", **info)
    # consecutive edges share a vertex, and different ones on either side
    chain = None
    if len(R) >= 3 and set(S) <= B:
        for start in R[0], R[0][::-1]:
            cur, ok = start[1], True
            for r in R[1:]:
                if cur == r[0]:
                    cur = r[1]
                elif cur == r[1]:
                    cur = r[0]
                else:
                    ok = False
                    break
            if ok and cur == start[0]:
                chain = True
                break
        rec.check(chain, "winding-order", "winded boundary is not traversed head to tail around a closed loop", first=R[:6], **info)
    if all(d == 2 for d in deg.values()):
        comps = M.components(B)
        comp = [c for c in comps if R and R[0][0] in c]
        want = {f for f in B if comp and f[0] in comp[0]}
        rec.check(set(S) == want, "winding-complete", "the loop does not contain all boundary edges of its component", got=len(S), want=len(want), **info)
        rec.count("simple_loops")
    else:
        rec.count("pinched")


def ring(rng):
    """An annulus or disk triangulated in polar fashion: simple boundary loops."""
    n, k = int(rng.integers(5, 25)), int(rng.integers(1, 4))
    th = np.linspace(0, 2 * np.pi, n, endpoint=False)
    P = [np.column_stack([(1 + i) * np.cos(th + 0.1 * i), (1 + i) * np.sin(th + 0.1 * i)]) for i in range(k + 1)]
    T = []
    for i in range(k):
        for j in range(n):
            a, b, c, d = i * n + j, i * n + (j + 1) % n, (i + 1) * n + j, (i + 1) * n + (j + 1) % n
            T += [[a, b, c], [b, d, c]]
    p = np.vstack(P)
    if rng.random() < 0.5:
        T += [[len(p), j, (j + 1) % n] for j in range(n)]
        p = np.vstack([p, [[0.0, 0.0]]])
    perm = rng.permutation(len(p))
    q = np.empty_like(p)
    q[perm] = p
    t = perm[np.array(T)][rng.permutation(len(T))]
    return q, M.orient(q, t)


def unique(rng, rec, geo):
    n, k = int(rng.integers(1, 80)), int(rng.integers(1, 5))
    kind = int(rng.integers(4))
    if kind == 0:
        A = rng.integers(0, 4, (n, k)).astype(np.int32 if rng.random() < 0.5 else np.int64)
    elif kind == 1:
        A = rng.integers(-300, 300, (n, k))
    elif kind == 2:
        A = rng.integers(0, 3, (n, k)) * 0.25 + 1.0
    else:
        A = rng.normal(size=(n, k))
        A[rng.integers(n, size=n // 2)] = A[rng.integers(n, size=n // 2)]
    if rng.random() < 0.3:
        A = np.asfortranarray(A)
    A0 = A.copy()
    B, I, J = geo.unique_rows(A, return_index=True, return_inverse=True)
    I, J = np.asarray(I).ravel(), np.asarray(J).ravel()
    want = {tuple(r) for r in A0.tolist()}
    rec.check(np.array_equal(A, A0), "input-modified", "unique_rows modified its input")
    rec.check(len(B) == len(want) and {tuple(r) for r in np.asarray(B).tolist()} == want and B.dtype == A.dtype, "unique-rows", "B is not the set of rows", n=n, k=k)
    rec.check(len(J) == n and np.array_equal(B[J], A0), "unique-inverse", "A != B[J]", n=n, k=k)
    rec.check(len(I) == len(B) and np.array_equal(A0[I], B), "unique-index", "B != A[I]", n=n, k=k)
    rec.check(np.array_equal(geo.unique_rows(A), B), "unique-plain", "result depends on the requested maps")
    B2, I2 = geo.unique_rows(A, return_index=True)
    B3, J3 = geo.unique_rows(A, return_inverse=True)
    rec.check(np.array_equal(A0[np.asarray(I2).ravel()], B2) and np.array_equal(B3[np.asarray(J3).ravel()], A0), "unique-single", "single map wrong")
    rec.count("unique_rows", n)
    if 1 < len(want) < n:
        rec.distinct(A0.ravel()[:8], n, k)
