"""C22: geometric kernels against exact rational arithmetic, plus metamorphic relations."""
import itertools, math
from fractions import Fraction as Fr
import numpy as np
from vlib import exact as X
from vlib.native import get

from vlib.meshes import dim_kw

PROPERTY = "C22"
RULE = ("one case = ~12 random simplices (regular to needle and sliver shapes, offsets up to 1e4 sizes, sizes 1e-4..1e4) for one kernel, "
        "evaluated as a batch and compared one by one with exact rationals; distinct non-trivial: simplices judged")
BUDGET = {"quick": 40, "thorough": 500}
REQUIRED = ["circumball", "dihedral", "determinant", "volume", "quality", "re_ratio", "volume_grad", "circumsphere_grad", "centroid", "degenerate", "metamorphic", "large_batches"]
ASSUMPTIONS = ["tolerances scale with the exact condition of each simplex (offset/size and flatness)"]
KINDS = ("circum2", "circum3", "dihedral", "det", "vol", "qual", "re2", "re3", "vgrad", "cgrad", "centroid", "flat", "bounds", "many")


def cases(ctx):
    n = 900 if ctx.quick else 14000
    for i in range(n):
        yield dict(kind=KINDS[i % len(KINDS)], i=i, seed=ctx.seed)


def simplices(rng, dim, n, off=True):
    out = []
    while len(out) < n:
        s = 10.0 ** rng.uniform(-4, 4)
        P = rng.normal(size=(dim + 1, dim))
        k = int(rng.integers(5))
        if k == 0:    # regular-ish
            P = np.vstack([np.zeros(dim), np.eye(dim)]) + 0.1 * P
        elif k == 1:  # needle
            P[:, 0] *= 10.0 ** rng.uniform(0, 2)
        elif k == 2 and dim == 3:  # sliver: four points near a circle, slightly out of plane
            a = np.sort(rng.uniform(0, 2 * np.pi, 4))
            P = np.column_stack([np.cos(a), np.sin(a), 10.0 ** rng.uniform(-3, -1) * rng.normal(size=4)])
        elif k == 3:  # integer lattice coordinates
            P = rng.integers(-6, 7, (dim + 1, dim)).astype(float)
            s = 1.0
        P = P * s
        if off and rng.random() < 0.5:
            P = P + rng.normal(size=dim) * s * 10.0 ** rng.uniform(0, 4)
        V = float(X.volume(X.frs(P)))
        L = max(np.linalg.norm(a - b) for a, b in itertools.combinations(P, 2))
        if abs(V) < 1e-6 * L ** dim:
            continue
        out.append(P)
    return out


def flatness(P, dim):
    V = abs(float(X.volume(X.frs(P))))
    L = max(np.linalg.norm(a - b) for a, b in itertools.combinations(P, 2))
    return L, L ** dim / V, np.abs(P).max() / L      # size, condition of the shape, relative offset


def run_case(case, rec):
    rng = np.random.default_rng([case["seed"], 122, case["i"]])
    kind = case["kind"]
    import SeismicMesh as sm
    geo = sm.geometry
    eps = np.finfo(float).eps
    if kind in ("circum2", "circum3"):
        dim = int(kind[-1])
        S = simplices(rng, dim, 12)
        f = get("_delaunay", "_circumballs%d" % dim)
        out = np.asarray(f(np.concatenate(S)))
        rec.check(out.shape == (len(S), dim + 1), "circumball-shape", "one ball per simplex expected", got=out.shape, n=len(S))
        for P, o in zip(S, out):
            c, r2 = X.circum(X.frs(P))
            L, cond, off = flatness(P, dim)
            R = math.sqrt(float(r2))
            tol = 400 * eps * cond * (1 + off) * max(R, L) * (1 + R / L)
            if tol > 0.01 * R:
                rec.count("ill_conditioned")
                continue
            ec = max(abs(float(Fr(float(a)) - b)) for a, b in zip(o[:dim], c))
            er = abs(math.sqrt(max(o[dim], 0)) - R)
            rec.check(ec <= tol and er <= tol and o[dim] >= 0, "circumball", "circumball differs from the exact one", P=P, got=o, centre=[float(x) for x in c], r2=float(r2), tol=tol)
            rec.count("circumball")
            rec.distinct(P)
        perm = rng.permutation(dim + 1)
        o2 = np.asarray(f(np.concatenate([P[perm] for P in S])))
        for P, a, b in zip(S, out, o2):
            L, cond, off = flatness(P, dim)
            R = math.sqrt(max(a[dim], 0))
            tol = 800 * eps * cond * (1 + off) * max(R, L) * (1 + R / L)
            if tol < 0.01 * R:
                rec.check(np.abs(a[:dim] - b[:dim]).max() <= tol, "circumball-symmetry", "circumcentre depends on the vertex order", P=P, a=a, b=b)
                rec.count("metamorphic")
        return
    if kind == "dihedral":
        S = simplices(rng, 3, 12)
        p, t = stack(S, rng)
        out = np.asarray(geo.calc_dihedral_angles(p, t))
        rec.check(out.size == 6 * len(S), "dihedral-shape", "six angles per cell expected", got=out.shape)
        A = out.reshape(len(S), 6)
        for P, a in zip(S, A):
            ref = np.sort(X.dihedrals(X.frs(P)))
            L, cond, off = flatness(P, 3)
            # rounding enters the cosine, so angles near 0 and pi lose half the digits
            ce = 100 * eps * (1 + off) * cond ** 2
            tol = min(math.sqrt(2 * ce), 1.0) + ce
            if tol > 0.02:
                ce = 100 * eps * (1 + off) * cond
            rec.check(np.all(np.isfinite(a)) and np.all((a >= 0) & (a <= math.pi + 1e-12)), "dihedral-range", "angle outside [0, pi]", P=P, got=a)
            if tol < 0.02:
                rec.check(np.abs(np.sort(a) - ref).max() <= tol, "dihedral", "dihedral angles differ from the true ones", P=P, got=np.sort(a), want=ref, tol=tol)
                rec.count("dihedral", 6)
                rec.distinct(P)
            else:
                rec.count("ill_conditioned")
        # order of vertices and scale do not matter
        S2 = [P[rng.permutation(4)] * 8.0 for P in S]
        p2, t2 = stack(S2, rng)
        A2 = np.asarray(geo.calc_dihedral_angles(p2, t2)).reshape(len(S), 6)
        for P, a, b in zip(S, A, A2):
            L, cond, off = flatness(P, 3)
            ce = 200 * eps * (1 + off) * cond ** 2
            if math.sqrt(2 * ce) < 0.02:
                rec.check(np.abs(np.sort(a) - np.sort(b)).max() <= 2 * math.sqrt(2 * ce), "dihedral-symmetry", "angles depend on vertex order or scale", P=P)
                rec.count("metamorphic")
        return
    if kind == "det":
        for n, f in ((3, geo.calc_3x3determinant), (4, geo.calc_4x4determinant)):
            for _ in range(6):
                M = rng.normal(size=(n, n)) * 10.0 ** rng.uniform(-3, 3, (n, 1))
                if rng.random() < 0.3:
                    M = rng.integers(-5, 6, (n, n)).astype(float)
                if rng.random() < 0.2:
                    M[n - 1] = M[0] + (M[1] if rng.random() < 0.5 else 0)
                if n == 4 and rng.random() < 0.4:
                    M[:, 3] = 1.0
                got = float(f(M))
                ref = float(X.det(X.frs(M)))
                perm = float(permanent(np.abs(M)))
                rec.check(abs(got - ref) <= 40 * eps * perm, "determinant", "determinant differs from the exact value", M=M, got=got, want=ref)
                rec.check(abs(float(f(M.T)) - ref) <= 40 * eps * perm, "determinant-transpose", "determinant of the transpose differs", M=M)
                rec.check(abs(float(f(M[[1, 0] + list(range(2, n))])) + ref) <= 40 * eps * perm, "determinant-swap", "swapping rows does not flip the sign", M=M)
                rec.count("determinant")
                rec.count("metamorphic", 2)
                rec.distinct(M)
        return
    if kind == "vol":
        for dim in (2, 3):
            S = simplices(rng, dim, 8)
            p, t = stack(S, rng)
            v = np.asarray(geo.simp_vol(p, t))
            for P, g in zip(S, v):
                ref = float(X.volume(X.frs(P)))
                L, cond, off = flatness(P, dim)
                rec.check(abs(g - ref) <= 60 * eps * (1 + off) * L ** dim, "volume", "signed volume differs from the exact value", P=P, got=float(g), want=ref)
                rec.count("volume")
                rec.distinct(P)
        x = rng.normal(size=5)
        d = np.asarray(geo.simp_vol(x[:, None], np.array([[0, 1], [3, 2]]))).ravel()
        rec.check(np.allclose(d, [x[1] - x[0], x[2] - x[3]]), "volume-1d", "1D length wrong")
        return
    if kind == "qual":
        S = simplices(rng, 2, 14)
        S += [np.array([[0, 0], [1, 0], [0.5, math.sqrt(3) / 2]]) * 3.7 + 2.0]
        p, t = stack(S, rng)
        q = np.asarray(geo.simp_qual(p, t))
        for P, g in zip(S, q):
            a, b, c = (math.dist(P[i], P[j]) for i, j in ((0, 1), (1, 2), (2, 0)))
            A = abs(float(X.volume(X.frs(P))))
            s = (a + b + c) / 2
            ref = 2 * (A / s) / (a * b * c / (4 * A))
            L, cond, off = flatness(P, 2)
            tol = 100 * eps * (1 + off) * cond ** 2
            if tol < 0.01:
                rec.check(abs(g - ref) <= tol and -tol <= g <= 1 + tol, "quality", "triangle quality is not 2r/R", P=P, got=float(g), want=ref)
                rec.count("quality")
                rec.distinct(P)
        rec.check(abs(q[-1] - 1) < 1e-9, "quality-equilateral", "equilateral triangle has not quality 1", got=float(q[-1]))
        return
    if kind in ("re2", "re3"):
        dim = int(kind[-1])
        S = simplices(rng, dim, 10)
        p, t = stack(S, rng)
        q = np.asarray(geo.calc_re_ratios(p, t, **dim_kw(rng, dim))).ravel()
        if dim == 2 and len(q) == len(S):
            rec.check(np.allclose(np.asarray(geo.calc_re_ratios(p, t)).ravel(), q), "re-default", "default dim is not 2")
        rec.check(len(q) == len(S), "re-shape", "one ratio per cell expected", got=q.shape)
        for P, g in zip(S, q):
            _, r2 = X.circum(X.frs(P))
            m = min(math.dist(a, b) for a, b in itertools.combinations(P, 2))
            ref = math.sqrt(float(r2)) / m
            L, cond, off = flatness(P, dim)
            tol = 400 * eps * cond * (1 + off) * (1 + ref)
            if tol < 0.01:
                rec.check(abs(g - ref) <= tol * max(1, ref), "re-ratio", "radius-edge ratio differs from the exact value", P=P, got=float(g), want=ref)
                rec.count("re_ratio")
                rec.distinct(P)
        return
    if kind == "vgrad":
        S = simplices(rng, 3, 12)
        G = np.asarray(geo.calc_volume_grad(*[np.array([P[i] for P in S]) for i in (1, 2, 3)]))
        rec.check(G.shape == (len(S), 3), "volume-grad-shape", "one gradient per cell expected", got=G.shape)
        for P, g in zip(S, G):
            F = X.frs(P)
            ref = [float(x) / 6 for x in X.cross(X.sub(F[2], F[1]), X.sub(F[3], F[1]))]
            L, cond, off = flatness(P, 3)
            rec.check(np.abs(g - ref).max() <= 200 * eps * (1 + off) ** 2 * L * L, "volume-grad", "volume gradient differs from the exact one", P=P, got=g, want=ref)
            rec.count("volume_grad")
            rec.distinct(P)
        return
    if kind == "cgrad":
        S = simplices(rng, 3, 10)
        G = np.asarray(geo.calc_circumsphere_grad(*[np.array([P[i] for P in S]) for i in range(4)]))
        rec.check(G.shape == (len(S), 3), "circumsphere-grad-shape", "one gradient per cell expected", got=G.shape)
        for P, g in zip(S, G):
            F = X.frs(P)
            ref = np.array([float(x) for x in X.circumradius2_grad(F, 0)])
            L, cond, off = flatness(P, 3)
            nrm = np.linalg.norm(ref)
            R = math.sqrt(float(X.circum(F)[1]))
            tol = 4000 * eps * (1 + off) * cond ** 2 * (nrm + R * (1 + R / L) ** 2)
            if tol < 0.02 * nrm:
                rec.check(np.abs(g - ref).max() <= tol, "circumsphere-grad", "circumsphere gradient differs from the exact derivative", P=P, got=g, want=ref)
                rec.count("circumsphere_grad")
                rec.distinct(P)
            else:
                rec.count("ill_conditioned")
        return
    if kind == "centroid":
        for dim in (2, 3):
            S = simplices(rng, dim, 6)
            p, t = stack(S, rng)
            c = np.asarray(geo.get_centroids(p, t, **dim_kw(rng, dim)))
            ref = np.array([[float(sum(x) / (dim + 1)) for x in zip(*X.frs(P))] for P in S])
            m = np.array([np.abs(P).max() for P in S])[:, None]
            rec.check(c.shape == ref.shape and np.all(np.abs(c - ref) <= 8 * eps * m), "centroid", "centroid differs from the mean of the vertices")
            rec.count("centroid", len(S))
            for P in S:
                rec.distinct(P)
        return
    if kind == "flat":
        # degenerate cells: no crash, angles stay in range and follow the limit of nearly flat cells
        S = []
        for _ in range(6):
            P = rng.normal(size=(4, 3))
            P[:, 2] = 0
            S.append(P)
        sq = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]], float)
        S += [sq, sq * 1e-3 + 7, sq[[0, 2, 1, 3]], np.array([[0, 0, 0], [1, 0, 0], [2, 0, 0], [0, 1, 0]], float), np.zeros((4, 3)),
              np.array([[0, 0, 0], [1, 0, 0], [1, 0, 0], [0, 1, 1]], float)]
        Q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
        S += [P @ Q for P in S[:7]]
        p, t = stack(S, rng)
        A = np.asarray(geo.calc_dihedral_angles(p, t)).reshape(len(S), 6)
        rec.check(np.all(~np.isnan(A[:9])), "flat-nan", "angle of a flat cell is not a number", got=A[:9])
        fin = A[np.isfinite(A)]
        rec.check(np.all((fin >= 0) & (fin <= math.pi + 1e-12)), "flat-range", "angle of a degenerate cell out of range", got=A)
        for P, a in zip(S[:6] + S[12:18], list(A[:6]) + list(A[12:18])):
            # a flat, generic quadrilateral: all angles are 0 or pi
            d = np.minimum(np.abs(a), np.abs(math.pi - a))
            rec.check(np.all(np.isfinite(a)) and d.max() < 1e-3 * max(1, flat_cond(P)), "flat-angles", "a flat cell has angles other than 0 and pi", P=P, got=a)
        geo.calc_circumsphere_grad(*[np.array([P[i] for P in S]) for i in range(4)])
        get("_delaunay", "_circumballs2")(np.zeros((3, 2)))
        geo.simp_qual(np.array([[0, 0], [1, 0], [2, 0.0]]), np.array([[0, 1, 2]]))
        rec.count("degenerate", len(S))
        rec.distinct(rng.integers(1 << 30))
        return
    if kind == "many":
        return many(rng, rec, geo)
    if kind == "bounds":
        # rectangle / block distance kernels and the Python twins
        for dim, fast, slow in ((2, geo.drectangle_fast, geo.drectangle), (3, geo.dblock_fast, geo.dblock)):
            lo = rng.normal(size=dim) * 10
            hi = lo + 10.0 ** rng.uniform(-3, 3, dim)
            p = rng.uniform(lo - 2, hi + 2, (200, dim))
            args = [float(v) for q in zip(lo, hi) for v in q]
            a, b = np.asarray(fast(p, *args)), np.asarray(slow(p, *args))
            ref = np.max([np.maximum(lo - p, p - hi).max(1)], axis=0)
            rec.check(np.allclose(a, ref, atol=1e-12 * np.abs(args).max()) and np.allclose(b, ref, atol=1e-12 * np.abs(args).max()), "box-distance",
                      "box distance kernel is not the largest face distance", args=args)
            rec.count("metamorphic")
            rec.distinct(args)


def many(rng, rec, geo):
    """A batch of any size gives every cell the value it has in a small one."""
    n = int(rng.choice([2 ** 15, 2 ** 16, 10 ** 5])) + int(rng.integers(1, 999))
    for dim in (2, 3):
        S = [P for P in simplices(rng, dim, 40) if flatness(P, dim)[1] * (1 + flatness(P, dim)[2]) < 1e3]
        if len(S) < 2:
            continue
        p = np.concatenate(S)
        t = np.arange(len(p)).reshape(-1, dim + 1)
        j = rng.integers(0, len(t), n)
        # cells with vertices of their own, so that the vertex numbers are large as well
        P, T = p[t[j]].reshape(-1, dim), np.arange(n * (dim + 1)).reshape(-1, dim + 1)
        Q = p[t]
        B = P.reshape(n, dim + 1, dim)
        f = dict(vol=(lambda p, t, c: geo.simp_vol(p, t)), re=(lambda p, t, c: geo.calc_re_ratios(p, t, dim=dim)),
                 centroid=(lambda p, t, c: geo.get_centroids(p, t, dim=dim)),
                 circum=(lambda p, t, c: get("_delaunay", "_circumballs%d" % dim)(c.reshape(-1, dim))))
        if dim == 2:
            f["qual"] = lambda p, t, c: geo.simp_qual(p, t)
        else:
            f["dihedral"] = lambda p, t, c: np.asarray(geo.calc_dihedral_angles(p, t)).reshape(len(t), 6)
            f["vgrad"] = lambda p, t, c: geo.calc_volume_grad(c[:, 1], c[:, 2], c[:, 3])
            f["cgrad"] = lambda p, t, c: geo.calc_circumsphere_grad(c[:, 0], c[:, 1], c[:, 2], c[:, 3])
        for k, g in f.items():
            a = np.asarray(g(p, t, Q)).reshape(len(t), -1)
            b = np.asarray(g(P, T, B))
            rec.check(b.size == n * a.shape[1], "large-batch-size", "%s: a value per cell expected" % k, got=b.shape, n=n)
            if b.size == n * a.shape[1]:
                sc = np.abs(a).max(1)[j] + 1e-300
                e = np.abs(b.reshape(n, -1) - a[j]).max(1) / sc
                rec.check(not (e > 1e-4).any() and not np.isnan(e).any(), "large-batch", "%s: the value of a cell depends on the size of the batch" % k, n=n, cell=int(np.nanargmax(e)), error=float(np.nanmax(e)))
        rec.count("large_batches")
        rec.distinct(n, dim)


def flat_cond(P):
    m = 1e9
    for a, b, c in itertools.combinations(P, 3):
        n = np.linalg.norm(np.cross(b - a, c - a)) / max(1e-300, np.linalg.norm(b - a) * np.linalg.norm(c - a))
        m = min(m, n)
    return 1e-4 / max(m * m, 1e-300) if m < 0.01 else 1.0


def stack(S, rng):
    p = np.concatenate(S)
    k = len(S[0])
    t = np.arange(len(p)).reshape(-1, k)
    # renumber so that vertex order in p differs from the cell order
    perm = rng.permutation(len(p))
    q = np.empty_like(p)
    q[perm] = p
    return q, perm[t]


def permanent(M):
    n = len(M)
    return sum(np.prod([M[i, s[i]] for i in range(n)]) for s in itertools.permutations(range(n)))
