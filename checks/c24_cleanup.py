"""C24: mesh clean-up (fix_mesh, delete_boundary_entities, do_any_overlap, linter) against brute-force references."""
import itertools
from collections import Counter
import numpy as np
from vlib import meshes as M

from vlib.meshes import dim_kw

PROPERTY = "C24"
RULE = ("one case = one random mesh with injected defects (coincident vertices, also as -0.0/0.0, duplicate and flipped cells, unused vertices, "
        "overlapping cells, poor or flat boundary cells); the result is compared with a reference; distinct non-trivial: meshes with at least one defect")
BUDGET = {"quick": 45, "thorough": 500}
REQUIRED = ["coincident_vertices", "signed_zeros", "duplicate_cells", "unused_vertices", "flipped_cells", "poor_boundary_cells", "poor_interior_cells",
            "overlap_pairs", "clean_meshes", "linted", "flat_boundary_cells", "tolerance_merges", "large_meshes"]
ASSUMPTIONS = ["in 3D the quality thresholding uses the repository's own simp_qual, which is a triangle measure (see DESIGN.md)"]
KINDS = ("fix2", "fix3", "poor2", "overlap2", "lint2", "fix2", "overlap3", "lint3", "poor3", "tol", "clean2", "clean3")


def cases(ctx):
    n = 1400 if ctx.quick else 16000
    for i in range(n):
        yield dict(kind=KINDS[i % len(KINDS)], i=i, seed=ctx.seed)


def quality2(p, t):
    P = p[t]
    a = np.linalg.norm(P[:, 1] - P[:, 0], axis=1)
    b = np.linalg.norm(P[:, 2] - P[:, 0], axis=1)
    c = np.linalg.norm(P[:, 2] - P[:, 1], axis=1)
    A = np.abs(M.signed_volumes(p, t))
    with np.errstate(all="ignore"):
        return np.where(A > 0, 16 * A ** 2 / ((a + b + c) * a * b * c), 0.0)


def coords(p):
    return [tuple((np.asarray(x, float) + 0.0).tolist()) for x in p]


def cellset(p, t):
    c = coords(p)
    return Counter(tuple(sorted(c[i] for i in cell)) for cell in np.asarray(t).tolist())


def dirty(rng, dim, rec):
    """A valid mesh, and a copy with injected defects; returns both and what was injected."""
    p, t = M.random_mesh(rng, dim)
    scale = 10.0 ** rng.uniform(-3, 4)
    p = p * scale
    if rng.random() < 0.5:
        p = p - p[rng.integers(len(p))]
    if rng.random() < 0.6:      # axis-aligned coordinates: exact zeros
        k = rng.integers(0, len(p), 1 + len(p) // 6)
        # only vertices whose zeroing keeps cells valid are moved
        for v in k:
            q = p.copy()
            q[v, rng.integers(dim)] = 0.0
            s = (t == v).any(1)
            if (M.signed_volumes(q, t[s]) > 1e-3 * M.max_edge(q, t[s]) ** dim).all() and len(np.unique(q, axis=0)) == len(q):
                p = q
    dp, dt = p.copy(), t.copy()
    inj = Counter()
    if rng.random() < 0.8:      # split vertices: some cells use a coincident copy
        for v in rng.permutation(len(p))[: 1 + int(rng.integers(1 + len(p) // 3))]:
            cells = np.nonzero((dt == v).any(1))[0]
            sel = cells[rng.random(len(cells)) < 0.5]
            w = p[v].copy()
            z = w == 0
            if z.any() and rng.random() < 0.8:
                w[z] = -w[z]
                inj["signed_zeros"] += 1
            n = len(dp)
            dp = np.vstack([dp, w])
            dt[sel] = np.where(dt[sel] == v, n, dt[sel])
            inj["coincident_vertices"] += 1
    if rng.random() < 0.7:
        k = rng.integers(0, len(dt), 1 + int(rng.integers(3)))
        extra = M.shuffle_cells(rng, dt[k], keep_orientation=rng.random() < 0.5)
        dt = np.vstack([dt, extra])
        inj["duplicate_cells"] += len(k)
    if rng.random() < 0.7:
        m = int(rng.integers(1, 6)) if rng.random() < .96 else int(rng.choice([33000, 70000]))
        inj["large_meshes"] += m > 5
        dp, dt = M.insert_unused(rng, dp, dt, m)
        inj["unused_vertices"] += m
    if rng.random() < 0.7:
        f = rng.random(len(dt)) < 0.4
        dt[f] = dt[f][:, [1, 0] + list(range(2, dim + 1))]
        inj["flipped_cells"] += int(f.sum())
    dt = dt[rng.permutation(len(dt))]
    if rng.random() < 0.3:
        dt = dt.astype(np.int32)
    for k, n in inj.items():
        rec.count(k, n)
    return p, t, dp, dt, inj


def run_case(case, rec):
    import SeismicMesh as sm
    geo = sm.geometry
    rng = np.random.default_rng([case["seed"], 124, case["i"]])
    kind, dim = case["kind"], 3 if case["kind"].endswith("3") else 2
    if kind == "tol":
        return tolerance(rng, rec, geo)
    if kind.startswith("fix"):
        return fix(rng, rec, geo, dim)
    if kind.startswith("clean"):
        return clean(rng, rec, geo, dim)
    if kind.startswith("poor"):
        return poor(rng, rec, geo, dim)
    return overlap(rng, rec, geo, dim, kind.startswith("lint"))


def fix(rng, rec, geo, dim):
    p, t, dp, dt, inj = dirty(rng, dim, rec)
    p0, t0 = dp.copy(), dt.copy()
    du, fo = bool(rng.random() < 0.6), bool(rng.random() < 0.7)
    q, s, jx = geo.fix_mesh(dp, dt, **dim_kw(rng, dim), delete_unused=du, fix_orientation=fo)
    info = dict(dim=dim, injected=dict(inj), delete_unused=du, fix_orientation=fo, cells=len(dt), vertices=len(dp))
    rec.check(np.array_equal(dp, p0) and np.array_equal(dt, t0), "fix-input-modified", "fix_mesh changed its arguments", **info)
    rec.check(np.issubdtype(s.dtype, np.integer) and s.min() >= 0 and s.max() < len(q), "fix-index", "indices out of range", **info)
    cq = coords(q)
    rec.check(len(set(cq)) == len(cq), "fix-coincident", "coincident vertices remain", left=len(cq) - len(set(cq)), **info)
    want_v = set(coords(p)) if du else set(coords(dp))
    got_v = set(cq)
    rec.check(got_v == want_v, "fix-vertices", "the vertex positions are not those of the input%s" % (" used by a cell" if du else ""),
              missing=list(want_v - got_v)[:3], extra=list(got_v - want_v)[:3], **info)
    want, got = cellset(p, t), cellset(q, s)
    rec.check(got == want, "fix-cells", "cells differ from the input's distinct cells", missing=list((want - got))[:2], extra=list((got - want))[:2], **info)
    if fo:
        v = M.signed_volumes(q, s)
        rec.check((v > 0).all(), "fix-orientation", "%d cells are not positively oriented" % (v <= 0).sum(), **info)
    if not du:
        rec.check(len(jx) == len(dp) and np.array_equal(q[jx], dp + 0.0), "fix-map", "the returned map does not lead from old to new vertices", **info)
    q2, s2, _ = geo.fix_mesh(q, s, **dim_kw(rng, dim), delete_unused=du, fix_orientation=fo)
    rec.check(np.array_equal(np.sort(q2, 0), np.sort(q, 0)) and cellset(q2, s2) == got and len(q2) == len(q), "fix-idempotent", "cleaning twice changes the mesh", **info)
    if inj:
        rec.distinct(case_key(dp, dt))
    rec.count("fixed")


def case_key(p, t):
    return (np.round(np.asarray(p).sum(0), 9).tolist(), np.asarray(t).sum(0).tolist(), len(t))


def tolerance(rng, rec, geo):
    """ptol: vertices much closer than ptol*extent merge, vertices farther apart than that stay."""
    dim = int(rng.integers(2, 4))
    p, t = M.random_mesh(rng, dim, n=int(rng.integers(6, 25)))
    ext = np.ptp(p, axis=0).max()
    ptol = 10.0 ** rng.uniform(-9, -4)
    snap = ext * ptol
    p = p - p[rng.integers(len(p))]      # one vertex at the origin: rounding noise around zero
    o = int(np.argmin(np.abs(p).sum(1)))
    k = rng.permutation(len(p))[: 1 + len(p) // 3]
    near = rng.random(len(k)) < 0.5
    if rng.random() < 0.6:
        k = np.append(k[k != o], o)
        near = np.append(near[: len(k) - 1], True)
    dp, dt = p.copy(), t.copy()
    for v, nr in zip(k, near):
        d = rng.normal(size=dim)
        d /= np.abs(d).max()
        w = p[v] + d * snap * (1e-4 if nr else rng.uniform(2.2, 50))
        dp = np.vstack([dp, w])
        cells = np.nonzero((dt == v).any(1))[0]
        sel = cells[rng.random(len(cells)) < 0.5]
        dt[sel] = np.where(dt[sel] == v, len(dp) - 1, dt[sel])
    # a near copy straddling a rounding boundary may legitimately stay: judge those well inside a cell of size snap around any origin
    frac = np.abs(dp[len(p):] / snap - np.floor(dp[len(p):] / snap) - 0.5).min(1)
    nf = np.abs(dp[len(p):] / snap - np.round(dp[len(p):] / snap)).min(1)
    judge = (frac > 1e-3) & ((nf > 1e-3) | (k == o))
    q, s, jx = geo.fix_mesh(dp, dt, ptol=ptol * ext / np.ptp(dp, axis=0).max(), **dim_kw(rng, dim))
    for i, v in enumerate(k):
        a, b = jx[v], jx[len(p) + i]
        if near[i]:
            if judge[i]:
                rec.check(a == b, "tol-not-merged", "vertices 1e-4 tolerances apart were not merged", ptol=ptol, extent=ext)
                rec.count("tolerance_merges")
        else:
            rec.check(a != b, "tol-merged", "vertices farther apart than twice the tolerance were merged", ptol=ptol, distance=float(np.linalg.norm(dp[v] - dp[len(p) + i])), extent=ext)
            rec.count("tolerance_kept")
    rec.distinct(case_key(dp, dt))


def clean(rng, rec, geo, dim):
    """A clean mesh is left alone by everything."""
    p, t = M.random_mesh(rng, dim, n=int(rng.integers(dim + 2, 40)), min_flat=0.02 if dim == 2 else 1e-3)
    p = p * 10.0 ** rng.uniform(-3, 3) + rng.normal(size=dim) * 10.0 ** rng.uniform(-1, 2)
    info = dict(dim=dim, cells=len(t), vertices=len(p))
    want = cellset(p, t)
    q, s, _ = geo.fix_mesh(p, t, **dim_kw(rng, dim), delete_unused=True)
    rec.check(cellset(q, s) == want and len(q) == len(p), "clean-fix", "fix_mesh changed a clean mesh", **info)
    ov = geo.do_any_overlap(p, t, **dim_kw(rng, dim))
    rec.check(len(ov) == 0, "clean-overlap", "overlap reported on a valid mesh", pairs=list(ov)[:3], **info)
    if dim == 2:
        b = {v for f in M.boundary_faces(t) for v in f}
        bq = quality2(p, t)[[bool(set(c) & b) for c in t.tolist()]].min()
        mq = float(bq * rng.uniform(0.2, 0.95))
        q, s = geo.delete_boundary_entities(p, t, dim=2, min_qual=mq, verbose=0)
        rec.check(cellset(q, s) == want, "clean-boundary", "boundary cells above the threshold were deleted", threshold=mq, worst=float(bq), **info)
        q, s = geo.linter(p, t, dim=2, min_qual=mq)
    else:
        q, s = geo.linter(p, t, dim=3)
    rec.check(cellset(q, s) == want and len(q) == len(p), "clean-lint", "linter changed a clean mesh", **info)
    rec.check((M.signed_volumes(q, s) > 0).all(), "clean-lint-orientation", "linter returned badly oriented cells", **info)
    rec.count("clean_meshes")
    rec.distinct(case_key(p, t))


def poor(rng, rec, geo, dim):
    p, t = M.random_mesh(rng, dim, n=int(rng.integers(8, 50)), min_flat=1e-4)
    flat = 0
    if dim == 2 and rng.random() < 0.6:
        # glue flat triangles on the boundary (a vertex on, or within rounding of, a boundary edge)
        for f in rng.permutation(sorted(M.boundary_faces(t)))[: 1 + int(rng.integers(3))].tolist():
            w = rng.uniform(0.2, 0.8)
            p = np.vstack([p, p[f[0]] * w + p[f[1]] * (1 - w)])
            t = np.vstack([t, [f[0], f[1], len(p) - 1]])
            flat += 1
    t = t[rng.permutation(len(t))]
    if dim == 2:
        qual = quality2(p, t)
    else:
        with np.errstate(all="ignore"):
            qual = np.asarray(geo.simp_qual(p, t))
    b = {v for f in M.boundary_faces(t) for v in f}
    isb = np.array([bool(set(c) & b) for c in t.tolist()])
    good = np.sort(qual[qual > 1e-3])
    if len(good) < 3:
        return
    mq = float(rng.choice(good[: max(2, len(good) // 3)])) * (1 + 1e-6)
    if rng.random() < .25:
        mq = 0.10           # the default
    if (isb & (qual < mq)).sum() == len(t):
        return
    kq = {} if mq == 0.10 and rng.random() < .7 else dict(min_qual=mq)
    with np.errstate(all="ignore"):
        q, s = geo.delete_boundary_entities(p, t, **dim_kw(rng, dim), **kq, verbose=int(rng.integers(2)))
    amb = np.abs(qual - mq) < 1e-9
    keep = cellset(p, t[~(isb & (qual < mq)) & ~amb])
    may = cellset(p, t[~(isb & (qual < mq)) | amb])
    got = cellset(q, s)
    info = dict(dim=dim, threshold=mq, cells=len(t), boundary=int(isb.sum()), poor_boundary=int((isb & (qual < mq)).sum()), flat=flat)
    rec.check(not (keep - got), "poor-lost", "cells that are not poor boundary cells were deleted", count=len(keep - got), first=list(keep - got)[:1], **info)
    rec.check(not (got - may), "poor-left", "poor boundary cells remain", count=len(got - may), first=list(got - may)[:1], **info)
    rec.check(len(np.unique(s)) == len(q), "poor-unused", "unused vertices remain", **info)
    rec.count("poor_boundary_cells", int((isb & (qual < mq)).sum()))
    rec.count("poor_interior_cells", int((~isb & (qual < mq)).sum()))
    rec.count("flat_boundary_cells", flat)
    rec.distinct(case_key(p, t), mq)


def bary(p, cell, x):
    a = p[cell[0]]
    try:
        lam = np.linalg.solve((p[cell[1:]] - a).T, x - a)
    except np.linalg.LinAlgError:
        return -1.0
    return float(min(lam.min(), 1 - lam.sum()))


def ref_pairs(p, t, m=1e-7):
    """(sure, possible) directed pairs (i, j): centroid of i lies in a cell j sharing a vertex with i."""
    v2c = {}
    for i, c in enumerate(t.tolist()):
        for v in c:
            v2c.setdefault(v, set()).add(i)
    sure, poss = set(), set()
    for i, c in enumerate(t.tolist()):
        x = p[c].mean(0)
        for j in set().union(*[v2c[v] for v in c]) - {i}:
            s = bary(p, t[j], x)
            if s > m:
                sure.add((i, j))
            if s > -m:
                poss.add((i, j))
    return sure, poss


def overlap(rng, rec, geo, dim, lint):
    p, t = M.random_mesh(rng, dim, n=int(rng.integers(8, 40 if dim == 2 else 25)), min_flat=0.01 if dim == 2 else 1e-3)
    for _ in range(int(rng.integers(1, 5))):
        r = rng.random()
        if r < 0.6:       # a cell over existing vertices near a vertex
            v = int(rng.integers(len(p)))
            ring = np.unique(t[(t == v).any(1)])
            if len(ring) < dim + 1:
                continue
            c = rng.permutation(ring)[:dim + 1]
            if tuple(sorted(c.tolist())) in {tuple(sorted(x)) for x in t.tolist()}:
                continue
        elif r < 0.85:    # an existing facet with a new apex on the wrong side or far away
            i = int(rng.integers(len(t)))
            f = rng.permutation(t[i])[:dim]
            p = np.vstack([p, p[t[i]].mean(0) + rng.normal(size=dim) * 0.3 * M.max_edge(p, t[i:i + 1])[0]])
            c = np.append(f, len(p) - 1)
        else:             # move a vertex through the mesh
            v = int(rng.integers(len(p)))
            p = p.copy()
            p[v] += rng.normal(size=dim) * 0.3
            t = M.orient(p, t)
            continue
        if abs(M.signed_volumes(p, c[None])[0]) < 1e-3 * M.max_edge(p, c[None])[0] ** dim:
            continue
        t = M.orient(p, np.vstack([t, c]))
    L = M.max_edge(p, t)
    t = t[np.abs(M.signed_volumes(p, t)) > 1e-4 * L ** dim]
    t = t[np.unique(np.sort(t, 1), axis=0, return_index=True)[1]]
    t = t[rng.permutation(len(t))]
    u, inv = np.unique(t, return_inverse=True)
    p, t = p[u], inv.reshape(t.shape)
    sure, poss = ref_pairs(p, t)
    info = dict(dim=dim, cells=len(t))
    if not lint:
        got = {(int(a), int(b)) for a, b in geo.do_any_overlap(p, t, **dim_kw(rng, dim))}
        rec.check(sure <= got, "overlap-missed", "cells whose centroid lies in a neighbour are not reported", missing=sorted(sure - got)[:3], **info)
        rec.check(got <= poss, "overlap-invented", "pairs reported that do not overlap", extra=sorted(got - poss)[:3], **info)
        rec.count("overlap_pairs", len(sure))
        if sure:
            rec.distinct(case_key(p, t))
        return
    if sure != poss:
        rec.count("lint_ambiguous")
        return
    with np.errstate(all="ignore"):
        qual = quality2(p, t) if dim == 2 else np.asarray(geo.simp_qual(p, t))
    gone, amb = set(), False
    for i, j in sure:
        amb |= abs(qual[i] - qual[j]) < 1e-9
        gone.add(i if qual[i] < qual[j] else j)
    if amb or len(gone) == len(t):
        rec.count("lint_ambiguous")
        return
    k = np.array([i for i in range(len(t)) if i not in gone])
    mq = 0.10 if rng.random() < 0.5 else float(rng.uniform(0.02, 0.3))
    s1 = t[k]
    if dim == 2:
        b = {v for f in M.boundary_faces(s1) for v in f}
        isb = np.array([bool(set(c) & b) for c in s1.tolist()])
        if (np.abs(qual[k] - mq) < 1e-9).any():
            return
        s1 = s1[~(isb & (qual[k] < mq))]
    if len(s1) == 0:
        return
    q, s = geo.linter(p, t, **dim_kw(rng, dim), **({} if mq == 0.10 and rng.random() < .7 else dict(min_qual=mq)))
    want, got = cellset(p, s1), cellset(q, s)
    rec.check(got == want, "lint-cells", "linting did not remove exactly the worse cell of each overlapping pair and the poor boundary cells",
              missing=list(want - got)[:1], extra=list(got - want)[:1], n_missing=len(want - got), n_extra=len(got - want), pairs=len(sure), min_qual=mq, **info)
    rec.check(len(np.unique(s)) == len(q) and len(set(coords(q))) == len(q), "lint-vertices", "unused or coincident vertices after linting", **info)
    rec.check((M.signed_volumes(q, s) > 0).all(), "lint-orientation", "cells without positive orientation after linting", **info)
    left, _ = ref_pairs(np.asarray(q), np.asarray(s))
    rec.check(not left, "lint-overlap", "overlapping cells remain after linting", left=sorted(left)[:3], **info)
    rec.count("linted")
    rec.count("overlap_pairs", len(sure))
    if sure:
        rec.distinct(case_key(p, t), mq)
