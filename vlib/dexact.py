"""Exact Delaunay oracle: orientation and in-sphere tests in integer arithmetic, vectorised over points."""
from fractions import Fraction
import itertools
import numpy as np


def to_int(P):
    """Exact integer coordinates (a common power-of-two scale); int64 when the determinants fit."""
    P = np.asarray(P, float)
    if len(P) == 0:
        return np.zeros(P.shape, np.int64)
    fr = [[Fraction(float(x)) for x in p] for p in P]
    s = max(x.denominator for p in fr for x in p)
    I = [[int(x * s) for x in p] for p in fr]
    m = max(abs(x) for p in I for x in p)
    if (4 * m) ** (P.shape[1] + 2) * 200 < 2 ** 62:
        return np.array(I, np.int64)
    return np.array(I, object).reshape(P.shape)


def det2(a, b):
    return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]


def det3(a, b, c):
    return (a[..., 0] * (b[..., 1] * c[..., 2] - b[..., 2] * c[..., 1]) - a[..., 1] * (b[..., 0] * c[..., 2] - b[..., 2] * c[..., 0])
            + a[..., 2] * (b[..., 0] * c[..., 1] - b[..., 1] * c[..., 0]))


def orient(I, T):
    d = I[T[:, 1:]] - I[T[:, :1]]
    if T.shape[1] == 3:
        return det2(d[:, 0], d[:, 1])
    return det3(d[:, 0], d[:, 1], d[:, 2])


def insphere(I, cell, Q):
    """> 0 for the points of Q strictly inside the circumscribed ball of the positively oriented cell."""
    d = I[cell][None, :, :] - Q[:, None, :]
    w = (d * d).sum(2)
    if len(cell) == 3:
        return (w[:, 0] * det2(d[:, 1], d[:, 2]) - w[:, 1] * det2(d[:, 0], d[:, 2]) + w[:, 2] * det2(d[:, 0], d[:, 1]))
    # 4x4 determinant expanded along the squared norms; for a positively oriented tetrahedron (det(b-a,c-a,d-a) > 0) it is negative inside
    m = (-w[:, 0] * det3(d[:, 1], d[:, 2], d[:, 3]) + w[:, 1] * det3(d[:, 0], d[:, 2], d[:, 3])
         - w[:, 2] * det3(d[:, 0], d[:, 1], d[:, 3]) + w[:, 3] * det3(d[:, 0], d[:, 1], d[:, 2]))
    return -m


def affine_dim(I):
    if len(I) == 0:
        return -1
    v = I[1:] - I[0]
    nz = [x for x in v if any(x)]
    if not nz:
        return 0
    a = nz[0]
    if I.shape[1] == 2:
        return 2 if any(det2(a, b) != 0 for b in nz) else 1
    b2 = None
    for b in nz:
        c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
        if any(c):
            b2 = c
            break
    if b2 is None:
        return 1
    return 3 if any(b2[0] * x[0] + b2[1] * x[1] + b2[2] * x[2] != 0 for x in nz) else 2


def problems(P, T, dim):
    """Problems of (P, T) as the Delaunay triangulation of the distinct points P (exact)."""
    T = np.asarray(T)
    n = len(P)
    I = to_int(P)
    ad = affine_dim(I)
    if ad < dim:
        return [("degenerate-cells", "cells reported for points without %dD extent" % dim, dict(cells=len(T)))] if len(T) else []
    out = []
    if len(T) == 0:
        return [("no-cells", "no cells for points that span a region", dict(points=n))]
    if T.min() < 0 or T.max() >= n:
        return [("index-range", "cell index outside the vertex listing", dict(min=int(T.min()), max=int(T.max()), points=n))]
    if len(np.unique(np.sort(T, 1), axis=0)) != len(T):
        out.append(("duplicate-cell", "a cell is listed twice", {}))
    o = orient(I, T)
    if not (o > 0).all():
        out.append(("orientation", "cell not positively oriented", dict(cell=T[int(np.argmin(o > 0))])))
        return out
    if len(np.unique(T)) != n:
        out.append(("vertex-without-cell", "a live point is a vertex of no cell", dict(missing=sorted(set(range(n)) - set(T.ravel().tolist()))[:5])))
    # facets: at most two cells, boundary facets lie on the hull
    fac = {}
    for i, c in enumerate(T.tolist()):
        for k in range(dim + 1):
            f = tuple(sorted(c[:k] + c[k + 1:]))
            fac.setdefault(f, []).append((i, c[k]))
    for f, own in fac.items():
        if len(own) > 2:
            out.append(("facet-shared", "a facet belongs to more than two cells", dict(facet=f)))
            break
        base = I[f[0]]
        if dim == 2:
            s = det2(np.broadcast_to(I[f[1]] - base, I.shape), I - base)
        else:
            s = det3(np.broadcast_to(I[f[1]] - base, I.shape), np.broadcast_to(I[f[2]] - base, I.shape), I - base)
        if len(own) == 2:
            if not s[own[0][1]] * s[own[1][1]] < 0:
                out.append(("same-side", "two cells on the same side of a facet", dict(facet=f)))
                break
        else:
            if (s > 0).any() and (s < 0).any():
                out.append(("hull", "a boundary facet is not on the convex hull", dict(facet=f)))
                break
    for i, c in enumerate(T):
        s = insphere(I, c, I)
        s = np.array([x > 0 for x in s])
        s[c] = False
        if s.any():
            out.append(("not-delaunay", "a live point lies strictly inside the circumscribed ball of a cell", dict(cell=c, point=int(np.argmax(s)), coords=np.asarray(P)[list(c) + [int(np.argmax(s))]])))
            break
    return out
