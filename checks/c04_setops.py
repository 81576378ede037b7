"""C04: union / intersection / difference / repetition against the operand values."""
import numpy as np
from vlib import shapes as S
from vlib.harness import REPO

PROPERTY = "C04"
RULE = ("one case = a flat or nested combination of random transformed shapes evaluated at ~2000 points, compared with the values of "
        "separately built operands; distinct non-trivial: specs where points inside and outside the combination were seen")
BUDGET = {"quick": 30, "thorough": 500}
REQUIRED = ["hard_points", "smooth_points", "smooth_active_points", "equal_operand_points", "repeat_points", "nested_points", "rejections"]
ASSUMPTIONS = ["points within 1e-9 of the coordinate scale of a zero level set are not judged for sign"]


def cases(ctx):
    n = 700 if ctx.quick else 14000
    for i in range(n):
        yield dict(kind=("hard", "smooth", "nested", "repeat", "smooth", "nested", "reject")[i % 7], i=i, seed=ctx.seed)


def points(rng, specs, sc, dim, n=900):
    L = np.vstack([S.image(l, S.base_points(rng, l, 60)) for s in specs for l in S.leaves(s)])
    lo, hi = L.min(0), L.max(0)
    c = np.median(L, axis=0)
    return np.vstack([L, rng.uniform(c - 2 * sc, c + 2 * sc, (n, dim))])


def run_case(case, rec):
    rng = np.random.default_rng([case["seed"], 104, case["i"]])
    dim = int(rng.integers(2, 4))
    sc = S.size(rng, -1, 2)
    kind = case["kind"]
    if kind == "reject":
        return reject(rng, rec, sc)
    if kind == "repeat":
        return repeat(rng, rec, sc)
    if kind == "nested":
        spec = S.nested(rng, dim, int(rng.integers(2, 5)), sc, smooth=False)
        X = points(rng, [spec], sc, dim)
        g = S.build(spec)
        v = np.asarray(g.eval(X))
        ref = combine(spec, X)
        tol = 1e-9 * (S.scale_of(spec) + np.abs(X).max(1))
        bad = np.abs(v - ref) > tol
        expect(rec, bad, "nested-value", "nested combination differs from min/max of its leaves", spec, X, v, ref)
        rec.count("nested_points", len(X))
        if (v < 0).any() and (v > 0).any():
            rec.distinct(spec)
        rec.sample = dict(spec=spec, points=len(X), inside=int((v < 0).sum()))
        return
    op = ("union", "intersection", "difference")[int(rng.integers(3))]
    n = int(rng.integers(2, 6)) if rng.random() < 0.5 else 2
    cs = [S.nested(rng, dim, 0 if rng.random() < 0.8 else 1, sc, smooth=False) for _ in range(n)]
    X = points(rng, cs, sc, dim)
    if rng.random() < 0.5 and n == 2:
        # points where both operands (or one and the negated other) have equal values
        X = np.vstack([X, equal_points(rng, cs, X, op)])
    V = np.array([np.asarray(S.build(c).eval(X)) for c in cs])
    W = V if op != "difference" else np.vstack([V[:1], -V[1:]])
    hard = W.min(0) if op == "union" else W.max(0)
    spec = dict(op=op, c=cs)
    S_ = max(S.scale_of(c) for c in cs)
    tol = 1e-9 * (S_ + np.abs(X).max(1))
    if kind == "hard":
        v = np.asarray(S.build(spec).eval(X))
        expect(rec, v != hard, "hard-value", "value is not exactly the min/max of the operand values", spec, X, v, hard)
        v2 = np.asarray(S.build(spec).eval(X[::-1]))[::-1]
        expect(rec, np.abs(v2 - v) > tol, "batch-dependent", "value depends on the batch order", spec, X, v2, v)
        rec.count("hard_points", len(X))
    else:
        k = float(sc * 10.0 ** rng.uniform(-3, 0.3))
        spec["k"] = k
        v = np.asarray(S.build(spec).eval(X))
        sgn = 1.0 if op == "union" else -1.0
        moved = sgn * (hard - v)             # >= 0 : union gets smaller values, the others larger ones
        expect(rec, moved < -tol, "smooth-direction", "smoothing moved the value in the wrong direction", spec, X, v, hard)
        expect(rec, moved > (n - 1) * k / 4 + tol, "smooth-bound", "smoothing moved the value by more than k/4 per blend", spec, X, v, hard)
        gap = np.sort(W, axis=0)
        far = (np.diff(gap, axis=0) >= k * (1 + 0.25 * (n - 2)) * (1 + 1e-9)).all(0) & (np.diff(gap, axis=0) >= k + tol).all(0)
        expect(rec, far & (np.abs(moved) > tol), "smooth-unblended", "value changed although the operands differ by at least k", spec, X, v, hard)
        if n == 2:
            eq = np.abs(W[0] - W[1]) <= tol
            expect(rec, eq & (np.abs(moved - k / 4) > 2 * tol), "smooth-full", "equal operands are not blended by k/4", spec, X, v, hard)
            rec.count("equal_operand_points", eq.sum())
        # set meaning that smoothing preserves
        if op == "union":
            expect(rec, (W.min(0) < -tol) & (v >= 0), "smooth-sign", "inside an operand but outside the smoothed union", spec, X, v, hard)
        else:
            expect(rec, (W.max(0) > tol) & (v <= 0), "smooth-sign", "inside the smoothed %s but not in the sharp one" % op, spec, X, v, hard)
        rec.count("smooth_points", len(X))
        rec.count("smooth_active_points", (moved > tol).sum())
    if (v < 0).any() and (v > 0).any():
        rec.distinct(spec)
    rec.sample = dict(spec=spec, points=len(X), inside=int((v < 0).sum()))


def equal_points(rng, cs, X, op):
    a, b = S.build(cs[0]), S.build(cs[1])
    f = (lambda P: np.asarray(a.eval(P)) - np.asarray(b.eval(P))) if op != "difference" else (lambda P: np.asarray(a.eval(P)) + np.asarray(b.eval(P)))
    s = f(X)
    I, O = X[s < 0], X[s > 0]
    if not len(I) or not len(O):
        return X[:0]
    m = 150
    p, q = I[rng.integers(len(I), size=m)], O[rng.integers(len(O), size=m)]
    for _ in range(70):
        mid = (p + q) / 2
        sm = f(mid)[:, None]
        p = np.where(sm < 0, mid, p)
        q = np.where(sm < 0, q, mid)
    return p


def combine(spec, X):
    if "op" not in spec:
        return np.asarray(S.build(spec).eval(X))
    v = [combine(c, X) for c in spec["c"]]
    if spec["op"] == "union":
        return np.minimum.reduce(v)
    if spec["op"] == "intersection":
        return np.maximum.reduce(v)
    return np.maximum.reduce([v[0]] + [-u for u in v[1:]])


def expect(rec, bad, key, msg, spec, X, v, ref):
    rec.nassert += 1
    if bad.any():
        j = int(np.argmax(bad))
        rec.fail(key, msg, spec=spec, point=X[j], value=float(v[j]), reference=float(ref[j]))


def repeat(rng, rec, sc):
    inner = S.nested(rng, 3, int(rng.integers(0, 3)), sc, smooth=False)
    lo = rng.uniform(-3, 0, 3) * sc
    w = rng.uniform(0.5, 6, 3) * sc
    spec = dict(op="repeat", c=[inner], bbox=[float(x) for p in zip(lo, lo + w) for x in p],
                period=[float(x) for x in rng.uniform(0.5, 3, 3) * sc])
    per = np.array(spec["period"])
    X = points(rng, [inner], sc, 3)
    X = np.vstack([X + per * rng.integers(-3, 4, X.shape), rng.uniform(lo - 0.2 * w, lo + 1.2 * w, (800, 3))])
    g = S.build(spec, S.pick(rng, ("list", "np", "tuple")))
    v = np.asarray(g.eval(X))
    f = X / per + 0.5
    cell = np.floor(f)
    amb = (np.abs(f - np.round(f)) * per).min(1) <= 1e-8 * (sc + np.abs(X).max(1))
    q = X - per * cell
    dv = np.asarray(S.build(inner).eval(q))
    b = np.array(spec["bbox"]).reshape(-1, 2)
    box = np.maximum((b[:, 0] - X).max(1), (X - b[:, 1]).max(1))
    ref = np.maximum(dv, box)
    tol = 1e-8 * (S.scale_of(spec) + np.abs(X).max(1))
    ok = ~amb
    expect(rec, ok & (ref < -tol) & (v >= 0), "repeat-inside", "period-reduced point inside the shape and the box, value not negative", spec, X, v, ref)
    expect(rec, ok & (ref > tol) & (v <= 0), "repeat-outside", "period-reduced point outside the shape or the box, value not positive", spec, X, v, ref)
    rec.count("repeat_points", ok.sum())
    if (ok & (v < 0)).any() and (ok & (v > 0)).any():
        rec.distinct(spec)
    rec.sample = dict(spec=spec, points=len(X), inside=int((v < 0).sum()))


def reject(rng, rec, sc):
    import SeismicMesh as sm
    a = S.build(S.nested(rng, 2, 0, sc))
    b = S.build(S.nested(rng, 3, 0, sc))
    c = S.build(S.nested(rng, 3, 0, sc))
    for cls in (sm.Union, sm.Intersection, sm.Difference):
        for ops in ([a, b], [b, a], [b, c, a]):
            try:
                cls(ops)
            except Exception:
                rec.count("rejections")
                rec.nassert += 1
            else:
                rec.fail("mixed-dimensions-accepted", "%s of 2D and 3D operands was accepted" % cls.__name__)
