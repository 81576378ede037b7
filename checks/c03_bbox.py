"""C03: nothing of a domain lies outside its reported bounding box."""
import numpy as np
from vlib import shapes as S

PROPERTY = "C03"
RULE = ("one case = one domain (transformed base shape, nested set operation, or periodic repetition); thousands of points outside "
        "the reported box (just outside each face, around, far) plus the images of boundary and interior points of every leaf; "
        "distinct non-trivial: specs for which interior points were actually seen")
BUDGET = {"quick": 30, "thorough": 500}
REQUIRED = ["outside_probes", "interior_points_seen", "leaf_image_points"]
ASSUMPTIONS = ["points within 1e-9 of the coordinate scale of the box face are not judged"]


def cases(ctx):
    n = 900 if ctx.quick else 16000
    kinds = list(S.BASE2 + S.BASE3)
    yield dict(kind="smooth-union", i=0, seed=ctx.seed)
    for i in range(n):
        k = ("base", "nested2", "base", "nested3", "repeat", "base", "nested3")[i % 7]
        yield dict(kind=k, base=kinds[(i // 7) % 7], i=i, seed=ctx.seed)


def make(case, rng):
    if case["kind"] == "base":
        s = S.base_spec(rng, case["base"])
        s.update(S.transform_spec(rng, S.dim_of(s), S.scale_of(s)))
        return s
    if case["kind"] == "repeat":
        sc = S.size(rng, -1, 2)
        inner = S.nested(rng, 3, int(rng.integers(0, 2)), sc)
        lo = rng.uniform(-3, 0, 3) * sc
        w = rng.uniform(0.5, 4, 3) * sc
        return dict(op="repeat", c=[inner], bbox=[float(x) for p in zip(lo, lo + w) for x in p],
                    period=[float(x) for x in rng.uniform(0.5, 3, 3) * sc])
    if case["kind"] == "smooth-union":
        return dict(op="union", k=0.5, c=[dict(t="disk", x0=[0.0, 0.0], r=1.0), dict(t="disk", x0=[0.0, 0.1], r=1.0)])
    dim = int(case["kind"][-1])
    return S.nested(rng, dim, int(rng.integers(1, 4)), S.size(rng, -1, 2), near=rng.random() < 0.7)


def run_case(case, rec):
    rng = np.random.default_rng([case["seed"], 103, case["i"]])
    spec = make(case, rng)
    g = S.build(spec)
    bb = np.array(g.bbox, float).reshape(-1, 2)
    dim = S.dim_of(spec)
    rec.check(bb.shape == (dim, 2) and np.all(np.isfinite(bb)) and np.all(bb[:, 0] < bb[:, 1]), "bad-bbox", "malformed bounding box",
              spec=spec, bbox=g.bbox)
    w = bb[:, 1] - bb[:, 0]
    sc = S.scale_of(spec) + np.abs(bb).max()
    tol = 1e-9 * sc
    # candidates: images of each leaf's points (these find parts of the domain sticking out), and the surroundings of the box
    leafpts = []
    for leaf in S.leaves(spec):
        Q = S.base_points(rng, leaf, 120)
        leafpts.append(S.image(leaf, Q))
    L = np.vstack(leafpts)
    if spec.get("op") == "repeat":
        per = np.array(spec["period"])
        L = L + per * rng.integers(-3, 4, (len(L), 3))
    m = 900
    U = rng.uniform(bb[:, 0] - w, bb[:, 1] + w, (m, dim))
    F = rng.uniform(bb[:, 0], bb[:, 1], (m, dim))
    ax = rng.integers(dim, size=m)
    side = rng.integers(2, size=m)
    off = w[ax] * 10.0 ** rng.uniform(-6, 0.5, m)
    F[np.arange(m), ax] = np.where(side == 0, bb[ax, 0] - off, bb[ax, 1] + off)
    X = np.vstack([L, U, F])
    v = np.asarray(g.eval(X))
    out = ((bb[:, 0] - X) > tol).any(1) | ((X - bb[:, 1]) > tol).any(1)
    neg = v < -10 * tol
    bad = out & neg
    rec.nassert += 1
    if bad.any():
        key = "outside-bbox"
        if S.has_smooth(spec, ("union",)):
            hard = S.build(S.desmooth(spec, ("union",)))
            if not (np.asarray(hard.eval(X[bad])) < -10 * tol).any():
                key = "smooth-union-bbox"
                rec.count("smooth_union_outside_bbox")
        j = int(np.argmax(bad))
        rec.fail(key, "a point of the domain lies outside the bounding box", spec=spec, bbox=g.bbox, point=X[j], value=float(v[j]))
    rec.count("outside_probes", out.sum())
    rec.count("interior_points_seen", neg.sum())
    rec.count("leaf_image_points", len(L))
    if (neg & ~out).any():
        rec.distinct(spec)
    rec.sample = dict(spec=spec, bbox=g.bbox, outside_probes=int(out.sum()), interior=int(neg.sum()))
