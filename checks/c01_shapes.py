"""C01: values of built-in shapes against independently computed true distances."""
import numpy as np
from vlib import shapes as S

PROPERTY = "C01"
RULE = ("one case = one built-in shape of random size (1e-2..1e3), aspect and position, evaluated at ~1500 points (uniform, "
        "near-boundary by bisection, corners, axes, far away); distinct non-trivial: shape specs with points seen strictly inside, "
        "strictly outside and on the boundary")
BUDGET = {"quick": 25, "thorough": 400}
REQUIRED = ["inside_points", "outside_points", "boundary_points", "batch_comparisons", "large_batches"]
ASSUMPTIONS = ["rounding tolerance 1e-9 of the coordinate scale (1e-5 for the prism, whose sqrt(3)/2 is a 6-digit constant)"]
EXACT_ALL = ("disk", "ball", "cylinder", "torus")
EXACT_IN = ("rectangle", "cube")


def cases(ctx):
    n = 700 if ctx.quick else 14000
    kinds = S.BASE2 + S.BASE3
    for i in range(n):
        yield dict(kind=kinds[i % 7], i=i, seed=ctx.seed)


def run_case(case, rec):
    rng = np.random.default_rng([case["seed"], 101, case["i"]])
    spec = S.base_spec(rng, case["kind"])
    geo = S.build(spec, style=S.pick(rng, ("list", "np", "tuple")))
    X = S.base_points(rng, spec, 300)
    X0 = X.copy()
    v = np.asarray(geo.eval(X))
    rec.check(np.array_equal(X, X0), "query-modified", "evaluation modified the query points", spec=spec)
    rec.check(v.shape == (len(X),) and np.all(np.isfinite(v)), "bad-values", "values not finite or wrong shape", spec=spec, shape=v.shape)
    d = S.true_sd(spec, X)
    t = spec["t"]
    sc = S.scale_of(spec) + np.abs(X).max(1)
    tol = (1e-5 if t == "prism" else 1e-9) * sc

    def bad(mask, key, msg):
        rec.nassert += 1
        if mask.any():
            j = int(np.argmax(mask))
            rec.fail(key, msg, spec=spec, point=X[j], value=float(v[j]), true_distance=float(d[j]))
    bad((d < -tol) & (v >= 0), "inside-not-negative", "a point strictly inside has a non-negative value")
    bad((d > tol) & (v <= 0), "outside-not-positive", "a point strictly outside has a non-positive value")
    bad((np.abs(d) <= tol) & (np.abs(v) > 3 * tol), "boundary-not-zero", "a boundary point has a non-zero value")
    bad(np.abs(v) > np.abs(d) + tol, "overestimate", "the magnitude exceeds the true distance")
    if t in EXACT_ALL:
        bad(np.abs(v - d) > tol, "not-exact", "the value is not the true signed distance")
    if t in EXACT_IN:
        bad((d <= 0) & (np.abs(v - d) > tol), "not-exact-inside", "the value inside is not the true signed distance")
    # independence of the batch, of its order and memory layout
    perm = rng.permutation(len(X))
    rec.count("batch_comparisons", 5)
    alts = dict(permuted=(np.asarray(geo.eval(X[perm])), v[perm]),
                fortran=(np.asarray(geo.eval(np.asfortranarray(X))), v),
                strided=(np.asarray(geo.eval(np.repeat(X, 2, axis=0)[::2])), v),
                single=(np.concatenate([np.asarray(geo.eval(X[j:j + 1])) for j in perm[:12]]), v[perm[:12]]),
                again=(np.asarray(geo.eval(X)), v),
                empty=(np.asarray(geo.eval(X[:0])), v[:0]))
    if rng.random() < 0.06:
        many = rng.integers(0, len(X), int(rng.choice([2 ** 15, 2 ** 16, 10 ** 5])) + int(rng.integers(1, 999)))
        alts["many"] = (np.asarray(geo.eval(X[many])), v[many])
        rec.count("large_batches")
    for k, (a, b) in alts.items():
        rec.check(a.shape == b.shape and np.all(np.abs(a - b) <= 1e-12 * (sc.max() if len(b) else 1)), "batch-dependent:" + k,
                  "the value of a point depends on the other points or their layout (%s)" % k, spec=spec)
    ni, no, nb = int((d < -tol).sum()), int((d > tol).sum()), int((np.abs(d) <= tol).sum())
    rec.count("inside_points", ni)
    rec.count("outside_points", no)
    rec.count("boundary_points", nb)
    if ni and no and nb:
        rec.distinct(spec)
    rec.sample = dict(spec=spec, points=len(X), inside=ni, outside=no, boundary=nb)
