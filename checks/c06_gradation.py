"""C06: gradation against the largest field obeying the rate on the grid graph."""
import numpy as np
from vlib import sizing as Z

PROPERTY = "C06"
RULE = ("one case = one random 2D/3D size field (given as velocities with wl=freq=1) and rate; every grid edge is checked, and the field "
        "compared with an independently computed tightest one; distinct non-trivial: fields that gradation had to change")
BUDGET = {"quick": 30, "thorough": 400}
REQUIRED = ["edges", "changed_nodes", "unchanged_fields", "isotropic_3d", "isotropic_2d", "anisotropic", "long_grids"]
ASSUMPTIONS = ["the grid spacing of n nodes over an extent is between extent/n and extent/(n-1); the code's convergence tolerance of "
               "sqrt(1e-9) of the smallest size is granted per grid step"]


def cases(ctx):
    n = 800 if ctx.quick else 12000
    for i in range(n):
        yield dict(kind="long" if i % 41 == 0 else ("iso", "iso", "iso", "aniso", "graded")[i % 5], i=i, seed=ctx.seed)


def field(rng, shape, step):
    k = int(rng.integers(6))
    if k == 0:
        F = rng.uniform(1, 100, shape)
    elif k == 1:
        F = np.full(shape, 1e4)
        for _ in range(int(rng.integers(1, 4))):
            F[tuple(int(rng.integers(s)) for s in shape)] = rng.uniform(0.5, 50)
    elif k == 2:
        F = 10.0 ** rng.uniform(0, 4, shape)
    elif k == 3:
        F = np.full(shape, 50.0)
        F[int(rng.integers(shape[0])):] = 500.0
    elif k == 4:
        F = np.full(shape, 3000.0)
        c = tuple(int(rng.integers(2)) * (s - 1) for s in shape)   # a corner of the grid
        F[c] = 1.0
    else:
        F = np.abs(rng.normal(size=shape)).cumsum(int(rng.integers(len(shape)))) * step + 1
    return np.clip(F, 0.01, 9e4)


def run_case(case, rec):
    rng = np.random.default_rng([case["seed"], 106, case["i"]])
    dim = 2 if rng.random() < 0.55 else 3
    iso = case["kind"] != "aniso"
    shape, bbox = Z.grid_spec(rng, dim, nmin=1 if rng.random() < 0.1 else 2, nmax=26)
    if rng.random() < 0.05:
        shape = tuple([max(shape)] * dim)
    if case["kind"] == "long":
        shape = tuple(int(rng.integers(2, 4)) for _ in range(dim))
        k = int(rng.integers(dim))
        shape = shape[:k] + (int(rng.integers(150, 900)),) + shape[k + 1:]
        rec.count("long_grids")
    shape = tuple(max(2, s) if i == 0 else s for i, s in enumerate(shape))
    # spacing by the "extent / n" convention
    st = [float(Z.pick(rng, (5.0, 10.0, 25.0, 1.0))) for _ in range(dim)]
    if iso:
        st = [st[0]] * dim
    elif len(set(st)) == 1:
        st[1] *= Z.pick(rng, (0.25, 0.5, 2.0, 4.0))
    bbox = tuple(float(v) for i, n in enumerate(shape) for v in (-n * st[i], 0.0))
    if min(shape) < 2:
        # RegularGridInterpolator cannot evaluate single-node axes
        shape = tuple(max(2, s) for s in shape)
        bbox = tuple(float(v) for i, n in enumerate(shape) for v in (-n * st[i], 0.0))
    grade = float(Z.pick(rng, (0.05, 0.15, 0.35, 1.0, 2.5)))
    F = field(rng, shape, st[0])
    if case["kind"] == "graded":
        F = Z.tightest(F, [grade * s for s in st])
    opts = dict(wl=1, freq=1.0, hmin=1e-3, hmax=1e9, grade=grade)
    got = at(Z.call(bbox, Z.layout(rng, F), **opts), bbox, shape)
    rec.check(np.all(np.isfinite(got)), "not-finite", "graded sizes not finite", opts=opts)
    fmin = F.min()
    ftol = 1.1 * fmin * np.sqrt(1e-9) + 1e-9 * fmin
    data = dict(shape=shape, spacing=st, grade=grade, bbox=bbox, fmin=float(fmin), fmax=float(F.max()))
    rec.check(np.all(got <= F * (1 + 1e-9)), "raised", "gradation raised a size", **data)
    rec.check(abs(got.min() - fmin) <= 1e-9 * fmin, "minimum", "gradation changed the minimum size", got=float(got.min()), **data)
    upper = [s * n / (n - 1.0) for s, n in zip(st, shape)]      # extent/(n-1)
    steps = sum(shape)
    edge_bad = tight_bad = None
    for ax in range(dim):
        d = np.abs(np.diff(got, axis=ax))
        rec.count("edges", d.size)
        rec.nassert += d.size
        lim = grade * upper[ax] * (1 + 1e-9) + ftol
        if (d > lim).any():
            j = np.unravel_index(int(np.argmax(d)), d.shape)
            edge_bad = dict(axis=ax, node=[int(x) for x in j], difference=float(d[j]), limit=float(lim))
    low = Z.tightest(F, [grade * s for s in st])
    high = Z.tightest(F, [grade * s for s in upper])
    off = (got < low * (1 - 1e-9) - 1e-9 * fmin) | (got > high + steps * ftol)
    rec.nassert += got.size
    if off.any():
        j = np.unravel_index(int(np.argmax(off)), shape)
        tight_bad = dict(node=[int(x) for x in j], got=float(got[j]), low=float(low[j]), high=float(high[j]), ungraded=float(F[j]))
    if edge_bad or tight_bad:
        key = "rate-exceeded" if edge_bad else "not-tightest"
        if not iso:
            ref = Z.tightest(F, [grade * st[0]] * dim)
            if not ((got < ref * (1 - 1e-9) - 1e-9 * fmin) | (got > ref + steps * ftol)).any():
                key = "gradation-anisotropic"
                rec.count("anisotropic_hits")
        rec.fail(key, "graded field violates the rate or is not the tightest one", edge=edge_bad, tight=tight_bad, **data)
    # a field that already satisfies the rate is returned unchanged, also after grading once
    if iso:
        again = at(Z.call(bbox, got, **opts), bbox, shape)
        rec.check(np.all(np.abs(again - got) <= ftol * steps + 1e-9 * got), "not-idempotent", "grading a graded field changed it",
                  worst=float(np.abs(again - got).max()), **data)
        rec.count("unchanged_fields")
        if case["kind"] == "graded":
            rec.check(np.all(np.abs(got - F) <= 1e-9 * F + steps * 0 + ftol), "changed-graded", "a field obeying the rate was changed", **data)
    rec.count("changed_nodes", (got < F * (1 - 1e-9)).sum())
    rec.count("isotropic_%dd" % dim if iso else "anisotropic")
    if (got < F * (1 - 1e-9)).any():
        rec.distinct(shape, st, grade, F.ravel()[:6])
    rec.sample = dict(changed=int((got < F * (1 - 1e-9)).sum()), **data)


def at(sf, bbox, shape):
    """Sizes at the nodes: nodes are single precision values of linspace, so evaluate there."""
    ax = [np.linspace(bbox[2 * i], bbox[2 * i + 1], n) for i, n in enumerate(shape)]
    X = np.stack(np.meshgrid(*ax, indexing="ij"), axis=-1).reshape(-1, len(shape))
    return np.asarray(sf.eval(X), float).reshape(shape)
