"""C07: the CFL rule on the returned sizes."""
import numpy as np
from vlib import sizing as Z

PROPERTY = "C07"
RULE = ("one case = one random velocity model with a time step around the stability limit; the Courant number of every node is checked; "
        "distinct non-trivial: models where the rule raised some sizes and kept others")
BUDGET = {"quick": 20, "thorough": 300}
REQUIRED = ["nodes", "raised_nodes", "kept_nodes", "dt_zero_cases", "above_hmax", "graded_cases"]
ASSUMPTIONS = ["relative tolerance 1e-6"]


def cases(ctx):
    n = 800 if ctx.quick else 12000
    for i in range(n):
        yield dict(kind=("cfl", "cfl", "cfl", "graded", "zero")[i % 5], i=i, seed=ctx.seed)


def run_case(case, rec):
    rng = np.random.default_rng([case["seed"], 107, case["i"]])
    dim = 2 if rng.random() < 0.6 else 3
    shape, bbox = Z.grid_spec(rng, dim, iso=True)
    v = Z.velocities(rng, shape)
    opts = dict(hmin=float(rng.uniform(5, 150)), hmax=Z.pick(rng, (200.0, 1000.0, 1e5)))
    if rng.random() < 0.7:
        opts.update(wl=Z.pick(rng, (2, 5, 10)), freq=float(rng.uniform(1, 10)))
    if rng.random() < 0.2:
        opts.update(grad=float(rng.uniform(10, 200)), stencil_size=3)
    if opts["hmax"] < opts["hmin"]:
        opts["hmax"] = opts["hmin"]
    base = Z.at_nodes(Z.call(bbox, v, **opts), bbox, shape)
    cr = float(rng.uniform(0.05, 1.5))
    so = int(rng.integers(1, 6))
    limit = base * cr / (so * v)            # largest stable dt per node
    dt = float(np.quantile(limit, rng.uniform(0, 1)) * rng.uniform(0.7, 1.5))
    kw = dict(opts, dt=dt, cr_max=cr, space_order=so)
    if cr == 1.0:
        kw.pop("cr_max")
    if case["kind"] == "zero":
        kw["dt"] = 0.0
        got = Z.at_nodes(Z.call(bbox, v, **kw), bbox, shape)
        rec.check(np.array_equal(got, base), "dt-zero", "dt=0 changed the sizes", opts=kw)
        rec.count("dt_zero_cases")
        return
    got = Z.at_nodes(Z.call(bbox, v, **kw), bbox, shape)
    judge(rec, got, v, dt, cr, so, kw, "courant")
    rec.check(np.all(got >= base * (1 - 1e-9)), "lowered", "the CFL rule lowered a size", opts=kw)
    ok = v * dt / base <= cr / so * (1 - 1e-6)
    bad = ok & (np.abs(got - base) > 1e-9 * base)
    rec.check(not bad.any(), "stable-size-changed", "a size that was already stable was changed", opts=kw, count=int(bad.sum()))
    unst = v * dt / base > cr / so * (1 + 1e-6)
    need = v * dt * so / cr
    rec.check(not (unst & (np.abs(got - need) > 1e-6 * need)).any(), "not-minimal", "an unstable size was not raised to the stable size exactly", opts=kw)
    rec.count("nodes", got.size)
    rec.count("raised_nodes", unst.sum())
    rec.count("kept_nodes", ok.sum())
    rec.count("above_hmax", (got > opts["hmax"] * 1.0001).any())
    if unst.any() and ok.any():
        rec.distinct(shape, kw)
    if case["kind"] == "graded":
        kg = dict(kw, grade=float(Z.pick(rng, (0.1, 0.35, 1.0))))
        gg = Z.at_nodes(Z.call(bbox, v, **kg), bbox, shape)
        rec.count("graded_cases")
        cn = v * dt / gg
        viol = cn > cr / so * (1 + 1e-6)
        if viol.any():
            # gradation runs after the CFL rule and may lower sizes again
            lowered = viol & (gg < got * (1 - 1e-9))
            rec.fail("gradation-breaks-cfl" if np.array_equal(lowered, viol) else "courant-graded",
                     "with gradation on, a node violates the requested Courant number", opts=kg, worst=float((cn * so / cr).max()))
    rec.sample = dict(shape=shape, opts=kw, raised=int(unst.sum()), kept=int(ok.sum()), max_courant=float((v * dt / got).max()))


def judge(rec, got, v, dt, cr, so, kw, key):
    cn = v * dt / got
    bad = ~(cn <= cr / so * (1 + 1e-6))
    rec.nassert += got.size
    if bad.any():
        j = np.unravel_index(int(np.argmax(cn)), got.shape)
        rec.fail(key, "Courant number exceeds cr_max/space_order", opts=kw, node=[int(x) for x in j], velocity=float(v[j]), size=float(got[j]),
                 courant=float(cn[j]), limit=cr / so)
