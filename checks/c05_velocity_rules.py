"""C05: sizes at the velocity-model nodes against an independent statement of the documented rules."""
import numpy as np
from vlib import sizing as Z

PROPERTY = "C05"
RULE = ("one case = one random 2D/3D velocity model (layered, homogeneous, noisy, with water), random options and units; the size at "
        "every node is compared with the rule; distinct non-trivial: models with at least two different resulting sizes")
BUDGET = {"quick": 30, "thorough": 400}
REQUIRED = ["nodes", "with_wl", "with_grad", "with_both", "with_neither", "with_water", "converted", "clipped_low", "clipped_high", "rejections",
            "unchanged_input_checks", "points_between", "map_coordinates", "points_outside", "defaults"]
ASSUMPTIONS = ["relative tolerance 1e-9 (float64) / 2e-5 (float32); gradient rule judged where the windowed variance is well conditioned"]


def cases(ctx):
    n = 800 if ctx.quick else 12000
    for i in range(n):
        yield dict(kind="reject" if i % 8 == 7 else "defaults" if i % 8 == 3 else "rules", i=i, seed=ctx.seed)


def run_case(case, rec):
    rng = np.random.default_rng([case["seed"], 105, case["i"]])
    dim = 2 if rng.random() < 0.6 else 3
    shape, bbox = Z.grid_spec(rng, dim)
    v = Z.velocities(rng, shape)
    if case["kind"] == "reject":
        return reject(rng, rec, v, bbox)
    if case["kind"] == "defaults":
        return defaults(rng, rec, v, bbox)
    units = Z.pick(rng, ("m-s", "m-s", "km-s", "ft-s"))
    fac = {"m-s": 1.0, "km-s": 1000.0, "ft-s": 0.3048}[units]
    raw = v / fac
    water = rng.random() < 0.5
    mask = np.zeros(shape, bool)
    if water:
        if rng.random() < 0.5:
            mask[int(rng.integers(shape[0])):] = True
        if rng.random() < 0.5:
            mask |= rng.random(shape) < 0.1
        if rng.random() < 0.3:
            mask[0] = True
        raw[mask] = Z.pick(rng, (0.0, -1.0, -0.0, -999.25))
    dt = np.float32 if rng.random() < 0.25 else np.float64
    raw = raw.astype(dt)
    opts = dict(units=units) if units != "m-s" or rng.random() < 0.5 else {}
    opts["hmin"] = float(rng.uniform(0.5, 400))
    opts["hmax"] = float(opts["hmin"] * rng.uniform(1.0, 8)) if rng.random() < 0.6 else 1e6
    if rng.random() < 0.7:
        opts["wl"] = Z.pick(rng, (1, 3, 5, 10, 2.5))
        if rng.random() < 0.8:
            opts["freq"] = float(rng.uniform(0.2, 20))
    grad = rng.random() < 0.45
    if grad:
        opts["grad"] = float(rng.uniform(1, 500))
        if rng.random() < 0.7:
            opts["stencil_size"] = Z.pick(rng, (2, 3, 4, 5, 7)) if rng.random() < 0.6 else tuple(int(rng.integers(1, 6)) for _ in shape)
    if water and rng.random() < 0.6:
        opts["vp_water"] = float(rng.uniform(1300, 1800))
    arr = Z.layout(rng, raw)
    before = arr.copy()
    arg = arr if rng.random() < 0.9 or dt is np.float32 else arr.tolist()
    sf = Z.call(bbox, arg, **opts)
    got = Z.at_nodes(sf, bbox, shape)
    rec.check(np.array_equal(arr, before), "input-modified", "the caller's velocity array was modified", opts=opts, shape=shape)
    rec.count("unchanged_input_checks")
    # ---- the rule
    rtol = 2e-5 if dt is np.float32 else 1e-9
    vel = raw.astype(np.float64) * fac
    vel[mask] = opts.get("vp_water", 1500.0)
    want = np.full(shape, np.inf)
    tol = np.zeros(shape)
    if opts.get("wl", 0):
        want = vel / (opts["wl"] * opts.get("freq", 2.0))
    judged = True
    if grad:
        w = opts.get("stencil_size", 10)
        w = [w] * dim if np.isscalar(w) else list(w)
        var = Z.window_variance(vel, w)
        mx = var.max()
        noise = (1e-15 if dt is np.float64 else 1e-6) * (vel ** 2).max() * np.prod(w) ** 0.5 * 8
        if mx <= 0 or np.ptp(vel) == 0:
            nv = np.zeros(shape)
            judged = "homogeneous"
        else:
            nv = var / mx
            nv = nv - nv.min()
            if noise / mx > 1e-3:
                judged = False
        g = opts["grad"] / (nv + 0.1)
        if judged is True:
            tol = g * (noise / mx) / 0.1 * 2
        want = np.minimum(want, g)
    if not opts.get("wl", 0) and not grad:
        want = np.full(shape, opts["hmin"])
    lo_clip, hi_clip = (want < opts["hmin"]), (want > opts["hmax"])
    want = np.clip(want, opts["hmin"], opts["hmax"])
    if judged == "homogeneous":
        # no variance anywhere: what rounding noise is amplified to is not specified, only the range is
        bound = np.clip(np.minimum(opts["grad"] / 0.1, vel / (opts["wl"] * opts.get("freq", 2.0)) if opts.get("wl") else np.inf), opts["hmin"], opts["hmax"])
        ok = np.isfinite(got) & (got >= opts["hmin"] * (1 - rtol)) & (got <= bound * (1 + rtol))
        rec.check(ok.all(), "gradient-homogeneous", "sizes of a homogeneous model leave the admissible range", opts=opts, got=got.ravel()[:8])
        rec.count("homogeneous_gradient")
    elif judged:
        err = np.abs(got - want)
        bad = ~(err <= rtol * want + tol)
        rec.nassert += got.size
        if bad.any():
            j = np.unravel_index(int(np.argmax(bad)), shape)
            rec.fail("rule", "size at a velocity-model node differs from the documented rule", opts=opts, shape=shape, bbox=bbox, dtype=str(dt.__name__), node=j,
                     velocity=float(vel[j]), water=bool(mask[j]), got=float(got[j]), want=float(want[j]))
    else:
        rec.count("ill_conditioned_gradient")
    rec.check(np.all(np.isfinite(got)) and np.all(got >= opts["hmin"] * (1 - 1e-6)) and np.all(got <= opts["hmax"] * (1 + 1e-6)), "range",
              "sizes leave [hmin, hmax]", opts=opts, lo=float(got.min()), hi=float(got.max()))
    rec.check(sf.hmin == opts["hmin"] and tuple(sf.bbox) == tuple(bbox), "attributes", "hmin or bbox of the sizing function changed")
    again = Z.at_nodes(Z.call(bbox, arg, **opts), bbox, shape)
    rec.check(np.array_equal(again, got), "not-repeatable", "repeating the call gives other sizes", opts=opts)
    # between the nodes: multilinear, for arrays of points and for tuples of coordinate arrays
    X = rng.uniform(bbox[::2], bbox[1::2], (60, dim))
    val, lo, hi = Z.multilinear(got, bbox, X)
    sc = 1e-6 * (hi - lo) + 1e-9 * hi
    a, b = np.asarray(sf.eval(X), float).ravel(), np.asarray(sf.eval(tuple(X.T)), float).ravel()
    rec.check(np.all(np.abs(a - val) <= sc), "between-nodes", "size between the nodes is not the (multi)linear interpolation", bbox=bbox, shape=shape, worst=float(np.abs(a - val).max()))
    rec.check(np.array_equal(a, b), "between-nodes", "points and tuples of coordinates give different sizes")
    rec.count("points_between", len(X))
    # next to the box (where meshing evaluates it as well) it continues: no error, no jump
    Y = X.copy()
    k = rng.integers(dim, size=len(Y))
    st = np.array([(bbox[2 * j + 1] - bbox[2 * j]) / (shape[j] - 1) for j in range(dim)])
    side = rng.integers(2, size=len(Y))
    out = rng.uniform(0, .5, len(Y))
    r_ = np.arange(len(Y))
    Y[r_, k] = np.where(side, np.array(bbox[1::2])[k] + out * st[k], np.array(bbox[0::2])[k] - out * st[k])
    c = np.clip(Y, bbox[::2], bbox[1::2])
    jump = max([0.0] + [float(np.abs(np.diff(got, axis=j)).max()) for j in range(dim)])
    near = Z.multilinear(got, bbox, c)[0]
    o = np.asarray(sf.eval(Y), float).ravel()
    rec.check(np.all(np.isfinite(o)) and np.all(np.abs(o - near) <= out * jump * (1 + 1e-6) + 1e-6 * near), "outside", "the size jumps or is not a number next to the box", worst=float(np.nanmax(np.abs(o - near))), steps=jump)
    rec.count("points_outside", len(Y))
    rec.count("map_coordinates", max(map(abs, bbox)) > 1e5)
    rec.count("nodes", got.size)
    rec.count("with_wl", bool(opts.get("wl")) and not grad)
    rec.count("with_grad", grad and not opts.get("wl"))
    rec.count("with_both", grad and bool(opts.get("wl")))
    rec.count("with_neither", not grad and not opts.get("wl"))
    rec.count("with_water", mask.any())
    rec.count("converted", units != "m-s")
    rec.count("clipped_low", (lo_clip & mask.any() | lo_clip).any())
    rec.count("clipped_high", hi_clip.any())
    if np.ptp(got) > 0:
        rec.distinct(shape, opts, got.ravel()[:5])
    rec.sample = dict(shape=shape, bbox=bbox, opts=opts, water_nodes=int(mask.sum()), sizes=[float(got.min()), float(got.max())])


DEFAULTS = dict(hmin=150.0, hmax=10000.0, wl=0, freq=2.0, grad=0.0, stencil_size=10, grade=0.0, space_order=1, dt=0.0, cr_max=1.0, domain_pad=0.0, units="m-s", vp_water=1500.0)


def defaults(rng, rec, v, bbox):
    """An option left out behaves as if given at its documented default."""
    if rng.random() < .3:
        v.flat[int(rng.integers(v.size))] = 0.0
    given = {}
    if rng.random() < .8:
        given["wl"] = Z.pick(rng, (.01, .05, .5, 2, 5))
    if rng.random() < .4:
        given["freq"] = float(rng.uniform(.5, 5))
    if rng.random() < .4:
        given["grad"] = float(rng.uniform(10, 3000))
    if rng.random() < .4:
        given["grade"] = float(rng.uniform(.05, 10))
    if rng.random() < .5:
        given["dt"] = float(rng.uniform(.01, 1))
        if rng.random() < .5:
            given["cr_max"] = float(rng.uniform(.2, 1.5))
        if rng.random() < .5:
            given["space_order"] = int(rng.integers(1, 5))
    if rng.random() < .4:
        given["domain_pad"] = float(rng.uniform(1, 3)) * max((b - a) / (n - 1) for a, b, n in zip(bbox[::2], bbox[1::2], v.shape))
        given["pad_style"] = Z.pick(rng, ("edge", "linear_ramp", "constant"))
    if rng.random() < .4:
        given["hmin"] = float(rng.uniform(10, 300))
    if rng.random() < .3:
        given["hmax"] = float(rng.uniform(300, 20000))
    a = Z.call(bbox, v, **given)
    b = Z.call(bbox, v, **dict(DEFAULTS, **given))
    lo, hi = np.array(a.bbox[::2]), np.array(a.bbox[1::2])
    X = rng.uniform(lo, hi, (200, v.ndim))
    X = np.vstack([X, np.where(rng.random(X.shape) < .5, lo, hi)])
    x, y = np.asarray(a.eval(X)), np.asarray(b.eval(X))
    rec.nassert += 3
    rec.check(a.bbox == b.bbox and a.hmin == b.hmin and np.array_equal(x, y), "defaults", "leaving options out is not the same as giving their documented defaults", given=given, worst=float(np.abs(x - y).max()))
    rec.count("defaults")
    rec.distinct("defaults", given)


def reject(rng, rec, v, bbox):
    import SeismicMesh as sm
    W = v.copy()
    W.flat[int(rng.integers(W.size))] = Z.pick(rng, (0.0, -5.0))
    neg = -float(rng.uniform(0.01, 50))
    bad = [
        ("unknown-option", v, dict(hmim=10.0)), ("unknown-option", v, dict(wl=5, velocity=1.0)),
        ("wl", v, dict(wl=neg)), ("wl", v, dict(wl=neg, grad=30.0)), ("wl", v, dict(wl=int(np.floor(neg)))),
        ("freq", v, dict(wl=5, freq=neg)),
        ("grad", v, dict(grad=neg)), ("grad", v, dict(grad=neg, wl=5)),
        ("grade", v, dict(wl=5, grade=neg)),
        ("dt", v, dict(wl=5, dt=neg)), ("cr_max", v, dict(wl=5, dt=0.001, cr_max=neg)), ("space_order", v, dict(wl=5, dt=0.001, space_order=neg)),
        ("domain_pad", v, dict(wl=5, domain_pad=neg)), ("pad_style", v, dict(wl=5, domain_pad=60.0, pad_style="mirror")),
        ("vp_water", W, dict(wl=5, vp_water=1299.0)), ("vp_water", W, dict(wl=5, vp_water=1801.0)), ("vp_water", W, dict(wl=5, vp_water=None)),
        ("vp_water", W, dict(vp_water=-1500.0)),
    ]
    for what, vel, kw in bad:
        try:
            Z.call(bbox, vel, **kw)
        except Exception:
            rec.count("rejections")
            rec.nassert += 1
        else:
            rec.fail("accepted:" + what, "invalid argument accepted: %r" % (kw,), opts=kw)
    # valid neighbours of those are accepted
    for vel, kw in [(v, dict(wl=5, vp_water=100.0)), (W, dict(vp_water=1300.0)), (W, dict(vp_water=1800.0)), (v, dict(grad=20.0)), (v, dict(wl=1, dt=0.0))]:
        sf = Z.call(bbox, vel, **kw)
        rec.check(callable(sf.eval), "valid-rejected")
        rec.count("accepted_valid")
    # the callable contract of the SizeFunction itself
    for args in ((list(bbox), lambda p: p, 1.0), (tuple(bbox), 3.0, 1.0)):
        try:
            sm.SizeFunction(*args)
        except Exception:
            rec.count("rejections")
        else:
            rec.fail("accepted:SizeFunction", "malformed SizeFunction accepted")
    rec.distinct("reject", bbox)
