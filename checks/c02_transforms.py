"""C02: transformed shapes take the value of the base shape at the image of every point; caller arrays stay untouched."""
import numpy as np
from vlib import shapes as S

PROPERTY = "C02"
RULE = ("one case = one base shape with a random stretch/rotation/translation combination, probed at ~900 points; distinct "
        "non-trivial: transformed specs (at least one transform) with points inside and outside the base shape")
BUDGET = {"quick": 25, "thorough": 400}
REQUIRED = ["points", "with_stretch", "with_rotation", "with_translation", "multi_axis_rotation", "argument_checks"]
ASSUMPTIONS = ["rounding tolerance 1e-8 of the coordinate scale"]


def cases(ctx):
    n = 700 if ctx.quick else 14000
    kinds = S.BASE2 + S.BASE3
    for i in range(n):
        yield dict(kind=kinds[i % 7], i=i, seed=ctx.seed)


def run_case(case, rec):
    rng = np.random.default_rng([case["seed"], 102, case["i"]])
    base = S.base_spec(rng, case["kind"])
    dim = S.dim_of(base)
    spec = dict(base, **S.transform_spec(rng, dim, S.scale_of(base)))
    Q = S.base_points(rng, base, 200)
    P = S.image(spec, Q)
    style = S.pick(rng, ("list", "np", "np", "tuple"))
    passed = []
    g0 = S.build(base)
    g = S.build(spec, style, passed)
    sc = S.scale_of(spec) + np.abs(P).max(1) + np.abs(Q).max(1)
    v0, P0 = np.asarray(g0.eval(Q)), P.copy()
    v = np.asarray(g.eval(P))
    rec.check(np.array_equal(P, P0), "query-modified", "evaluation modified the query points", spec=spec)
    err = np.abs(v - v0)
    j = int(np.argmax(err / sc))
    rec.check(err[j] <= 1e-8 * sc[j], "not-an-image", "value at the image point differs from the base value", spec=spec, style=style,
              base_point=Q[j], image_point=P[j], base_value=float(v0[j]), value=float(v[j]))
    for name, a, copy in passed:
        rec.count("argument_checks")
        rec.check(list(a) == copy, "argument-modified:" + name, "construction or evaluation modified the caller's %s" % name, spec=spec,
                  before=copy, after=list(a))
    # the same arguments give the same shape again (re-using the very same argument objects)
    kw = {}
    for name, a, _ in passed:
        kw[name] = a
    again = _rebuild(spec, kw)
    v2 = np.asarray(again.eval(P))
    rec.check(np.allclose(v2, v, rtol=0, atol=1e-12 * sc.max()) and np.allclose(again.bbox, g.bbox, rtol=1e-12, atol=1e-12 * sc.max()),
              "rebuild-differs", "building the same shape twice from the same argument objects gives another shape", spec=spec, style=style)
    v3 = np.asarray(g.eval(P))
    rec.check(np.allclose(v3, v, rtol=0, atol=1e-12 * sc.max()), "eval-not-pure", "evaluating twice gives different values", spec=spec)
    # a default shape built afterwards is not rotated (shared default arguments)
    rec.check(np.allclose(np.asarray(S.build(base).eval(Q)), v0, rtol=0, atol=1e-12 * sc.max()), "default-polluted",
              "a default-constructed shape changed after building a transformed one", spec=spec)
    rec.count("points", len(P))
    rec.count("with_stretch", "stretch" in spec)
    rec.count("with_translation", "translate" in spec)
    rot = spec.get("rotate")
    rec.count("with_rotation", bool(rot and any(rot[: 1 if dim == 2 else 3])))
    rec.count("multi_axis_rotation", bool(rot and dim == 3 and sum(1 for a in rot if a) > 1))
    if len(spec) > len(base) and (v0 < 0).any() and (v0 > 0).any():
        rec.distinct(spec)
    rec.sample = dict(spec=spec, points=len(P), max_relative_error=float((err / sc).max()))


def _rebuild(spec, kw):
    import SeismicMesh as sm
    t = spec["t"]
    kw = dict(kw)
    x0 = kw.pop("x0", None)
    if t in ("disk", "ball"):
        return (sm.Disk if t == "disk" else sm.Ball)(x0, spec["r"], **kw)
    if t in ("rectangle", "cube"):
        return (sm.Rectangle if t == "rectangle" else sm.Cube)(tuple(spec["bbox"]), **kw)
    if t == "cylinder":
        return sm.Cylinder(spec["h"], spec["r"], **kw)
    if t == "torus":
        return sm.Torus(spec["r1"], spec["r2"], **kw)
    return sm.Prism(spec["b"], spec["h"], **kw)
