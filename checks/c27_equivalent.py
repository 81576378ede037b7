"""C27: equivalent descriptions of a meshing problem give the same mesh."""
import numpy as np
from scipy.spatial import cKDTree
from vlib import meshgen as mg, shapes, meshes

PROPERTY = "C27"
RULE = ("one case = one problem meshed twice (a batch case: several problems), the second time described differently: in other units (every length times a power of "
        "two), by callables instead of objects, with other container types, or with every option at its documented default; distinct non-trivial: (kind, "
        "dimension, domain family, sizing, options) with at least 20 cells")
BUDGET = {"quick": 120, "thorough": 700}
REQUIRED = ["units2", "units3", "callable_domain", "callable_size", "size_object", "containers", "defaults", "sliver", "vertices", "subdomains", "with_pfix"]
ASSUMPTIONS = ["a change of units is judged up to rounding (1e-5 of the minimum size) and, because rounding decides ties, on batches of 8 problems of which at most a third may differ"]
KINDS = ("units2", "domain", "size", "units3", "containers", "defaults", "units2", "sliver")
BATCH = 8
SMOOTH3 = ("ball", "ellipsoid", "balls")


def cases(ctx):
    n = 240 if ctx.quick else 4000
    for i in range(n):
        yield dict(kind=KINDS[i % len(KINDS)], i=i, seed=ctx.seed)


def scaled(spec, s):
    if "op" in spec:
        d = dict(spec, c=[scaled(c, s) for c in spec["c"]])
        if d.get("k"):
            d["k"] = d["k"] * s
        return d
    out = {}
    for k, v in spec.items():
        if k in ("t", "rotate", "stretch", "n", "a"):
            out[k] = v
        else:
            out[k] = [x * s for x in v] if isinstance(v, list) else v * s
    return out


def same_up_to_rounding(p, t, q, u, s, h):
    if p.shape != q.shape or t.shape != u.shape:
        return False
    d, ix = cKDTree(p * s).query(q)
    return d.max() < 1e-5 * h * s and len(set(ix.tolist())) == len(p) and set(map(tuple, np.sort(ix[u], 1).tolist())) == set(map(tuple, np.sort(t, 1).tolist()))


def subs(pb, rng, dim):
    c = mg.interior_points(rng, pb, 1, .2 * pb["feat"])
    if not len(c):
        return None
    r = max(.5 * mg.depth_of(pb, c)[0], 2.5 * pb["h"])
    return [dict(t="disk" if dim == 2 else "ball", x0=[float(v) for v in c[0]], r=float(r))]


def units(rng, rec, dim):
    differ = []
    for _ in range(BATCH):
        pb, sz = mg.limited(rng, dim, 500 if dim == 2 else 1000, SMOOTH3 if dim == 3 else None)
        kw = mg.options(rng, pb, few=dim == 3)
        kw["verbose"] = 0
        kw.pop("perform_checks", None)
        # another unit, such that the sizes are between about 1e-6 and 1e6
        s = 2.0 ** int(np.round(np.log2(10.0 ** rng.uniform(-5, 6) / pb["S"])))
        pb2 = dict(pb, shape=scaled(pb["shape"], s), h=pb["h"] * s, S=pb["S"] * s)
        sz2 = dict(sz, h=sz["h"] * s)
        if "hmax" in sz:
            sz2.update(hmax=sz["hmax"] * s, c=[x * s for x in sz["c"]])
        kw2 = dict(kw)
        u = rng.random()
        if u < .3:
            X = mg.spread(rng, pb, 4, .8, 1.2, sz)
            if len(X):
                kw["pfix"], kw2["pfix"] = X, X * s
                rec.count("with_pfix")
        elif u < .5 and pb["shape"].get("t") != "polar":
            S = subs(pb, rng, dim)
            if S:
                kw["subdomains"] = [shapes.build(x) for x in S]
                kw2["subdomains"] = [shapes.build(scaled(x, s)) for x in S]
                rec.count("subdomains")
        p, t = mg.run(pb, sz, **kw)
        q, v = mg.run(pb2, sz2, **kw2)
        ok = same_up_to_rounding(p, t, q, v, s, sz["h"])
        rec.nassert += 1
        rec.count("units%d" % dim)
        rec.count("vertices", len(p) + len(q))
        if not ok:
            differ.append(dict(fam=pb["fam"], factor=s, h=sz["h"], vertices=[len(p), len(q)], sizing=sz["kind"], options={a: str(b)[:40] for a, b in kw.items()}))
        if len(t) >= 20:
            rec.distinct("units", dim, pb["fam"], sz["kind"], str(sorted(a for a in kw)))
    rec.count("unit_pairs_differing", len(differ))
    rec.check(len(differ) <= BATCH // 3, "units", "%d of %d meshes are other meshes when all lengths are given in another unit" % (len(differ), BATCH), examples=differ[:4])


def same(rec, key, msg, a, b, **info):
    rec.nassert += 1
    rec.count("vertices", len(a[0]) + len(b[0]))
    ok = a[0].shape == b[0].shape and a[1].shape == b[1].shape and np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1])
    if not ok:
        rec.fail(key, msg, vertices=[len(a[0]), len(b[0])], cells=[len(a[1]), len(b[1])], **info)


def run_case(case, rec):
    import SeismicMesh as sm
    from mpi4py import MPI
    rng = np.random.default_rng([case["seed"], 127, case["i"]])
    k = case["kind"]
    if k.startswith("units"):
        return units(rng, rec, int(k[-1]))
    dim = 2 if rng.random() < .65 and k != "sliver" else 3
    smooth = ("disk", "ellipse", "disks", "lens", "annulus") if dim == 2 else ("ball", "ellipsoid", "balls")
    anyf = tuple(f for f in (mg.FAM2 if dim == 2 else mg.FAM3) if f not in ("polar", "torus"))
    pb, sz = mg.limited(rng, dim, 2000, smooth if k == "domain" else anyf)
    fam = pb["fam"]
    pb = dict(pb, form="shape")
    dom = shapes.build(pb["shape"])
    h = sz["h"]
    kw = mg.options(rng, pb)
    kw.pop("perform_checks", None)
    kw["verbose"] = 0
    info = dict(fam=fam, sizing=sz["kind"], h=h, options=dict(kw))
    eh, k2 = mg.build_sizing(sz)
    tag = (k, dim, fam, sz["kind"], str(sorted(kw)))
    if k == "domain":
        # the function and the box of a shape without corners are all that is used of it
        rec.check(dom.corners is None or len(dom.corners) == 0, "corners", "a smooth shape has corners", fam=fam)
        a = sm.generate_mesh(dom, eh, **dict(k2, **kw))
        b = sm.generate_mesh(lambda x: dom.eval(x), eh, bbox=tuple(dom.bbox), **dict(k2, **kw))
        same(rec, "callable-domain", "the mesh of a shape differs from that of its level-set function and bounding box", a, b, **info)
        rec.count("callable_domain")
    elif k == "size":
        if dim == 3 and fam in ("cube", "rotcube"):     # a box gets its corners with scalar sizings only
            pb, sz = mg.limited(rng, dim, 2500, "ball")
            pb, h = dict(pb, form="shape"), sz["h"]
            dom = shapes.build(pb["shape"])
        if dim == 3 and dom.corners is not None and len(dom.corners):
            dom = sm.Ball([float(v) for v in rng.normal(size=3)], 3 * h)
        a = sm.generate_mesh(dom, h, **kw)
        f = lambda x: np.full(len(x), h)
        b = sm.generate_mesh(dom, f, h0=h, **kw)
        same(rec, "callable-size", "the mesh of a scalar size differs from that of a function returning it", a, b, **info)
        rec.count("callable_size")
        c = sm.generate_mesh(dom, sm.SizeFunction(tuple(dom.bbox), lambda x: np.full(np.shape(x[0]) if isinstance(x, tuple) else len(x), h), h), **kw)
        same(rec, "size-object", "the mesh of a scalar size differs from that of a size function object returning it", a, c, **info)
        rec.count("size_object")
        b = sm.generate_mesh(dom, np.float64(h), **kw)
        same(rec, "scalar-type", "the mesh depends on the type of the scalar size", a, b, **info)
        tag = tag[:2] + (pb["fam"],)
    elif k == "containers":
        X = mg.spread(rng, pb, int(rng.integers(1, 6)), .8, 1.2, sz)
        S = subs(pb, rng, dim) if rng.random() < .5 else None
        u1, u2 = dict(kw), dict(kw)
        if len(X):
            u1["pfix"], u2["pfix"] = np.asfortranarray(X), [tuple(x) for x in X.tolist()]
            rec.count("with_pfix")
        if S:
            u1["subdomains"], u2["subdomains"] = [shapes.build(x) for x in S], tuple(shapes.build(x).eval for x in S)
            u2["bbox"] = tuple(dom.bbox)      # what goes with callables
            rec.count("subdomains")
        a = sm.generate_mesh(dom, eh, **dict(k2, **u1))
        b = sm.generate_mesh(dom, eh, MPI.COMM_WORLD, **dict(k2, **u2))
        same(rec, "containers", "the mesh depends on the container types of the arguments", a, b, fixed=len(X), subdomains=bool(S), **info)
        # the points of a mesh in any layout restart it alike
        P = a[0]
        c = sm.generate_mesh(dom, eh, **dict(k2, **dict(u1, points=P.copy(), max_iter=3)))
        d = sm.generate_mesh(dom, eh, **dict(k2, **dict(u2, points=np.asfortranarray(P), max_iter=3)))
        same(rec, "points-layout", "the mesh depends on the memory layout of the initial points", c, d, **info)
        rec.count("containers")
    elif k == "defaults":
        full = dict(max_iter=50, seed=0, perform_checks=False, pfix=None, axis=1, points=None, delta_t=0.30, geps_mult=0.1, subdomains=None, mesh_improvement=True, r0m_is_h0=False)
        some = {a: full[a] for a in full if rng.random() < .5}
        a = sm.generate_mesh(dom, eh, **dict(k2, verbose=0))
        b = sm.generate_mesh(dom, eh, **dict(k2, verbose=0, **(full if rng.random() < .5 else some)))
        same(rec, "defaults", "leaving options out is not the same as giving them their documented defaults", a, b, given=sorted(some), **info)
        rec.count("defaults")
    else:
        kw["max_iter"] = min(kw["max_iter"], 15)
        p, t = mg.run(pb, sz, **kw)
        rec.check(len(t) > 0, "empty", "no cells")
        o = dict(verbose=0, max_iter=int(rng.integers(2, 30)))
        if rng.random() < .5:
            o["min_dh_angle_bound"] = float(rng.uniform(5, 15))
        P0 = p.copy()
        a = sm.sliver_removal(p.copy(), dom, eh, **dict(k2, **o))
        b = sm.sliver_removal(np.asfortranarray(p), lambda x: dom.eval(x), eh, MPI.COMM_WORLD, bbox=tuple(dom.bbox), **dict(k2, **o))
        same(rec, "sliver-forms", "sliver removal depends on how the domain and the points are given", a, b, **info)
        if sz["kind"] == "scalar":
            c = sm.sliver_removal(p.copy(), dom, lambda x: np.full(len(x), h), h0=h, **o)
            same(rec, "sliver-size", "sliver removal depends on how the size is given", a, c, **info)
        d = sm.sliver_removal(P0, dom, eh, **dict(k2, **dict(dict(min_dh_angle_bound=10.0, max_dh_angle_bound=180.0, geps_mult=0.1, perform_checks=False, preserve=False), **o)))
        same(rec, "sliver-defaults", "leaving options of sliver removal out is not the same as giving them their defaults", a, d, **info)
        rec.count("sliver")
    rec.distinct(*tag)
