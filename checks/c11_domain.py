"""C11: generated meshes represent the requested domain."""
import numpy as np
from vlib import meshgen as mg, meshes

PROPERTY = "C11"
RULE = ("one case = one generate_mesh run (or a restarted one) compared with an independent description of its domain by probing vertices, centroids and "
        "random points; distinct non-trivial: (dimension, family, sizing, options, order of magnitude of the vertex count)")
BUDGET = {"quick": 150, "thorough": 800}
REQUIRED = ["meshes2", "meshes3", "vertices", "boundary_vertices", "probes", "probes_inside", "probes_outside", "segy", "padded", "smooth_domains", "restarted", "in_larger_model", "improved_in_larger_model"]
ASSUMPTIONS = ["domains are resolved by the mesh size", "at least 15 iterations", "distance near the boundary is measured to first order (value over gradient) of an independent level set",
               "bounds are about twice the worst observed on the unchanged tree over thousands of runs"]
KINDS = ("plain2", "plain2", "segy2", "plain3", "plain2", "smooth2", "sub2", "restart2", "plain3", "smooth3", "big2", "segy3", "inmodel2", "inmodel3")
SMOOTH2 = ("disk", "annulus", "polar", "ellipse")
SMOOTH3 = ("ball", "torus", "ellipsoid")
CONVEX = ("disk", "rect", "cube", "rotrect", "ball", "ellipse", "ellipsoid", "rotcube", "cylinder", "lens", "lens3")


def cases(ctx):
    n = 900 if ctx.quick else 14000
    for i in range(n):
        yield dict(kind=KINDS[i % len(KINDS)], i=i, seed=ctx.seed)


def judge(rec, p, t, shape, dim, h0, fh, rng, smooth, tag, loose=1.0, nprobe=4000):
    rec.count("meshes%d" % dim)
    eps = 1e-6 * h0
    D = lambda X: mg.dist(shape, X, eps)
    d = D(p)
    hp = fh(p)
    rec.count("vertices", len(p))
    rec.distinct(dim, int(np.log2(len(p))), *tag)
    tight = smooth
    # vertices lie in the domain
    tol = (1e-3 if tight or dim == 2 else 0.5) * (loose if loose == 1 or dim == 3 else 60)
    e = d / (h0 if dim == 2 else hp)
    i = int(np.argmax(e))
    rec.check(e[i] <= tol, "vertex-outside", "a vertex lies %.3g sizes outside the domain (allowed %g)" % (e[i], tol), vertex=p[i])
    if dim == 3 and not tight:
        rec.check(np.mean(d > 0.01 * h0) <= 0.1, "vertices-outside", "%.1f%% of the vertices lie outside the domain" % (100 * np.mean(d > .01 * h0)))
    # centroids lie in the domain
    c = p[t].mean(1)
    dc = D(c)
    i = int(np.argmax(dc))
    rec.check(dc[i] <= (1e-3 if dim == 2 else 0.02) * (1 if loose == 1 else 4) * h0, "cell-outside", "the centroid of a cell lies %.3g minimum sizes outside the domain" % (dc[i] / h0), centroid=c[i])
    # boundary vertices lie on the zero level set
    bv = np.unique(np.array(sorted(meshes.boundary_faces(t))))
    rec.count("boundary_vertices", len(bv))
    b = np.abs(d[bv]) / hp[bv]
    off = float(np.mean(b > 0.01))
    lim = (0.04 if tight else 0.12) if dim == 2 else 0.10
    rec.check(off <= lim + 2.5 / len(bv), "boundary-off", "%.1f%% of the boundary vertices are off the boundary" % (100 * off), quantiles=np.quantile(b, (.5, .9, 1)))
    rec.check(b.max() <= 1.3 * loose, "boundary-far", "a boundary vertex is %.3g local sizes away from the boundary" % b.max(), vertex=p[bv[np.argmax(b)]])
    # coverage
    lo, hi = mg.ref_box(shape)
    m = 1.5 * fh(np.array([(lo + hi) / 2]))[0]
    X = np.vstack([rng.uniform(lo - m, hi + m, (nprobe, dim)), p.min(0) + rng.random((200, dim)) * (p.max(0) - p.min(0))])
    dX, hX = D(X), fh(X)
    cov = meshes.locate(p, t, X)
    inn = dX < 0
    rec.count("probes", len(X))
    rec.count("probes_inside", int(inn.sum()))
    rec.count("probes_outside", int((~inn).sum()))
    un = (-dX / hX) * (inn & ~cov)
    ex = (dX / hX) * (~inn & cov)
    lu, le = ((0.45, 0.3) if tight else (0.9, 0.6)) if dim == 2 else ((0.45, 0.15) if tight else (1.2, 0.45))
    lu, le = lu * loose, le * loose
    i = int(np.argmax(un))
    rec.check(un[i] <= lu, "unmeshed", "a point %.3g local sizes inside the domain is not covered" % un[i], point=X[i])
    i = int(np.argmax(ex))
    rec.check(ex[i] <= le, "meshed-outside", "a point %.3g local sizes outside the domain is covered" % ex[i], point=X[i])
    band = np.abs(dX) < hX / 2
    nb = int(band.sum())
    if nb >= 60:
        fu, fe = (inn & ~cov).sum() / nb, (~inn & cov).sum() / nb
        s = 4 * np.sqrt(.1 / nb)
        rec.check(fu <= (.06 if dim == 2 else .12) + s, "uncovered-band", "%.1f%% of the boundary layer is not covered" % (100 * fu))
        rec.check(fe <= (.03 if dim == 2 else .02) + s, "excess-band", "%.1f%% of the boundary layer is covered from outside" % (100 * fe))
    # measure
    V = np.abs(meshes.signed_volumes(p, t)).sum()
    box = np.prod(hi - lo + 2 * m)
    k = nprobe
    f = inn[:k].mean()
    est, se = f * box, box * np.sqrt(max(f * (1 - f), 1e-9) / k)
    lay = band[:k].mean() * box
    rec.check(V <= est + 5 * se + .04 * lay, "measure", "cells measure %.4g, the domain %.4g" % (V, est))
    rec.check(V >= est - 5 * se - .14 * lay, "measure", "cells measure %.4g, the domain %.4g" % (V, est))


def inmodel(rec, rng, pb, sz, kw, dim):
    import SeismicMesh as sm
    dom, k1 = mg.build_domain(pb)
    box = isinstance(dom, (sm.Rectangle, sm.Cube))
    if box and not np.any(dom.rotation):
        return None         # a box is taken for the model that padding extends
    bb = k1.get("bbox", getattr(dom, "bbox", None))
    h = sz["h"]
    ext = np.ptp(np.reshape(bb, (dim, 2)), axis=1)
    big = tuple(float(v + (1, -1)[i % 2 == 0] * ext[i // 2] * rng.choice([0.0, rng.uniform(0, .4)])) for i, v in enumerate(bb))
    eh, _ = mg.build_sizing(sz)
    ef = sm.SizeFunction(big, eh if callable(eh) else lambda x: np.full(len(x), h), h)
    args = dict(k1, **kw)
    return sm.generate_mesh(dom, ef, **args), lambda p: sm.sliver_removal(p, dom, ef, verbose=0, max_iter=3, **k1)


def run_case(case, rec):
    rng = np.random.default_rng([case["seed"], 111, case["i"]])
    k = case["kind"]
    dim = int(k[-1])
    if k.startswith("segy"):
        d = mg.segy_problem(rng, dim)
        dom, ef = mg.segy_build(d)
        import SeismicMesh as sm
        kw = mg.options(rng, None)
        kw["max_iter"] = max(15, kw["max_iter"])
        kw.pop("perform_checks", None)
        p, t = sm.generate_mesh(dom, ef, **kw)
        w = d["pad"]
        bb = list(d["bbox"])
        for a in range(dim):      # padded everywhere but at the top
            bb[2 * a] -= w
            if a:
                bb[2 * a + 1] += w
        shape = dict(t="rectangle" if dim == 2 else "cube", bbox=bb)
        judge(rec, p, t, shape, dim, d["hmin"], lambda X: np.asarray(ef.eval(X)), rng, False, ("segy", w > 0, d["style"] if w else ""))
        rec.count("segy")
        rec.count("padded", w > 0)
        return
    nmax = 4000 if dim == 2 else 2500
    fam = None
    if k.startswith("smooth"):
        fam = mg.pick(rng, SMOOTH2 if dim == 2 else SMOOTH3)
    pb, sz = mg.limited(rng, dim, 15000 if k.startswith("big") else nmax, fam, fine=(25, 50) if k.startswith("big") else None)
    kw = mg.options(rng, pb)
    kw["max_iter"] = max(kw["max_iter"], 15)
    if dim == 3 or len(pb["fam"]) == 0:
        kw.pop("perform_checks", None)
    fh = lambda X: mg.fh_ref(sz, X)
    if k.startswith("sub"):
        c = mg.interior_points(rng, pb, 1, .3 * pb["feat"])
        if len(c):
            import SeismicMesh as sm
            kw["subdomains"] = [(sm.Disk if dim == 2 else sm.Ball)([float(v) for v in c[0]], float(.5 * mg.depth_of(pb, c)[0]))]
    if k.startswith("inmodel"):
        # the size is known in a model that is larger than the domain: the domain stays what it is
        pb = dict(pb, form="shape" if pb["fam"] != "polar" else "callable")
        sl = inmodel(rec, rng, pb, sz, kw, dim)
        if sl is None:
            return
        (p, t), improve = sl
    else:
        p, t = mg.run(pb, sz, **kw)
    rec.sample = dict(fam=pb["fam"], vertices=len(p), cells=len(t), sizing=sz["kind"])
    smooth = pb["fam"] in (SMOOTH2 if dim == 2 else SMOOTH3)
    rec.count("smooth_domains", smooth)
    tag = (pb["fam"], sz["kind"], str(sorted((a, str(b)[:6]) for a, b in kw.items() if a not in ("seed", "subdomains"))))
    judge(rec, p, t, pb["shape"], dim, sz["h"], fh, rng, smooth, tag)
    if k.startswith("inmodel"):
        rec.count("in_larger_model")
        if dim == 3:
            q, u = improve(p)
            d = mg.dist(pb["shape"], q[u].mean(1), 1e-6 * sz["h"])
            rec.check(d.max() <= .3 * sz["h"], "improved-outside", "sliver removal returned a cell %.3g sizes outside the domain" % (d.max() / sz["h"]))
            a, b = np.abs(meshes.signed_volumes(q, u)).sum(), np.abs(meshes.signed_volumes(p, t)).sum()
            rec.check(.7 * b < a < 1.3 * b, "improved-measure", "sliver removal changed the volume from %.4g to %.4g" % (b, a))
            rec.count("improved_in_larger_model")
    if k.startswith("restart"):
        p, t = mg.run(pb, sz, **dict(kw, points=p, max_iter=15))
        judge(rec, p, t, pb["shape"], dim, sz["h"], fh, rng, smooth, ("restart",) + tag)
        rec.count("restarted")
