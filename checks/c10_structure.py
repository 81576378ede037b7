"""C10: structural validity of generated meshes."""
import numpy as np
from vlib import meshgen as mg, meshes

PROPERTY = "C10"
RULE = ("one case = one or two generate_mesh runs (second one restarted from the first one's points) judged by the structural oracle; "
        "distinct non-trivial: (dimension, domain family, sizing kind, options, order of magnitude of the vertex count) with at least 20 cells")
BUDGET = {"quick": 150, "thorough": 800}
REQUIRED = ["meshes2", "meshes3", "cells", "interior_facets", "overlap_probes", "restarted", "with_subdomains", "with_pfix", "few_iterations", "linted", "segy", "large2", "large3"]
ASSUMPTIONS = ["domains are resolved by the mesh size (radius, width or gap at least 3 to 5 sizes)", "3D meshes straight from generation contain slivers: a cell whose volume is zero within rounding has no orientation"]
KINDS = ("plain2", "few2", "plain2", "restart2", "pfix2", "sub2", "segy2", "plain3", "plain2", "few3", "restart3", "sub3", "cloud2", "segy3", "pfix3", "plain3")


def cases(ctx):
    n = 800 if ctx.quick else 14000
    for i in range(n):
        k = KINDS[i % len(KINDS)]
        if i in (7, 20) or i % 400 in (207, 220):
            k = "large3" if i % 2 else "large2"
        yield dict(kind=k, i=i, seed=ctx.seed)


def judge(rec, p, t, dim, h, rng, tag=()):
    rec.count("meshes%d" % dim)
    rec.count("cells", len(t))
    pr = meshes.structural_problems(p, t, dim, h=h, flat_ok=dim == 3)
    rec.nassert += 10
    for k, m, d in pr:
        rec.fail(k, m, **d)
    if any(k in ("shape", "empty", "not-finite", "index-range", "index-type", "repeated-index") for k, _, _ in pr):
        return False
    rec.count("interior_facets", (len(t) * (dim + 1) - len(meshes.boundary_faces(t))) // 2)
    ov = meshes.overlap_problems(p, t, rng, h, dim)
    rec.count("overlap_probes", 2 * len(t))
    # recorded defect: boundary cells on the two sides of a crevice
    bv = np.unique(np.array(sorted(meshes.boundary_faces(t))))
    touch = np.isin(t, bv).any(1)
    crev = [o for o in ov if touch[o[0]] and touch[o[1]] and o[2] < .25]
    if crev and len(crev) <= 3 + .01 * len(t):
        rec.fail("crevice-overlap", "%d pairs of boundary cells overlap" % len(crev), worst=crev[:3])
        ov = [o for o in ov if o not in crev]
    rec.check(not ov, "overlap", "%d pairs of cells overlap" % len(ov), worst=ov[:3])
    if len(t) >= 20:
        rec.distinct(dim, int(np.log2(len(p))), *tag)
    return True


def large(rng, rec, dim):
    """More vertices than fit in 16 bits; the extent of overlaps is bounded by the total area."""
    import SeismicMesh as sm
    s = float(10.0 ** rng.uniform(-2, 4))
    if dim == 2:
        h = 0.0066 * s
        dom, size = (sm.Disk([0.0, s], s), np.pi * s * s) if rng.random() < .5 else (sm.Rectangle((0.0, s, -2 * s, s)), 3 * s * s)
    else:
        h = 0.0255 * s
        dom, size = (sm.Cube((0.0, s, 0.0, s, -s, 0.0)), s ** 3) if rng.random() < .5 else (sm.Ball([s, 0.0, 0.0], .62 * s), 4 / 3 * np.pi * (.62 * s) ** 3)
    p, t = sm.generate_mesh(dom, h, max_iter=int(rng.integers(2, 4)), verbose=0, seed=int(rng.integers(1 << 30)))
    rec.count("large%d" % dim)
    rec.count("cells", len(t))
    for k, m, d in meshes.structural_problems(p, t, dim, h=h, flat_ok=dim == 3):
        rec.fail(k, m, **d)
    rec.nassert += 11
    a = np.abs(meshes.signed_volumes(p, t)).sum() if len(t) and t.max() < len(p) else np.nan
    rec.check(.97 * size < a < 1.03 * size, "large-cover", "the cells do not add up to the domain", cells=float(a), domain=float(size), vertices=len(p))
    rec.distinct(dim, int(np.log2(len(p))), "large")


def run_case(case, rec):
    rng = np.random.default_rng([case["seed"], 110, case["i"]])
    k = case["kind"]
    dim = int(k[-1])
    if k.startswith("large"):
        return large(rng, rec, dim)
    if k.startswith("segy"):
        import SeismicMesh as sm
        d = mg.segy_problem(rng, dim)
        dom, ef = mg.segy_build(d)
        kw = mg.options(rng, None)
        p, t = sm.generate_mesh(dom, ef, **kw)
        judge(rec, p, t, dim, d["hmin"], rng, ("segy", d["pad"] > 0, str(sorted(kw.items()))))
        rec.count("segy")
        return
    pb, sz = mg.limited(rng, dim, 4000 if dim == 2 else 2500 if case["i"] % 5 else 6000)
    kw = mg.options(rng, pb, few=k.startswith("few"))
    if dim == 3 and kw.get("perform_checks") and mg.estimate(pb, sz) > 800:
        kw.pop("perform_checks")      # linting takes minutes
    if k.startswith("sub"):
        pb = dict(pb, form="shape" if pb["fam"] != "polar" else "callable")
        c = mg.interior_points(rng, pb, 1, .2 * pb["feat"])
        if len(c):
            import SeismicMesh as sm
            r = .5 * mg.depth_of(pb, c)[0]
            kw["subdomains"] = [(sm.Disk if dim == 2 else sm.Ball)([float(v) for v in c[0]], float(max(r, 2.5 * pb["h"])))]
            rec.count("with_subdomains")
    if k.startswith("pfix"):
        X = mg.spread(rng, pb, int(rng.integers(1, 8)), .8, 1.2, sz)
        kw["pfix"] = X if rng.random() < .5 else X.tolist()
        rec.count("with_pfix", len(X) > 0)
        if not len(X):
            kw.pop("pfix")
    if k.startswith("cloud"):
        # a user-supplied point cloud: random points in the domain plus coincident ones
        X = mg.interior_points(rng, pb, int(rng.integers(30, 400)), 0.0)
        if rng.random() < .5:
            X = np.vstack([X, X[rng.integers(len(X), size=5)]])
        kw["points"] = X
        kw["max_iter"] = max(kw["max_iter"], 8)
    p, t = mg.run(pb, sz, **kw)
    tag = (pb["fam"], sz["kind"], str(sorted((a, str(b)[:12]) for a, b in kw.items() if a not in ("seed", "points", "pfix", "subdomains"))))
    judge(rec, p, t, dim, sz["h"], rng, tag)
    rec.count("few_iterations", k.startswith("few"))
    rec.count("linted", bool(kw.get("perform_checks")))
    rec.sample = dict(fam=pb["fam"], vertices=len(p), cells=len(t), sizing=sz["kind"])
    if k.startswith("restart"):
        kw2 = dict(kw, points=p, max_iter=int(rng.choice([1, 2, 10])), verbose=0)
        p2, t2 = mg.run(pb, sz, **kw2)
        judge(rec, p2, t2, dim, sz["h"], rng, ("restart",) + tag)
        rec.count("restarted")
