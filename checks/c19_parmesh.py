"""C19: parallel meshes are as valid as serial ones."""
import numpy as np
from checks import c10_structure, c11_domain, c14_sizes
from vlib import meshes, meshgen as mg, parprob, vmpi

PROPERTY = "C19"
RULE = ("one case = one parallel meshing request (virtual MPI world, adversarial schedule) whose mesh is judged by the structural, domain and size oracles of the serial checks "
        "and around the interfaces of the ranks; distinct non-trivial: (dimension, size, axis, kind, sizing, iterations, order of magnitude of the vertex count)")
BUDGET = {"quick": 110, "thorough": 800}
REQUIRED = ["meshes2", "meshes3", "cells", "ranks", "interface_probes", "interface_edges", "restarts", "segy", "general", "chains", "axis_options", "serial_compared", "judged_sizes", "resize"]
ASSUMPTIONS = ["every rank's part is at least about 11 local sizes thick along the decomposition axis when there are more than two ranks (thinner parts: recorded defect thin-slab-overlap)",
               "corners and fixed points are only constrained by serial runs, so boxes may lose part of their edges in parallel (domain bounds 1.6 times those of C11)",
               "at least ten iterations: before that exactly cospherical lattice points are triangulated differently by the ranks that share them"]
KINDS = ("slab2", "slab3", "chain2", "restart2", "general2", "slab2", "segy2", "restart3", "chain3", "slab2", "general3", "slab3", "segy3", "slab2", "thin2", "restart2", "slab3", "chain2")


def cases(ctx):
    n = 324 if ctx.quick else 7000
    for i in range(n):
        yield dict(kind=KINDS[i % len(KINDS)], i=i, seed=ctx.seed)


def world(rec, size, fn, rng):
    w = vmpi.run(size, fn, strategy=vmpi.STRATEGIES[int(rng.integers(8))], delivery=("mixed", "rendezvous", "eager", "size")[int(rng.integers(4))], seed=int(rng.integers(1 << 30)))
    for k, m in w.problems:
        rec.fail(k, m)
    for r, e in enumerate(w.error):
        if e is not None and not isinstance(e, vmpi.Aborted):
            rec.fail("rank-error", "rank %d of %d fails with %s: %s" % (r, size, type(e).__name__, str(e)[:200]))
    if w.problems or any(e is not None for e in w.error):
        return None
    rec.count("ranks", size)
    return w.result[0]


def judge(rec, p, t, shape, dim, h0, fh, rng, size, axis, tag, iters, lims=None, graded=False):
    if not c10_structure.judge(rec, p, t, dim, h0, rng, tag):
        return
    lo, hi = mg.ref_box(shape)
    if lims is None:
        lims = np.linspace(lo[axis], hi[axis], size + 1)[1:-1]
    # bands around the interfaces: covered, and with cells and edges like elsewhere
    c11_domain.judge(rec, p, t, shape, dim, h0, fh, rng, False, tag, 1.6)
    X = rng.uniform(lo, hi, (400 * len(lims), dim))
    X[:, axis] = np.repeat(lims, 400)
    X[:, axis] += rng.normal(size=len(X)) * fh(X)
    d = mg.dist(shape, X, 1e-6 * h0) / fh(X)
    X, d = X[d < -.9], d[d < -.9]
    rec.count("interface_probes", len(X))
    if len(X):
        un = ~meshes.locate(p, t, X)
        rec.check(not un.any(), "interface-gap", "%d of %d points next to rank interfaces are not covered" % (un.sum(), len(X)), point=X[un][:1])
    if iters >= 20:
        L, M, e = c14_sizes.edge_lengths(p, t)
        near = np.abs(M[:, axis][:, None] - lims).min(1) < 2 * fh(M)
        r = L / fh(M)
        k = int(near.sum())
        rec.count("interface_edges", k)
        if k >= 80 and (~near).sum() >= 80:
            a, b = r[near].mean(), r[~near].mean()
            rec.check(.8 < a / b < 1.25, "interface-size", "edges next to rank interfaces are %.3f sizes long on average, elsewhere %.3f" % (a, b))
            q = np.quantile(r[near], (.02, .98)) / b
            rec.check(q[0] > .25 and q[1] < 1.9, "interface-size", "edges next to rank interfaces scatter: 2%% are below %.3f or above %.3f of the mean" % tuple(q))
    if iters >= 30 and fh(p).min() < 1.05 * h0:
        rec.count("judged_sizes")
        c14_sizes.judge(rec, p, t, dim, fh, h0, tag, graded)


def run_case(case, rec):
    i, k = case["i"], case["kind"]
    rng = np.random.default_rng([case["seed"], 119, i])
    dim = int(k[-1])
    size = int(rng.choice([2, 2, 3, 3, 4, 5])) if dim == 2 else int(rng.choice([2, 3, 3, 4]))
    axis = int(rng.integers(dim))
    it = int(rng.choice([10, 15, 20, 40])) if dim == 2 else int(rng.choice([10, 15, 30]))
    kw = dict(verbose=0, seed=int(rng.integers(0, 1000)), max_iter=it, axis=axis)
    if rng.random() < .2:
        kw["r0m_is_h0"] = True
    rec.count("axis_options", axis != 0)
    if k.startswith("segy"):
        import SeismicMesh as sm
        d = mg.segy_problem(rng, dim)
        dom, ef = mg.segy_build(d)
        bb = np.array(d["bbox"]).reshape(-1, 2)
        bb += d["pad"] * np.array([[-1, 1]])
        bb[0, 1] = d["bbox"][1]       # padded everywhere but at the top
        axis = kw["axis"] = int(np.argmax(bb[:, 1] - bb[:, 0]))
        m = world(rec, 2, lambda c: sm.generate_mesh(dom, ef, c, **kw), rng)
        if m is None:
            return
        rec.count("segy")
        shape = dict(t="rectangle" if dim == 2 else "cube", bbox=[float(v) for v in bb.ravel()])
        judge(rec, m[0], m[1], shape, dim, d["hmin"], lambda X: np.asarray(ef.eval(X)).ravel(), rng, 2, axis, ("segy", axis, kw["max_iter"]), kw["max_iter"], graded=True)
        return
    skind = ["scalar", "radial", "plane"][int(rng.integers(3))]
    ratio = 1.0 if skind == "scalar" else float(rng.uniform(1.3, 1.8 if dim == 2 else 1.4))
    th = (rng.uniform(11, 24) if dim == 2 else rng.uniform(11, 14)) * ratio
    if k.startswith("thin"):
        th, size = rng.uniform(4, 7), int(rng.integers(3, 5))
    if k.startswith("general"):
        size = 2
        pb, sz = mg.limited(rng, dim, 1500)
        lo, hi = mg.ref_box(pb["shape"])
        axis = kw["axis"] = int(np.argmax(hi - lo))
        rec.count("general")
    elif k.startswith("chain"):
        pb = parprob.chain(rng, dim, size, axis, th)
        sz = parprob.graded(rng, pb, skind, ratio, .1)
        rec.count("chains")
    else:
        pb = parprob.slab(rng, dim, size, axis, th)
        sz = parprob.graded(rng, pb, skind, ratio, .1)
    fh = lambda X: mg.fh_ref(sz, X)
    tag = (k, size, axis, sz["kind"], kw["max_iter"])
    lims = None
    if k.startswith("restart"):
        p0, t0 = mg.run(pb, sz, verbose=0, max_iter=20, seed=kw["seed"])
        P0 = np.array(p0)
        lims = np.linspace(p0[:, axis].min(), p0[:, axis].max(), size + 1)[1:-1]
        m = world(rec, size, lambda c: mg.run(pb, sz, comm=c, points=P0.copy(), **kw), rng)
        rec.count("restarts")
    else:
        m = world(rec, size, lambda c: mg.run(pb, sz, comm=c, **kw), rng)
    if m is None:
        return
    p, t = m
    if k.startswith("thin"):
        pr = meshes.structural_problems(p, t, dim, h=sz["h"], flat_ok=dim == 3)
        ov = [] if pr else meshes.overlap_problems(p, t, rng, sz["h"], dim)
        rec.count("thin")
        if pr or ov:
            rec.fail("thin-slab-overlap", "with %d ranks whose parts are %.1f sizes thick the mesh is invalid: %s" % (size, th, pr[0][1] if pr else "%d pairs of cells overlap" % len(ov)))
        return
    judge(rec, p, t, pb["shape"], dim, sz["h"], fh, rng, size, axis, tag, kw["max_iter"], lims, sz["kind"] != "scalar")
    rec.sample = dict(kind=k, size=size, vertices=len(p), cells=len(t), sizing=sz["kind"], iterations=kw["max_iter"])
    if k.startswith("restart"):
        rec.check(.93 < len(p) / len(p0) < 1.07, "restart-count", "a restart from %d points returns %d vertices" % (len(p0), len(p)))
    elif rng.random() < .5:
        q, _ = mg.run(pb, sz, **kw)
        rec.count("serial_compared")
        a, b = ((.85, 1.15) if dim == 2 else (.75, 1.25)) if skind == "scalar" and not k.startswith("general") else (.7, 1.4)
        rec.check(a < len(p) / len(q) < b, "serial-count", "%d vertices in parallel, %d in serial" % (len(p), len(q)))
    if k.startswith("slab") and rng.random() < .3:
        # continue with another number of ranks
        P0 = np.array(p)
        n2 = int(rng.integers(2, size + 1))
        m = world(rec, n2, lambda c: mg.run(pb, sz, comm=c, points=P0.copy(), **kw), rng)
        rec.count("resize")
        if m is not None:
            lims = np.linspace(P0[:, axis].min(), P0[:, axis].max(), n2 + 1)[1:-1]
            judge(rec, m[0], m[1], pb["shape"], dim, sz["h"], fh, rng, n2, axis, ("resize",) + tag, kw["max_iter"], lims, sz["kind"] != "scalar")
