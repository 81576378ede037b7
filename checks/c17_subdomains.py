"""C17: immersed subdomains are resolved by the mesh."""
import numpy as np
from scipy.spatial import cKDTree
from vlib import meshgen as mg, meshes, shapes

PROPERTY = "C17"
RULE = ("one case = one generate_mesh run with one or two immersed shapes (or a batch of six whose averages are judged), compared with an independent description of the "
        "shapes; distinct non-trivial: (dimension, immersed shapes, outer family, sizing, iterations) with at least 8 vertices on the immersed boundary")
BUDGET = {"quick": 120, "thorough": 600}
REQUIRED = ["meshes2", "meshes3", "interface_samples", "interface_vertices", "interface_cells", "two_shapes", "graded", "batches", "control_runs", "outer_probes"]
ASSUMPTIONS = ["immersed shapes are at least three local sizes wide and 1.5 local sizes away from the outer boundary", "at least 15 iterations",
               "bounds are about 1.4 times the worst observed; averages over batches are judged more tightly"]
KINDS = ("scalar2", "graded2", "scalar3", "scalar2", "batch2", "graded2", "two2", "graded3", "batch3", "control2")

# conformity per mesh: (largest gap between interface vertices seen from the interface, its mean, crossing cells, clearly crossing cells, measure low, measure high)
LIM = {(2, "scalar"): (7.5, 2.4, .80, .35, -.40, .10), (2, "graded"): (7.5, 2.5, .88, .62, -.45, .12),
       (3, "scalar"): (2.9, .75, .38, .11, -.16, .22), (3, "graded"): (2.6, .82, .48, .24, -.22, .18)}
# averages over a batch
BLIM = {(2, "scalar"): (3.4, .80, .30, .13, -.17, .04), (2, "graded"): (3.6, 1.15, .48, .28, -.22, .05),
        (3, "scalar"): (1.6, .51, .17, .06, -.11, .13), (3, "graded"): (1.5, .55, .24, .11, -.14, .10)}


def cases(ctx):
    n = 240 if ctx.quick else 7000
    for i in range(n):
        yield dict(kind=KINDS[i % len(KINDS)], i=i, seed=ctx.seed)


def immersed(rng, dim, c, rad):
    k = mg.pick(rng, ("disk", "box", "rotbox", "ellipse") if dim == 2 else ("ball", "box", "cylinder", "ellipse"))
    c = [float(v) for v in c]
    ball = "disk" if dim == 2 else "ball"
    if k in ("disk", "ball"):
        return k, dict(t=ball, x0=c, r=float(rad))
    if k == "ellipse":
        v = rng.normal(size=dim)
        v /= np.linalg.norm(v)
        return k, dict(t=ball, x0=[0.0] * dim, r=float(rad / 1.4), stretch=[float(x) for x in v * 1.4], translate=c)
    if k == "cylinder":
        return k, dict(t="cylinder", h=float(1.2 * rad), r=float(.7 * rad), translate=c)
    w = rng.uniform(.75, 1, dim) * rad / np.sqrt(dim)
    s = dict(t="rectangle" if dim == 2 else "cube", bbox=[float(v) for x in w for v in (-x, x)], translate=c)
    if k == "rotbox":
        s["rotate"] = [float(rng.uniform(-3, 3)), 0.0, 0.0]
    return k, s


FAM = {2: ("disk", "rect", "rotrect", "ellipse", "disks", "lens", "annulus", "ell", "polar", "bite", "twin"), 3: ("ball", "cube", "cylinder", "ellipsoid", "rotcube", "balls", "cubebite", "lens3")}


def setup_problem(rng, dim, kind):
    while True:
        pb = mg.problem(rng, dim, mg.pick(rng, FAM[dim]), (8, 16) if dim == 2 else (5, 7.5))
        sz = mg.sizing(rng, pb, "scalar" if kind == "scalar" else mg.pick(rng, ("radial", "plane")))
        h = sz.get("hmax", sz["h"])
        lo, hi = mg.ref_box(pb["shape"])
        X = rng.uniform(lo, hi, (150, dim))
        D = mg.depth_of(pb, X)
        D, c = D.max(), X[int(np.argmax(D))]
        r = rng.uniform(.5, .65) * D
        if r > 3 * h and D - r > 1.5 * h and mg.estimate(pb, sz) <= 2500:
            return pb, sz, c, r


def measure(rng, p, t, sp, fh, h0):
    """Conformity of a mesh to one immersed shape, in units of the local size."""
    dim = p.shape[1]
    eps = 1e-6 * h0
    D = lambda X: mg.dist(sp, X, eps)
    lo, hi = mg.ref_box(sp)
    Y = rng.uniform(lo, hi, (8000, dim))
    dY = D(Y)
    box = np.prod(hi - lo)
    A, lay = (dY < 0).mean() * box, (np.abs(dY) < .5 * fh(Y)).mean() * box
    X = Y[np.abs(dY) < .6 * fh(Y)][:2500]
    for _ in range(6):
        d = D(X)
        g = np.stack([(D(X + eps * e) - D(X - eps * e)) / (2 * eps) for e in np.eye(dim)], 1)
        X = X - (d / np.maximum((g ** 2).sum(1), .3))[:, None] * g
    X = X[np.abs(D(X)) < 1e-4 * h0]
    d = D(p) / fh(p)
    on = np.abs(d) < .02
    dd = cKDTree(p[on]).query(X)[0] / fh(X) if on.any() else np.full(len(X), 99.0)
    q = d[t]
    near = (q.min(1) < .02) & (q.max(1) > -.02)
    n = max(1, near.sum())
    V = np.abs(meshes.signed_volumes(p, t))
    return dict(on=int(on.sum()), near=int(near.sum()), samples=len(X), gap=float(dd.max()), mean=float(dd.mean()), cross=float(((q.min(1) < -.02) & (q.max(1) > .02)).sum() / n),
                clear=float(((q.min(1) < -.2) & (q.max(1) > .2)).sum() / n), area=float((V[D(p[t].mean(1)) < 0].sum() - A) / lay))


NAMES = ("gap", "mean", "cross", "clear")
TEXT = dict(gap="the interface is %.3g local sizes away from its nearest vertex", mean="the interface is on average %.3g local sizes away from its nearest vertex",
            cross="a fraction of %.3g of the cells at the interface has vertices on both sides", clear="a fraction of %.3g of the cells at the interface has vertices clearly on both sides")


def judge(rec, m, lim, what=""):
    for n, l in zip(NAMES, lim):
        rec.check(m[n] <= l, "interface-" + n, what + TEXT[n] % m[n] + " (allowed %g)" % l, measured=m)
    rec.check(lim[4] <= m["area"] <= lim[5], "interface-measure", what + "the cells inside an immersed shape miss its measure by %.3g of a layer one size thick (allowed %g to %g)" % (m["area"], lim[4], lim[5]), measured=m)


def outer(rec, rng, p, t, pb, sz):
    """The outer domain is still covered by a valid mesh."""
    dim = pb["dim"]
    for k, m, d in meshes.structural_problems(p, t, dim, h=sz["h"], flat_ok=dim == 3):
        rec.fail(k, m, **d)
    lo, hi = mg.ref_box(pb["shape"])
    X = rng.uniform(lo, hi, (1500, dim))
    dX = mg.dist(pb["shape"], X, 1e-6 * sz["h"]) / mg.fh_ref(sz, X)
    X, dX = X[dX < -1.2], dX[dX < -1.2]
    rec.count("outer_probes", len(X))
    if len(X):
        un = ~meshes.locate(p, t, X)
        rec.check(not un.any(), "unmeshed", "a point %.3g local sizes inside the outer domain is not covered" % (-dX[un].min() if un.any() else 0), points=X[un][:3])


def one(rng, rec, dim, kind, two=False):
    pb, sz, c, r = setup_problem(rng, dim, kind)
    S = []
    if two:
        e = rng.normal(size=dim)
        e /= np.linalg.norm(e)
        if .42 * r > 1.8 * sz.get("hmax", sz["h"]):
            S = [immersed(rng, dim, c + e * .58 * r, .42 * r), immersed(rng, dim, c - e * .58 * r, .42 * r)]
            rec.count("two_shapes")
    S = S or [immersed(rng, dim, c, r)]
    kw = dict(verbose=0, max_iter=int(mg.pick(rng, (15, 30, 50, 75))), seed=int(rng.integers(1000)))
    if rng.random() < .15:
        kw["perform_checks"] = dim == 2
    if rng.random() < .15:
        kw["geps_mult"] = float(rng.uniform(.05, .15))
    if rng.random() < .15:
        kw["mesh_improvement"] = bool(rng.random() < .5)
    sub = [shapes.build(s) for _, s in S]
    p, t = mg.run(pb, sz, subdomains=sub if rng.random() < .8 else tuple(sub), **kw)
    outer(rec, rng, p, t, pb, sz)
    rec.count("meshes%d" % dim)
    rec.count("graded", sz["kind"] != "scalar")
    out = []
    for n, s in S:
        m = measure(rng, p, t, s, lambda X: mg.fh_ref(sz, X), sz["h"])
        rec.count("interface_samples", m["samples"])
        rec.count("interface_vertices", m["on"])
        rec.count("interface_cells", m["near"])
        if m["on"] >= 8:
            rec.distinct(dim, n, pb["fam"], sz["kind"], kw["max_iter"], len(S))
        out.append(m)
    return out, pb, sz, kw, S


def run_case(case, rec):
    rng = np.random.default_rng([case["seed"], 117, case["i"]])
    k = case["kind"]
    dim = int(k[-1])
    if k.startswith("batch"):
        kind = mg.pick(rng, ("scalar", "graded"))
        M = []
        for _ in range(6):
            M += one(rng, rec, dim, kind)[0]
        rec.count("batches")
        m = {n: float(np.mean([x[n] for x in M])) for n in NAMES + ("area",)}
        rec.sample = m
        judge(rec, m, BLIM[dim, kind], "average over 6 meshes: ")
        return
    if k.startswith("control"):
        # the same measure on a mesh without the immersed shape must fail: the oracle can tell
        pb, sz, c, r = setup_problem(rng, dim, "scalar")
        n, s = immersed(rng, dim, c, r)
        p, t = mg.run(pb, sz, verbose=0, max_iter=20)
        m = measure(rng, p, t, s, lambda X: mg.fh_ref(sz, X), sz["h"])
        rec.count("control_runs")
        from vlib.harness import HarnessError
        if m["clear"] < .3 and n != "box":
            raise HarnessError("the oracle does not tell a mesh that ignores the immersed shape: %s" % m)
        return
    kind = "scalar" if k.startswith(("scalar", "two")) else "graded"
    M, pb, sz, kw, S = one(rng, rec, dim, kind, two=k.startswith("two"))
    rec.sample = M[0]
    for m in M:
        judge(rec, m, LIM[dim, kind])
