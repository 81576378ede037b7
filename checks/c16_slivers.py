"""C16: sliver removal only returns success when no slivers remain."""
import numpy as np
from scipy.spatial import Delaunay
from vlib import exact, meshgen as mg, meshes

PROPERTY = "C16"
RULE = ("one case = one point set handed to sliver_removal with two iteration limits (equal effort = it stopped by itself) and its mesh judged by independently computed dihedral "
        "angles, or a batch of (nearly) flat cells; distinct non-trivial: (input kind, domain family, bounds, options, outcome) with at least 20 cells")
BUDGET = {"quick": 120, "thorough": 600}
REQUIRED = ["stopped_early", "hit_limit", "cells", "angles", "preserved", "clouds", "unmoved_inputs", "kernel_flat", "kernel_near_flat", "segy", "slivers_in_input", "moved_vertices", "kept_vertices"]
ASSUMPTIONS = ["stopping early is recognised by the number of domain evaluations not growing with the limit", "angles judged to 1e-5 degrees",
               "tolerances for vertices outside the domain are about three times the worst observed"]
KINDS = ("mesh", "angles", "mesh", "cloud", "mesh", "one", "mesh", "angles", "twice", "segy", "moves")


def cases(ctx):
    n = 1000 if ctx.quick else 14000
    for i in range(n):
        yield dict(kind=KINDS[i % len(KINDS)], i=i, seed=ctx.seed)


def dihedrals(p, t):
    """The six dihedral angles of every cell in degrees, from the definition."""
    out = []
    for a, b, c, d in ((0, 1, 2, 3), (0, 2, 1, 3), (0, 3, 1, 2), (1, 2, 0, 3), (1, 3, 0, 2), (2, 3, 0, 1)):
        A, B, C, D = (p[t[:, i]] for i in (a, b, c, d))
        e = B - A
        e = e / np.linalg.norm(e, axis=1)[:, None]
        u, v = C - A, D - A
        u = u - e * (u * e).sum(1)[:, None]
        v = v - e * (v * e).sum(1)[:, None]
        out.append(np.arctan2(np.linalg.norm(np.cross(u, v), axis=1), (u * v).sum(1)))
    return np.degrees(np.array(out).T)


def angles(rng, rec):
    """Angles of flat and nearly flat cells: the four-point sliver, the cap, the needle, and ordinary cells in one batch."""
    import SeismicMesh.geometry as geo
    P = []
    n = int(rng.integers(1, 25))
    S = 10.0 ** rng.uniform(-3, 4)
    off = rng.uniform(-1, 1, 3) * S * mg.pick(rng, (0.0, 1.0, 50.0))
    kind = []
    for j in range(n):
        k = mg.pick(rng, ("quad", "cap", "generic", "wedge"))
        h = 0.0 if rng.random() < .5 else float(10.0 ** rng.uniform(-9, -1)) * mg.pick(rng, (-1, 1))
        if k == "quad":
            q = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, h], [0, -1, h]]) + np.c_[rng.uniform(-.3, .3, (4, 2)), np.zeros(4)]
        elif k == "cap":
            q = np.array([[1, 0, 0], [-.5, .8, 0], [-.5, -.8, 0], [.05, .02, h]])
        elif k == "wedge":
            q = np.array([[0, 0, 0], [1, 0, 0], [.5, 1, 0], [.5, .9, abs(h) + 1e-3]])
        else:
            q = rng.normal(size=(4, 3))
        if rng.random() < .3 and k in ("quad", "cap"):
            q = np.round(q * 64) / 64       # exactly representable: exactly flat when h is 0
            q[:, 2] = [0, 0, 0, 0] if h == 0 else q[:, 2] + (np.arange(4) > 1) * h
        if rng.random() < .5 and h != 0:
            m = np.linalg.qr(rng.normal(size=(3, 3)))[0]
            q = q @ m.T
        elif rng.random() < .5:
            q = q[:, rng.permutation(3)]
        q = q * S
        q = q + off if rng.random() < .5 else q
        P.append(q[rng.permutation(4)])
        kind.append((k, h == 0))
    p = np.vstack(P)
    t = np.arange(4 * n).reshape(n, 4)
    with np.errstate(all="ignore"):
        A = np.asarray(geo.calc_dihedral_angles(p, t)).reshape(n, 6)
    for j in range(n):
        a = np.sort(np.degrees(A[j]))
        if not rec.check(np.all(np.isfinite(a)) and a.min() >= -1e-9 and a.max() <= 180 + 1e-9, "angle-range", "a dihedral angle of a cell is not in [0, 180] degrees: %s" % a, cell=P[j]):
            continue
        q = P[j] - P[j].mean(0)
        L = np.linalg.norm(q, axis=1).max()
        vol = abs(float(exact.volume(exact.frs(P[j]))))
        amin = min(np.linalg.norm(np.cross(P[j][b] - P[j][a2], P[j][c] - P[j][a2])) for a2, b, c in ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3))) / L ** 2
        if amin < 1e-3:
            continue        # a face without a normal
        tol = np.degrees(1e-4 + 1e-6 * (1 + np.abs(P[j]).max() / L) / amin ** 2)
        if vol <= 1e-13 * L ** 3:
            rec.count("kernel_flat")
            d = np.minimum(a, 180 - a).max()
            rec.check(d <= tol, "flat-angle", "a flat cell has a dihedral angle %.3g degrees away from 0 and 180" % d, cell=P[j], got=a)
        else:
            rec.count("kernel_near_flat", vol < 1e-3 * L ** 3)
        ref = np.sort(np.degrees([float(v) for v in exact.dihedrals(exact.frs(P[j]))]))
        rec.check(np.abs(a - ref).max() <= tol, "angle", "dihedral angles differ from the true ones by %.3g degrees" % np.abs(a - ref).max(), cell=P[j], got=a, want=ref)
    rec.distinct("angles", int(np.log10(S)), tuple(sorted(set(kind))))


def judge(rec, q, t, lo, hi, early, shape, h0, fh, preserve, tag, rng, meshlike=True):
    rec.count("cells", len(t))
    pr = meshes.structural_problems(q, t, 3, h=h0, flat_ok=not early or lo <= 0)
    rec.nassert += 10
    for k, m, d in pr:
        rec.fail(k, m, **d)
    if pr:
        return
    a = dihedrals(q, t)
    rec.count("angles", a.size)
    if early:
        i = int(np.argmin(a.min(1)))
        rec.check(a.min() >= lo - 1e-5, "sliver-left", "sliver removal stopped before its limit but a cell has a dihedral angle of %.6g degrees, bound %.6g" % (a.min(), lo), cell=q[t[i]])
        i = int(np.argmax(a.max(1)))
        rec.check(a.max() <= hi + 1e-5, "sliver-left", "sliver removal stopped before its limit but a cell has a dihedral angle of %.6g degrees, bound %.6g" % (a.max(), hi), cell=q[t[i]])
    rec.count("stopped_early" if early else "hit_limit")
    rec.count("preserved", preserve)
    ov = meshes.overlap_problems(q, t, rng, h0, 3)
    rec.check(not ov, "overlap", "%d pairs of cells overlap" % len(ov), worst=ov[:3])
    eps = 1e-6 * h0
    D = lambda X: mg.dist(shape, X, eps)
    d, hq = D(q), fh(q)
    dc = D(q[t].mean(1))
    i = int(np.argmax(dc))
    rec.check(dc[i] <= .02 * h0, "cell-outside", "the centroid of a cell lies %.3g minimum sizes outside the domain" % (dc[i] / h0), centroid=q[t[i]].mean(0))
    if meshlike:
        tol = 1.0 if preserve and early else 1.5
        i = int(np.argmax(d / hq))
        rec.check(d[i] <= tol * hq[i], "vertex-outside", "a vertex lies %.3g local sizes outside the domain" % (d[i] / hq[i]), vertex=q[i])
        lo3, hi3 = mg.ref_box(shape)
        X = rng.uniform(lo3, hi3, (2500, 3))
        dX = D(X) / fh(X)
        cov = meshes.locate(q, t, X)
        un = np.where((dX < 0) & ~cov, -dX, 0)
        ex = np.where((dX > 0) & cov, dX, 0)
        rec.check(un.max() <= 1.3, "unmeshed", "a point %.3g local sizes inside the domain is not covered" % un.max(), point=X[np.argmax(un)])
        rec.check(ex.max() <= .7, "meshed-outside", "a point %.3g local sizes outside the domain is covered" % ex.max(), point=X[np.argmax(ex)])
    if len(t) >= 20:
        rec.distinct(*tag)


def moves(sm, rng, rec, p, dom, eh, sk, kw, h0, fam):
    """One round perturbs vertices of slivers, by a fraction of the minimum size, and nothing else."""
    sk = dict(sk, preserve=False)
    q1, t1 = (np.asarray(a) for a in sm.sliver_removal(np.array(p), dom, eh, **dict(sk, max_iter=1), **kw))
    q2, t2 = (np.asarray(a) for a in sm.sliver_removal(np.array(p), dom, eh, **dict(sk, max_iter=2), **kw))
    lo, hi = sk.get("min_dh_angle_bound", 10.0), sk.get("max_dh_angle_bound", 180.0)
    a = dihedrals(q1, t1)
    bad = (a.min(1) < lo + 1e-4) | (a.max(1) > hi - 1e-4)
    sure = (a.min(1) < lo - 1e-4) | (a.max(1) > hi + 1e-4)
    mine = {tuple(x) for x in q1.tolist()}
    now = {tuple(x) for x in q2.tolist()}
    given = {tuple(x) for x in np.asarray(p, float).tolist()}
    inbad = np.zeros(len(q1), bool)
    inbad[t1[bad].ravel()] = True
    new = np.array(sorted(now - given)).reshape(-1, 3)
    rec.nassert += 4
    if len(new):
        if not rec.check(inbad.any(), "moved", "vertices move although there is no sliver"):
            return
        d = np.linalg.norm(new[:, None] - q1[inbad][None], axis=2).min(1)
        rec.check(d.max() <= .25 * h0, "moved-far", "a vertex moved by %.3g minimum sizes in one round, or was not a vertex of a sliver" % (d.max() / h0), vertex=new[int(np.argmax(d))])
    rec.check(len(new) <= bad.sum(), "moved-many", "%d vertices moved for %d slivers" % (len(new), bad.sum()))
    rec.check(len(new) > 0 or sure.sum() < 3, "not-moved", "there are %d slivers but nothing moves" % sure.sum())
    keep = {tuple(x) for x in q1[~inbad].tolist()}
    lost = len(keep - now)
    rec.check(lost <= 3 + .02 * len(keep), "moved-others", "%d of %d vertices of good cells are not where they were" % (lost, len(keep)))
    rec.count("moved_vertices", len(new))
    rec.count("kept_vertices", len(keep) - lost)
    if len(t1) >= 20:
        rec.distinct("moves", fam, lo, hi, int(bad.sum()))


def run_case(case, rec):
    import SeismicMesh as sm
    rng = np.random.default_rng([case["seed"], 116, case["i"]])
    k = case["kind"]
    if k == "angles":
        for _ in range(6):
            angles(rng, rec)
        return
    if k == "segy":
        d = mg.segy_problem(rng, 3)
        d["pad"] = 0.0
        dom, eh = mg.segy_build(d)
        shape, h0, fam = dict(t="cube", bbox=d["bbox"]), d["hmin"], "segy"
        fh = lambda X: np.asarray(eh.eval(X))
        kw = {}
        p, t = sm.generate_mesh(dom, eh, verbose=0, max_iter=int(rng.integers(10, 30)), seed=int(rng.integers(1000)))
        rec.count("segy")
    else:
        pb, sz = mg.limited(rng, 3, 1200)
        dom, kw = mg.build_domain(pb)
        eh, k2 = mg.build_sizing(sz)
        kw = dict(kw, **k2)
        shape, h0, fam = pb["shape"], sz["h"], pb["fam"]
        fh = lambda X: mg.fh_ref(sz, X)
        if k in ("cloud", "one"):
            p = mg.spread(rng, pb, int(rng.integers(60, 200)), 0.0, .45, sz)
            if len(p) < 40:
                return
            rec.count("clouds")
        else:
            p, t = sm.generate_mesh(dom, eh, verbose=0, max_iter=int(rng.integers(5, 30)), seed=int(rng.integers(1000)), **kw)
    p = np.array(p)
    if k not in ("cloud", "one"):
        rec.count("slivers_in_input", int((dihedrals(p, t).min(1) < 5).sum()))
    preserve = bool(rng.random() < .5)
    lo, hi = float(mg.pick(rng, (5, 8, 10, 10, 12, 15))), float(mg.pick(rng, (180, 180, 175, 170, 165, 160)))
    sk = dict(verbose=int(rng.integers(0, 3)), preserve=preserve, min_dh_angle_bound=lo, max_dh_angle_bound=hi)
    if rng.random() < .2:
        sk.pop("min_dh_angle_bound")
        lo = 10.0
    if rng.random() < .2:
        sk.pop("max_dh_angle_bound")
        hi = 180.0
    if rng.random() < .2:
        sk["gamma"] = float(rng.uniform(.85, 1.0))
    if rng.random() < .2:
        sk["geps_mult"] = float(rng.uniform(.05, .2))
    fd = dom.eval if hasattr(dom, "eval") else dom
    if k != "segy":
        kw.setdefault("bbox", tuple(float(v) for v in getattr(dom, "bbox", ())))
    if k == "one":
        # nothing moves in a single iteration: exactly the input vertices that some cell inside the domain uses come back
        q, t = sm.sliver_removal(np.array(p), dom, eh, **dict(sk, max_iter=1, min_dh_angle_bound=float(rng.uniform(0, 60))), **kw)
        T = Delaunay(p).simplices
        geps = sk.get("geps_mult", .1) * h0
        v = np.asarray(fd(p[T].mean(1))) + geps
        used = np.unique(T[v < -1e-9 * h0])
        rec.count("unmoved_inputs", len(used))
        got = {tuple(x) for x in np.asarray(q).tolist()}
        want = {tuple(x) for x in p[used].tolist()}
        rec.check(got <= {tuple(x) for x in p.tolist()}, "vertex-moved", "a vertex that is not an input point comes back after a single iteration")
        rec.check(want <= got, "vertex-lost", "%d of %d vertices of cells in the domain are lost" % (len(want - got), len(want)), first=sorted(want - got)[:3])
        rec.check(len(got - want) <= np.sum(np.abs(v) < 1e-9 * h0), "vertex-kept", "%d vertices come back that no cell in the domain uses" % len(got - want))
        rec.distinct("one", fam)
        judge(rec, np.asarray(q), np.asarray(t), lo, hi, False, shape, h0, fh, preserve, ("one", fam), rng, meshlike=False)
        return
    if k == "moves":
        return moves(sm, rng, rec, p, dom, eh, sk, kw, h0, fam)
    mx = int(mg.pick(rng, (2, 4, 10, 30, 60)))
    calls, res = [], None
    for m in (mx, mx + int(rng.integers(2, 8))):
        mon = mg.Monitor(10 ** 6)
        if k == "segy":
            q, t = _segy(sm, p, dom, eh, dict(sk, max_iter=m), mon)
        else:
            q, t = sm.sliver_removal(np.array(p), mg.wrap(fd, mon, "fd"), eh, **dict(sk, max_iter=m), **kw)
        calls.append(mon.fd)
        res = res or (np.asarray(q), np.asarray(t))
    early = calls[0] == calls[1]
    q, t = res
    rec.sample = dict(fam=fam, rounds=calls, vertices=[len(p), len(q)], cells=len(t), early=bool(early))
    rec.check(len(q) <= len(p), "vertices-added", "%d vertices from %d input points" % (len(q), len(p)))
    if k != "cloud":
        rec.check(len(q) >= .9 * len(p), "vertices-lost", "%d vertices from %d input points" % (len(q), len(p)))
    tag = (k, fam, lo, hi, preserve, bool(early), mx)
    judge(rec, q, t, lo, hi, early, shape, h0, fh, preserve, tag, rng, meshlike=k != "cloud")
    if k == "twice" and early:
        # its own result satisfies it again: the vertices only change if the boundary cells do
        mon = mg.Monitor(10 ** 6)
        q2, t2 = sm.sliver_removal(q.copy(), mg.wrap(fd, mon, "fd"), eh, **dict(sk, max_iter=mx), **kw)
        judge(rec, np.asarray(q2), np.asarray(t2), lo, hi, mon.fd < mx, shape, h0, fh, preserve, ("again",) + tag, rng)


def _segy(sm, p, dom, eh, kw, mon):
    """The sizing object brings a box, so the domain stays a shape; its evaluations are counted."""
    f = dom.eval
    dom.eval = mg.wrap(f, mon, "fd")
    try:
        return sm.sliver_removal(np.array(p), dom, eh, **kw)
    finally:
        dom.eval = f

