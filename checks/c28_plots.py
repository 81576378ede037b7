"""C28: plots show the object they are given, where it is, and are saved when asked to."""
import os
import warnings
import numpy as np
from vlib import shapes as S
from vlib import sizing as Z
from vlib import velfiles as V

PROPERTY = "C28"
RULE = ("one case = one random shape (2D/3D, transformed, combined) shown, or one sizing function plotted, without a display; the artists of the "
        "figure are compared with the object's own values; distinct non-trivial: kinds of object x ways of calling")
BUDGET = {"quick": 40, "thorough": 300}
REQUIRED = ["shapes2", "shapes3", "shown", "saved", "points_drawn", "sizings", "pixels", "rejections", "combined", "other_rank", "first_rank"]
ASSUMPTIONS = ["matplotlib's non-interactive back end; the level set is drawn from random samples close to it, relative to the size of the shape's box"]


def cases(ctx):
    n = 500 if ctx.quick else 6000
    for i in range(n):
        yield dict(kind=("shape", "shape", "sizing", "shape", "reject")[i % 5], i=i, seed=ctx.seed)


class Screen:
    """Counts the windows that would have been opened."""

    def __enter__(self):
        import matplotlib
        matplotlib.use("Agg", force=True)
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure
        self.plt, self.F = plt, Figure
        plt.close("all")
        self.shown = 0
        self.old = plt.show, Figure.show

        def show(*a, **k):
            self.shown += 1
        plt.show = show
        Figure.show = show
        return self

    def figure(self):
        n = self.plt.get_fignums()
        return self.plt.figure(n[-1]) if n else None

    def __exit__(self, *a):
        self.plt.show, self.F.show = self.old
        self.plt.close("all")


def shape(rng):
    k = int(rng.integers(3))
    sc = Z.pick(rng, (1.0, 1.0, .02, 300.0, 5e3))
    dim = 2 if rng.random() < .5 else 3
    if k < 2:
        kind = S.pick(rng, S.BASE2 if dim == 2 else S.BASE3)
        spec = S.base_spec(rng, kind, scale=sc * float(rng.uniform(.6, 2)), offset=float(rng.uniform(0, 1)))
        if k == 1:
            spec.update(S.transform_spec(rng, dim, sc, stretch=False))
        return spec, dim
    return S.nested(rng, dim, int(rng.integers(1, 3)), sc, smooth=bool(rng.random() < .5)), dim


def run_case(case, rec):
    rng = np.random.default_rng([case["seed"], 128, case["i"]])
    with V.scratch() as d, Screen() as scr, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if case["kind"] == "reject":
            reject(rng, rec, scr)
        elif case["kind"] == "shape":
            one_shape(rng, rec, scr, d)
        else:
            one_sizing(rng, rec, scr, d)


def outcome(rec, scr, d, fn, what):
    """Saved when asked to, in which case no window blocks the script; shown otherwise."""
    rec.nassert += 1
    if fn:
        ok = os.path.exists(fn) and os.path.getsize(fn) > 1000
        if ok:
            with open(fn, "rb") as f:
                ok = f.read(8) == b"\x89PNG\r\n\x1a\n"
        rec.check(ok, "not-saved", "no image was written to the file name given", what=what, files=os.listdir(d))
        rec.check(scr.shown == 0, "blocked", "a window was opened although a file name was given", what=what)
        rec.count("saved")
    else:
        rec.check(scr.shown >= 1, "not-shown", "the plot was not shown", what=what)
        rec.check(not os.listdir(d), "stray-file", "a file was written without a file name", what=what)
        rec.count("shown")


def one_shape(rng, rec, scr, d):
    import random
    spec, dim = shape(rng)
    g = S.build(spec)
    bb = np.array(g.bbox, float)
    w = .005 * float(np.ptp(bb.reshape(-1, 2), axis=1).max())        # 0.01 for a shape of size 2
    own = rng.uniform(bb[::2] - w, bb[1::2] + w, (100000, dim))
    val = np.asarray(g.eval(own)).ravel()
    random.seed(int(rng.integers(1 << 30)))
    fn = os.path.join(d, "s.png") if rng.random() < .6 else None
    N = Z.pick(rng, (2000, 5000, 20000, None))
    kw = {} if N is None else dict(samples=N)
    if fn:
        kw["filename"] = fn
    cwd = os.getcwd()
    os.chdir(d)
    try:
        g.show(**kw)
    finally:
        os.chdir(cwd)
    outcome(rec, scr, d, fn, dict(spec=spec, kw=kw))
    n = N or 10000
    fig = scr.figure()
    rec.nassert += 3
    if not rec.check(fig is not None, "no-figure", "nothing was drawn", spec=spec):
        return
    P, C = np.zeros((0, 3)), np.zeros(0)
    for ax in fig.axes:
        for c in ax.collections:
            if hasattr(c, "_offsets3d"):
                P = np.vstack([P, np.array([np.ma.filled(np.ma.asarray(q, float), np.nan) for q in c._offsets3d]).T])
                C = np.concatenate([C, np.asarray(c.get_array(), float)])
            elif c.get_array() is not None and type(c).__name__ == "PathCollection":
                o = np.asarray(c.get_offsets(), float)
                P = np.vstack([P, np.c_[o, np.zeros(len(o))]])
                C = np.concatenate([C, np.asarray(c.get_array(), float)])
    if len(P):
        if dim == 2:
            rec.check(np.all(P[:, 2] == 0), "off-plane", "points of a planar shape are drawn off the plane", spec=spec)
        X = P[:, :dim]
        v = np.asarray(g.eval(X)).ravel()
        rec.check(np.all(np.abs(v) <= 2.5 * w), "off-boundary", "points are drawn away from the boundary of the shape", spec=spec, worst=float(np.abs(v).max()))
        rec.check(len(C) == len(v) and np.allclose(C, v, rtol=0, atol=1e-9 * (S.scale_of(spec) + 1e3 * w)), "colour", "the colours are not the values of the shape at the points drawn", spec=spec)
    near = np.abs(val) < .8 * w
    for k in range(dim):
        mid = .5 * (bb[2 * k] + bb[2 * k + 1])
        for side in (0, 1):
            e = n * np.mean(near & ((own[:, k] > mid) == side))
            got = np.count_nonzero((P[:, k] > mid) == side) if len(P) else 0
            rec.check(got >= .5 * e - 6 * np.sqrt(e) - 3, "missing-part", "a part of the boundary is not drawn", spec=spec, axis=k, side=side, expected=e, drawn=got)
    e = n * np.mean(near & (val > 0))
    got = np.count_nonzero(C > 0)
    rec.check(got >= .5 * e - 6 * np.sqrt(e) - 3, "missing-part", "only the inner side of the boundary is drawn", spec=spec, expected=e, drawn=got)
    rec.count("points_drawn", len(P))
    rec.count("shapes%d" % dim)
    rec.count("combined", "op" in spec)
    rec.distinct("shape", spec.get("op", spec.get("t")), bool(fn), N)
    rec.sample = dict(spec=spec, samples=n, drawn=len(P), saved=bool(fn))


class Rank:
    def __init__(self, comm, rank, size):
        self._c, self.rank, self.size = comm, rank, size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def __getattr__(self, k):
        return getattr(self._c, k)


def ranks(rng):
    n = int(rng.integers(2, 6))
    return int(rng.integers(1, n)), n


def one_sizing(rng, rec, scr, d):
    import SeismicMesh as sm
    from mpi4py import MPI
    shp = tuple(int(k) for k in rng.integers(3, 30, 2))
    z0, x0 = rng.uniform(-2000, 2000, 2)
    bbox = (float(z0), float(z0 + rng.uniform(300, 3000)), float(x0), float(x0 + rng.uniform(300, 3000)))
    v = Z.velocities(rng, shp)
    kw = dict(wl=int(rng.integers(1, 10)), hmin=float(rng.uniform(5, 50)))
    if rng.random() < .3:
        kw.update(domain_pad=float(rng.uniform(100, 500)), pad_style="edge")
    sf = Z.call(bbox, v, **kw)
    bb = sf.bbox
    fn = os.path.join(d, "p.png") if rng.random() < .6 else None
    stride = int(Z.pick(rng, (1, 1, 2, 3)))
    call = dict(stride=stride) if stride != 1 else {}
    if fn:
        call["filename"] = fn
    if rng.random() < .25:
        # only the first rank of a parallel run draws
        ax = sm.plot_sizing_function(sf, comm=Rank(MPI.COMM_WORLD, *ranks(rng)), **call)
        rec.check(scr.figure() is None and scr.shown == 0 and not os.listdir(d), "every-rank", "a rank other than the first one plots as well")
        rec.count("other_rank")
    if rng.random() < .3:
        call["comm"] = Rank(MPI.COMM_WORLD, 0, int(rng.integers(1, 6)))
        rec.count("first_rank")
    cwd = os.getcwd()
    os.chdir(d)
    try:
        ax = sm.plot_sizing_function(sf, **call)
    finally:
        os.chdir(cwd)
    outcome(rec, scr, d, fn, dict(bbox=bbox, stride=stride))
    fig = scr.figure()
    rec.nassert += 3
    if not rec.check(fig is not None and ax is not None and ax in fig.axes, "no-axes", "the axes of the plot are not returned", bbox=bbox):
        return
    m = [c for c in ax.collections if type(c).__name__ == "QuadMesh"]
    if not rec.check(len(m) >= 1, "no-sizes", "no sizes are drawn", bbox=bbox):
        return
    co = np.asarray(m[0].get_coordinates(), float)
    a = np.asarray(m[0].get_array(), float)
    a = a.reshape(a.shape if a.ndim == 2 else (co.shape[0] - 1, co.shape[1] - 1))
    if a.shape == co.shape[:2]:                      # gouraud: values at the nodes
        cen = co
        gap = np.abs(np.diff(co, axis=0)).max() if len(co) > 1 else 0
    else:
        cen = .25 * (co[:-1, :-1] + co[1:, :-1] + co[:-1, 1:] + co[1:, 1:])
    x, z = cen[..., 0], cen[..., 1]
    want = np.asarray(sf.eval((z, x)))
    lo, hi = want.min(), want.max()
    rec.check(np.allclose(a, want, rtol=1e-6, atol=1e-6 * hi), "wrong-size", "the sizes drawn are not those at the places they are drawn at", bbox=bbox, padded=bb, stride=stride, worst=float(np.abs(a - want).max()))
    for nm, q, k in (("z", z, 0), ("x", x, 1)):
        step = 50.0 * stride
        L = bb[2 * k + 1] - bb[2 * k]
        rec.check(q.min() <= bb[2 * k] + step + 1e-6 * L and q.max() >= bb[2 * k + 1] - step - 50 - 1e-6 * L, "cut-off",
                  "part of the model is not drawn", axis=nm, box=bb, drawn=[q.min(), q.max()], stride=stride)
        u = np.unique(np.round(q, 3))
        rec.check(len(u) < 2 or np.diff(u).max() <= step * 1.001, "gaps", "the plot is coarser than its stride", axis=nm, stride=stride)
    rec.count("sizings")
    rec.count("pixels", a.size)
    rec.distinct("sizing", stride, bool(fn), "domain_pad" in kw)
    rec.sample = dict(bbox=bbox, stride=stride, pixels=a.shape, sizes=[lo, hi])


def reject(rng, rec, scr):
    import SeismicMesh as sm
    v3 = Z.velocities(rng, (4, 5, 6))
    sf3 = Z.call((-500., 0., 0., 500., 0., 500.), v3, wl=2)
    for what, obj in (("a 3D sizing function", sf3), ("a number", 100.0), ("a function", lambda x: x[:, 0])):
        rec.nassert += 1
        try:
            sm.plot_sizing_function(obj)
        except Exception:
            rec.count("rejections")
        else:
            rec.check(False, "accepted", "plotting accepts " + what)
        rec.check(scr.shown == 0, "accepted", "a rejected plot was shown")
    rec.distinct("reject")
