"""Random meshing problems (JSON-able), the calls that solve them, and independent descriptions of their domains."""
import numpy as np
from . import shapes
from .shapes import pick

FAM2 = ("disk", "rect", "rotrect", "ellipse", "disks", "rectdisk", "bite", "lens", "annulus", "ell", "twin", "smooth", "slot", "polar")
FAM3 = ("cube", "ball", "cylinder", "torus", "prism", "ellipsoid", "rotcube", "balls", "cubeball", "cubebite", "lens3", "twin3")


def _shift(spec, v):
    if "op" in spec:
        return dict(spec, c=[_shift(c, v) for c in spec["c"]])
    s = dict(spec)
    t = s.get("translate")
    s["translate"] = [float(a + b) for a, b in zip(t if t is not None else [0.0] * len(v), v)]
    return s


def problem(rng, dim, fam=None, fine=None, offset=True):
    """dict(dim, fam, shape, feat): feat is the smallest length to resolve (radius, width, gap)."""
    if isinstance(fam, tuple):
        fam = pick(rng, fam)
    fam = fam or pick(rng, FAM2 if dim == 2 else FAM3)
    S = float(10.0 ** rng.uniform(-4, 5))
    u = lambda a, b: float(rng.uniform(a, b))
    z = [0.0] * dim
    disk = lambda x, r: dict(t="disk" if dim == 2 else "ball", x0=[float(v) for v in x], r=float(r))
    box = lambda lo, hi: dict(t="rectangle" if dim == 2 else "cube", bbox=[float(v) for p in zip(lo, hi) for v in p])
    ang = lambda: u(-np.pi, np.pi)
    smooth = False      # smooth boundary everywhere
    if fam in ("disk", "ball"):
        r = S * u(.5, 1)
        shape, feat, smooth = disk(z, r), r, True
    elif fam in ("rect", "cube"):
        w = S * rng.uniform(0.35, 1, dim)
        lo = -w * rng.uniform(0, 1, dim)
        shape, feat = box(lo, lo + w), float(w.min())
    elif fam in ("rotrect", "rotcube"):
        w = S * rng.uniform(0.4, 1, dim)
        shape, feat = box(-w / 2, w / 2), float(w.min())
        shape["rotate"] = [ang(), 0.0, 0.0] if dim == 2 else [ang() if rng.random() < .7 else 0.0 for _ in range(3)]
    elif fam in ("ellipse", "ellipsoid"):
        r = S * u(.5, 1)
        a = u(1.2, 2.0)
        v = rng.normal(size=dim)
        if rng.random() < .4:
            v = np.eye(dim)[int(rng.integers(dim))]
        shape = disk(z, r)
        shape["stretch"] = [float(x) for x in v / np.linalg.norm(v) * a]
        feat, smooth = r / a ** 2 * 1.5, True
    elif fam in ("disks", "balls"):
        r1, r2 = S * u(.5, 1), S * u(.5, 1)
        d = u(.55, .9) * (r1 + r2)
        e = rng.normal(size=dim)
        e /= np.linalg.norm(e)
        shape, feat = dict(op="union", c=[disk(z, r1), disk(e * d, r2)]), min(r1, r2)
    elif fam in ("rectdisk", "cubeball"):
        w = S * rng.uniform(0.8, 1, dim)
        r = w.min() * u(.15, .28)
        shape, feat = dict(op="difference", c=[box(-w / 2, w / 2), disk(rng.uniform(-.06, .06, dim) * w, r)]), min(r * 1.2, (w.min() / 2 - r) * .8)
    elif fam in ("bite", "cubebite"):
        w = S * rng.uniform(0.8, 1, dim)
        x = np.zeros(dim)
        x[int(rng.integers(dim))] = w.min() / 2
        r = w.min() * u(.2, .3)
        shape, feat = dict(op="difference", c=[box(-w / 2, w / 2), disk(x, r)]), float(min(r, w.min() / 2 - r))
    elif fam in ("lens", "lens3"):
        r1, r2 = S * u(.7, 1), S * u(.7, 1)
        e = rng.normal(size=dim)
        e /= np.linalg.norm(e)
        d = u(.3, .55) * (r1 + r2)
        shape, feat = dict(op="intersection", c=[disk(z, r1), disk(e * d, r2)]), (r1 + r2 - d) * .8
    elif fam == "annulus":
        r = S * u(.7, 1)
        q = u(.3, .5)
        shape, feat, smooth = dict(op="difference", c=[disk(z, r), disk(z, q * r)]), r * min(q, (1 - q)), True
    elif fam == "ell":
        w = S * rng.uniform(0.7, 1, 2)
        a, b = w * rng.uniform(.35, .6, 2)
        shape, feat = dict(op="union", c=[box([0, 0], [w[0], b]), box([0, 0], [a, w[1]])]), float(min(a, b))
    elif fam in ("twin", "twin3"):
        r = S * u(.5, 1)
        gap = r * u(.5, .8)
        lo, hi = [r + gap] + [-r] * (dim - 1), [2 * r + gap + r * u(0, .5)] + [r * u(.3, 1)] * (dim - 1)
        shape, feat = dict(op="union", c=[disk(z, r), box(lo, hi)]), min(gap * 1.2, r)
    elif fam == "smooth":
        r1, r2 = S * u(.5, 1), S * u(.5, 1)
        d = u(.6, .85) * (r1 + r2)
        shape, feat = dict(op=pick(rng, ("intersection",)), c=[disk(z, r1 * 1.4), disk([d, 0], r2 * 1.4)], k=S * u(.05, .2)), min(r1, r2) * .7
    elif fam == "slot":
        w = S * np.array([1.0, u(.6, 1)])
        a = u(.15, .25) * w[1]
        shape, feat = dict(op="difference", c=[box(-w / 2, w / 2), box([-w[0] * .1, -a], [w[0], a])]), float(min(2 * a, w[1] / 2 - a))
    elif fam == "polar":     # user callable only: star-shaped curve, exact enough distance by construction
        n = int(rng.integers(2, 5))
        shape = dict(t="polar", r=S * u(.5, 1), a=u(.05, .15), n=n)
        feat, smooth = shape["r"] / (1 + n * n * shape["a"]) * 1.5, True
    elif fam == "cylinder":
        r = S * u(.5, 1)
        h = r * u(.8, 2)
        shape, feat = dict(t="cylinder", h=h, r=r), min(h, r)
    elif fam == "torus":
        r1 = S * u(.7, 1)
        r2 = r1 * u(.35, .6)
        shape, feat, smooth = dict(t="torus", r1=r1, r2=r2), min(r2, (r1 - r2)), True
    elif fam == "prism":
        b = S * u(.6, 1)
        h = b * u(.5, 1)
        shape, feat = dict(t="prism", b=b, h=h), min(b, h)
    else:
        raise ValueError(fam)
    off = [0.0] * dim
    if offset and fam != "polar" and rng.random() < .5:
        off = [float(v) for v in rng.uniform(-1, 1, dim) * S * pick(rng, (1.0, 20.0, 1.0, 20.0, 3e3))]      # the last: map coordinates
        shape = _shift(shape, off)
    lo, hi = (5, 14) if dim == 2 else (3, 6)
    if fine:
        lo, hi = fine
    return dict(dim=dim, fam=fam, shape=shape, feat=float(feat), h=float(feat) / u(lo, hi), smooth=smooth, S=S, form="shape" if fam != "polar" and rng.random() < .8 else "callable")


# ------------------------------------------------------------------------------------------------- reference geometry
def ref(spec, X):
    """Reference level-set value (negative inside), computed without the repository."""
    X = np.asarray(X, float)
    if spec.get("t") == "polar":
        th = np.arctan2(X[:, 1], X[:, 0])
        R = spec["r"] * (1 + spec["a"] * np.cos(spec["n"] * th))
        dR = -spec["r"] * spec["a"] * spec["n"] * np.sin(spec["n"] * th)
        return (np.hypot(X[:, 0], X[:, 1]) - R) / np.sqrt(1 + (dR / R) ** 2)
    if "op" in spec and spec.get("k"):
        v = [ref(c, X) for c in spec["c"]]
        s = -1.0 if spec["op"] == "union" else 1.0
        if spec["op"] == "difference":
            v = [v[0]] + [-w for w in v[1:]]
        out = v[0]
        for w in v[1:]:
            hh = np.maximum(spec["k"] - np.abs(out - w), 0)
            out = (np.minimum if s < 0 else np.maximum)(out, w) + s * hh * hh / (4 * spec["k"])
        return out
    if "op" in spec and spec["op"] != "repeat":
        v = [ref(c, X) for c in spec["c"]]
        if spec["op"] == "union":
            return np.minimum.reduce(v)
        if spec["op"] == "intersection":
            return np.maximum.reduce(v)
        return np.maximum.reduce([v[0]] + [-u for u in v[1:]])
    return shapes.ref_eval(spec, X)


def dist(spec, X, eps):
    """First-order distance estimate: value over gradient magnitude (eps: step)."""
    X = np.asarray(X, float)
    f = ref(spec, X)
    g = 0.0
    for k in range(X.shape[1]):
        e = np.zeros(X.shape[1])
        e[k] = eps
        g = g + ((ref(spec, X + e) - ref(spec, X - e)) / (2 * eps)) ** 2
    return f / np.clip(np.sqrt(g), 0.2, None)


def ref_box(spec):
    """Box (lo, hi) enclosing the domain, computed without the repository."""
    if spec.get("t") == "polar":
        r = spec["r"] * (1 + spec["a"])
        return np.array([-r, -r]), np.array([r, r])
    if "op" in spec:
        B = [ref_box(c) for c in spec["c"]]
        if spec["op"] == "union":
            return np.min([b[0] for b in B], 0), np.max([b[1] for b in B], 0)
        if spec["op"] == "intersection":
            return np.max([b[0] for b in B], 0), np.min([b[1] for b in B], 0)
        return B[0]
    lo, hi = shapes.box_of(spec)
    c = np.array(np.meshgrid(*zip(lo, hi), indexing="ij")).reshape(len(lo), -1).T
    q = shapes.image(spec, c)
    return q.min(0), q.max(0)


def sizing(rng, pb, kind=None):
    """scalar or graded callable sizing (JSON-able)."""
    kind = kind or pick(rng, ("scalar", "scalar", "radial", "plane"))
    if kind == "scalar":
        return dict(kind="scalar", h=pb["h"])
    lo, hi = ref_box(pb["shape"])
    c = lo + rng.uniform(0, 1, pb["dim"]) * (hi - lo)
    d = rng.normal(size=pb["dim"])
    d /= np.linalg.norm(d)
    fac = float(rng.uniform(1.5, 2.5))
    return dict(kind=kind, h=pb["h"] / fac * 1.2, hmax=pb["h"] * 1.2, c=[float(v) for v in c], d=[float(v) for v in d], g=float(rng.uniform(.08, .25)))


def fh_ref(sz, X):
    X = np.asarray(X, float)
    if sz["kind"] == "scalar":
        return np.full(len(X), sz["h"])
    c = np.array(sz["c"])
    r = np.linalg.norm(X - c, axis=1) if sz["kind"] == "radial" else np.abs((X - c) @ np.array(sz["d"]))
    return np.clip(sz["h"] + sz["g"] * r, sz["h"], sz["hmax"])


class Monitor:
    """Counts and inspects the callbacks of a run; optionally aborts a run that does not stop."""
    def __init__(self, limit=None):
        self.fd = self.fh = 0
        self.limit = limit
        self.bad = 0
        self.sizes = []


class DidNotStop(Exception):
    pass


def wrap(fn, mon, which):
    def f(x):
        setattr(mon, which, getattr(mon, which) + 1)
        if which == "fh":
            mon.sizes.append(len(x))
        if mon.limit and getattr(mon, which) > mon.limit:
            raise DidNotStop("callback %s called more than %d times" % (which, mon.limit))
        return fn(x)
    return f


def build_domain(pb):
    """(domain argument, extra keyword arguments)"""
    if pb["shape"].get("t") == "polar":
        lo, hi = ref_box(pb["shape"])
        sh = pb["shape"]
        m = 0.01 * (hi - lo)
        return (lambda x: ref(sh, x)), dict(bbox=tuple(float(v) for p in zip(lo - m, hi + m) for v in p))
    dom = shapes.build(pb["shape"])
    if pb["form"] == "callable":
        lo, hi = ref_box(pb["shape"])
        m = 0.01 * (hi - lo).max()
        return (lambda x: dom.eval(x)), dict(bbox=tuple(float(v) for p in zip(lo - m, hi + m) for v in p))
    return dom, {}


def build_sizing(sz):
    if sz["kind"] == "scalar":
        return sz["h"], {}
    return (lambda x: fh_ref(sz, x)), dict(h0=sz["h"])


def run(pb, sz, comm=None, **kw):
    import SeismicMesh as sm
    dom, k1 = build_domain(pb)
    eh, k2 = build_sizing(sz)
    args = dict(k1, **k2)
    args.update(kw)
    bb = k1.get("bbox", getattr(dom, "bbox", None))
    if comm is None and args.get("seed", 0) % 4 == 2 and isinstance(bb, tuple) and (callable(eh) or len(bb) == 4):
        # the size as an object with the box of the domain: the same request
        h = sz["h"]
        eh = sm.SizeFunction(tuple(float(b) for b in bb), eh if callable(eh) else lambda x: np.full(len(x), h), h)
        args.pop("h0", None)
    return sm.generate_mesh(dom, eh, comm, **args)


def options(rng, pb, few=False):
    kw = dict(verbose=0, seed=int(rng.integers(0, 1000)), max_iter=int(pick(rng, (1, 2, 3, 4, 5)) if few else pick(rng, (8, 15, 25, 40, 60))))
    if rng.random() < .3:
        kw["mesh_improvement"] = False
    if rng.random() < .15:
        kw["perform_checks"] = True
    if rng.random() < .2:
        kw["delta_t"] = float(rng.uniform(.1, .4))
    if rng.random() < .2:
        kw["geps_mult"] = float(rng.uniform(.05, .2))
    if rng.random() < .15:
        kw["r0m_is_h0"] = True
    if rng.random() < .2:
        kw["verbose"] = int(rng.integers(1, 3))
    return kw


def depth_of(pb, X):
    """How deep points lie inside the domain, not overestimated where the level set is flat (blends)."""
    return np.minimum(-dist(pb["shape"], X, 1e-6 * pb["h"]), -ref(pb["shape"], np.asarray(X, float)))


def interior_points(rng, pb, n, depth):
    """n random points at least `depth` inside the domain."""
    lo, hi = ref_box(pb["shape"])
    out = np.zeros((0, pb["dim"]))
    for _ in range(60):
        X = rng.uniform(lo, hi, (400, pb["dim"]))
        out = np.vstack([out, X[depth_of(pb, X) > depth]])
        if len(out) >= n:
            break
    return out[:n]


def spread(rng, pb, n, depth, sep, sz=None):
    """Up to n points at least `depth` inside and `sep` apart (lengths; or factors of the local size if sz is given)."""
    X = interior_points(rng, pb, 40 * n, depth if sz is None else depth * sz.get("hmax", sz["h"]))
    out = []
    for x in X:
        s = sep if sz is None else sep * fh_ref(sz, x[None])[0]
        if all(np.linalg.norm(x - y) > s for y in out):
            out.append(x)
        if len(out) == n:
            break
    return np.array(out).reshape(-1, pb["dim"])


def segy_problem(rng, dim):
    """A rectangle/cube with a SizeFunction from a layered velocity model (JSON-able)."""
    n = [int(rng.integers(12, 30)) for _ in range(dim)] if dim == 2 else [int(rng.integers(8, 14)) for _ in range(dim)]
    st = float(pick(rng, (20.0, 50.0, 100.0)))
    lo = [-(n[0] - 1) * st] + [float(int(rng.integers(-5, 5)) * st) for _ in range(dim - 1)]
    bb = [float(v) for a, m in zip(lo, n) for v in (a, a + (m - 1) * st)]
    L = min((m - 1) * st for m in n)
    h = L / (rng.uniform(12, 22) if dim == 2 else rng.uniform(8, 10))
    d = dict(dim=dim, fam="segy", bbox=bb, n=n, vseed=int(rng.integers(1 << 30)), hmin=float(h), hmax=float(h * (rng.uniform(2, 3) if dim == 2 else rng.uniform(1.3, 1.8))), grade=float(rng.uniform(.1, .3)),
             freq=1.0, wl=float(1500.0 / h), pad=float(st * int(rng.integers(1, 4))) if rng.random() < .4 else 0.0, style=pick(rng, ("edge", "linear_ramp", "constant")))
    return d


def segy_build(d):
    """(domain, sizing function)"""
    import SeismicMesh as sm
    rng = np.random.default_rng(d["vseed"])
    z = np.linspace(0, 1, d["n"][0]).reshape((-1,) + (1,) * (d["dim"] - 1))
    v = 1500.0 * (1 + rng.uniform(.5, 2) * z) * np.ones(d["n"])
    if rng.random() < .5:
        v = np.where(z > rng.uniform(.3, .7), v * 1.3, v)
    kw = dict(zip(("nz", "nx", "ny"), d["n"]))
    if d["pad"]:
        kw.update(domain_pad=d["pad"], pad_style=d["style"])
    ef = sm.get_sizing_function_from_segy(None, tuple(d["bbox"]), velocity_data=v, hmin=d["hmin"], hmax=d["hmax"], wl=d["wl"], freq=d["freq"], grade=d["grade"], **kw)
    dom = (sm.Rectangle if d["dim"] == 2 else sm.Cube)(tuple(d["bbox"]))
    return dom, ef


def estimate(pb, sz):
    """Rough number of vertices of the mesh."""
    rng = np.random.default_rng(0)
    lo, hi = ref_box(pb["shape"])
    X = rng.uniform(lo, hi, (4000, pb["dim"]))
    w = (ref(pb["shape"], X) < 0) / fh_ref(sz, X) ** pb["dim"]
    return float(w.mean() * np.prod(hi - lo)) * (1.16 if pb["dim"] == 2 else 1.4)


def limited(rng, dim, nmax, fam=None, kind=None, fine=None, **k):
    """(problem, sizing) whose mesh has at most about nmax vertices."""
    for _ in range(200):
        pb = problem(rng, dim, fam, fine, **k)
        sz = sizing(rng, pb, kind)
        if estimate(pb, sz) <= nmax:
            return pb, sz
    raise RuntimeError("no problem of at most %d vertices" % nmax)
