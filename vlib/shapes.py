"""Random shape/domain specifications (JSON-able), builders of the real objects, and independent reference geometry."""
import numpy as np

BASE2 = ("disk", "rectangle")
BASE3 = ("ball", "cube", "cylinder", "torus", "prism")
SQ = 0.866025


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def size(rng, lo=-2, hi=3):
    return float(10.0 ** rng.uniform(lo, hi) * 1.0)


def base_spec(rng, kind, scale=None, offset=None):
    s = size(rng) if scale is None else scale
    o = pick(rng, (0.0, 1.0, 30.0)) * s if offset is None else offset * s
    c = lambda n: [float(v) for v in rng.uniform(-1, 1, n) * o]
    if kind == "disk":
        return dict(t="disk", x0=c(2), r=float(s * rng.uniform(0.2, 1)))
    if kind == "ball":
        return dict(t="ball", x0=c(3), r=float(s * rng.uniform(0.2, 1)))
    if kind in ("rectangle", "cube"):
        n = 2 if kind == "rectangle" else 3
        lo = np.array(c(n))
        w = s * rng.uniform(0.1, 1.0, n)
        bb = [float(v) for pair in zip(lo, lo + w) for v in pair]
        return dict(t=kind, bbox=bb)
    if kind == "cylinder":
        return dict(t="cylinder", h=float(s * rng.uniform(0.1, 2)), r=float(s * rng.uniform(0.1, 1)))
    if kind == "torus":
        r1 = float(s * rng.uniform(0.3, 1))
        return dict(t="torus", r1=r1, r2=float(r1 * rng.uniform(0.1, 0.95)))
    if kind == "prism":
        return dict(t="prism", b=float(s * rng.uniform(0.2, 1)), h=float(s * rng.uniform(0.2, 1)))
    raise ValueError(kind)


def dim_of(spec):
    if "op" in spec:
        return dim_of(spec["c"][0])
    return 2 if spec["t"] in BASE2 else 3


def scale_of(spec):
    """Characteristic magnitude of the coordinates (for rounding tolerances)."""
    if "op" in spec:
        s = max(scale_of(c) for c in spec["c"])
        if spec["op"] == "repeat":
            s = max(s, max(abs(v) for v in spec["bbox"]))
        return s
    t = spec["t"]
    if t in ("disk", "ball"):
        s = max(abs(v) for v in spec["x0"]) + spec["r"]
    elif t in ("rectangle", "cube"):
        s = max(abs(v) for v in spec["bbox"])
    elif t == "cylinder":
        s = spec["h"] + spec["r"]
    elif t == "torus":
        s = spec["r1"] + spec["r2"]
    else:
        s = spec["b"] + spec["h"]
    if spec.get("stretch") is not None:
        s *= max(1.0, float(np.linalg.norm(spec["stretch"])))
    if spec.get("translate") is not None:
        s += float(np.max(np.abs(spec["translate"])))
    return float(s)


def box_of(spec):
    """Tight box of the *untransformed* base shape: (lo, hi)."""
    t = spec["t"]
    if t in ("disk", "ball"):
        c = np.array(spec["x0"])
        return c - spec["r"], c + spec["r"]
    if t in ("rectangle", "cube"):
        b = np.array(spec["bbox"]).reshape(-1, 2)
        return b[:, 0].copy(), b[:, 1].copy()
    if t == "cylinder":
        v = np.array([spec["r"], spec["h"] / 2, spec["r"]])
        return -v, v
    if t == "torus":
        v = np.array([spec["r1"] + spec["r2"], spec["r2"], spec["r1"] + spec["r2"]])
        return -v, v
    b, h = spec["b"], spec["h"]
    return np.array([-SQ * b, -b / 2, -h]) * 1.0001, np.array([SQ * b, b, h]) * 1.0001


def _seg_dist(P, A, B):
    AB = B - A
    t = np.clip(((P - A) @ AB) / (AB @ AB), 0, 1)
    return np.linalg.norm(P - (A + t[:, None] * AB), axis=1)


def true_sd(spec, X):
    """True signed Euclidean distance to the untransformed base shape (negative inside)."""
    X = np.asarray(X, float)
    t = spec["t"]
    if t in ("disk", "ball"):
        return np.linalg.norm(X - np.array(spec["x0"]), axis=1) - spec["r"]
    if t in ("rectangle", "cube"):
        lo, hi = box_of(spec)
        out = X - np.clip(X, lo, hi)
        d_out = np.linalg.norm(out, axis=1)
        d_in = np.minimum((X - lo).min(1), (hi - X).min(1))
        return np.where(d_out > 0, d_out, -d_in)
    if t == "cylinder":
        rho = np.hypot(X[:, 0], X[:, 2])
        y = X[:, 1]
        h = spec["h"] / 2
        e1, e2 = rho - spec["r"], np.abs(y) - h
        inside = (e1 <= 0) & (e2 <= 0)
        return np.where(inside, -np.minimum(-e1, -e2), np.hypot(np.clip(e1, 0, None), np.clip(e2, 0, None)))
    if t == "torus":
        rho = np.hypot(X[:, 0], X[:, 2])
        # distance to the ring: the nearest ring point lies in the half plane of the point
        return np.hypot(rho - spec["r1"], X[:, 1]) - spec["r2"]
    b, h = spec["b"], spec["h"]
    # triangle  SQ*|x| + y/2 <= b/2, y >= -b/2  extruded over |z| <= h
    x0 = (b / 2 + b / 4) / SQ
    V = np.array([[-x0, -b / 2], [x0, -b / 2], [0.0, b]])
    P = X[:, :2]
    d2 = np.minimum.reduce([_seg_dist(P, V[i], V[(i + 1) % 3]) for i in range(3)])
    ins = (SQ * np.abs(P[:, 0]) + P[:, 1] / 2 <= b / 2) & (P[:, 1] >= -b / 2)
    e1 = np.where(ins, -d2, d2)
    e2 = np.abs(X[:, 2]) - h
    inside = (e1 <= 0) & (e2 <= 0)
    return np.where(inside, np.maximum(e1, e2), np.hypot(np.clip(e1, 0, None), np.clip(e2, 0, None)))


# ---------------------------------------------------------------------------------------------- transforms
ANGLES = (0.0, 0.0, np.pi / 2, np.pi, -np.pi / 3, np.pi / 6, 1e-6, 7.0)


def transform_spec(rng, dim, scale, stretch=True, rotate=True, translate=True):
    d = {}
    if rotate and rng.random() < 0.85:
        n = 3
        a = [float(pick(rng, ANGLES)) if rng.random() < 0.5 else float(rng.uniform(-np.pi, np.pi)) for _ in range(n)]
        if rng.random() < 0.25:
            keep = int(rng.integers(3))
            a = [v if i == keep else 0.0 for i, v in enumerate(a)]
        if dim == 2:  # in 2D only the first angle (in the plane) means anything
            a = [a[0], 0.0, 0.0]
        d["rotate"] = a
    if stretch and rng.random() < 0.6:
        v = rng.normal(size=dim)
        if rng.random() < 0.4:
            v = np.eye(dim)[int(rng.integers(dim))] * pick(rng, (1, -1))
        v = v / np.linalg.norm(v) * pick(rng, (0.3, 0.7, 1.0, 1.5, 2.0, 4.0))
        d["stretch"] = [float(x) for x in v]
    if translate and rng.random() < 0.7:
        d["translate"] = [float(x) for x in rng.uniform(-3, 3, dim) * scale]
    return d


def rot_matrix(rotate, dim):
    if rotate is None:
        return np.eye(dim)
    a, b, c = rotate
    if dim == 2:
        return np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    Rx = np.array([[1, 0, 0], [0, np.cos(a), -np.sin(a)], [0, np.sin(a), np.cos(a)]])
    Ry = np.array([[np.cos(b), 0, np.sin(b)], [0, 1, 0], [-np.sin(b), 0, np.cos(b)]])
    Rz = np.array([[np.cos(c), -np.sin(c), 0], [np.sin(c), np.cos(c), 0], [0, 0, 1]])
    return Rx @ Ry @ Rz


def matrix(spec):
    """(A, T): image of q is A q + T."""
    dim = dim_of(spec)
    A = np.eye(dim)
    if spec.get("stretch") is not None:
        v = np.array(spec["stretch"], float)
        a = np.linalg.norm(v)
        v = v / a
        A = A + (a - 1) * np.outer(v, v)
    A = rot_matrix(spec.get("rotate"), dim) @ A
    T = np.zeros(dim) if spec.get("translate") is None else np.array(spec["translate"], float)
    return A, T


def image(spec, Q):
    A, T = matrix(spec)
    return np.asarray(Q) @ A.T + T


def pullback(spec, P):
    A, T = matrix(spec)
    return np.linalg.solve(A, (np.asarray(P, float) - T).T).T


# ---------------------------------------------------------------------------------------------- the real thing
def _arr(v, style):
    if v is None:
        return None
    if style == "np":
        return np.array(v, float)
    if style == "tuple":
        return tuple(v)
    return list(v)


def build(spec, style="list", passed=None):
    """Build the real object. `passed` collects (name, object passed, copy) of every mutable argument."""
    import SeismicMesh as sm
    if "op" in spec:
        c = [build(s, style, passed) for s in spec["c"]]
        if spec["op"] == "repeat":
            return sm.Repeat(tuple(spec["bbox"]), c[0], _arr(spec["period"], style))
        cls = dict(union=sm.Union, intersection=sm.Intersection, difference=sm.Difference)[spec["op"]]
        return cls(c, smoothness=spec["k"]) if spec.get("k") else cls(c)
    kw = {}
    for name in ("rotate", "stretch", "translate"):
        if spec.get(name) is not None:
            a = _arr(spec[name], style)
            kw[name] = a
            if passed is not None:
                passed.append((name, a, list(spec[name])))
    t = spec["t"]
    if t in ("disk", "ball"):
        x0 = _arr(spec["x0"], style)
        if passed is not None:
            passed.append(("x0", x0, list(spec["x0"])))
        return (sm.Disk if t == "disk" else sm.Ball)(x0, spec["r"], **kw)
    if t == "rectangle":
        return sm.Rectangle(tuple(spec["bbox"]), **kw)
    if t == "cube":
        return sm.Cube(tuple(spec["bbox"]), **kw)
    if t == "cylinder":
        return sm.Cylinder(spec["h"], spec["r"], **kw)
    if t == "torus":
        return sm.Torus(spec["r1"], spec["r2"], **kw)
    if t == "prism":
        return sm.Prism(spec["b"], spec["h"], **kw)
    raise ValueError(t)


# ---------------------------------------------------------------------------------------------- points
def base_points(rng, spec, n):
    """Query points for the untransformed base shape: in and around, near its boundary, special and far ones."""
    lo, hi = box_of(spec)
    dim = len(lo)
    w = hi - lo
    W = w.max()
    out = [rng.uniform(lo - 0.3 * W, hi + 0.3 * W, (n, dim)),
           rng.uniform(lo, hi, (n, dim)),
           (lo + hi) / 2 + rng.normal(size=(n // 4, dim)) * W * 10.0 ** rng.uniform(0, 3, (n // 4, 1))]
    # corner and axis neighbourhoods
    c = np.array(np.meshgrid(*[[l, (l + h) / 2, h] for l, h in zip(lo, hi)], indexing="ij")).reshape(dim, -1).T
    out += [c, c + rng.normal(size=c.shape) * W * 1e-3, c + rng.normal(size=c.shape) * W * 0.2]
    # near the boundary: bisect between inside and outside points
    X = np.vstack(out)
    s = true_sd(spec, X)
    I, O = X[s < 0], X[s > 0]
    if len(I) and len(O):
        m = n // 2
        a, b = I[rng.integers(len(I), size=m)], O[rng.integers(len(O), size=m)]
        for _ in range(60):
            mid = (a + b) / 2
            sm_ = true_sd(spec, mid)[:, None]
            a = np.where(sm_ < 0, mid, a)
            b = np.where(sm_ < 0, b, mid)
        out += [a, b, a + rng.normal(size=a.shape) * W * 10.0 ** rng.uniform(-8, -1, (m, 1))]
    return np.vstack(out)


def ref_eval(spec, X):
    """Reference value for k=0 (exact set semantics on real base values is done in the checks); here: pseudo-distances
    from true distances are *not* comparable, so only signs are meaningful. Negative inside."""
    if "op" in spec:
        if spec["op"] == "repeat":
            per = np.array(spec["period"], float)
            q = X - per * np.floor(X / per + 0.5)
            b = np.array(spec["bbox"]).reshape(-1, 2)
            box = np.maximum((b[:, 0] - X).max(1), (X - b[:, 1]).max(1))
            return np.maximum(ref_eval(spec["c"][0], q), box)
        v = [ref_eval(c, X) for c in spec["c"]]
        if spec["op"] == "union":
            return np.minimum.reduce(v)
        if spec["op"] == "intersection":
            return np.maximum.reduce(v)
        return np.maximum.reduce([v[0]] + [-u for u in v[1:]])
    return true_sd(spec, pullback(spec, X))


def nested(rng, dim, depth, scale, smooth=True, near=True):
    if depth == 0 or rng.random() < 0.25:
        s = base_spec(rng, pick(rng, BASE2 if dim == 2 else BASE3), scale=scale * float(rng.uniform(0.5, 1)), offset=0.7)
        s.update(transform_spec(rng, dim, scale * (0.2 if near else 1.0)))
        return s
    op = pick(rng, ("union", "intersection", "difference"))
    n = int(rng.integers(1, 5)) if rng.random() < 0.3 else int(rng.integers(2, 4))
    d = dict(op=op, c=[nested(rng, dim, depth - 1, scale, smooth, near) for _ in range(n)])
    if smooth and rng.random() < 0.5:
        d["k"] = float(scale * 10.0 ** rng.uniform(-3, 0))
    return d


def leaves(spec):
    if "op" in spec:
        for c in spec["c"]:
            yield from leaves(c)
    else:
        yield spec


def desmooth(spec, ops):
    if "op" not in spec:
        return spec
    d = dict(spec, c=[desmooth(c, ops) for c in spec["c"]])
    if spec["op"] in ops:
        d.pop("k", None)
    return d


def has_smooth(spec, ops):
    return "op" in spec and ((spec["op"] in ops and bool(spec.get("k"))) or any(has_smooth(c, ops) for c in spec["c"]))
