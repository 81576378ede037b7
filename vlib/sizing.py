"""Workloads and reference rules for sizing functions built from velocity models."""
import numpy as np


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def grid_spec(rng, dim, nmin=2, nmax=22, iso=False, big=.015):
    """Shape and bounding box (some far from the origin, like map coordinates)."""
    if dim == 3:
        nmax = min(nmax, 11)
    n = [int(rng.integers(nmin, nmax + 1)) for _ in range(dim)]
    if rng.random() < big:      # more nodes than fit in 16 bits
        n = [int(v) for v in rng.integers(*((200, 420) if dim == 2 else (38, 46)), dim)]
        n[int(rng.integers(dim))] += 70 if dim == 2 else 8
    st = [float(pick(rng, (5.0, 10.0, 12.5, 20.0, 50.0, 0.5))) for _ in range(dim)]
    if iso:
        st = [st[0]] * dim
    lo = [float(int(rng.integers(-40, 20)) * s) for s in st]
    if rng.random() < .25:
        lo[1:] = [float(round(x) + .25) for x in rng.uniform(2e5, 8e6, dim - 1)]
    bbox = tuple(float(v) for a, m, s in zip(lo, n, st) for v in (a, a + (m - 1) * s))
    return tuple(n), bbox


def velocities(rng, shape, lo=1000.0, hi=5500.0):
    kind = int(rng.integers(5))
    z = np.linspace(0, 1, shape[0]).reshape((-1,) + (1,) * (len(shape) - 1))
    if kind == 0:
        v = rng.uniform(lo, hi, shape)
    elif kind == 1:
        v = np.broadcast_to(lo + (hi - lo) * z, shape) + rng.normal(size=shape) * 5
    elif kind == 2:
        v = np.where(np.broadcast_to(z, shape) < rng.uniform(0.2, 0.8), lo * 1.2, hi * 0.8) * np.ones(shape)
    elif kind == 3:
        v = np.full(shape, float(rng.uniform(lo, hi)))
    else:
        v = np.full(shape, float(rng.uniform(lo, hi)))
        m = rng.random(shape) < 0.05
        v[m] = rng.uniform(lo, hi, m.sum())
    return np.clip(np.array(v, float), lo * 0.9, hi * 1.1)


def nodes(bbox, shape):
    ax = [np.linspace(bbox[2 * i], bbox[2 * i + 1], n) for i, n in enumerate(shape)]
    return np.stack(np.meshgrid(*ax, indexing="ij"), axis=-1).reshape(-1, len(shape))


def at_nodes(sf, bbox, shape):
    return np.asarray(sf.eval(nodes(bbox, shape)), float).reshape(shape)


def multilinear(F, bbox, X):
    """Multilinear interpolation of node values at points of the box; and the smallest and largest value of the cell."""
    F = np.asarray(F, float)
    idx, fr = [], []
    for k, n in enumerate(F.shape):
        u = np.clip((X[:, k] - bbox[2 * k]) / (bbox[2 * k + 1] - bbox[2 * k]) * (n - 1), 0, n - 1)
        i = np.minimum(np.floor(u).astype(int), n - 2)
        idx.append(i)
        fr.append(u - i)
    val, lo, hi = 0.0, np.inf, -np.inf
    for c in np.ndindex(*(2,) * F.ndim):
        v = F[tuple(i + o for i, o in zip(idx, c))]
        val = val + v * np.prod([f if o else 1 - f for f, o in zip(fr, c)], axis=0)
        lo, hi = np.minimum(lo, v), np.maximum(hi, v)
    return val, lo, hi


def kw_shape(shape):
    return dict(zip(("nz", "nx", "ny"), shape))


def call(bbox, vp, **kw):
    import SeismicMesh as sm
    return sm.get_sizing_function_from_segy(None, bbox, velocity_data=vp, **dict(kw_shape(np.shape(vp)), **kw))


def layout(rng, a):
    k = int(rng.integers(4))
    if k == 0:
        return np.ascontiguousarray(a)
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    return np.ascontiguousarray(a[::-1])[::-1]


def window_variance(vp, window):
    """Population variance over a window of `window[a]` nodes per axis (reflected at the ends), two-pass."""
    w = [int(x) for x in window]
    pad = [(x // 2, x - x // 2 - 1) for x in w]
    # reflect ("symmetric") padding that may exceed the array length
    a = vp
    for ax, (b, c) in enumerate(pad):
        n = a.shape[ax]
        idx = np.arange(-b, n + c)
        m = np.mod(idx, 2 * n)
        idx = np.where(m >= n, 2 * n - 1 - m, m)
        a = np.take(a, idx, axis=ax)
    win = np.lib.stride_tricks.sliding_window_view(a, tuple(w))
    return win.reshape(vp.shape + (-1,)).var(axis=-1)


def tightest(F, steps):
    """Largest field <= F whose differences along axis a are <= steps[a] per node."""
    G = np.array(F, float)
    for ax, s in enumerate(steps):
        G = np.moveaxis(G, ax, 0)
        for i in range(1, len(G)):
            G[i] = np.minimum(G[i], G[i - 1] + s)
        for i in range(len(G) - 2, -1, -1):
            G[i] = np.minimum(G[i], G[i + 1] + s)
        G = np.moveaxis(G, 0, ax)
    return G
