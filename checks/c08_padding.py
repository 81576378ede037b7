"""C08: domain padding of sizing functions and of written velocity models."""
import os
import numpy as np
from vlib import sizing as Z
from vlib import velfiles as V

PROPERTY = "C08"
RULE = ("one case = one random model, padding width (also not a multiple of the spacing, smaller than a cell, zero) and style; all nodes "
        "of the padded grid are compared with an independently padded grid; distinct non-trivial: cases where cells were added")
BUDGET = {"quick": 30, "thorough": 400}
REQUIRED = ["padded_nodes", "style_edge", "style_constant", "style_linear_ramp", "fractional_width", "zero_width", "written_models", "rejections"]
ASSUMPTIONS = ["the cell size is extent/number of nodes, or extent/(number of nodes - 1)"]


def cases(ctx):
    n = 700 if ctx.quick else 9000
    for i in range(n):
        yield dict(kind=("sizing", "sizing", "sizing", "write", "reject")[i % 5], i=i, seed=ctx.seed)


def ref_pad(a, pads, style):
    mx = a.max()
    for ax, (b, c) in enumerate(pads):
        a = np.moveaxis(a, ax, 0)
        lo, hi = [], []
        for k in range(b, 0, -1):
            lo.append(a[0] if style == "edge" else (np.full_like(a[0], mx) if style == "constant" else a[0] + (mx - a[0]) * (k / b)))
        for k in range(1, c + 1):
            hi.append(a[-1] if style == "edge" else (np.full_like(a[-1], mx) if style == "constant" else a[-1] + (mx - a[-1]) * (k / c)))
        a = np.concatenate([x for x in (np.array(lo).reshape((len(lo),) + a.shape[1:]), a, np.array(hi).reshape((len(hi),) + a.shape[1:])) if len(x)])
        a = np.moveaxis(a, 0, ax)
    return a


def counts(w, ext, n):
    """Admissible numbers of padded cells for width w (either cell-size convention, either side of an exact multiple)."""
    s = set()
    for cell in (ext / n, ext / (n - 1)):
        q = w / cell
        s.add(int(np.floor(q)))
        if abs(q - round(q)) < 1e-9:
            s.update((int(round(q)), int(round(q)) - 1) if round(q) > q or True else ())
    return sorted(x for x in s if x >= 0)


def run_case(case, rec):
    rng = np.random.default_rng([case["seed"], 108, case["i"]])
    if case["kind"] == "reject":
        return reject(rng, rec)
    if case["kind"] == "write":
        return write(rng, rec, case)
    dim = 2 if rng.random() < 0.6 else 3
    shape, bbox = Z.grid_spec(rng, dim, nmin=3, nmax=16, big=.003)
    v = Z.velocities(rng, shape)
    opts = dict(hmin=float(rng.uniform(5, 50)), wl=float(rng.uniform(2, 8)), freq=float(rng.uniform(1, 5)))
    style = Z.pick(rng, ("edge", "constant", "linear_ramp"))
    ext = [bbox[2 * i + 1] - bbox[2 * i] for i in range(dim)]
    w = width(rng, ext, shape)
    base = Z.at_nodes(Z.call(bbox, v, **opts), bbox, shape)
    kw = dict(opts, domain_pad=w)
    if style != "edge" or rng.random() < 0.5:
        kw["pad_style"] = style
    v0 = v.copy()
    sf = Z.call(bbox, v, **kw)
    rec.check(np.array_equal(v, v0), "input-modified", "padding modified the caller's velocities")
    if w == 0:
        rec.count("zero_width")
        rec.check(tuple(sf.bbox) == tuple(bbox), "zero-width-bbox", "zero width changed the bounding box", bbox=bbox, got=sf.bbox)
        rec.check(np.array_equal(Z.at_nodes(sf, bbox, shape), base), "zero-width-sizes", "zero width changed the sizes")
        return
    want = [bbox[0] - w, bbox[1]]
    for i in range(1, dim):
        want += [bbox[2 * i] - w, bbox[2 * i + 1] + w]
    rec.check(len(sf.bbox) == 2 * dim and np.allclose(sf.bbox, want, rtol=1e-12, atol=1e-9), "bbox", "padded bounding box is not the extended one",
              bbox=bbox, width=w, got=sf.bbox, want=want)
    cand = [counts(w, ext[i], shape[i]) for i in range(dim)]
    best = None
    for combo in _product(cand):
        pads = [(combo[0], 0)] + [(c, c) for c in combo[1:]]
        ref = ref_pad(base, pads, style)
        got = at32(sf, sf.bbox, ref.shape)
        err = np.abs(got - ref).max() / ref.max()
        if best is None or err < best[0]:
            best = (err, combo, ref, got)
    err, combo, ref, got = best
    rec.count("padded_nodes", ref.size - base.size)
    rec.count("style_" + style)
    rec.count("fractional_width", any(abs(w / (e / n) - round(w / (e / n))) > 1e-6 for e, n in zip(ext, shape)))
    data = dict(shape=shape, bbox=bbox, width=w, style=style, candidate_counts=cand, best=combo, error=float(err))
    rec.check(err <= 1e-5, "padded-sizes", "the padded size grid is not the original one extended as requested", **data)
    if sum(combo):
        rec.distinct(shape, w, style, combo)
    # the dense field between the nodes, too (detects a grid of another resolution)
    rec.check(np.all(np.isfinite(got)) and np.all(got >= opts["hmin"] * (1 - 1e-9)), "range", "padded sizes below hmin or not finite", **data)
    rec.sample = data


def at32(sf, bbox, shape):
    ax = [np.linspace(bbox[2 * i], bbox[2 * i + 1], n) for i, n in enumerate(shape)]
    X = np.stack(np.meshgrid(*ax, indexing="ij"), axis=-1).reshape(-1, len(shape))
    return np.asarray(sf.eval(X), float).reshape(shape)


def _product(c):
    import itertools
    return itertools.product(*c)


def width(rng, ext, shape):
    k = int(rng.integers(5))
    cell = ext[0] / shape[0]
    if k == 0:
        return float(int(rng.integers(1, 6)) * cell)
    if k == 1:
        return float(rng.uniform(0.1, 8) * cell)
    if k == 2:
        return float(rng.uniform(0.05, 0.95) * cell)
    if k == 3 and rng.random() < 0.5:
        return 0.0
    return float(rng.uniform(0.2, 1.0) * max(ext))


def write(rng, rec, case):
    import SeismicMesh as sm
    import h5py
    dim = 2 if rng.random() < 0.4 else 3
    shape = tuple(int(x) for x in rng.integers(3, 10, dim))
    arr = rng.uniform(1000, 5000, shape).astype(np.float32)
    step = float(Z.pick(rng, (10.0, 12.5, 20.0)))
    bbox = tuple(float(x) for n in shape for x in (-(n - 1) * step, 0.0))
    ext = [bbox[2 * i + 1] - bbox[2 * i] for i in range(dim)]
    w = width(rng, ext, shape)
    style = Z.pick(rng, ("edge", "constant", "linear_ramp"))
    with V.scratch() as d:
        if dim == 2:
            fn = os.path.join(d, "m.segy")
            V.write_segy(fn, arr)
            kw = {}
        else:
            fn = os.path.join(d, "m.bin")
            kw = V.write_bin(fn, arr, (0, 1, 2), "F", "little", "float32")
        sm.write_velocity_model(fn, ofname=os.path.join(d, "o"), bbox=bbox, domain_pad=w, pad_style=style, **kw)
        with h5py.File(os.path.join(d, "o.hdf5")) as f:
            got = np.array(f["velocity_model"])
            sh = tuple(int(x) for x in f.attrs["shape"])
    base = arr[::-1].astype(float)
    cand = [counts(w, ext[i], shape[i]) for i in range(dim)] if w > 0 else [[0]] * dim
    ok = False
    for combo in _product(cand):
        ref = ref_pad(base, [(combo[0], 0)] + [(c, c) for c in combo[1:]], style)
        if ref.shape == got.shape and np.abs(got - ref).max() <= 1e-5 * ref.max():
            ok = True
            break
    data = dict(shape=shape, bbox=bbox, width=w, style=style, got_shape=got.shape, candidate_counts=cand)
    rec.check(ok, "padded-velocities", "the written padded velocity model is not the original one extended as requested", **data)
    rec.check(sh == got.shape, "shape-attribute", "shape attribute differs from the data", attr=sh, **data)
    rec.count("written_models")
    if ok and sum(combo):
        rec.distinct("write", shape, w, style)
    rec.sample = data


def reject(rng, rec):
    shape, bbox = Z.grid_spec(rng, 2 if rng.random() < 0.5 else 3, nmin=3, big=.003)
    v = Z.velocities(rng, shape)
    w = float(rng.uniform(1, 200))
    for kw in (dict(domain_pad=-w), dict(domain_pad=w, pad_style="reflect"), dict(domain_pad=w, pad_style="EDGE"), dict(domain_pad=w, pad_style=None),
               dict(domain_pad=w, pad_style="")):
        try:
            Z.call(bbox, v, wl=5, **kw)
        except Exception:
            rec.count("rejections")
            rec.nassert += 1
        else:
            rec.fail("accepted", "invalid padding accepted: %r" % (kw,), opts=kw)
