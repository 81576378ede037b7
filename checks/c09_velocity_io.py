"""C09: reading and writing velocity models."""
import os
import numpy as np
from vlib import sizing as Z
from vlib import velfiles as V

PROPERTY = "C09"
RULE = ("one case = one random model stored by an independent writer (binary: axis order, sort order, byte order, precision, sizes; "
        "SEG-Y: IEEE or IBM floats) and read back, written to HDF5 and used for a sizing function; distinct non-trivial: file layouts x shapes")
BUDGET = {"quick": 30, "thorough": 300}
REQUIRED = ["binary_models", "segy_models", "hdf5_files", "values", "rejections", "sizing_from_file", "options_omitted"]
ORDERS = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]


def cases(ctx):
    i = 0
    for rep in range(3 if ctx.quick else 50):
        for o in range(6):
            for sort in "FC":
                for bo in ("little", "big"):
                    for dt in ("float32", "float64"):
                        yield dict(kind="bin", i=i, order=o, sort=sort, bo=bo, dtype=dt, seed=ctx.seed)
                        i += 1
        for _ in range(40):
            yield dict(kind="segy", i=i, seed=ctx.seed)
            i += 1
        for _ in range(6):
            yield dict(kind="reject", i=i, seed=ctx.seed)
            i += 1


def run_case(case, rec):
    import SeismicMesh as sm
    import h5py
    rng = np.random.default_rng([case["seed"], 109, case["i"]])
    omit = []
    with V.scratch() as d:
        if case["kind"] == "reject":
            return reject(rng, rec, d)
        if case["kind"] == "bin":
            shape = tuple(int(x) for x in rng.integers(1, 12, 3))
            if rng.random() < 0.2:
                shape = (shape[0],) * 3
            arr = rng.uniform(-10, 6000, shape)
            if rng.random() < 0.5:
                arr = np.arange(np.prod(shape), dtype=float).reshape(shape) + 1   # every value identifies its node
            arr = arr.astype(case["dtype"])
            fn = os.path.join(d, Z.pick(rng, ("model.bin", "model", "a.dat")))
            kw = V.write_bin(fn, arr, ORDERS[case["order"]], case["sort"], case["bo"], case["dtype"])
            if rng.random() < 0.5:
                kw["axes_order"] = list(kw["axes_order"])
            # writing and sizing have documented defaults for these
            for a, b in (("axes_order", (0, 1, 2)), ("axes_order_sort", "F"), ("dtype", "float32")):
                if tuple(kw[a]) == tuple(b) and rng.random() < .5:
                    omit.append(a)
            want_dims = shape
            what = dict(case, shape=shape)
            rec.count("binary_models")
        else:
            shape = (int(rng.integers(1, 40)), int(rng.integers(1, 30)))
            fmt = Z.pick(rng, (5, 1))
            arr = rng.integers(1000, 6000, shape).astype(float) if fmt == 1 else rng.uniform(0.5, 6000, shape)
            arr = arr.astype(np.float32)
            fn = os.path.join(d, "model.segy")
            V.write_segy(fn, arr, fmt)
            kw = {}
            want_dims = shape
            what = dict(case, shape=shape, fmt=fmt)
            rec.count("segy_models")
        out = sm.read_velocity_model(fn, **kw)
        vp = np.asarray(out[0])
        dims = tuple(int(x) for x in out[1:1 + len(shape)])
        want = arr[::-1]
        rec.check(dims == want_dims, "dimensions", "returned sizes are not those of the model", got=dims, want=want_dims, what=what)
        if rec.check(vp.shape == want.shape, "shape", "the array read has another shape", got=vp.shape, want=want.shape, what=what):
            rec.nassert += want.size
            bad = np.asarray(vp, float) != want.astype(float)
            if bad.any():
                j = np.unravel_index(int(np.argmax(bad)), want.shape)
                rec.fail("values", "the value read at a node is not the stored one", what=what, node=[int(x) for x in j], got=float(vp[j]), want=float(want[j]),
                         wrong=int(bad.sum()))
        rec.count("values", want.size)
        ofname = os.path.join(d, "out") if rng.random() < 0.7 else None
        sm.write_velocity_model(fn, ofname=ofname, **{a: b for a, b in kw.items() if a not in omit})
        rec.count("options_omitted", len(omit))
        h5 = (ofname or fn) + ".hdf5"
        if rec.check(os.path.exists(h5), "hdf5-missing", "no HDF5 file where expected", what=what, files=os.listdir(d)):
            with h5py.File(h5) as f:
                h = np.array(f["velocity_model"])
                sh = tuple(int(x) for x in f.attrs["shape"])
            rec.check(h.shape == want.shape and np.array_equal(h, want.astype(np.float32)), "hdf5-values", "HDF5 does not hold the values in single precision",
                      what=what, got_shape=h.shape)
            rec.check(sh == want.shape, "hdf5-shape", "shape attribute wrong", got=sh, want=want.shape)
            rec.count("hdf5_files")
        # the reader is used by the sizing function, so depth orientation there is the same
        if min(shape) >= 2:
            pos = np.abs(arr) + 1000
            if case["kind"] == "bin":
                kw = V.write_bin(fn, pos, ORDERS[case["order"]], case["sort"], case["bo"], case["dtype"])
            else:
                V.write_segy(fn, pos, 5)
            bbox = tuple(float(x) for n in shape for x in (-(n - 1) * 10.0, 0.0))
            sf = sm.get_sizing_function_from_segy(fn, bbox, wl=1, freq=1.0, hmin=1.0, hmax=1e9, **{a: b for a, b in kw.items() if a not in omit})
            got = Z.at_nodes(sf, bbox, shape)
            ref = pos[::-1].astype(float)
            rec.check(np.allclose(got, ref, rtol=2e-6), "sizing-orientation", "sizes from the file are not oriented like the model", what=what)
            rec.count("sizing_from_file")
        rec.distinct({k: v for k, v in what.items() if k not in ("i", "seed")})
        rec.sample = what


def reject(rng, rec, d):
    import SeismicMesh as sm
    arr = rng.uniform(1000, 2000, (3, 4, 5)).astype(np.float32)
    fn = os.path.join(d, "m.bin")
    kw = V.write_bin(fn, arr, (0, 1, 2), "F", "little", "float32")
    bad = []
    for k in ("nz", "nx", "ny"):
        bad.append(dict(kw, **{k: None}))
        bad.append({a: b for a, b in kw.items() if a != k})
    bad += [dict(kw, byte_order=None), dict(kw, byte_order="middle"), {a: b for a, b in kw.items() if a != "byte_order"}]
    bad += [dict(kw, nz=4)]     # sizes that do not match the file
    for b in bad:
        for fn_ in (lambda: sm.read_velocity_model(fn, **b), lambda: sm.write_velocity_model(fn, ofname=os.path.join(d, "x"), **b)):
            try:
                fn_()
            except Exception:
                rec.count("rejections")
                rec.nassert += 1
            else:
                rec.fail("accepted", "invalid binary description accepted: %r" % (b,), opts=b)
