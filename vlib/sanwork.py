"""Runs inside a process with the sanitized modules: python -m vlib.sanwork <spec.json> <out.json>

spec: {"native": [[seed, i], ...], "reuse": [[check module, case], ...]}.  Every native call is made with well-formed arguments of
all sizes and several memory layouts; results are compared across layouts, and digests are reported."""
import hashlib, importlib, io, json, os, sys, traceback
import numpy as np


def layouts(rng, a):
    """Equal arrays in other memory layouts."""
    a = np.asarray(a)
    out = [a.copy(order="C"), np.array(a, order="F")]
    big = np.full(tuple(2 * s + 1 for s in a.shape), -7, a.dtype)
    sl = tuple(slice(1, 2 * s + 1, 2) for s in a.shape)
    big[sl] = a
    out.append(big[sl])                                    # strided
    rev = a[::-1].copy()[::-1]                             # negative stride
    out.append(rev)
    if a.dtype.kind == "i":
        out.append(a.astype(np.int32))
        out.append(a.astype(np.int64))
        out.append(np.asfortranarray(a.astype(np.int32)))
    ro = a.copy()
    ro.setflags(write=False)
    out.append(ro)
    buf = np.zeros(a.nbytes + 9, np.uint8)                 # unaligned
    un = buf[1:1 + a.nbytes].view(np.uint8)
    u = np.ndarray(a.shape, a.dtype, buffer=un.data, offset=0) if a.nbytes else a.copy()
    if a.nbytes:
        u[...] = a
    out.append(u)
    return out


class Native:
    def __init__(self, out):
        self.out, self.digest = out, hashlib.sha256()

    def call(self, rng, module, name, arrays, scalars=(), order=None):
        """order: positions of arrays/scalars in the argument list (default arrays first)."""
        f = getattr(importlib.import_module(module), name, None)
        if f is None:
            self.out["errors"].append("%s.%s is not available" % (module, name))
            return None
        args = list(order(arrays, scalars)) if order else list(arrays) + list(scalars)
        ref = np.asarray(f(*args))
        self.digest.update(name.encode() + str(ref.shape).encode() + np.ascontiguousarray(ref).tobytes())
        self.out["calls"][name] = self.out["calls"].get(name, 0) + 1
        self.out["sizes"].add((name,) + tuple(a.shape for a in arrays))
        snap = [a.copy() for a in arrays]
        alts = [layouts(rng, a) for a in arrays]
        for k in range(max(len(x) for x in alts)):
            arr = [x[(k + j) % len(x)] for j, x in enumerate(alts)]
            args = list(order(arr, scalars)) if order else arr + list(scalars)
            got = np.asarray(f(*args))
            self.out["layout_calls"] += 1
            if got.shape != ref.shape or not np.array_equal(got, ref, equal_nan=got.dtype.kind == "f"):
                self.out["layout"].append(dict(function=name, shapes=[list(a.shape) for a in arrays],
                                               strides=[list(a.strides) for a in arr], dtypes=[str(a.dtype) for a in arr]))
                break
        for a, s in zip(arrays, snap):
            if not np.array_equal(a, s):
                self.out["layout"].append(dict(function=name, modified_argument=True, shapes=[list(a.shape) for a in arrays]))
        return ref


def mesh(rng, dim, n):
    from . import meshes
    if n == 0:
        return np.zeros((0, dim)), np.zeros((0, dim + 1), int)
    if n == 1:
        return np.vstack([np.zeros(dim), np.eye(dim)]), np.arange(dim + 1)[None]
    p, t = meshes.random_mesh(rng, dim, n=max(n, dim + 2))
    return p, t.astype(int)


def native(nat, seed, i):
    rng = np.random.default_rng([seed, 126, i])
    k = i % 12
    n = int(rng.choice([0, 1, 2, 3, 5, 17, 64, 300]))
    d2, d3 = rng.normal(size=(n, 2)) * 3, rng.normal(size=(n, 3)) * 3
    box = np.sort(rng.normal(size=(3, 2)), 1)
    G = "_fast_geometry"
    if k == 0:
        nat.call(rng, G, "drectangle_fast", [d2], list(box[:2].ravel()))
        nat.call(rng, G, "dblock_fast", [d3], list(box.ravel()))
    elif k == 1:
        e = rng.integers(0, max(1, n), (n, 2))
        if n > 3 and rng.random() < 0.3:
            e = e * 40000000       # large indices
        nat.call(rng, G, "unique_edges", [e])
    elif k == 2:
        p, t = mesh(rng, 2, n)
        nat.call(rng, G, "remove_external_entities2", [p, t], list(box[:2].ravel()))
        p, t = mesh(rng, 3, min(n, 60))
        nat.call(rng, G, "remove_external_entities3", [p, t], list(box.ravel()))
    elif k == 3:
        p, t = mesh(rng, 3, min(n, 60))
        nat.call(rng, G, "calc_dihedral_angles", [p, t])
    elif k == 4:
        nat.call(rng, G, "calc_3x3determinant", [rng.normal(size=(3, 3))])
        nat.call(rng, G, "calc_4x4determinant", [rng.normal(size=(4, 4))])
    elif k == 5:
        q = [rng.normal(size=(n, 3)) for _ in range(4)]
        nat.call(rng, G, "calc_volume_grad", q[:3])
        nat.call(rng, G, "calc_circumsphere_grad", q)
    elif k == 6:
        for dim in (2, 3):
            nat.call(rng, "_delaunay", "_circumballs%d" % dim, [rng.normal(size=(n * (dim + 1), dim))])
    elif k in (7, 8):
        dim = 2 + (k == 8)
        m = min(n, 120)
        q = rng.integers(-3, 4, (m, dim)).astype(float) if rng.random() < 0.4 else rng.normal(size=(m, dim))
        # point order of the triangulation does not depend on layout, so the cells are comparable one to one
        nat.call(rng, "_delaunay", "_delaunay%d" % dim, [q[:, j].copy() for j in range(dim)])
    elif k == 9:
        dims = [int(x) for x in rng.integers(1, 9, 3)]
        if rng.random() < 0.4:
            dims[int(rng.integers(3))] = 1
        if rng.random() < 0.2:
            dims = [1, 1, 1]
        f = rng.uniform(1, 20, int(np.prod(dims)))
        if rng.random() < 0.5:
            f = f.reshape(dims, order="F").reshape(-1, order="F")
        nat.call(rng, "_FastHJ", "limgrad", [np.array(dims), f], [float(rng.uniform(0.1, 2)), float(rng.uniform(0.01, 1)), int(rng.choice([1, 3, 10000]))],
                 order=lambda a, s: [a[0], s[0], s[1], s[2], a[1]])
    elif k in (10, 11):
        dim = 2 + (k == 11)
        p, t = mesh(rng, dim, min(n, 200 if dim == 2 else 60))
        lo, hi = (p.min(0), p.max(0)) if len(p) else (np.zeros(dim), np.ones(dim))
        a = int(rng.integers(dim))
        boxes = []
        for s in (-1, 1):
            l, h = lo.copy(), hi.copy()
            if s < 0:
                h[a] = l[a] + rng.uniform(0, 0.5) * (hi[a] - lo[a])
                l[a] -= 1
            else:
                l[a] = h[a] - rng.uniform(0, 0.5) * (hi[a] - lo[a])
                h[a] += 1
            boxes.append((l, h))
        if rng.random() < 0.4:     # no neighbour on one side
            boxes[int(rng.integers(2))] = (np.full(dim, -999999999.0), np.full(dim, -999999999.0))
        llc, urc = np.array([b[0] for b in boxes]), np.array([b[1] for b in boxes])
        nat.call(rng, "_cpputils", "where_to%d" % dim, [p, t, llc, urc], [int(rng.integers(3))])


def main():
    spec, outp = json.load(open(sys.argv[1])), sys.argv[2]
    out = dict(calls={}, sizes=set(), layout=[], layout_calls=0, errors=[], reuse=0, exceptions=[])
    nat = Native(out)
    prog = open(outp + ".progress", "w")

    def note(s):
        prog.seek(0)
        prog.write(s + "\n")
        prog.flush()
    for seed, i in spec.get("native", []):
        note(json.dumps(["native", seed, i]))
        try:
            native(nat, seed, i)
        except Exception as e:
            out["exceptions"].append(dict(case=["native", seed, i], what="".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]))
    from . import harness
    for modname, case in spec.get("reuse", []):
        note(json.dumps([modname, case]))
        mod = importlib.import_module("checks." + modname)
        sys.stdout.flush()
        r = harness._execute(mod, case)
        out["reuse"] += 1
        txt = json.dumps(r.get("v", [])) + str(r.get("error", ""))
        if "CGAL ERROR" in txt or "Assertion" in txt:
            out["exceptions"].append(dict(case=[modname, case], what=txt[-1500:]))
    out["sizes"] = len(out["sizes"])
    out["digest"] = nat.digest.hexdigest()
    json.dump(out, open(outp, "w"))
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
