"""Problems for parallel meshing, and real MPI runs."""
import json, os, subprocess, sys, tempfile
import numpy as np
from vlib import meshgen as mg, shapes

ENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none",
           OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_rmaps_base_oversubscribe="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def slab(rng, dim, size, axis, th, cross=None, shift=True):
    """A box `th` sizes thick per rank along `axis`, h = S."""
    S = float(10 ** rng.uniform(-2, 3))
    lo, hi = cross or ((6, 12) if dim == 2 else (4, 6))
    L = rng.uniform(lo, hi, dim)
    L[axis] = th * size
    o = rng.uniform(-1, 1, dim) * L.max() * int(rng.choice([0, 0, 1, 5])) * shift
    shape = dict(t="rectangle" if dim == 2 else "cube", bbox=[float(v * S) for a, x in zip(o, L) for v in (a, a + x)])
    return dict(dim=dim, fam="slab", shape=shape, feat=S * 4, h=S, S=S, form="shape" if rng.random() < .8 else "callable", smooth=False)


def chain(rng, dim, size, axis, th, gaps=None):
    """Separate or touching blobs along `axis`, at least one reaching well into every rank's part."""
    S = float(10 ** rng.uniform(-2, 3))
    n = size if gaps is None else gaps
    c = []
    for k in range(n):
        x = np.zeros(dim)
        x[axis] = (k + .5) * th * size / n
        w = th * size / n
        kind = rng.random()
        r = w * (.5 if kind < .3 else rng.uniform(.35, .62)) if dim == 2 else w * rng.uniform(.36, .55)
        r = min(r, 9 if dim == 2 else 6)
        if kind < .6:
            c.append(dict(t="disk" if dim == 2 else "ball", x0=[float(v * S) for v in x], r=float(r * S)))
        else:
            e = np.full(dim, min(r, 5 if dim == 2 else 3))
            e[axis] = r
            c.append(dict(t="rectangle" if dim == 2 else "cube", bbox=[float(v * S) for a, b in zip(x - e, x + e) for v in (a, b)]))
    shape = c[0] if len(c) == 1 else dict(op="union", c=c)
    return dict(dim=dim, fam="chain", shape=shape, feat=S * 4, h=S, S=S, form="shape", smooth=False)


def graded(rng, pb, kind, ratio, g):
    sz = mg.sizing(rng, pb, kind)
    if kind != "scalar":
        sz["h"], sz["hmax"], sz["g"] = pb["h"], pb["h"] * ratio, g
    return sz


PROG = """
import sys, os, json
spec = json.load(open(sys.argv[1]))
sys.path[:0] = spec["path"]
import numpy as np, warnings
warnings.simplefilter("ignore")
import SeismicMesh as sm
from mpi4py import MPI
from vlib import meshgen as mg
c = MPI.COMM_WORLD
if spec["delay"]:
    import time
    time.sleep(spec["delay"][c.rank])
if spec.get("segy"):
    dom, ef = mg.segy_build(spec["segy"])
    p, t = sm.generate_mesh(dom, ef, **spec["kw"])
else:
    kw = dict(spec["kw"])
    if spec.get("points") is not None:
        kw["points"] = np.array(spec["points"])
    p, t = mg.run(spec["pb"], spec["sz"], comm=c, **kw)
if c.rank == 0:
    np.savez(spec["out"], p=p, t=t)
else:
    assert p is True and t is True
s = c.iprobe(MPI.ANY_SOURCE, MPI.ANY_TAG)
assert not s, "message left over"
c.Barrier()
assert not c.iprobe(MPI.ANY_SOURCE, MPI.ANY_TAG), "message left over"
"""


def mpirun(n, spec, timeout=120):
    """Run a meshing request under a real MPI.  Returns ("ok", p, t), ("hang",), ("error", text) or ("nompi", text)."""
    work = os.environ.get("VERIF_WORK") or tempfile.gettempdir()
    with tempfile.TemporaryDirectory(prefix="mpi-", dir=work) as d:
        spec = dict(spec, path=[x for x in (os.environ.get("VERIF_LIB"), os.environ.get("VERIF_REPO", "/repo")) if x] + [os.path.dirname(os.path.dirname(os.path.abspath(__file__)))], out=d + "/out.npz")
        json.dump(spec, open(d + "/spec.json", "w"))
        open(d + "/prog.py", "w").write(PROG)
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PMIX_", "OMPI_", "OPAL_", "PRTE_"))}
        env.update(ENV, TMPDIR=d)
        try:
            ver = subprocess.run(["mpiexec", "--oversubscribe", "-n", "1", sys.executable, "-c", "from mpi4py import MPI; MPI.COMM_WORLD.Barrier()"], env=env, cwd=d,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60) if spec.get("probe") else None
            if ver is not None and ver.returncode:
                return "nompi", ver.stdout.decode(errors="replace")[-300:]
        except (OSError, subprocess.TimeoutExpired) as e:
            return "nompi", repr(e)
        p = subprocess.Popen(["timeout", "-k", "5", str(timeout), "mpiexec", "--oversubscribe", "-n", str(n), sys.executable, d + "/prog.py", d + "/spec.json"], env=env, cwd=d,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        out = p.communicate()[0].decode(errors="replace")
        if p.returncode in (124, 137):
            return "hang", out[-500:]
        if p.returncode:
            return "error", out[-1500:]
        z = np.load(d + "/out.npz")
        return "ok", z["p"], z["t"]
