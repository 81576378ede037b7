"""C18: parallel runs complete, deliver every message once, and do not depend on the interleaving."""
import os, tempfile
import numpy as np
from checks.c13_repro import digest
from vlib import meshgen as mg, meshes, parprob, velfiles, vmpi

PROPERTY = "C18"
RULE = ("one case = one parallel request executed under several schedules of a virtual MPI world (which rank runs next, which messages are sent synchronously) or under a real MPI; "
        "distinct non-trivial: different sequences of communication events (schedules) with at least one switch between ranks, and requests")
BUDGET = {"quick": 90, "thorough": 700}
REQUIRED = ["worlds", "messages", "collectives", "switches", "schedules_compared", "requests_2d", "requests_3d", "restarts", "segy", "pipelines", "operations", "gaps", "real_runs", "idle_exchanges"]
ASSUMPTIONS = ["every rank starts with points", "the virtual communicator implements MPI's matching and completion rules; ranks switch only inside communicator operations (they share no memory)"]
KINDS = ("mesh2", "ops", "chain2", "mesh3", "restart2", "ops", "segy2", "chain3", "pipe3", "mesh2", "real", "restart3", "ops", "chain2", "segy3", "pipe2", "general2", "general3")
COMBOS = [(s, d) for s in vmpi.STRATEGIES for d in ("mixed", "rendezvous", "eager", "size")]


def cases(ctx):
    n = 378 if ctx.quick else 9000
    for i in range(n):
        yield dict(kind=KINDS[i % len(KINDS)], i=i, seed=ctx.seed)


def observe(rec, w, first):
    rec.count("worlds")
    rec.count("messages", sum(e[0] == "send" for e in w.log))
    rec.count("collectives", sum(e[0] == "coll" for e in w.log))
    rec.count("switches", w.switches)
    if w.switches:
        rec.distinct("schedule", hash(w.schedule_key()))
    for k, m in w.problems:
        rec.fail(k, m, size=w.size, strategy=w.strategy, delivery=w.delivery)
    ok = not w.problems
    for r, e in enumerate(w.error):
        if e is not None and not isinstance(e, vmpi.Aborted):
            rec.fail("rank-error", "rank %d of %d fails with %s: %s" % (r, w.size, type(e).__name__, str(e)[:200]), strategy=w.strategy, delivery=w.delivery)
            ok = False
    return ok


def same(rec, rng, size, fn, key, m=3, others=True):
    """Run fn(comm) under m schedules; fn returns (points, cells) or nested tuples of arrays."""
    pick = rng.permutation(len(COMBOS))[:m]
    first = None
    for j, k in enumerate(pick):
        s, d = COMBOS[k]
        np.random.seed(int(rng.integers(1 << 31)))
        w = vmpi.run(size, fn, strategy=s, delivery=d, seed=int(rng.integers(1 << 30)))
        if not observe(rec, w, j == 0):
            return None
        dg = [flat(x) for x in w.result]
        if first is None:
            first = (dg, s, d, w.result)
        else:
            rec.count("schedules_compared")
            bad = [r for r in range(size) if dg[r] != first[0][r]]
            rec.check(not bad, "schedule-dependent", "%s: ranks %s return something else under %s/%s than under %s/%s" % (key, bad, s, d, first[1], first[2]), size=size)
        if others:
            for r in range(1, size):
                x = w.result[r]
                rec.check(len(x) == 2 and x[0] is True and x[1] is True, "other-ranks", "rank %d returns something else than (True, True)" % r)
    return first[3]


def flat(x):
    if isinstance(x, np.ndarray):
        return (x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, (tuple, list)):
        return tuple(flat(v) for v in x)
    return repr(x)


def request(kind, rng, i):
    dim = int(kind[-1])
    size = int(rng.choice([2, 2, 3, 4, 5])) if dim == 2 else int(rng.choice([2, 2, 3, 4]))
    axis = int(rng.integers(dim))
    kw = dict(verbose=0, seed=int(rng.integers(0, 1000)), max_iter=int(rng.choice([1, 2, 5, 12, 25])) if dim == 2 else int(rng.choice([1, 2, 4, 8])), axis=axis)
    if rng.random() < .2:
        kw["mesh_improvement"] = False
    if rng.random() < .2:
        kw["r0m_is_h0"] = True
    if "chain" in kind:
        pb = parprob.chain(rng, dim, size, axis, rng.uniform(9, 16) if dim == 2 else rng.uniform(6, 10))
    elif "general" in kind:
        size = 2
        pb, sz = mg.limited(rng, dim, 1200)
        kw["axis"] = int(np.argmax(np.subtract(*mg.ref_box(pb["shape"])[::-1])))
        return pb, sz, size, kw
    else:
        pb = parprob.slab(rng, dim, size, axis, rng.uniform(6, 20) if dim == 2 else rng.uniform(5, 10))
    sz = parprob.graded(rng, pb, ["scalar", "radial", "plane"][int(rng.integers(3))], 1.7, .15)
    return pb, sz, size, kw


def run_mesh(kind, rec, rng, i):
    pb, sz, size, kw = request(kind, rng, i)
    dim = pb["dim"]
    rec.count("requests_%dd" % dim)
    if "chain" in kind:
        rec.count("gaps", size - 1)
    r = same(rec, rng, size, lambda c: mg.run(pb, sz, comm=c, **kw), "generate_mesh", 2 + int(rng.random() < .5))
    rec.distinct(kind, size, kw["axis"], sz["kind"], kw["max_iter"], pb["fam"])
    return pb, sz, size, kw, r


def run_restart(kind, rec, rng, i):
    pb, sz, size, kw = request("mesh" + kind[-1], rng, i)
    X = mg.interior_points(rng, pb, int(150 * size if pb["dim"] == 2 else 120 * size), 0.0)
    rec.count("restarts")
    same(rec, rng, size, lambda c: mg.run(pb, sz, comm=c, points=X.copy(), **kw), "restart", 2)
    rec.distinct(kind, size, kw["axis"], sz["kind"], kw["max_iter"])


def run_segy(kind, rec, rng, i):
    d = mg.segy_problem(rng, int(kind[-1]))
    size = int(rng.integers(2, 4))
    bb = np.array(d["bbox"]).reshape(-1, 2)
    axis = int(np.argmax(bb[:, 1] - bb[:, 0]))
    kw = dict(verbose=0, seed=i % 100, max_iter=int(rng.choice([2, 5, 10])) if d["dim"] == 2 else 3, axis=axis)
    rec.count("segy")

    def fn(c):
        import SeismicMesh as sm
        rs = np.random.default_rng(d["vseed"])
        v = 1500.0 * (1 + rs.random(d["n"]))
        ef = sm.get_sizing_function_from_segy(None, tuple(d["bbox"]), comm=c, velocity_data=v, hmin=d["hmin"], hmax=d["hmax"], wl=d["wl"], freq=1.0, grade=d["grade"],
                                              **dict(dict(zip(("nz", "nx", "ny"), d["n"])), **(dict(domain_pad=d["pad"], pad_style=d["style"]) if d["pad"] else {})))
        dom = (sm.Rectangle if d["dim"] == 2 else sm.Cube)(tuple(d["bbox"]))
        p, t = sm.generate_mesh(dom, ef, c, **kw)
        bs.append(tuple(float(v) for v in np.ravel(ef.bbox)))
        return p, t
    bs = []
    if same(rec, rng, size, fn, "sizing + generate_mesh", 2) is not None:
        rec.check(len(set(bs)) == 1, "bbox-differs", "the ranks hold different bounding boxes of the sizing function", boxes=sorted(set(bs)))
    rec.distinct(kind, size, axis, d["pad"] > 0, kw["max_iter"])


def run_pipe(kind, rec, rng, i):
    """sizing, velocity file, plot, mesh, broadcast, restart, sliver removal (3D), in one program, all with the communicator."""
    dim = int(kind[-1])
    d = mg.segy_problem(rng, dim)
    size = int(rng.integers(2, 4))
    bb = np.array(d["bbox"]).reshape(-1, 2)
    axis = int(np.argmax(bb[:, 1] - bb[:, 0]))
    work = tempfile.mkdtemp(dir=os.environ["VERIF_WORK"])
    rec.count("pipelines")
    n = [0]
    v = (1500.0 * (1 + np.random.default_rng(d["vseed"]).random(d["n"]))).astype(np.float32)
    if dim == 2:
        fn_, dims = work + "/v.segy", {}
        velfiles.write_segy(fn_, v)
    else:
        fn_ = work + "/v.bin"
        dims = velfiles.write_bin(fn_, v, (0, 1, 2), "F", "little", "float32")

    def fn(c):
        import SeismicMesh as sm
        ef = sm.get_sizing_function_from_segy(fn_, tuple(d["bbox"]), comm=c, hmin=d["hmin"], hmax=d["hmax"], wl=d["wl"], freq=1.0, grade=d["grade"], **dims)
        n[0] += c.rank == 0
        sm.write_velocity_model(fn_, ofname=work + "/v%d" % n[0], comm=c, **dims)
        if i % 3 == 0 and dim == 2:
            import matplotlib.pyplot as plt
            sm.plot_sizing_function(ef, comm=c)
            if c.rank == 0:
                plt.close("all")
        dom = (sm.Rectangle if dim == 2 else sm.Cube)(tuple(d["bbox"]))
        p, t = sm.generate_mesh(dom, ef, c, verbose=0, seed=1, max_iter=4, axis=axis)
        p = c.bcast(p if c.rank == 0 else None, 0)
        q, t = sm.generate_mesh(dom, ef, c, verbose=0, max_iter=2, axis=axis, points=p)
        if dim == 3:
            q = c.bcast(q if c.rank == 0 else None, 0)
            return sm.sliver_removal(q, dom, ef, c, verbose=0, max_iter=2)
        return q, t
    same(rec, rng, size, fn, "pipeline", 2)
    rec.distinct(kind, size, axis)


def run_ops(kind, rec, rng, i):
    """A random program of migration and collective operations, the same on every rank."""
    import SeismicMesh as sm
    dim = int(rng.integers(2, 4))
    size = int(rng.integers(2, 8))
    prog = []
    for k in range(int(rng.integers(3, 12))):
        op = ("exchange", "exchange", "distribute", "sizing", "aggregate", "bcast")[int(rng.integers(6))]
        s = int(rng.integers(1 << 30))
        prog.append((op, s))
    axis = int(rng.integers(dim))
    rec.count("operations", len(prog))

    def fn(c):
        out = []
        for op, s in prog:
            g = np.random.default_rng(s)
            if op == "exchange":
                sparse = g.random() < .4
                for r in range(size):
                    nb = 0 if r == 0 else int(g.choice([0, 0, 4] if sparse else [0, 1, 30, 400]))
                    na = 0 if r == size - 1 else int(g.choice([0, 0, 4] if sparse else [0, 1, 30, 400]))
                    X = np.full((1 + nb + na + 2, dim + 1), -1.0)
                    X[0] = 0
                    X[0, :2] = nb, na
                    X[1:1 + nb + na] = g.normal(size=(nb + na, dim + 1))
                    if r == c.rank:
                        mine = X
                        rec.count("idle_exchanges", nb + na == 0)
                out.append(np.array(sm.migration.exchange(c, c.rank, size, mine, dim=dim)))
            elif op == "distribute":
                p = g.random((40 * size, dim))
                b, e = sm.decomp.blocker(p, c.rank, size, axis) if c.rank == 0 else (None, None)
                q, e = sm.migration.localize_points(b, e, c, dim)
                out += [np.array(q), np.array(e, float)]
            elif op == "sizing":
                bb = np.array([[0.0, 1.0]] * dim)
                a = g.random(dim)
                f = sm.migration.localize_sizing_function(lambda x: .1 + sum(w * v for w, v in zip(a, x if isinstance(x, tuple) else np.asarray(x).T)), .2, bb, dim, axis, c)
                out.append(np.asarray(f(g.random((20, dim)))))
            elif op == "aggregate":
                for r in range(size):
                    p, t = meshes.random_mesh(g, dim, n=int(g.integers(6, 200 if s % 3 == 0 else 20)), components=False)
                    if r == c.rank:
                        mine = p + 3 * r, t
                P, T = sm.migration.aggregate(mine[0].copy(), mine[1].copy(), c, size, c.rank, dim=dim)
                out += [np.array(P), np.array(T)] if c.rank == 0 else [P, T]
            else:
                out.append(c.bcast(("x", s) if c.rank == s % size else None, s % size))
        return out
    same(rec, rng, size, fn, "operations " + ",".join(o for o, _ in prog), 6, others=False)
    rec.distinct("ops", dim, size, tuple(o for o, _ in prog))


def run_real(kind, rec, rng, i):
    pb, sz, size, kw = request(("mesh2", "chain2", "mesh3")[(i // len(KINDS)) % 3], rng, i)
    size = min(size, 3)
    if "chain" not in pb["fam"]:
        pb = parprob.slab(rng, pb["dim"], size, kw["axis"], 8.0)
        sz = dict(kind="scalar", h=pb["h"])
    delay = [float(v) for v in rng.uniform(0, .4, size)]
    r = parprob.mpirun(size, dict(pb=pb, sz=sz, kw=kw, delay=delay, probe=True))
    if r[0] == "nompi":
        rec.undecided("no MPI: " + r[1])
        return
    rec.count("real_runs")
    if r[0] == "hang":
        rec.fail("hang", "%d ranks under a real MPI do not finish within 120 s" % size, output=r[1])
        return
    if r[0] == "error":
        rec.fail("rank-error", "%d ranks under a real MPI fail" % size, output=r[1])
        return
    w = vmpi.run(size, lambda c: mg.run(pb, sz, comm=c, **kw), strategy="random", seed=i)
    if observe(rec, w, True):
        rec.count("schedules_compared")
        rec.check(digest(*w.result[0]) == digest(r[1], r[2]), "schedule-dependent", "the mesh from a real MPI run differs from the one of the virtual world", sizes=[len(w.result[0][0]), len(r[1])])
    rec.distinct("real", pb["dim"], size, kw["max_iter"], pb["fam"])


def run_case(case, rec):
    rng = np.random.default_rng([case["seed"], 118, case["i"]])
    k = case["kind"]
    if k == "ops":
        run_ops(k, rec, rng, case["i"])
    elif k == "real":
        run_real(k, rec, rng, case["i"])
    elif k.startswith("restart"):
        run_restart(k, rec, rng, case["i"])
    elif k.startswith("segy"):
        run_segy(k, rec, rng, case["i"])
    elif k.startswith("pipe"):
        run_pipe(k, rec, rng, case["i"])
    else:
        run_mesh(k, rec, rng, case["i"])
