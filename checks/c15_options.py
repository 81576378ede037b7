"""C15: options are validated and runs stop after exactly the allowed iterations."""
import os, re, sys, tempfile, warnings
import numpy as np
from vlib import meshgen as mg, meshes

PROPERTY = "C15"
RULE = ("one case = one request run for several iteration limits with counting callbacks, one rejected option value, or one run with its output recorded at file-descriptor "
        "level; distinct non-trivial: (function, dimension, option value or limits, family)")
BUDGET = {"quick": 120, "thorough": 500}
REQUIRED = ["counted_runs", "iterations", "first_iteration", "sliver_counted", "sliver_failure", "rejections", "accepted", "silent_runs", "loud_runs", "output_bytes", "defaults"]
ASSUMPTIONS = ["every iteration evaluates the sizing (mesh generation) or the domain (sliver removal) a fixed number of times"]
KINDS = ("count2", "reject", "silent", "first2", "reject", "count3", "sliver", "reject", "silent", "first3", "reject", "sliver1", "float", "default")
CASE_TIMEOUT = 100


def cases(ctx):
    n = 3500 if ctx.quick else 40000
    for i in range(n):
        yield dict(kind=KINDS[i % len(KINDS)], i=i, seed=ctx.seed)


def on_timeout(case):
    return dict(key="no-stop", msg="the call neither returned nor raised within %d s, although it was given at most ten iterations or an inadmissible option" % CASE_TIMEOUT)


class Output:
    """Bytes written to the file descriptor 1 inside the block."""
    def __enter__(self):
        sys.stdout.flush()
        self.f = tempfile.TemporaryFile()
        self.o = os.dup(1)
        os.dup2(self.f.fileno(), 1)
        return self

    def __exit__(self, *a):
        sys.stdout.flush()
        os.dup2(self.o, 1)
        os.close(self.o)
        self.f.seek(0)
        self.bytes = self.f.read()
        self.text = self.bytes.decode(errors="replace")
        self.f.close()


def small(rng, dim, kind=None):
    return mg.limited(rng, dim, 400 if dim == 2 else 250, kind=kind, fine=(4, 8) if dim == 2 else (3, 4))


def counting(pb, sz, limit=2000):
    """(domain, sizing, keywords, monitor): both callbacks counted."""
    mon = mg.Monitor(limit)
    dom, k1 = mg.build_domain(pb)
    f = dom.eval if hasattr(dom, "eval") else dom
    if not k1:
        k1 = dict(bbox=tuple(float(v) for v in dom.bbox))
    return mg.wrap(f, mon, "fd"), mg.wrap(lambda x: mg.fh_ref(sz, x), mon, "fh"), dict(k1, h0=float(sz["h"])), mon


def sliver_input(rng, fam=None):
    pb, sz = mg.limited(rng, 3, 250, kind="scalar", fine=(3, 4), fam=fam)
    p, t = mg.run(pb, sz, verbose=0, max_iter=int(rng.integers(2, 12)), seed=int(rng.integers(1000)))
    return pb, sz, np.array(p)


def run_case(case, rec):
    import SeismicMesh as sm
    rng = np.random.default_rng([case["seed"], 115, case["i"]])
    k = case["kind"]
    if k.startswith("count"):
        dim = int(k[-1])
        pb, sz = small(rng, dim, mg.pick(rng, ("radial", "plane", "scalar")))
        kw = dict(mg.options(rng, pb), verbose=2)
        kw.pop("perform_checks", None)
        pts = None
        if rng.random() < .4:
            pts = mg.interior_points(rng, pb, 120, 0.0)
            if len(pts) < 40:
                pts = None
        calls, msgs = {}, {}
        ns = sorted(set([1, 2, 3, int(rng.integers(4, 8)), int(rng.integers(8, 14))]))
        for n in ns:
            fd, fh, k2, mon = counting(pb, sz)
            if pts is not None:
                k2["points"] = np.array(pts)
            with Output() as o:
                try:
                    p, t = sm.generate_mesh(fd, fh, **dict(kw, max_iter=n, **k2))
                except mg.DidNotStop as e:
                    rec.fail("does-not-stop", "max_iter=%d: %s" % (n, e))
                    return
            calls[n] = mon.fh
            msgs[n] = len(re.findall(r"Iteration #", o.text))
            rec.count("counted_runs")
            rec.count("iterations", n)
        s = calls[2] - calls[1]
        rec.distinct("mesh", dim, pb["fam"], sz["kind"], tuple(ns), pts is not None)
        rec.sample = dict(calls=calls, messages=msgs)
        rec.check(s >= 1, "no-iteration", "the sizing is evaluated %d times more often with max_iter=2 than with 1" % s)
        rec.check(all(calls[n] - calls[1] == s * (n - 1) for n in ns), "iteration-count", "evaluations of the sizing per iteration limit: %s, not linear" % calls)
        if pts is not None:
            rec.check(calls[1] < max(s, 1), "iteration-count", "with one iteration and given points the vertices are moved %g times" % (calls[1] / max(s, 1)))
        rec.check(all(m <= n for n, m in msgs.items()), "iteration-messages", "iterations reported per limit: %s" % msgs)
    elif k.startswith("first"):
        # one iteration only triangulates: interior vertices are the initial points
        dim = int(k[-1])
        pb, sz = small(rng, dim)
        pts = mg.interior_points(rng, pb, 150, 0.0)
        if len(pts) < 60:
            return
        kw = dict(verbose=0, mesh_improvement=False, max_iter=float(mg.pick(rng, (1, 1.0, .5))))
        p, t = mg.run(pb, sz, points=np.array(pts), **kw)
        rec.count("first_iteration")
        inner = np.setdiff1d(np.arange(len(p)), np.unique(meshes.boundary_vertices(t))) if hasattr(meshes, "boundary_vertices") else inner_vertices(p, t)
        d = np.array([np.min(np.linalg.norm(pts - x, axis=1)) for x in p[inner]] or [0.0])
        rec.distinct("first", dim, pb["fam"], len(inner) > 0)
        rec.check(d.max() <= 1e-9 * pb["S"], "extra-iteration", "with max_iter=%g an interior vertex is %.3g away from every initial point" % (kw["max_iter"], d.max()))
    elif k == "float":
        # a limit that is not whole stops as well, not later than the next whole number
        dim = 2 if rng.random() < .7 else 3
        pb, sz = small(rng, dim, "scalar")
        x = float(rng.uniform(.1, 9))
        c = {}
        for n in (x, float(np.ceil(x)), np.ceil(x) + 1):
            fd, fh, k2, mon = counting(pb, sz, 1000)
            try:
                sm.generate_mesh(fd, fh, verbose=0, max_iter=n, **k2)
            except mg.DidNotStop as e:
                rec.fail("does-not-stop", "max_iter=%r: %s" % (n, e))
                return
            c[n] = mon.fh
            rec.count("counted_runs")
            rec.count("iterations", int(np.ceil(n)))
        rec.distinct("float", dim, pb["fam"], int(np.ceil(x)))
        rec.check(c[x] <= c[float(np.ceil(x))] < c[float(np.ceil(x)) + 1], "iteration-count", "evaluations of the sizing per iteration limit: %s" % c)
    elif k == "sliver":
        # bounds no mesh can meet: the limit must stop it
        pb, sz, pts = sliver_input(rng)
        calls = {}
        ns = sorted(set([1, 2, 3, int(rng.integers(4, 8)), int(rng.integers(8, 14))]))
        b = float(rng.uniform(71, 89))
        sk = dict(verbose=int(rng.integers(0, 3)), gamma=float(mg.pick(rng, (1.0, 1.0, .9))))
        if rng.random() < .3:
            sk["preserve"] = True
        for n in ns:
            fd, fh, k2, mon = counting(pb, sz, 2000 if not sk.get("preserve") else 100000)
            with Output() as o:
                try:
                    q, t = sm.sliver_removal(np.array(pts), fd, fh, max_iter=n, min_dh_angle_bound=b, **dict(sk, **k2))
                except mg.DidNotStop as e:
                    rec.fail("does-not-stop", "max_iter=%d: %s" % (n, e))
                    return
            calls[n] = mon.fd
            rec.count("sliver_counted")
            rec.count("iterations", n)
            rec.check(len(re.findall("There are", o.text)) <= n, "iteration-messages", "sliver removal reports more than max_iter=%d rounds" % n)
            rec.check("no slivers" not in o.text, "false-success", "sliver removal reports success for a minimum dihedral angle of %.1f degrees, which no mesh has" % b)
            rec.count("sliver_failure")
            if n == 1:
                d = np.array([np.min(np.linalg.norm(pts - x, axis=1)) for x in q])
                rec.check(d.max() <= 1e-9 * pb["S"], "extra-iteration", "sliver removal with max_iter=1 moves vertices, by up to %.3g" % d.max())
            else:
                rec.check(len(q) and len(t), "no-mesh", "sliver removal returns no mesh")
        s = calls[2] - calls[1]
        rec.distinct("sliver", pb["fam"], tuple(ns), tuple(sorted(sk)))
        if not sk.get("preserve"):
            rec.check(s >= 1 and all(calls[n] - calls[1] == s * (n - 1) for n in ns), "iteration-count", "evaluations of the domain per iteration limit: %s, not linear" % calls)
        else:
            rec.check(all(calls[a] < calls[b2] for a, b2 in zip(ns, ns[1:])), "iteration-count", "evaluations of the domain per iteration limit: %s, not increasing" % calls)
    elif k == "sliver1":
        # ordinary bounds, no limit given: it has to stop at its default, and early when there is nothing to do
        pb, sz, pts = sliver_input(rng)
        fd, fh, k2, mon = counting(pb, sz, 100)
        try:
            q, t = sm.sliver_removal(np.array(pts), fd, fh, verbose=0, **k2)
        except mg.DidNotStop as e:
            rec.fail("does-not-stop", "default iteration limit: %s" % e)
            return
        rec.count("sliver_counted")
        rec.count("defaults")
        rec.check(mon.fd <= 52, "iteration-count", "the default limit of 50 iterations is exceeded (%d rounds)" % mon.fd)
        rec.distinct("sliver-default", pb["fam"], mon.fd)
        # easily met bounds stop at once
        fd, fh, k2, mon = counting(pb, sz, 100)
        sm.sliver_removal(np.array(q), fd, fh, verbose=0, max_iter=20, min_dh_angle_bound=0.0, **k2)
        rec.check(mon.fd <= 3, "no-early-stop", "a mesh that meets the bounds is iterated on (%d rounds)" % mon.fd)
    elif k == "default":
        # the default limit of mesh generation is 50 iterations
        pb, sz = small(rng, 2)
        fd, fh, k2, mon = counting(pb, sz, 1000)
        sm.generate_mesh(fd, fh, verbose=0, seed=1, **k2)
        a = mon.fh
        mon.fh = 0
        sm.generate_mesh(fd, fh, verbose=0, seed=1, max_iter=50, **k2)
        rec.count("defaults")
        rec.count("counted_runs", 2)
        rec.count("iterations", 100)
        rec.distinct("default", pb["fam"])
        rec.check(a == mon.fh, "default-limit", "without max_iter the sizing is evaluated %d times, with 50 iterations %d times" % (a, mon.fh))
    elif k == "silent":
        dim = 2 if rng.random() < .65 else 3
        fn = "generate_mesh"
        kw = dict(max_iter=int(rng.integers(1, 12)), seed=int(rng.integers(1000)))
        if rng.random() < .25:
            import SeismicMesh as sm
            d = mg.segy_problem(rng, dim)
            dom, eh = mg.segy_build(d)
            tag = "segy"
        else:
            pb, sz = small(rng, dim)
            dom, k1 = mg.build_domain(pb)
            eh, k2 = mg.build_sizing(sz)
            kw.update(k1, **k2)
            tag = pb["fam"]
            if rng.random() < .3:
                x = mg.spread(rng, pb, 3, .8, 1.2, sz)
                if len(x):
                    kw["pfix"] = x
            if rng.random() < .3:
                c = mg.interior_points(rng, pb, 1, .3 * pb["feat"])
                if len(c):
                    kw["subdomains"] = [(sm.Disk if dim == 2 else sm.Ball)(c[0].tolist(), float(.2 * pb["feat"]))]
        if rng.random() < .3:
            kw["mesh_improvement"] = False
        out = {}
        for v in (0, 1, 2):
            with Output() as o:
                p, t = sm.generate_mesh(dom, eh, verbose=v, **kw)
            out[v] = o
            rec.count("output_bytes", len(o.bytes))
            rec.count("silent_runs" if v == 0 else "loud_runs")
        rec.distinct("silent", dim, tag, tuple(sorted(kw)))
        rec.check(out[0].bytes == b"", "prints", "verbosity 0 prints %r" % out[0].text[:200])
        rec.check(len(re.findall("Iteration #", out[1].text)) == 0, "prints-iterations", "verbosity 1 prints messages for single iterations")
        rec.check(len(out[1].bytes) > 0 and (kw["max_iter"] == 1 or len(out[2].bytes) > len(out[1].bytes)), "verbosity", "output of verbosity 0, 1, 2: %s bytes" % [len(out[v].bytes) for v in (0, 1, 2)])
        if dim == 3 and tag != "segy":
            sk = {a: b for a, b in kw.items() if a in ("h0", "bbox")}
            with Output() as o:
                sm.sliver_removal(np.array(p), dom, eh, verbose=0, max_iter=int(rng.integers(1, 6)), min_dh_angle_bound=float(mg.pick(rng, (10.0, 80.0, 0.0))), **sk)
            rec.count("silent_runs")
            rec.check(o.bytes == b"", "prints", "sliver removal at verbosity 0 prints %r" % o.text[:200])
    elif k == "reject":
        reject(rng, rec)


def inner_vertices(p, t):
    k = t.shape[1]
    F = np.sort(np.concatenate([np.delete(t, j, 1) for j in range(k)]), 1)
    u, c = np.unique(F, axis=0, return_counts=True)
    return np.setdiff1d(np.unique(t), np.unique(u[c == 1]))


BAD = ("max_iter-0", "max_iter-neg", "max_iter-negfrac", "h0-0", "h0-neg", "scalar-0", "scalar-neg", "option", "option-typo", "verbose", "bbox-int", "bbox-int1", "sizing-string", "sizing-none", "sizing-list",
       "domain-string", "domain-none", "domain-number", "bbox-list", "bbox-missing", "h0-missing", "sliver-2d", "sizefunction-h", "pair")


def reject(rng, rec):
    import SeismicMesh as sm
    bad = mg.pick(rng, BAD)
    sliver = rng.random() < .45 or bad == "sliver-2d"
    if bad == "sizefunction-h":
        sliver = False
    dim = 3 if sliver else (2 if rng.random() < .6 else 3)
    if bad == "sliver-2d":
        dim = 2
    pb, sz = small(rng, dim)
    fd, fh, kw, mon = counting(pb, sz, 300)
    dom, eh = fd, fh
    real, k1 = mg.build_domain(pb)
    if not k1 and rng.random() < .5:
        dom = real
        kw.pop("bbox")
    kw["max_iter"] = int(rng.integers(1, 5))
    kw["verbose"] = 0
    good = dict(kw)
    gdom, geh = dom, eh
    what = bad
    neg = -float(10.0 ** rng.uniform(-6, 3))
    bb = tuple(kw.get("bbox", ())) or tuple(float(v) for v in real.bbox)
    if bad == "max_iter-0":
        kw["max_iter"] = mg.pick(rng, (0, 0.0, np.int64(0)))
    elif bad == "max_iter-neg":
        kw["max_iter"] = -int(rng.integers(1, 100))
    elif bad == "max_iter-negfrac":
        kw["max_iter"] = neg
    elif bad == "h0-0":
        kw["h0"] = mg.pick(rng, (0, 0.0))
    elif bad == "h0-neg":
        kw["h0"] = neg * sz["h"]
    elif bad == "scalar-0":
        eh = mg.pick(rng, (0, 0.0))
        kw.pop("h0")
    elif bad == "scalar-neg":
        eh = neg * sz["h"]
        kw.pop("h0")
    elif bad in ("option", "option-typo"):
        name = mg.pick(rng, ("nscreen", "Verbose", "maxiter", "max_iters", "h_min", "min_dh_bound", "foo", "gammas", "dt", "fd", "pfixed", "hmin", "Points", "comm_", "bboxes", "delta", "geps"))
        kw[name] = 1
        what += " " + name
    elif bad == "verbose":
        kw["verbose"] = -int(rng.integers(1, 10)) if rng.random() < .7 else -.5
    elif bad.startswith("bbox-int"):
        dom = fd
        n = len(bb)
        w = range(n) if bad == "bbox-int" else [int(rng.integers(n))]
        kw["bbox"] = tuple(int(np.floor(v) if i % 2 == 0 else np.ceil(v)) if i in w else v for i, v in enumerate(bb))
        if bad == "bbox-int1" and rng.random() < .5:
            kw["bbox"] = tuple(0 if i in w else v for i, v in enumerate(bb))
    elif bad.startswith("sizing-"):
        eh = {"string": "0.1", "none": None, "list": [sz["h"]] * 3}[bad[7:]]
    elif bad.startswith("domain-"):
        dom = {"string": "disk", "none": None, "number": 1.0}[bad[7:]]
    elif bad == "bbox-list":
        dom = fd
        kw["bbox"] = list(bb)
    elif bad == "bbox-missing":
        dom = fd
        kw.pop("bbox", None)
    elif bad == "h0-missing":
        kw.pop("h0")
    elif bad == "sizefunction-h":
        eh = (lambda h: lambda: sm.SizeFunction(bb, lambda x: np.full(len(x), sz["h"]), h))(neg * sz["h"] if rng.random() < .5 else 0.0)
    elif bad == "pair":
        kw["max_iter"] = 0
        kw["verbose"] = -1
    if sliver:
        pts = rng.uniform(0, 1, (60, dim)) * (np.array(bb[1::2]) - np.array(bb[::2])) + np.array(bb[::2])
        call = lambda d, e, o: sm.sliver_removal(np.array(pts), d, e, **o)
    else:
        call = lambda d, e, o: sm.generate_mesh(d, e, **o)
    rec.distinct("reject", sliver, dim, what, type(kw.get("max_iter")).__name__, dom is fd)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = call(dom, eh() if bad == "sizefunction-h" else eh, kw)
        rec.fail("accepted", "%s with %s returns a result instead of raising an exception" % ("sliver_removal" if sliver else "generate_mesh", what), option={a: str(b) for a, b in kw.items()})
    except mg.DidNotStop as e:
        rec.fail("does-not-stop", "%s with %s: %s" % ("sliver_removal" if sliver else "generate_mesh", what, e))
    except Exception as e:
        rec.count("rejections")
        rec.nassert += 1
        rec.sample = dict(what=what, exception=repr(e)[:150])
    # the same request with admissible values works
    if bad != "sliver-2d":
        mon.fd = mon.fh = 0
        p, t = call(gdom, geh, good)
        rec.count("accepted")
        rec.check(len(p) and len(t), "no-mesh", "the admissible request returns no mesh")
