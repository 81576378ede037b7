"""C26: the native modules rebuilt with AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ and CGAL assertions, run under direct
calls (all sizes and layouts) and under the workloads of the other checks; layout and heap-fill differentials."""
import glob, json, os, shutil, subprocess, tempfile
import numpy as np
from vlib import build

PROPERTY = "C26"
RULE = ("one case = one process with the sanitized modules running a batch of native calls (sizes 0, 1, minimal, large; C/F/strided/reversed/"
        "unaligned/read-only/32- and 64-bit arrays) or of other checks' cases; distinct non-trivial: (function, argument shapes) combinations and reused cases")
BUDGET = {"quick": 150, "thorough": 780}
CASE_TIMEOUT = 400
REQUIRED = ["native_calls", "layout_calls", "reused_cases", "fill_comparisons", "sanitized_modules"]
ASSUMPTIONS = ["memcpy of zero bytes from or to a null pointer is not counted as undefined behaviour", "the system CGAL, GMP and MPFR binaries and Python itself are not instrumented; CGAL's headers are"]
FUNCS = ["drectangle_fast", "dblock_fast", "unique_edges", "remove_external_entities2", "remove_external_entities3", "calc_dihedral_angles",
         "calc_3x3determinant", "calc_4x4determinant", "calc_volume_grad", "calc_circumsphere_grad", "_circumballs2", "_circumballs3",
         "_delaunay2", "_delaunay3", "limgrad", "where_to2", "where_to3"]
REQUIRED += ["call:" + f for f in FUNCS]
REUSE = [("c21_incremental", ["h2", "h3", "big", "batch"], 6), ("c22_kernels", None, 6), ("c23_topology", None, 5), ("c06_gradation", None, 3), ("c24_cleanup", None, 3)]
SKIP = {"flat"}  # flat cells have no circumball: with its assertions on, CGAL refuses them (not a well-formed argument)
LIB = [None]


def setup(ctx):
    d = os.path.join(os.environ["VERIF_WORK"], "sanlib")
    try:
        info = build.prepare(d, sanitize=True)
    except RuntimeError as e:
        print("BUILD ERROR:", str(e)[-1500:])
        os._exit(2)
    LIB[0] = d
    ctx.extra["sanitized_modules"] = info


def cases(ctx):
    n = 16 if ctx.quick else 200
    per = 60
    import importlib
    pools = {}
    for name, kinds, m in REUSE:
        mod = importlib.import_module("checks." + name)
        pools[name] = [c for c in mod.cases(ctx) if (kinds is None or c["kind"] in kinds) and c["kind"] not in SKIP]
    extra = [("c16_slivers", 1), ("c10_structure", 1), ("c20_decomposition", 3)]
    for name, m in extra:
        if os.path.exists(os.path.join(os.path.dirname(__file__), name + ".py")):
            mod = importlib.import_module("checks." + name)
            pools[name] = [c for c in mod.cases(ctx)]
    for b in range(n):
        yield dict(kind="native", seed=ctx.seed, i=b, lo=b * per, n=per, fill=b % 4 == 0)
        re = []
        for name, kinds, m in REUSE:
            P = pools[name]
            re += [[name, P[(b * m + j) * 7 % len(P)]] for j in range(m)]
        for name, m in extra:
            if name in pools and pools[name]:
                re += [[name, pools[name][(b * m + j) * 5 % len(pools[name])]] for j in range(m)]
        yield dict(kind="reuse", seed=ctx.seed, i=b, cases=re)


def run(spec, fill=None):
    d = tempfile.mkdtemp(prefix="san-", dir=os.environ["VERIF_WORK"])
    try:
        json.dump(spec, open(d + "/spec.json", "w"))
        lib = LIB[0] or os.path.join(os.environ["VERIF_WORK"], "sanlib")
        pre = [subprocess.run(["gcc", "-print-file-name=" + x], capture_output=True, text=True).stdout.strip() for x in ("libasan.so", "libubsan.so", "libstdc++.so")]
        env = dict(os.environ, LD_PRELOAD=" ".join(pre), PYTHONPATH=":".join([lib, build.REPO, build.VERIF]),
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=86:log_path=%s/asan:allocator_may_return_null=1:detect_stack_use_after_return=1" % d
                   + ("" if fill is None else ":max_malloc_fill_size=1000000000:malloc_fill_byte=%d:max_free_fill_size=100000000:free_fill_byte=%d" % (fill, 255 - fill)),
                   UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=86:log_path=%s/ubsan" % d)
        try:
            p = subprocess.run([build.PY, "-m", "vlib.sanwork", d + "/spec.json", d + "/out.json"], env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=380)
        except subprocess.TimeoutExpired:
            return None, "", "timeout"
        logs = "".join(open(f, errors="replace").read() for f in sorted(glob.glob(d + "/asan*") + glob.glob(d + "/ubsan*")))
        tail = p.stdout.decode("utf-8", "replace")[-3000:]
        prog = open(d + "/out.json.progress").read()[:400] if os.path.exists(d + "/out.json.progress") else ""
        out = json.load(open(d + "/out.json")) if os.path.exists(d + "/out.json") else None
        return out, logs, "exit=%s doing=%s %s" % (p.returncode, prog, tail if out is None else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def headline(logs):
    for l in logs.splitlines():
        if "ERROR: AddressSanitizer" in l or "runtime error" in l:
            return l.strip()[:200]
    return ""


def run_case(case, rec):
    rec.count("sanitized_modules", 6)
    spec = dict(native=[[case["seed"], case["lo"] + j] for j in range(case["n"])]) if case["kind"] == "native" else dict(reuse=case["cases"])
    out, logs, tail = run(spec, 17 if case.get("fill") else None)
    if out is None and tail == "timeout":
        return rec.undecided("sanitized process timed out")
    if logs.strip() and headline(logs):
        h = headline(logs)
        kind = "asan" if "AddressSanitizer" in h else "ubsan"
        return rec.fail("sanitizer-" + kind, h + " || " + tail[:300], report=logs[:1800])
    if out is None:
        return rec.fail("native-abort", "a process with the checked modules died", detail=tail[-1800:])
    rec.nassert += out["layout_calls"] + sum(out["calls"].values()) + out["reuse"]
    for e in out["exceptions"]:
        if "CGAL ERROR" in e["what"] or "Assertion" in e["what"]:
            rec.fail("library-assertion", "a library precondition failed", **e)
        else:
            rec.fail("native-exception", "a well-formed call raised", **e)
    if out["errors"]:
        rec.undecided(out["errors"][0])
    for l in out["layout"][:3]:
        rec.fail("layout", "the result depends on the memory layout of equal arguments", **l)
    for f, n in out["calls"].items():
        rec.count("call:" + f, n)
        rec.count("native_calls", n)
    rec.count("layout_calls", out["layout_calls"])
    rec.count("reused_cases", out["reuse"])
    for k in range(out["sizes"]):
        rec.distinct(case["i"], case["kind"], k)
    for c in case.get("cases", []):
        rec.distinct(c)
    if case.get("fill"):
        out2, logs2, tail2 = run(spec, 233)
        if out2 is not None:
            rec.check(out["digest"] == out2["digest"], "uninitialised", "results depend on the contents of fresh heap memory")
            rec.count("fill_comparisons")
        elif headline(logs2):
            rec.fail("sanitizer-asan", headline(logs2), report=logs2[:1800])
    rec.sample = dict(calls=out["calls"], layout_calls=out["layout_calls"], reuse=out["reuse"])
