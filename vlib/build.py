"""Bring the six compiled modules of /repo's *current* sources into a private directory.

A module whose in-tree binary was built from exactly the present sources (content hashes kept by the
repository's build script) is used as it is; every other one is compiled here, outside /repo."""
import glob, hashlib, json, os, shutil, subprocess, sys, sysconfig, runpy

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SUFFIX = ".cpython-312-x86_64-linux-gnu.so"
SAN_FLAGS = ("-O1 -g1 -UNDEBUG -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined,float-cast-overflow "
             "-fno-sanitize=vptr,nonnull-attribute -fno-omit-frame-pointer -fno-sanitize-recover=undefined")


def _common_hash():
    files = ["setup.py", "setup.cfg", "pyproject.toml"]
    hdr = []
    for d, dn, fn in os.walk(REPO):
        dn[:] = [x for x in dn if x not in (".git",) and os.path.join(d, x) != os.path.join(REPO, "build")]
        for f in fn:
            if f.endswith((".h", ".hpp", ".hh")):
                hdr.append("./" + os.path.relpath(os.path.join(d, f), REPO))
    h = hashlib.sha256()
    for f in files + sorted(hdr):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    return h.hexdigest()


def extensions():
    """name -> source list, from the repository's own build description"""
    code = ("import runpy,json,sys; ns=runpy.run_path(%r, run_name='vp');"
            "print(json.dumps({e.name:[list(e.sources), list(e.libraries)] for e in ns['ext_modules']}))"
            % os.path.join(REPO, "setup.py"))
    out = subprocess.run([PY, "-c", code], cwd=REPO, capture_output=True, text=True, check=True,
                         env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1")).stdout
    return json.loads(out.strip().splitlines()[-1])


def _src_hash(sources):
    h = hashlib.sha256()
    for s in sources:
        p = os.path.join(REPO, s)
        h.update(open(p, "rb").read() if os.path.exists(p) else b"missing")
    return h.hexdigest()


def _run_jobs(jobs):
    procs = []
    for name, cmd in jobs:
        log = open(cmd["log"], "wb")
        procs.append((name, subprocess.Popen(cmd["argv"], cwd=REPO, stdout=log, stderr=subprocess.STDOUT), cmd))
    bad = []
    for name, p, cmd in procs:
        if p.wait() != 0:
            bad.append((name, open(cmd["log"], errors="replace").read()[-2000:]))
    return bad


def prepare(dest, sanitize=False):
    """Returns a dict describing what was used; the modules are importable from `dest`."""
    os.makedirs(dest, exist_ok=True)
    common = _common_hash()
    info = {}
    exts = extensions()
    inc = [sysconfig.get_path("include")]
    pb = subprocess.run([PY, "-c", "import pybind11,sysconfig;print(pybind11.get_include());print(sysconfig.get_path('include'))"],
                        capture_output=True, text=True, check=True).stdout.split()
    jobs = []
    for name, (sources, libs) in exts.items():
        src = _src_hash(sources)
        stamp = os.path.join(REPO, "build", "vp-stamps", name)
        so = os.path.join(REPO, name + SUFFIX)
        def rd(p):
            try:
                return open(p).read().split()[0]
            except (OSError, IndexError):
                return None
        if (not sanitize and os.path.exists(so) and rd(stamp) == src
                and rd(os.path.join(REPO, "build", "vp-stamps", "common")) == common):
            shutil.copy2(so, os.path.join(dest, name + SUFFIX))
            info[name] = "in-tree build of the same sources"
            continue
        cache = os.path.join(VERIF, ".cache", ("san-" if sanitize else "opt-") +
                             hashlib.sha256((name + src + common + (SAN_FLAGS if sanitize else "")).encode()).hexdigest()[:24] + ".so")
        if os.path.exists(cache):
            shutil.copy2(cache, os.path.join(dest, name + SUFFIX))
            info[name] = "compiled from these sources earlier in this sandbox"
            continue
        flags = SAN_FLAGS.split() if sanitize else ["-O2", "-g0", "-DNDEBUG"]
        out = os.path.join(dest, name + SUFFIX)
        argv = (["g++", "-std=c++17", "-fPIC", "-shared", "-fvisibility=hidden", "-fwrapv" if not sanitize else "-fno-strict-overflow", "-w"]
                + flags + ["-I" + p for p in pb] + [os.path.join(REPO, s) for s in sources]
                + ["-o", out] + ["-l" + l for l in libs])
        jobs.append((name, dict(argv=argv, log=out + ".log", cache=cache, out=out)))
    bad = _run_jobs(jobs)
    if bad:
        raise RuntimeError("compilation failed: " + "; ".join("%s: %s" % b for b in bad))
    for name, cmd in jobs:
        info[name] = "compiled from the working tree"
        try:
            os.makedirs(os.path.dirname(cmd["cache"]), exist_ok=True)
            tmp = cmd["cache"] + ".%d" % os.getpid()
            shutil.copy2(cmd["out"], tmp)
            os.replace(tmp, cmd["cache"])
        except OSError:
            pass
    return info
