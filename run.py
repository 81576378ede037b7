#!/usr/bin/env python3
"""run.py <property> [--replay FILE] | --setup          (see DESIGN.md)"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
ENV = dict(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           LC_ALL="C.UTF-8", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader",
           OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_hwloc_base_binding_policy="none",
           OMPI_MCA_rmaps_base_oversubscribe="1", VERIF_BOOT="1")


def main():
    if os.environ.get("VERIF_BOOT") != "1" or os.path.realpath(sys.executable) != os.path.realpath(PY):
        env = dict(os.environ, **ENV)
        env.pop("PYTHONPATH", None)
        env["PATH"] = "/opt/venv/bin:" + env.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
        os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    import importlib, shutil, tempfile
    from vlib import build
    if sys.argv[1] == "--setup":
        d = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            for k, v in build.prepare(d).items():
                print(k, ":", v)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return 0
    prop = sys.argv[1]
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    names = [f[:-3] for f in os.listdir(os.path.join(HERE, "checks")) if f.lower().startswith(prop.lower() + "_") and f.endswith(".py")]
    if len(names) != 1:
        print("no such check", prop)
        return 2
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    os.environ["VERIF_WORK"] = work
    try:
        lib = os.path.join(work, "lib")
        try:
            info = build.prepare(lib)
        except RuntimeError as e:
            print("BUILD ERROR:", e)
            return 2
        os.environ["VERIF_LIB"] = lib
        sys.path.insert(0, build.REPO)
        sys.path.insert(0, lib)
        os.environ["PYTHONPATH"] = lib + ":" + build.REPO
        os.chdir(work)
        mod = importlib.import_module("checks." + names[0])
        from vlib import harness
        ctx = harness.Ctx(prop, tier, seed)
        ctx.extra["modules"] = info
        rc = harness.run_check(mod, ctx, replay)
        sys.stdout.flush()
        return rc
    finally:
        os.chdir("/")
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
