#!/usr/bin/env python3
"""seedrun.py [-c Cxx] [ids...]: run checks against planted bugs, in scratch copies (of /repo and of /verif); prints caught/missed.
Not used by any check."""
import json, os, shutil, subprocess, sys, tempfile, time
args = sys.argv[1:]
only = None
if args[:1] == ["-c"]:
    only = args[1].split(",")
    args = args[2:]
S = "/verif/seeded"
ids = args or sorted(os.listdir(S))
W = tempfile.mkdtemp(prefix="seedrun-")
V = os.path.join(W, "verif")
shutil.copytree("/verif", V, ignore=shutil.ignore_patterns("seeded", ".git", "replays"))
try:
    for i in ids:
        R = os.path.join(W, "repo-" + i)
        meta = json.load(open(os.path.join(S, i, "meta.json")))
        subprocess.run(["cp", "-a", "/repo", R], check=True)
        r = subprocess.run(["git", "-C", R, "apply", os.path.join(S, i, "patch.diff")], capture_output=True, text=True)
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stderr[:200], flush=True)
            continue
        for c in only or [meta["property"]]:
            t = time.time()
            r = subprocess.run([sys.executable, os.path.join(V, "run.py"), c], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=R, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=os.environ.get("VERIF_TIER", "quick")))
            keys = [l.strip().split("]")[0][1:] for l in r.stdout.splitlines() if l.startswith("  [")]
            hit = r.returncode == 1 and ("VIOLATION property=%s " % c) in r.stdout
            print("%-28s %s %s rc=%d %.0fs %s" % (i, c, "CAUGHT" if hit else "MISSED", r.returncode, time.time() - t, keys[:5]), flush=True)
            if not hit:
                print("    ", r.stdout[-300:].replace("\n", " | "), flush=True)
        shutil.rmtree(R, ignore_errors=True)
finally:
    shutil.rmtree(W, ignore_errors=True)
