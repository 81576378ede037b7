"""Writes /verif/MANIFEST.json from the checks present (one file checks/cNN_*.py per property)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "runtime monitoring: "
T = {
 "C01": ("closed-form distance oracle on evaluated shapes", "true distance to the shape is computed independently in float64 from first principles"),
 "C02": ("pull-back oracle on transformed shapes, argument snapshots", "independent composition of stretch, rotations and translation"),
 "C03": ("online containment monitor: no negative value outside bbox", "interior points are found by sampling, near-surface walking and support search"),
 "C04": ("set-theoretic oracle on combined domains", "operand values come from the repository's own operands (judged by C01/C02)"),
 "C05": ("independent model of the sizing rules compared node by node", "bounds rather than a formula for the gradient rule's window variance"),
 "C06": ("Lipschitz, floor and tightest-field oracle (Dijkstra) on graded sizes", "tolerance proportional to the limiter's own stopping tolerance"),
 "C07": ("Courant-number monitor on returned sizes", "velocities at nodes known exactly"),
 "C08": ("bbox, cell-count and value oracle on padded models", "whole cells counted in index terms"),
 "C09": ("round-trip oracle over generated files", "the files are written by the harness; SEG-Y through segyio"),
 "C10": ("structural oracle over returned meshes", "float64 geometry with exact re-evaluation of doubtful signs"),
 "C11": ("independent geometric oracle of the domain over returned meshes", "tolerances proportional to the local edge length"),
 "C12": ("nearest-vertex monitor for fixed points and corners", "tolerance 1e-3 of the minimum size and below"),
 "C13": ("bitwise comparison of repeated runs and argument snapshots", "same build on one machine"),
 "C14": ("statistics monitor over edge lengths and cell quality", "thresholds set with margin from sweeps"),
 "C15": ("callback-count monitor, exception and stdout oracles", "iterations observed as rounds of the user's callbacks"),
 "C16": ("independent dihedral-angle oracle on the returned mesh", "termination inferred from callback rounds"),
 "C17": ("conformity and volume oracle for immersed shapes", "tolerances proportional to the local edge length"),
 "C18": ("virtual MPI with adversarial scheduling, deadlock and message-conservation monitors", "communicator double validated against mpiexec runs"),
 "C19": ("structural and geometric oracle over parallel meshes (virtual MPI and mpiexec)", "communicator double validated against mpiexec runs"),
 "C20": ("oracles over decomposition and migration with recording communicators", "communicator double"),
 "C21": ("model-based history checking with exact arithmetic Delaunay oracle", "exact rational predicates"),
 "C22": ("rational-arithmetic references for every kernel", "tolerances scale with conditioning"),
 "C23": ("set-based references for topology queries", "references are brute force"),
 "C24": ("reference clean-up and idempotence oracles", "references are brute force"),
 "C25": ("neighbour-mean and invariance oracles", "one-shot solver judged to its own tolerance"),
 "C26": ("AddressSanitizer/UBSan/library-assertion builds under the other checks' workloads; layout differential", "CGAL, GMP, numpy and the Python interpreter are uninstrumented apart from what they inline"),
 "C28": ("artist inspection: drawn positions and values compared with the object", "matplotlib keeps what it is given to draw"),
 "C27": ("differential monitor over pairs of equivalent calls", "a change of units is judged in batches because rounding decides ties"),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
have = {f[:3].upper() for f in os.listdir(os.path.join(HERE, "checks")) if f.startswith("c") and f.endswith(".py")}
NA = {}
checks, na = [], []
for i in ids:
    if i in have and i not in NA:
        tech, note = T[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % i,
                           technique=TECH + tech, level="exploration",
                           level_note="Holds on every execution observed (counts in the evidence file); no claim beyond them. Trusts: " + note + "."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
               notes="Checks need no hooks in the repository: they observe user callbacks, communicator objects, return values, files and output. See DESIGN.md."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
