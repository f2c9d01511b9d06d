#!/usr/bin/env python3
"""Records, on the unchanged tree, the names of the locals (contracts/locals.txt)
and the number of loops (contracts/shapes.json) of the functions under contract.
The names let the contracts survive a renamed variable; a function whose number
of loops differs no longer fits its loop invariants: its failures are undecided."""
import glob, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, ".build")
os.makedirs(os.path.join(B, "vc"), exist_ok=True)
names, shapes = {}, {}
for f in sorted(glob.glob(os.path.join(V, "contracts", "*.vx"))):
    m = os.path.basename(f)[:-3]
    rec, mp = os.path.join(B, "vc/rec.txt"), os.path.join(B, "vc/rec.json")
    r = subprocess.run([os.path.join(B, "vx/release/vx"), f, "--repo", "/repo", "--prelude", os.path.join(V, "contracts"), "--out", os.path.join(B, "vc/rec.rs"), "--map", mp, "--record", rec], capture_output=True, text=True)
    if r.returncode:
        print(m, r.stdout, r.stderr)
        sys.exit(1)
    for l in open(rec):
        k, _, v = l.rstrip("\n").partition("\t")
        names[k] = v
    for x in json.load(open(mp))["fns"]:
        shapes[f"{m}:{x['fn']}"] = x["loops"]
open(os.path.join(V, "contracts/locals.txt"), "w").write("".join(f"{k}\t{v}\n" for k, v in sorted(names.items())))
json.dump(shapes, open(os.path.join(V, "contracts/shapes.json"), "w"), indent=0, sort_keys=True)
print(len(names), "functions")
