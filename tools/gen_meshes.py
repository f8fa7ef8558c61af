"""Enumerates the relabelling classes of small oriented manifold meshes once; mc/data/grow.json is its output."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
from mc import mesh as M
out = {}
for nv, k in ((3, 2), (4, 4), (5, 6), (6, 8), (7, 6)):
    out[str(nv)] = M.grow_compute(nv, k)
    print(nv, k, len(out[str(nv)]), flush=True)
with open(os.path.join(os.path.dirname(__file__), "..", "mc", "data", "grow.json"), "w") as f:
    json.dump(dict(bounds={"3": 2, "4": 4, "5": 6, "6": 8, "7": 6}, meshes=out), f, separators=(",", ":"))
