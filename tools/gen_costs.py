"""Merges the numbers of the evidence files of the last runs into tools/costs.json."""
import glob, json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
p = os.path.join(R, "tools", "costs.json")
c = json.load(open(p)) if os.path.exists(p) else {}
for f in sorted(glob.glob(os.path.join(R, "evidence", "C*.json"))):
    e = json.load(open(f))
    k = e["coverage"]
    if e.get("tier") and k.get("exhaustive"):
        c.setdefault(e["property"], {})[e["tier"]] = dict(states=k["states"], transitions=k["transitions"], wall=round(e.get("wall_s", k.get("wall_s", 0)) or 0))
json.dump(c, open(p, "w"), indent=1, sort_keys=True)
print(len(c))
