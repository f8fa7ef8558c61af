"""Writes /verif/DESIGN.md from the text below, properties.jsonl, the check modules, known_findings.json,
tools/costs.json (numbers of the last quick/thorough runs) and seeded/*/meta.json (+ tools/seeded_results.json)."""
import glob, importlib, json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, R)
sys.dont_write_bytecode = True
import mc.env  # noqa: F401

HEAD = open(os.path.join(R, "tools", "design_head.md")).read()
TAIL = open(os.path.join(R, "tools", "design_tail.md")).read()
NOTES = json.load(open(os.path.join(R, "tools", "design_notes.json")))


def load(p, default):
    p = os.path.join(R, p)
    return json.load(open(p)) if os.path.exists(p) else default


props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
costs = load("tools/costs.json", {})
known = load("known_findings.json", {"findings": [], "fixed": []})
na = {x["property"]: x["reason"] for x in load("MANIFEST.json", {})["not_applicable"]}
out = [HEAD, "\n## 4. The properties and how each is decided\n"]
for p in props:
    i = p["id"]
    out.append(f"\n### {i} {p['title']}\n")
    out.append(p["statement"] + "\n" if "statement" in p else "")
    if i in na:
        out.append(f"\n*Not claimed:* {na[i]}\n")
        continue
    m = importlib.import_module(f"mc.checks.{i.lower()}")
    n = NOTES.get(i, {})
    if "oracle" in n:
        out.append(f"\n*Reference model / oracle.* {n['oracle']}\n")
    out.append("\n*What is enumerated* (every case is executed on the real code):\n\n")
    for s in m.SCENARIOS:
        out.append(f"- `{s.name}`: {s.about}\n")
    c = costs.get(i, {})
    if c:
        out.append("\n*Cost.* " + "; ".join(f"{t}: {v['states']} states, {v['transitions']} calls of the library, {v['wall']} s wall" for t, v in c.items()) + ".\n")
    if "why" in n:
        out.append(f"\n*Why beyond the tests.* {n['why']}\n")
    if m.ASSUMPTIONS:
        out.append("\n*Limits of the judgement.* " + "; ".join(m.ASSUMPTIONS) + ".\n")
out.append("\n## 5. Genuine defects found and repaired\n\nEvery one was found by a check on the unchanged tree, reproduced against the real code, and repaired in its own `fix:` commit in /repo "
           "(also listed in `known_findings.json`; a fixed entry suppresses nothing).\n\n")
for l in known["fixed"]:
    _, pr, h, *t = l.split(" ")
    out.append(f"- {pr.split('=')[1]} `{h}` {' '.join(t)}\n")
out.append("\nRecorded, not repaired (known findings): " + ("none.\n" if not known["findings"] else "\n\n"))
for f in known["findings"]:
    out.append(f"- {f}\n")
out.append("\n## 6. Planted bugs\n\n`seeded/<id>/` holds each change (patch.diff, demo.sh, meta.json). "
           "Each was written from the property text and the code, verified in a scratch copy (builds, stable tests pass, demo passes without and fails with the change), and then run against the checks.\n\n"
           "| id | property | what it needs to manifest | caught by (quick tier) |\n|---|---|---|---|\n")
res = load("tools/seeded_results.json", {})
for d in sorted(glob.glob(os.path.join(R, "seeded", "*", "meta.json"))):
    k = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    r = res.get(k, {})
    out.append(f"| {k} | {m['property']} | {m['needs']} | {r.get('caught', 'not run')} |\n")
out.append(TAIL)
with open(os.path.join(R, "DESIGN.md"), "w") as f:
    f.write("".join(out))
print(sum(map(len, out)), "characters")
