"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NA = {
 "C32": "needs the compiled extension gpytoolbox_bindings, which cannot be built here (pybind11 and libigl are not "
        "available offline), so these entry points cannot be executed; exhaustive exploration of the real code is impossible "
        "and a model could not be bound to it",
}
NOTE = ("Small-scope exhaustive: within the bounds stated in DESIGN.md and in the evidence file every input / operation history / "
        "environment answer is executed on the real pure-Python code and compared with an independent reference model; nothing is sampled. "
        "Says nothing beyond the bounds; trusts CPython, NumPy/SciPy and the reference model.")
EXTRA = {
 "C11": "explicit-state exploration of all subdivision histories on the real code, reference-model comparison per state",
 "C14": "exhaustive small-scope exploration of tree inputs and of all callback answer sequences on the real code",
 "C23": "exhaustive small-scope enumeration of problems and solve histories on the real code against an exact reference",
 "C25": "exhaustive enumeration of bounded file programs on the real reader/writer against a reference grammar",
 "C26": "exhaustive enumeration of files and of all truncation points (fault enumeration) on the real reader",
 "C27": "exhaustive exploration of all random-generator answer sequences (controlled environment) on the real code",
 "C28": "exhaustive exploration of random-generator answers (controlled environment) on the real code",
 "C33": "exhaustive enumeration of the answers of a stubbed compiled extension (controlled environment) on the real Python layer",
 "C35": "explicit-state exploration of iteration histories on the real code under enumerated options and a scripted extension",
 "C36": "exhaustive bounded enumeration of configurations and of the swarm's candidate lists on the real code with a scripted extension, against a closed form",
 "C37": "exhaustive bounded enumeration of images and PNG storage formats on the real code, against parity of crossings between neighbouring pixels",
 "C38": "exhaustive bounded enumeration of subsets of optional arguments (configurations) on the real code, relational oracle against the documented defaults; fork histories for the generators",
 "C34": "bounded exhaustive small-scope enumeration of the real code against the dense reference formulas",
 "C31": "exhaustive exploration of bounded call histories and argument representations on the real code",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(R, "mc", "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"./check.sh {i} --tier thorough",
                           technique=EXTRA.get(i, "bounded exhaustive state-space enumeration of the real code against a reference model"),
                           level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check registered yet")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy, scs'", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks import /repo/src directly. Run ./check.sh <ID> [--tier thorough] [--replay FILE].")
with open(os.path.join(R, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
