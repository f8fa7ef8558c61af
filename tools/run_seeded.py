"""Run each planted bug's own property check against a scratch copy with the bug applied (development aid).

usage: run_seeded.py [id ...]      writes tools/seeded_results.json
"""
import json, os, subprocess, sys, shutil, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "tools", "seeded_results.json")
res = json.load(open(OUT)) if os.path.exists(OUT) else {}
ids = sys.argv[1:] or sorted(os.path.basename(d[:-1]) for d in glob.glob(ROOT + "/seeded/*/"))
for i in ids:
    meta = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))
    w = f"/tmp/seed_{i}"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    subprocess.check_call(["git", "apply", f"{ROOT}/seeded/{i}/patch.diff"], cwd=w)
    r = subprocess.run([ROOT + "/check.sh", meta["property"]], env=dict(os.environ, GPT_REPO=w), capture_output=True, text=True)
    shutil.rmtree(w)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    how = os.path.basename(v[0].split("replay=")[1])[4:-5] if v and r.returncode == 1 else "no"
    res[i] = dict(property=meta["property"], caught=f"{meta['property']} {how}" if how != "no" else "MISSED")
    print(i, meta["property"], r.returncode, len(v), (v or r.stdout.splitlines()[-1:])[0][:150], flush=True)
    json.dump(res, open(OUT, "w"), indent=1, sort_keys=True)
