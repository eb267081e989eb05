"""Writes baseline.json: the obligations discharged on /repo's current tree, per unit, with the properties they decide, and
the fingerprint of the tree. Usage: python3-vt tools/baseline.py (after a run in which everything is discharged)."""
import json
import os
import subprocess
import sys
import tempfile

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from check import BASELINE, REPO, fingerprint  # noqa: E402
from vc.units import UNITS, decides  # noqa: E402

with tempfile.TemporaryDirectory() as d:
    subprocess.run([sys.executable, "-m", "vc.main", "all", "--out", d + "/o.json"], cwd=here, check=True, env=dict(os.environ, PYTHONHASHSEED="0"))
    r = json.load(open(d + "/o.json"))
bad = [o["id"] for o in r["obligations"] if o["status"] != "discharged"]
for b in bad:
    print("not discharged:", b)
obs = {o["id"]: [p for p in UNITS[o["id"].split("/")[0]][1] if decides(o["id"].split("/")[0], p, o["id"].split("/", 1)[1])] for o in r["obligations"] if o["status"] == "discharged"}
json.dump({"fingerprint": fingerprint(REPO), "obligations": dict(sorted(obs.items()))}, open(BASELINE, "w"), indent=0, ensure_ascii=False)
print(len(obs), "obligations")
sys.exit(bool(bad))
