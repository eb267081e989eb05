"""Deductive leg on one-line changes: reads FILE|OLD|NEW lines on stdin, each run on a scratch copy. Development aid.
Usage: vc_mut.py PROP|all [UNITPREFIX] < edits"""
import json, os, shutil, subprocess, sys, tempfile
prop = sys.argv[1]
unit = sys.argv[2:3]
for line in sys.stdin:
    line = line.rstrip("\n")
    if not line or line.startswith("#"):
        continue
    f, old, new = line.split("|||")
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree("/repo/stoqcompiler", d + "/stoqcompiler")
        p = f"{d}/stoqcompiler/{f}"
        s = open(p).read()
        old, new = old.replace("\\n", "\n"), new.replace("\\n", "\n")
        if old not in s:
            print("NOT FOUND", line)
            continue
        open(p, "w").write(s.replace(old, new, 1))
        out = d + "/out.json"
        subprocess.run(["python3-vt", "-m", "vc.main", prop, "--root", d, "--out", out] + (["--unit", unit[0]] if unit else []), cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), capture_output=True)
        r = json.load(open(out))
        bad = [f"{f['name']}: {f['reason'][:150]}" for f in r["functions"] if f["status"] == "out of reach"]
        bad += [f"{o['status'].upper()} {o['id']}: {o['detail'][:110]}" for o in r["obligations"] if o["status"] != "discharged" and not o["detail"].startswith("not every path")]
        print("##", line, "\n    " + ("\n    ".join(bad) or "all discharged"))
    finally:
        shutil.rmtree(d)
