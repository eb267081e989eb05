"""Every edit of refactors.txt (or of the given file) through the deductive leg, on a scratch copy each: only the units of
functions that the edit can reach are of interest, but all are run. Prints what is not discharged. Development aid.
Usage: python3-vt tools/refactor_run.py [FILE] [FIRST LAST]"""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fn = sys.argv[1] if len(sys.argv) > 1 else os.path.join(here, "tools/refactors.txt")
lines = [x for x in open(fn).read().split("\n") if x and not x.startswith("#")]
if len(sys.argv) > 3:
    lines = lines[int(sys.argv[2]) - 1:int(sys.argv[3])]
for n, line in enumerate(lines, int(sys.argv[2]) if len(sys.argv) > 3 else 1):
    f, *pairs = line.split("|||")
    new = pairs[1]
    d = tempfile.mkdtemp(prefix="ref")
    try:
        shutil.copytree("/repo/stoqcompiler", d + "/stoqcompiler")
        p = f"{d}/stoqcompiler/{f}"
        s = open(p).read()
        un = lambda t: t.replace("\\n", "\n").replace("\\B", "\\")
        if any(un(a) not in s for a in pairs[::2]):
            print("NOT FOUND", n, line[:200], flush=True)
            continue
        for a, b in zip(pairs[::2], pairs[1::2]):
            s = s.replace(un(a), un(b), 1)
        open(p, "w").write(s)
        subprocess.run(["python3-vt", "-m", "vc.main", "all", "--root", d, "--out", d + "/o.json"], cwd=here, capture_output=True, env=dict(os.environ, PYTHONHASHSEED="0"))
        r = json.load(open(d + "/o.json"))
        bad = [f"{x['name']}: {x['reason'][:150]}" for x in r["functions"] if x["status"] == "out of reach"]
        bad += [f"{o['status'].upper()} {o['id']}: {o['detail'][:160]}" for o in r["obligations"] if o["status"] != "discharged" and not o["detail"].startswith("not every path")]
        print(f"## {n} {f}: {new[:90]}\n    " + ("\n    ".join(bad) or "all discharged"), flush=True)
    finally:
        shutil.rmtree(d)
