#!/usr/bin/env python3
"""Plant a bug: plant.py <dir with meta.json, edits.py or patch.diff, demo.py>. Used while developing; no check reads /verif/seeded.

plant.py new ID PROP  reads a spec module from stdin: variables EDITS=[(file, old, new)], DEMO=str, NEEDS=str, BREAKS=str.
It applies the edits in a scratch copy, runs the stable tests there, runs the demonstration on both trees and, if
everything is as required, writes /verif/seeded/ID/.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

RT = "/opt/venv/bin/python"
ENV = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH="/opt/testsupport")
DEMO_SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=kw.get("env", ENV), timeout=600)


def main():
    ident, prop = sys.argv[1:3]
    spec = {}
    exec(sys.stdin.read(), spec)
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        wt = os.path.join(tmp, "repo")
        shutil.copytree("/repo", wt)
        for f, old, new in spec["EDITS"]:
            p = os.path.join(wt, f)
            s = open(p, encoding="utf-8").read()
            if s.count(old) != 1:
                print(ident, "old text occurs", s.count(old), "times in", f)
                return 1
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        diff = sh(["git", "diff"], wt).stdout
        out = sh([RT, "-m", "pytest", "-q", "tests", "-p", "seed_rng", "-p", "no:cacheprovider", "-x", "--timeout=300"], wt)
        last = out.stdout.strip().splitlines()[-1]
        if not re.match(r"51 passed", last):
            print(ident, "TESTS:", last, [ln for ln in out.stdout.splitlines() if ln.startswith("FAILED")][:3])
            return 1
        d = os.path.join(tmp, "demo")
        os.makedirs(d)
        open(os.path.join(d, "demo.py"), "w", encoding="utf-8").write(spec["DEMO"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        env = {k: v for k, v in ENV.items() if k != "PYTHONPATH"}
        a = sh(["bash", os.path.join(d, "demo.sh")], "/repo", env=env)
        b = sh(["bash", os.path.join(d, "demo.sh")], wt, env=env)
        if a.returncode != 0 or b.returncode == 0:
            print(ident, "DEMO: unpatched", a.returncode, a.stderr[-800:], "patched", b.returncode, b.stderr[-300:])
            return 1
        dst = os.path.join("/verif/seeded", ident)
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        open(os.path.join(dst, "patch.diff"), "w", encoding="utf-8").write(diff)
        shutil.copy(os.path.join(d, "demo.py"), dst)
        shutil.copy(os.path.join(d, "demo.sh"), dst)
        json.dump({"property": prop, "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
        print(ident, "kept:", (b.stderr or b.stdout).strip().splitlines()[-1][:150])
    finally:
        shutil.rmtree(tmp)
    return 0


sys.exit(main())
