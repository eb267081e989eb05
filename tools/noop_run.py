"""A statement that does nothing at the start (or before the last statement) of every function: all obligations must still be
discharged. Usage: python3-vt tools/noop_run.py [PROP|all]"""
import ast, json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FORMS = ["pass", "None", "0", "_unused = None", "_ = 0", "if False:\n    pass", "assert True", "for _unused in ():\n    pass", "...", "(lambda: None)", "_unused = [0]\n_unused = 1"]
prop = sys.argv[1] if len(sys.argv) > 1 else "all"
for form in (sys.argv[2:] or FORMS):
    for where in ("first", "last", "every"):
        d = tempfile.mkdtemp(prefix="nop")
        try:
            shutil.copytree("/repo/stoqcompiler", d + "/stoqcompiler")
            for r, _, fs in os.walk(d + "/stoqcompiler"):
                for f in fs:
                    if not f.endswith(".py"):
                        continue
                    p = os.path.join(r, f)
                    t = ast.parse(open(p).read())
                    for n in list(ast.walk(t)) if where == "every" else ():
                        for fld in ("body", "orelse", "finalbody"):
                            b = getattr(n, fld, None)
                            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(n, (ast.Module, ast.ClassDef)):
                                doc = isinstance(n, ast.FunctionDef) and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant)
                                b[:] = b[:doc] + [y for x in b[doc:] for y in ast.parse(form).body + [x]]
                    for n in list(ast.walk(t)) if where != "every" else ():
                        if isinstance(n, ast.FunctionDef):
                            new = ast.parse(form).body
                            doc = isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)
                            k = (1 if doc else 0) if where == "first" else len(n.body) - 1
                            if where == "last" and doc and len(n.body) == 1:
                                k = 1
                            n.body[k:k] = new
                    open(p, "w").write(ast.unparse(ast.fix_missing_locations(t)))
            subprocess.run(["python3-vt", "-m", "vc.main", prop, "--root", d, "--out", d + "/o.json"], cwd=here, capture_output=True, env=dict(os.environ, PYTHONHASHSEED="0"))
            r = json.load(open(d + "/o.json"))
            bad = [f"{x['name']}: {x['reason'][:150]}" for x in r["functions"] if x["status"] == "out of reach"]
            bad += [f"{o['status'].upper()} {o['id']}: {o['detail'][:160]}" for o in r["obligations"] if o["status"] != "discharged" and not o["detail"].startswith("not every path")]
            print(f"## {form!r} {where} solver {r['solver_s']}\n    " + ("\n    ".join(bad) or "all discharged"), flush=True)
        finally:
            shutil.rmtree(d)
