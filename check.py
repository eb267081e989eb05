#!/usr/bin/env python3
"""Decide one property on /repo's current tree:  python3 check.py C07

 1. Deductive leg (vc/): obligations are generated from the AST of the functions in /repo and discharged for all inputs.
 2. Run-time leg (concrete/): the same properties as executable contracts on the real code, bounded. It validates the trusted
    numpy/scipy contracts, stands in (labelled bounded) for functions the verifier does not reach, and replays or searches for
    a failing input when an obligation fails.

 exit 0: held; 1: VIOLATION line printed; 2: error of the check.
"""
import argparse
import ast
import hashlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
RUNTIME = "/opt/venv/bin/python"
VT = "/opt/veriftools/pyvenv/bin/python"
BASELINE = os.path.join(HERE, "baseline.json")
KNOWN = os.path.join(HERE, "known_findings.txt")
ENV = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_REPO=REPO)


def call(cmd, timeout):
    p = subprocess.Popen(cmd, cwd=HERE, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, "timeout"


def concrete(prop, seed, budget, tier, work, hints=None, tag="run"):
    out = os.path.join(work, f"{prop}.{tag}.json")
    if os.path.exists(out):
        os.remove(out)
    cmd = [RUNTIME, "concrete/run.py", prop, "--seed", str(seed), "--budget", str(budget), "--tier", tier, "--out", out]
    if hints is not None:
        hf = os.path.join(work, f"{prop}.hints.json")
        json.dump(hints, open(hf, "w"))
        cmd += ["--hints", hf]
    rc, text = call(cmd, 700)
    if rc not in (0, 1) or not os.path.exists(out):
        return {"error": f"run-time leg ended with {rc}: {text[-2000:]}"}
    r = json.load(open(out))
    os.remove(out)
    return r


def deductive(prop, tier, work):
    out = os.path.join(work, f"{prop}.vc.json")
    if os.path.exists(out):
        os.remove(out)
    rc, text = call([VT, "-m", "vc.main", prop, "--tier", tier, "--out", out], 420 if tier == "quick" else 3000)
    if not os.path.exists(out):
        return {"error": f"deductive leg ended with {rc}: {text[-3000:]}"}
    r = json.load(open(out))
    os.remove(out)
    return r


def fingerprint(root):
    """The package's syntax trees without comments, docstrings and layout."""
    h = hashlib.sha256()
    base = os.path.join(root, "stoqcompiler")
    for d, dirs, files in sorted(os.walk(base)):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            try:
                t = ast.parse(open(p, encoding="utf-8").read())
            except SyntaxError as e:
                h.update(f"{f}: {e}".encode())
                continue
            for n in ast.walk(t):
                b = getattr(n, "body", None)
                if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
                    n.body = b[1:] or [ast.Pass()]
            h.update((os.path.relpath(p, base) + ast.dump(t)).encode())
    return h.hexdigest()


def unproved(prop, vc):
    """Obligations that were discharged on the tree the contracts were developed on and are not dischargeable now, if the
    program is another one. On that tree itself nothing is reported: the verifier, not the program, would have changed."""
    if vc.get("error") or not os.path.exists(BASELINE):
        return []
    base = json.load(open(BASELINE, encoding="utf-8"))
    if base["fingerprint"] == fingerprint(REPO):
        return []
    out = []
    reached = {u for f in vc["functions"] for u in f["units"]} - set(vc.get("stopped", []))
    now = {o["id"]: o for o in vc["obligations"]}
    for i, clause in base["obligations"].items():
        unit_ = i.split("/")[0]
        if prop not in clause or unit_ not in reached:
            continue
        o = now.get(i)
        if o is None:
            out.append({"id": i, "status": "undecided", "detail": "no path of the program reaches this obligation any more", "hints": {}})
        elif o["status"] == "undecided":
            out.append(o)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--no-vc", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ev_dir = os.path.join(HERE, "evidence")
    work = os.path.join(ev_dir, "work")
    rep_dir = os.path.join(ev_dir, "replays")
    os.makedirs(work, exist_ok=True)
    os.makedirs(rep_dir, exist_ok=True)
    replay = os.path.join(rep_dir, f"{prop}.json")
    budget = a.budget if a.budget is not None else (4.0 if tier == "quick" else 120.0)

    vc = {"functions": [], "obligations": [], "error": "no deductive leg"} if a.no_vc or not os.path.exists(os.path.join(HERE, "vc", "main.py")) \
        else deductive(prop, tier, work)
    run = concrete(prop, seed, budget, tier, work)
    if "error" in run:
        print(run["error"], file=sys.stderr)
        return 2
    failed = [o for o in vc.get("obligations", []) if o["status"] == "failed"]
    undecided = [o for o in vc.get("obligations", []) if o["status"] == "undecided"]
    open_ = unproved(prop, vc) if not failed else []
    extra = None
    # a failed or undecided obligation, or a function out of reach: search for a failing input on the real code
    if not run["violations"] and (failed or undecided or (vc.get("error") and vc["error"] != "no deductive leg") or any(f["status"] != "proved" for f in vc.get("functions", []))):
        hints = {"ints": sorted({i for o in failed + open_ + undecided for i in o.get("hints", {}).get("ints", [])})[:40],
                 "reals": sorted({x for o in failed + open_ + undecided for x in o.get("hints", {}).get("reals", [])})[:40]}
        extra = concrete(prop, seed + 1000, 60.0 if failed or open_ else 10.0, tier, work, hints, "search")
        if "error" in extra:
            print(extra["error"], file=sys.stderr)
            return 2
    bad = run["violations"] or (extra or {}).get("violations") or []
    known = [ln.split(" ", 1)[1].strip() for ln in open(KNOWN, encoding="utf-8") if ln.startswith("finding: ")] if os.path.exists(KNOWN) else []
    fresh = []
    for v in bad:
        key = f"property={prop} scenario={v['scenario']} message={v['message']}"
        hit = [k for k in known if key.startswith(k)]
        if hit:
            print("KNOWN-FINDING: " + key)
        else:
            fresh.append(v)
    lines = []
    status = 0
    if fresh:
        v = fresh[0]
        json.dump({"property": prop, "scenario": v["scenario"], "params": v["params"], "message": v["message"],
                   "replay_cmd": f"cd {HERE} && {RUNTIME} concrete/run.py --replay {replay}",
                   "failed_obligations": failed[:10]}, open(replay, "w"), ensure_ascii=False, indent=1, default=str)
        if failed:
            print(f"failed obligation: {failed[0]['id']}: {failed[0].get('detail', '')[:300]}")
        print(f"failing input: {v['scenario']} {json.dumps(v['params'], ensure_ascii=False, default=str)[:300]}: {v['message'][:300]}")
        lines.append(f"VIOLATION property={prop} replay={replay}")
        status = 1
    elif failed or open_:
        failed = failed or open_
        json.dump({"property": prop, "failed_obligations": failed, "note": "no failing input found",
                   "search": {k: (extra or {}).get(k) for k in ("evaluations", "wall_s", "per_scenario")}}, open(replay, "w"), ensure_ascii=False, indent=1, default=str)
        for o in failed[:5]:
            print(f"{'failed' if o['status'] == 'failed' else 'no longer provable'} obligation: {o['id']}: {o.get('detail', '')[:500]}")
        lines.append(f"VIOLATION property={prop} replay={replay} no-failing-input-found")
        status = 1
    elif os.path.exists(replay):
        os.remove(replay)
    obs = vc.get("obligations", [])
    funs = vc.get("functions", [])
    n_dis = sum(o["status"] == "discharged" for o in obs)
    level = json.load(open(os.path.join(HERE, "levels.json")))[prop]
    cov = {"obligations": len(obs), "discharged": n_dis, "checker_cmd": f"{VT} -m vc.main {prop} --tier {tier}",
           "trusted_base": vc.get("trusted", []),
           "functions_under_contract": funs, "proved_functions": sum(f["status"] == "proved" for f in funs),
           "out_of_reach": [f for f in funs if f["status"] != "proved"],
           "backends": vc.get("backends", {}), "solver_s": vc.get("solver_s", 0), "paths": vc.get("paths", 0),
           "reachability_checks": vc.get("covers", 0), "deductive_error": vc.get("error"),
           "bounded": {"label": "bounded (run-time contracts on the real code; never counted as proved)",
                       "evaluations": run["evaluations"] + (extra or {}).get("evaluations", 0), "distinct": run["distinct"], "per_scenario": run["per_scenario"],
                       "fixed_cases": run["fixed_cases"], "budget_s": budget, "seed": seed, "samples": run["samples"], "bounds": vc.get("bounds", [])},
           "evaluations": run["evaluations"] + (extra or {}).get("evaluations", 0), "distinct_nontrivial": run["distinct"],
           "rule": "a case is one scenario with its parameters; it is counted once per distinct parameters", "samples": run["samples"],
           "explanation": "obligations over the AST of /repo's functions, discharged for all inputs; plus bounded run-time contracts",
           "obligation_list": [{"id": o["id"], "status": o["status"], "backend": o.get("backend"), "s": o.get("s")} for o in obs]}
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": vc.get("assumptions", []),
               "wall_s": round(time.time() - t0, 2), "violations": len(fresh) or len(failed)}, open(os.path.join(ev_dir, f"{prop}.json"), "w"), ensure_ascii=False, indent=1, default=str)
    print(f"{prop}: {n_dis}/{len(obs)} obligations discharged, {len(undecided)} undecided, {len(failed)} failed; "
          f"{sum(f['status'] == 'proved' for f in funs)}/{len(funs)} functions proved; {run['evaluations']} bounded evaluations; {time.time() - t0:.1f}s")
    if vc.get("error"):
        print("deductive leg: " + str(vc["error"])[-1500:])
    for ln in lines:
        print(ln)
    return status


if __name__ == "__main__":
    sys.exit(main())
