"""Run the bounded run-time leg for one property: python run.py C07 --seed 1 --budget 5 [--hints file] [--out file]
   or replay one case:                          python run.py --replay file.json"""
import argparse
import hashlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

import core  # noqa: E402
import stoqcompiler  # noqa: E402

assert os.path.realpath(stoqcompiler.__file__).startswith(os.path.realpath(REPO) + os.sep), stoqcompiler.__file__

for m in ("scen_unitary", "scen_sequence", "scen_compiler", "scen_hamiltonian"):
    if os.path.exists(os.path.join(HERE, m + ".py")):
        __import__(m)


def worker(a, w, scns, fixed, hints, out):
    evals, seen, samples, bad, per = 0, set(), [], [], {}

    def do(s, params):
        nonlocal evals
        evals += 1
        seen.add(hashlib.sha1(core.params_key(s["name"], params).encode()).hexdigest()[:16])
        per[s["name"]] = per.get(s["name"], 0) + 1
        if per[s["name"]] <= 1:
            samples.append({"scenario": s["name"], "params": params})
        msg = core.run_one(s, params)
        if msg:
            bad.append({"property": a.prop, "scenario": s["name"], "params": params, "message": msg})
        return msg

    # the fixed part always completes; then random cases until the budget is spent
    for s, params in fixed:
        do(s, params)
    gens = [s for s in scns if s["gen"]]
    gs = {s["name"]: core.G(f"{a.seed}/{w}/{a.prop}/{s['name']}", hints) for s in gens}
    spent = {s["name"]: 0.0 for s in gens}
    t_rand = time.time()
    while gens and time.time() - t_rand < a.budget and not bad:
        s = min(gens, key=lambda s: spent[s["name"]] / s["weight"])
        t = time.time()
        do(s, s["gen"](gs[s["name"]]))
        spent[s["name"]] += max(time.time() - t, 1e-5)
    json.dump({"evals": evals, "seen": sorted(seen), "samples": samples, "bad": bad, "per": per}, open(out, "w"), default=str)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=5.0)
    ap.add_argument("--hints")
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    if a.replay:
        rec = json.load(open(a.replay))
        for s in core.SCENARIOS[rec["property"]]:
            if s["name"] == rec["scenario"]:
                msg = core.run_one(s, rec["params"])
                print("VIOLATED: " + msg if msg else "held")
                return 1 if msg else 0
        raise SystemExit("no such scenario")
    hints = json.load(open(a.hints)) if a.hints else {}
    scns = core.SCENARIOS[a.prop]
    if a.only:
        scns = [s for s in scns if s["name"] == a.only]
    t0 = time.time()
    fixed = [(s, q) for s in scns for q in (s["fixed"] or []) + ((s["thorough"] or []) if a.tier == "thorough" else [])]
    tmp = tempfile.mkdtemp(prefix="verif-run-")
    try:
        kids = []
        for w in range(a.workers):
            pid = os.fork()
            if pid == 0:
                rc = 3
                try:
                    worker(a, w, scns, fixed[w::a.workers], hints, os.path.join(tmp, str(w)))
                    rc = 0
                except BaseException as e:  # noqa: BLE001
                    open(os.path.join(tmp, f"{w}.err"), "w").write("".join(traceback.format_exception(e)))
                finally:
                    os._exit(rc)
            kids.append(pid)
        codes = [os.waitstatus_to_exitcode(os.waitpid(k, 0)[1]) for k in kids]
        parts = []
        for w, c in enumerate(codes):
            if c != 0:
                err = os.path.join(tmp, f"{w}.err")
                raise core.HarnessError(open(err).read() if os.path.exists(err) else f"worker {w} ended with {c}")
            parts.append(json.load(open(os.path.join(tmp, str(w)))))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    per = {}
    for q in parts:
        for k, v in q["per"].items():
            per[k] = per.get(k, 0) + v
    bad = [v for q in parts for v in q["bad"]]
    names = set()
    samples = []
    for q in parts:
        for s in q["samples"]:
            if s["scenario"] not in names:
                names.add(s["scenario"])
                samples.append(s)
    res = {"property": a.prop, "evaluations": sum(q["evals"] for q in parts), "distinct": len(set(k for q in parts for k in q["seen"])), "per_scenario": per,
           "samples": samples[:4], "violations": bad, "fixed_cases": len(fixed),
           "wall_s": round(time.time() - t0, 2), "budget_s": a.budget, "workers": a.workers, "python": sys.version.split()[0]}
    if a.out:
        json.dump(res, open(a.out, "w"), ensure_ascii=False, indent=1, default=str)
    else:
        print(json.dumps(res, ensure_ascii=False, indent=1, default=str))
    return 1 if bad else 0


if __name__ == "__main__":
    try:
        rc = main()
    except core.HarnessError as e:
        print("HARNESS ERROR\n" + str(e), file=sys.stderr)
        rc = 3
    sys.exit(rc)
