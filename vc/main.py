"""python3-vt -m vc.main PROPERTY|all [--tier quick|thorough] [--out FILE] [--root /repo] [--unit PREFIX] [-v]

Discharges the obligations of a property: every unit (function under contract) whose clauses decide it is run in a process
of its own on the AST of the current source. Exits 0 whatever the outcome; the result is in FILE."""
import argparse
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

sys.setrecursionlimit(20000)


def work(name, budget, root, debug, conn):
    try:
        sys.setrecursionlimit(20000)
        if not debug:
            sys.stderr = open(os.devnull, "w")
        from .interp import World
        from .spec import Spec
        from .units import run_unit
        w = World(root)
        w.debug = debug
        Spec(w)
        r = run_unit(w, name, budget)
    except BaseException as e:  # noqa: BLE001
        if debug:
            traceback.print_exc()
        r = empty(name, f"verifier error: {type(e).__name__}: {e}")
    try:
        if conn is None:
            return r
        conn.send(r)
        conn.close()
    except BaseException:  # noqa: BLE001
        pass


def empty(name, problem):
    return {"unit": name, "function": name, "obligations": [], "problem": problem, "paths": 0, "covers": {}, "solver_s": 0, "checks": 0, "unknown": 0, "s": 0, "used": [], "assumed": []}


def run_all(jobs, procs, hard):
    """jobs: list of argument tuples for work; each in its own process, ended after `hard` seconds."""
    ctx = mp.get_context("fork")
    todo, live, out = list(enumerate(jobs)), {}, {}
    while todo or live:
        while todo and len(live) < procs:
            i, a = todo.pop(0)
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(*a, wr), daemon=True)
            p.start()
            wr.close()
            live[i] = (p, rd, time.time(), a)
        for i in list(live):
            p, rd, t, a = live[i]
            try:
                if rd.poll(0.01):
                    out[i] = rd.recv()
                elif not p.is_alive() and not rd.poll(0):
                    out[i] = empty(a[0], "verifier process ended without an answer")
                elif time.time() - t > hard:
                    out[i] = empty(a[0], "out of reach: time limit")
                else:
                    continue
            except (EOFError, OSError):
                out[i] = empty(a[0], "verifier process ended without an answer")
            if p.is_alive():
                p.kill()
            p.join()
            rd.close()
            del live[i]
    return [out[i] for i in range(len(jobs))]


def report(prop, results, tier):
    from .units import UNITS
    from .trusted import ALSO, ASSUMED, ASSUMPTIONS, BOUNDED, TRUSTED
    funs, obs = {}, []
    for r in results:
        name = r["unit"]
        qual = UNITS[name][0] if name in UNITS else name
        f = funs.setdefault(qual, {"name": qual, "status": "proved", "units": [], "obligations": 0, "reason": ""})
        f["units"].append(name)
        f["obligations"] += len(r["obligations"])
        bad = [o for o in r["obligations"] if o["status"] != "discharged"]
        if r["problem"]:
            f["status"], f["reason"] = "out of reach", r["problem"][:300]
        elif not r["obligations"]:
            f["status"], f["reason"] = "out of reach", "no obligation generated"
        elif any(o["status"] == "failed" for o in bad):
            f["status"] = "failed"
        elif bad and f["status"] == "proved":
            f["status"], f["reason"] = "undecided", "; ".join(o["id"] for o in bad)[:300]
        for o in r["obligations"]:
            st = o["status"]
            if r["problem"] and st == "discharged":
                st, o["detail"] = "undecided", "not every path reached: " + r["problem"][:200]
            obs.append({"id": o["id"], "function": qual, "status": st, "backend": "z3 + path rewriting", "paths": o["paths"], "s": round(o["s"], 3),
                        "detail": o["detail"][:1500], "hints": o["hints"]})
    used = sorted({u for r in results for u in r["used"]})
    proved_by = {}
    for n, (q, _, _) in UNITS.items():
        proved_by.setdefault(q, []).append(n)
    for q, us in ALSO.items():
        proved_by.setdefault(q, []).extend(us)
    contracts = [f"{q}: " + (f"proved by {', '.join(proved_by[q])}" if q in proved_by else ASSUMED.get(q, "ASSUMED")) for q in sorted({u for r in results for u in r["assumed"]})]
    return {"property": prop, "tier": tier, "stopped": [r["unit"] for r in results if r["problem"]], "functions": list(funs.values()), "obligations": obs,
            "trusted": TRUSTED + [c for c in contracts if "proved by" not in c], "contracts_at_calls": contracts, "bodies_verified_in_place": used, "assumptions": ASSUMPTIONS,
            "backends": {"z3": sum(o["status"] == "discharged" for o in obs), "solver_calls": sum(r["checks"] for r in results), "solver_unknown": sum(r["unknown"] for r in results)},
            "solver_s": round(sum(r["solver_s"] for r in results), 2), "paths": sum(r["paths"] for r in results),
            "covers": sum(len(r["covers"]) for r in results), "bounds": BOUNDED.get(prop, []), "error": None}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--root", default=os.environ.get("VERIF_REPO", "/repo"))
    ap.add_argument("--unit")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    try:
        from .units import UNITS, decides
        names = [n for n, (f, props, _) in UNITS.items() if (a.unit and n.startswith(a.unit)) or (not a.unit and (a.prop in props or a.prop == "all"))]
        budget = 150 if a.tier == "quick" else 600
        if a.v and len(names) == 1:
            res = [work(names[0], budget, a.root, True, None)]
        else:
            res = run_all([(n, budget, a.root, a.v) for n in names], 8, budget * 1.5 + 5)
        if a.prop != "all":
            for r in res:
                r["obligations"] = [o for o in r["obligations"] if decides(r["unit"], a.prop, o["id"].split("/", 1)[1])]
        rep = report(a.prop, res, a.tier)
    except Exception as e:  # noqa: BLE001
        if a.v:
            raise
        res, rep = [], {"functions": [], "obligations": [], "error": f"{type(e).__name__}: {e}"}
    if a.v:
        for r in res:
            st = [o["status"] for o in r["obligations"]]
            print(f"{r['unit']:28} paths={r['paths']} {r['s']:.1f}s  ok={st.count('discharged')} failed={st.count('failed')} undecided={st.count('undecided')}  {r['problem'] or ''} {r['covers']}")
            for o in r["obligations"]:
                if o["status"] != "discharged":
                    print("    ", o["status"], o["id"], o["detail"][:300])
    if a.out:
        json.dump(rep, open(a.out, "w"), default=str)


if __name__ == "__main__":
    main()
