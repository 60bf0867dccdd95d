"""python -m pydv.run PROPERTY [--replay FILE] [--contract NAME] : decide one property."""
import argparse
import glob
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYDV_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(0, VERIF)

TRUSTED = [
    "CPython 3.12 executing the real code objects of /repo (nothing extracted, nothing dropped)",
    "pydv symbolic scalars/arrays: their model of Python/numpy/scipy elementwise semantics (cross-checked against "
    "CPython on concrete inputs in the same run)",
    "pydv ring normaliser and its rewrite rules for exp/log/power/trig/erf (listed in DESIGN.md)",
    "z3 4.x (python API) and cvc5 1.1.2",
]
ASSUME = [
    "machine arithmetic treated as mathematical reals; floating-point literals are read as the closed-form real "
    "they are the nearest double of; overflow, underflow and rounding are outside the proofs",
    "special functions (erf, erfinv, gammainc, betainc, stdtr, ...) are specified by axioms: derivative, strict "
    "monotonicity, range, inverse pair",
]


def worker(kind, c, args, conn):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    try:
        import bilby
        bilby.core.utils.logger.setLevel("CRITICAL")
        from pydv.contract import SymRun, run_concrete
        devnull = os.open(os.devnull, os.O_WRONLY)
        if not os.environ.get("PYDV_DEBUG"):
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
        sys.setrecursionlimit(20000)
        if kind == "sym":
            r = SymRun(c, **args).go()
        else:
            r = run_concrete(c, **args)
        conn.send(("ok", r))
    except BaseException as e:      # noqa
        import traceback
        conn.send(("err", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])))
    finally:
        conn.close()
        os._exit(0)


def pool(tasks, njobs, deadline):
    """tasks: list of (key, kind, contract, args, hard_timeout)"""
    out = {}
    running = []
    tasks = list(tasks)
    while tasks or running:
        now = time.time()
        while tasks and len(running) < njobs and now < deadline:
            key, kind, c, args, hard = tasks.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=worker, args=(kind, c, args, b))
            p.start()
            b.close()
            running.append([key, p, a, now, min(hard, max(1, deadline - now))])
        if now >= deadline:
            for t in tasks:
                out[t[0]] = ("timeout", "no time left")
            tasks = []
        for r in list(running):
            key, p, a, t0, hard = r
            if a.poll(0):
                try:
                    out[key] = a.recv()
                except EOFError:
                    out[key] = ("err", "worker died")
                p.join(5)
                running.remove(r)
            elif not p.is_alive():
                out[key] = ("err", "worker died (exit %s)" % p.exitcode)
                running.remove(r)
            elif time.time() - t0 > hard:
                kill(p)
                out[key] = ("timeout", "hard time limit %.0fs" % hard)
                running.remove(r)
        time.sleep(0.02)
    return out


def kill(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    try:
        p.kill()
    except OSError:
        pass
    p.join(2)


def sane(m):
    for k, v in m.items():
        if isinstance(v, float) and v != 0 and not (1e-5 < abs(v) < 1e5):
            return False
    return True


def load(prop):
    mod = importlib.import_module("contracts." + prop.lower())
    from pydv.contract import REGISTRY
    return mod, REGISTRY.get(prop, [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--contract")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--ledger", action="store_true", help="rewrite the ledger of proved clauses")
    a = ap.parse_args()
    t0 = time.time()
    os.environ.setdefault("MPLBACKEND", "Agg")
    import warnings
    warnings.filterwarnings("ignore")
    import bilby
    if not bilby.__file__.startswith(REPO + "/"):
        print("bilby imported from", bilby.__file__, file=sys.stderr)
        return 3
    bilby.core.utils.logger.setLevel("CRITICAL")
    mod, contracts = load(a.prop)
    if a.contract:
        contracts = [c for c in contracts if c.name in a.contract.split(",")]
    if a.replay:
        return replay(a, contracts)
    thorough = a.tier == "thorough"
    total = 3300 if thorough else 660
    deadline = t0 + total
    sym_opts = dict(vc_timeout=30000, budget=900, max_paths=4000) if thorough else \
        dict(vc_timeout=6000, budget=200, max_paths=500)
    nconc = 4000 if thorough else 250
    tasks = []
    for c in sorted(contracts, key=lambda c: -c.get("cost", 1)):
        if not c.get("concrete_only"):
            so = dict(sym_opts)
            tasks.append((("sym", c.name), "sym", c, so, so["budget"] * 1.5 + 60))
    for c in contracts:
        if not c.get("symbolic_only"):
            tasks.append((("conc", c.name), "conc", c, dict(seed=a.seed, n=c.get("samples", nconc) if not thorough else
                                                            max(nconc, 10 * c.get("samples", nconc)) // c.get("thin", 1),
                                                            budget=300 if thorough else 40), 400 if thorough else 70))
    res = pool(tasks, a.j, deadline)
    # stage 2: replay counter-models / path models on the real code
    tasks = []
    for c in contracts:
        if c.get("symbolic_only"):
            continue
        givens = []
        bad = []
        st, r = res.get(("sym", c.name), ("none", None))
        if st == "ok":
            for o in r["obligations"]:
                if o["status"] != "proved":
                    bad.append(o)
                    if o["model"]:
                        givens.append(dict(o["model"], **o["choices"]))
                    elif o["choices"]:
                        givens.extend([dict(o["choices"])] * 10)
            givens += r["seeds"]
        givens = [g for g in givens if sane(g)][:400]
        n = nconc * 4 if (bad or (st != "ok" and not c.get("concrete_only"))) else 0
        if givens or n:
            tasks.append((("conc2", c.name), "conc", c, dict(
                seed=a.seed + 1000, n=min(n, c.get("samples", n) * 4), budget=200 if thorough else 50, givens=givens), 300 if thorough else 80))
    res.update(pool(tasks, a.j, max(deadline, time.time() + 60)))
    return report(a, contracts, res, t0)


def report(a, contracts, res, t0):
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    ledger_file = os.path.join(VERIF, "ledger.json")
    ledger = json.load(open(ledger_file)) if os.path.exists(ledger_file) else {}
    led = ledger.get(a.prop, {})
    obligations = discharged = 0
    byback = {}
    funcs = set()
    undecided = []
    violations = []
    knownhits = []
    percontract = []
    evals = 0
    nontrivial = 0
    solver_t = 0.0
    solver_q = 0
    samples = []
    newled = {}
    within = {"contracts": 0, "obligations": 0, "discharged": 0}
    for c in contracts:
        st, r = res.get(("sym", c.name), ("none", None))
        labels = {}
        if c.get("bound"):
            within["contracts"] += 1
        if st == "ok":
            for o in r["obligations"]:
                if c.get("bound"):
                    within["obligations"] += 1
                    within["discharged"] += o["status"] == "proved"
                else:
                    obligations += 1
                    discharged += o["status"] == "proved"
                if o["status"] == "proved":
                    byback[o["backend"]] = byback.get(o["backend"], 0) + 1
                labels.setdefault(o["label"], []).append(o)
            funcs.update(r["functions"])
            solver_t += r["solver"]["time"]
            solver_q += r["solver"]["queries"]
            if not any(o["status"] == "proved" for o in r["obligations"]) and not r["obligations"]:
                undecided.append({"contract": c.name, "reason": "no obligation was generated"})
        elif not c.get("concrete_only"):
            obligations += 1
            undecided.append({"contract": c.name, "reason": "symbolic run: %s %s" % (st, str(r)[-600:])})
        fails = {}
        ev = {}
        for k in ("conc", "conc2"):
            cst, cr = res.get((k, c.name), ("none", None))
            if cst == "ok":
                evals += cr["ok"]
                funcs.update(cr["functions"])
                for lab, n in cr["evaluated"].items():
                    ev[lab] = ev.get(lab, 0) + n
                if cr["sample"] and len(samples) < 6:
                    samples.append({"contract": c.name, "inputs": cr["sample"]})
                for lab, f in cr["failures"].items():
                    if lab not in fails or (fails[lab]["given"] and not f["given"]):
                        fails[lab] = f
            elif cst in ("err", "timeout"):
                undecided.append({"contract": c.name, "reason": "concrete run: %s %s" % (cst, str(cr)[-400:])})
        nontrivial += sum(1 for v in ev.values() if v)
        bad = []
        for lab, os_ in labels.items():
            nb = [o for o in os_ if o["status"] != "proved"]
            if not nb and lab not in fails and lab in ev:
                newled.setdefault(c.name, []).append(lab)
            if nb:
                bad.append(lab)
        reach = bool(ev) or c.get("symbolic_only")
        if not reach:
            undecided.append({"contract": c.name, "reason": "vacuous: no concrete input reaches an obligation"})
        # violations
        anybad = any(l in labels for l in bad) or st != "ok"
        for lab, f in fails.items():
            if f["given"] and lab not in bad and lab != "no-exception" and st == "ok" and lab in labels and \
                    not any(l.startswith("*") for l in bad):
                continue      # solver-chosen extreme input, obligation proved: rounding only
            violations.append({"contract": c.name, "label": lab, "inputs": f["inputs"], "message": f["message"],
                               "replayed": True,
                               "solver": [{k: o.get(k) for k in ("status", "backend", "goal", "model", "note")}
                                          for o in labels.get(lab, []) if o["status"] != "proved"][:3]})
        for lab in bad:
            if lab in fails:
                continue
            for o in labels[lab]:
                if o["status"] != "proved":
                    strong = o.get("numeric") and lab in led.get(c.name, [])
                    if strong:
                        violations.append({"contract": c.name, "label": lab, "inputs": o["model"],
                                           "message": "obligation refuted: %s (%s)" % (o.get("goal"), o["backend"]),
                                           "replayed": False, "solver": [o]})
                        break
            n = sum(1 for o in labels[lab] if o["status"] != "proved")
            o = [o for o in labels[lab] if o["status"] != "proved"][0]
            undecided.append({"contract": c.name, "clause": lab, "vcs": n, "reason": str(o["backend"])[:300],
                              "goal": o.get("goal"), "bounded_evaluations": ev.get(lab, 0)})
        percontract.append({
            "contract": c.name, "level": "bounded (concrete only)" if c.get("concrete_only") else (
                ("proved within the bound" if c.get("bound") else "proved") if st == "ok" and not bad
                else "undecided in part: bounded fallback"),
            "bound": c.get("bound"),
            "paths": r["paths"] if st == "ok" else None,
            "vcs": len(r["obligations"]) if st == "ok" else 0,
            "discharged": sum(o["status"] == "proved" for o in r["obligations"]) if st == "ok" else 0,
            "clauses": sorted(labels) or sorted(ev), "concrete_evaluations": sum(ev.values()),
            "seconds": round(r["time"], 2) if st == "ok" else None})
        if a.v:
            pc = percontract[-1]
            print("%-48s %-16s vcs %3d/%3d paths %s conc %d %.1fs %s" % (
                c.name, pc["level"][:16], pc["discharged"], pc["vcs"], pc["paths"], pc["concrete_evaluations"],
                pc["seconds"] or -1, ("FAIL " + ",".join(fails)) if fails else ""))
    if a.v:
        for u in undecided:
            print("   undecided:", json.dumps(u)[:700])
        for v in violations:
            print("   violation:", json.dumps({k: v[k] for k in ("contract", "label", "inputs", "message")}, default=str)[:900])
    # known findings
    real = []
    for v in violations:
        k = next((k for k in known if k["property"] == a.prop and k["contract"] == v["contract"] and
                  k["label"] in (v["label"], "*") and k.get("status") != "fixed"), None)
        if k:
            knownhits.append((k, v))
        else:
            real.append(v)
    seen = set()
    for k, v in knownhits:
        if k["id"] not in seen:
            seen.add(k["id"])
            print("KNOWN-FINDING: property=%s %s (%s)" % (a.prop, k["what"], k["id"]))
    rc = 0
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, a.prop + "-*.json")):
        os.unlink(f)
    donec = set()
    for v in real:
        rc = 1
        path = os.path.join(rdir, "%s-%s-%s.json" % (a.prop, safe(v["contract"]), safe(v["label"])))
        with open(path, "w") as fh:
            json.dump(dict(v, property=a.prop, rerun="cd %s && ./check %s --replay %s" % (VERIF, a.prop, path)), fh,
                      indent=1, default=str)
        key = (v["contract"], v["label"])
        if key in donec:
            continue
        donec.add(key)
        print("obligation %s.%s of %s fails: %s" % (v["contract"], v["label"], a.prop, str(v["message"])[:300]))
        print("VIOLATION property=%s replay=%s%s" % (a.prop, path, "" if v["replayed"] else " no-failing-input-found"))
    funcs = sorted(f for f in funcs)
    level = man_levels().get(a.prop, "proof")
    ev = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": level,
        "coverage": {
            "obligations": obligations, "discharged": discharged, "within_stated_bound": within,
            "checker_cmd": "./check %s --tier %s" % (a.prop, a.tier),
            "trusted_base": TRUSTED,
            "backends": byback, "solver_queries": solver_q, "solver_seconds": round(solver_t, 2),
            "contracts": percontract,
            "functions_under_contract": funcs,
            "undecided": undecided,
            "evaluations": evals, "distinct_nontrivial": nontrivial,
            "rule": "concrete executions of the same contracts on the unpatched real code: random inputs, boundary "
                    "values and one solver model per explored path; non-trivial = contract clauses evaluated at "
                    "least once (also the reachability witness for each precondition)",
            "samples": samples,
            "explanation": "each obligation is one contract clause on one symbolic path of the real code, for all "
                           "inputs satisfying the precondition. Contracts with a 'bound' (a number of keys, samples, "
                           "detectors ...) are discharged by the same verifier for all values within that bound; they "
                           "are counted under within_stated_bound only, never as obligations or discharged",
        },
        "assumptions": ASSUME + getattr(sys.modules.get("contracts." + a.prop.lower()), "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(real),
        "known_findings": [k["id"] for k, v in knownhits],
    }
    if not a.contract:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
    if a.ledger and not rc:
        ledger[a.prop] = newled if not a.contract else dict(led, **newled)
        json.dump(ledger, open(ledger_file, "w"), indent=0, sort_keys=True)
    print("%s %s: contracts %d, obligations %d+%d, discharged %d+%d, undecided entries %d, concrete evaluations %d, "
          "violations %d, %.0fs" % (a.prop, a.tier, len(contracts), obligations, within["obligations"], discharged, within["discharged"], len(undecided), evals,
                                    len(real), time.time() - t0))
    if rc == 0 and not a.contract and not contracts:
        return 3
    if rc == 0 and obligations + within["obligations"] == 0 and not evals:
        print("no obligation generated", file=sys.stderr)
        return 3
    return rc


def safe(s):
    return "".join(ch if ch.isalnum() or ch in "-_." else "_" for ch in str(s))[:80]


def man_levels():
    try:
        return {x["property"]: x["level"] for x in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]}
    except Exception:
        return {}


def replay(a, contracts):
    from pydv.contract import run_concrete
    d = json.load(open(a.replay))
    c = [c for c in contracts if c.name == d["contract"]][0]
    r = run_concrete(c, a.seed, 0, 60, givens=[d["inputs"] or {}])
    for lab, f in r["failures"].items():
        print("replayed on the real code: %s.%s: %s with %s" % (c.name, lab, f["message"], f["inputs"]))
    if r["failures"]:
        return 1
    print("did not fail on replay; verifier output: %s" % json.dumps(d.get("solver"), default=str)[:2000])
    return 0


if __name__ == "__main__":
    sys.exit(main())
