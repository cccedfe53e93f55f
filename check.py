#!/usr/bin/env python3
"""usage: check.py PROPERTY [quick|thorough]   |   check.py --setup   |   check.py --replay FILE"""
import json, os, subprocess, sys, time, threading, queue
import vlib
from vlib import VERIF, BUILD
import jobs as J


def run_job(engine, ir, job, secs, out, seed):
    cmd = [engine, "--ir", ir, "--entry", job["entry"], "--param", ",".join(map(str, job["params"])), "--out", out,
           "--secs", str(secs), "--samples", str(job.get("samples", 30)), "--seed", str(seed),
           "--instr", str(job.get("instr", 30_000_000)), "--z3-ms", str(job.get("z3_ms", 120000)), "--depth", str(job.get("depth", 3000))]
    t = time.time()
    if os.path.exists(out):
        os.remove(out)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=secs + 300)
        txt = p.stdout
    except subprocess.TimeoutExpired:
        txt = "engine timeout"
    if os.path.exists(out):
        d = json.load(open(out))
    else:
        d = {"errors": ["engine crashed: " + txt[-500:]], "violations": [], "samples": [], "incomplete": "engine crashed", "checks": {}, "reached": {}, "functions": []}
    d["job_wall"] = time.time() - t
    return d


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def match_known(kf, prop, entry, params, v):
    for k in kf:
        if k.get("status") != "known" or k["property"] != prop:
            continue
        m = k["match"]
        if m.get("entry") != entry or m.get("kind", v["kind"]) != v["kind"]:
            continue
        if "id" in m and m["id"] != v["id"]:
            continue
        if "params" in m and list(m["params"]) != list(params):
            continue
        if "loc" in m and m["loc"] not in v["loc"]:
            continue
        if "inputs" in m and [x[1] for x in v["inputs"]] not in m["inputs"]:
            continue
        return k
    return None


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        vlib.build_all()
        print("built")
        return 0
    if a and a[0] == "--replay":
        d = json.load(open(a[1]))
        _, _, rep = vlib.build_all()
        ok, txt = vlib.confirm(rep, d["entry"], d, d["params"])
        print(("REPRODUCED " if ok else "NOT REPRODUCED ") + txt)
        return 1 if ok else 0
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = a[2] if len(a) > 2 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    try:
        engine, ir, rep = vlib.build_all()
    except vlib.BuildError as e:
        print("ERROR build: %s" % e)
        return 2
    build_s = time.time() - t0
    jl = [j for j in J.jobs(prop, tier) if only is None or only in j["entry"]]
    if not jl:
        print("ERROR no jobs for %s" % prop)
        return 2
    budget = (640 if tier == "quick" else 3000) if not os.environ.get("VERIF_BUDGET") else float(os.environ["VERIF_BUDGET"])
    deadline = t0 + budget
    wd = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(wd, exist_ok=True)
    q = queue.Queue()
    for i, j in sorted(enumerate(jl), key=lambda x: -x[1].get("cost", 1)):
        q.put((i, j))
    results = [None] * len(jl)

    def worker():
        while True:
            try:
                i, j = q.get_nowait()
            except queue.Empty:
                return
            left = deadline - time.time()
            secs = max(5, min(j.get("secs", 300 if tier == "quick" else 1500), left))
            results[i] = run_job(engine, ir, j, int(secs), os.path.join(wd, "%d.json" % i), seed)
    ts = [threading.Thread(target=worker) for _ in range(vlib.NPROC)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()

    kf = known_findings()
    errors, viol, known, incomplete = [], [], [], []
    tot = dict(paths=0, pruned=0, forks=0, instructions=0, queries=0, solver_s=0.0, path_conditions_checked=0, cache_hits=0, byte_decisions=0, concretizations=0)
    maxq = 0.0
    checks, reached, funcs, cov = {}, {}, set(), {}
    validated = 0
    samples = []
    unconfirmed = []
    per_job = []
    repdir = os.path.join(BUILD, "replays")
    os.makedirs(repdir, exist_ok=True)
    for j, d in zip(jl, results):
        nm = "%s(%s)" % (j["entry"], ",".join(map(str, j["params"])))
        for k in tot:
            tot[k] += d.get(k, 0)
        maxq = max(maxq, d.get("max_query_s", 0))
        cov[d.get("coverage_query", "-")] = cov.get(d.get("coverage_query", "-"), 0) + 1
        for k, v in d["checks"].items():
            c = checks.setdefault((j["entry"], int(k)), [0, 0])
            c[0] += v[0]
            c[1] += v[1]
        for k, v in d["reached"].items():
            reached[(j["entry"], int(k))] = reached.get((j["entry"], int(k)), 0) + v
        funcs.update(d["functions"])
        for e in d["errors"]:
            errors.append("%s: %s" % (nm, e))
        if d["incomplete"]:
            incomplete.append("%s: %s" % (nm, d["incomplete"]))
        per_job.append({"job": nm, "bounds": j.get("bounds", ""), "paths": d.get("paths", 0), "queries": d.get("queries", 0),
                        "solver_s": round(d.get("solver_s", 0), 2), "wall_s": round(d["job_wall"], 2), "coverage_query": d.get("coverage_query", "-"), "complete": d["incomplete"] is None})
        # native validation of explored paths
        ss = d["samples"]
        if ss:
            out, rc = vlib.replay_lines(rep, [vlib.case_line(j["entry"], j["params"], s["inputs"]) for s in ss], timeout=120)
            if len(out) != len(ss):
                errors.append("%s: native validation ended early (%s)" % (nm, rc))
            for s, o in zip(ss, out):
                exp = ("OK " + ",".join("%d:%d" % (t, v) for t, v in s["trace"])).strip()
                if o.strip() == exp:
                    validated += 1
                elif not any(o.startswith("FAIL %d " % v["id"]) for v in d["violations"]):
                    errors.append("%s: engine and native run differ on %s: native %s, engine %s" % (nm, vlib.case_line(j["entry"], j["params"], s["inputs"]), o[:300], exp[:300]))
            samples.append({"job": nm, "inputs": ss[len(ss) // 2]["inputs"][:40], "observed": ss[len(ss) // 2]["trace"][:40]})
        for v in d["violations"]:
            ok, txt = vlib.confirm(rep, j["entry"], v, j["params"])
            what = J.describe(j["entry"], v)
            if not ok:
                unconfirmed.append("%s: %s %s inputs %s: native run says %s" % (nm, v["kind"], v["loc"], v["inputs"], txt[:200]))
                continue
            k = match_known(kf, prop, j["entry"], j["params"], v)
            if k:
                known.append((k, v))
                continue
            path = os.path.join(repdir, "%s-%d.json" % (prop, len(viol)))
            json.dump({"property": prop, "entry": j["entry"], "params": j["params"], "kind": v["kind"], "id": v["id"], "what": what, "loc": v["loc"], "bt": v["bt"],
                       "inputs": v["inputs"], "trace": v["trace"], "native": txt, "replay": "python3 check.py --replay " + path}, open(path, "w"), indent=1)
            viol.append((path, "%s %s: %s %s [native: %s]" % (nm, v["kind"], what, v["loc"], txt[:160])))
    # vacuity: every declared assertion must have been reached
    if not viol and only is None:
        for j in jl:
            for n in J.need(j["entry"]):
                if (j["entry"], n) not in checks and (j["entry"], n) not in reached and not incomplete:
                    errors.append("%s: assertion %d was never reached" % (j["entry"], n))
    errors = list(dict.fromkeys(errors))
    wall = time.time() - t0
    cov_d = {
        "states": tot["paths"] + tot["pruned"], "transitions": tot["instructions"], "traces_validated_against_impl": validated,
        "samples": samples[:12],
        "symbolic_paths": tot["paths"], "forks": tot["forks"], "solver_queries": tot["queries"], "query_cache_hits": tot["cache_hits"], "single_byte_decisions": tot["byte_decisions"], "solver_s": round(tot["solver_s"], 2), "max_query_s": round(maxq, 2),
        "path_conditions_confirmed_by_solver": tot["path_conditions_checked"], "coverage_queries": cov,
        "assertions": {"%s#%d %s" % (e, i, J.describe_id(e, i)): {"reached": c[0], "discharged_by_solver_query": c[1]} for (e, i), c in sorted(checks.items())},
        "functions_encoded": sorted(funcs), "jobs": per_job, "exhaustive": not incomplete and not errors,
        "engine": subprocess.run([engine, "--version"], stdout=subprocess.PIPE, text=True).stdout.strip(), "build_s": round(build_s, 1),
        "known_findings_seen": sorted({k["id"] for k, _ in known}), "incomplete": incomplete, "errors": errors[:20], "unconfirmed": unconfirmed[:20],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov_d, "assumptions": J.assumptions(prop), "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for d in os.listdir(wd):
        os.remove(os.path.join(wd, d))
    os.rmdir(wd)
    for k in sorted({k["id"] for k, _ in known}):
        kk = [x for x, _ in known if x["id"] == k][0]
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, kk["what"]))
    for p in incomplete:
        print("INCOMPLETE %s" % p)
    for e in errors[:10]:
        print("ERROR %s" % e)
    for u in unconfirmed[:10]:
        print("UNCONFIRMED %s" % u)
    print("%s %s: %d jobs, %d paths, %d solver queries (%.1f s), %d traces validated natively, %.1f s" % (prop, tier, len(jl), tot["paths"], tot["queries"], tot["solver_s"], validated, wall))
    if viol:
        for p, w in viol[:20]:
            print("  " + w)
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if errors or unconfirmed:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
