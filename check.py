#!/usr/bin/env python3
"""Decide one property on /repo's current working tree:  check.py <ID> [quick|thorough]

exit 0: every obligation of the property that the analysis decides holds (undecided ones are listed in the evidence)
exit 1: VIOLATION line, the violating construct and a member of the abstract state are in the replay file"""
import json, multiprocessing as mp, os, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.setrecursionlimit(20000)
import extract, props

PROGS = {}
FINDINGS = os.path.join(VERIF, "known-findings.jsonl")


def program(cfg):
    if cfg not in PROGS:
        from engine import Program
        PROGS[cfg] = Program(extract.load(cfg), extract.load_shim())
    return PROGS[cfg]


def one(job):
    import engine
    engine.VISITED.clear()
    r = one_(job)
    r["visited"] = r.pop("fns", None) or sorted(engine.VISITED)
    return r


def one_(job):
    kind, name, cfg, recv, secs, deadline = job
    left = int(deadline - time.time())
    if left < 10:
        return {"case": name, "config": cfg, "receiver": recv, "api": "", "traces": 0, "obligations": 0, "violations": [],
                "undecided": ["time budget of the check used up"], "stats": {}, "seconds": 0}
    secs = min(secs, max(5, left // 2))
    try:
        if kind == "case":
            from spec import run_case
            from cases import CASES, Anchor
            try:
                return run_case(CASES[name], program(cfg), cfg, seconds=secs, variant=recv)
            except Anchor as a:
                return {"case": name, "config": cfg, "receiver": recv, "api": CASES[name].api, "traces": 0, "obligations": 0,
                        "violations": [], "undecided": ["no function %s in this tree" % a], "stats": {}, "seconds": 0}
        if kind == "rule":
            import rules
            t0 = time.time()
            r = rules.RULES[name](program)
            r.setdefault("undecided", [])
            r.update(case=name, config="all", receiver="", seconds=round(time.time() - t0, 2), stats={})
            r.setdefault("traces", 0)
            return r
    except Exception:
        return {"case": name, "config": cfg, "receiver": recv, "api": "", "traces": 0, "obligations": 0, "violations": [],
                "undecided": ["analyser error: " + traceback.format_exc()[-800:]], "stats": {}, "seconds": 0}


def load_findings(pid):
    known = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line:
                d = json.loads(line)
                if "fixed" not in d and pid in d["properties"]:
                    known[d["key"]] = d
    return known


def vkey(r, v):
    return v.get("key") or "%s|%s|%s" % (r["case"], v["cat"], v["what"])


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    P = props.PROPS[pid]
    import cases, spec
    spec.DEEP = tier != "quick"
    jobs = []
    secs = 60 if tier == "quick" else 400
    deadline = t0 + (500 if tier == "quick" else 840)
    cfgs = set()
    for name, c in cases.CASES.items():
        if not P.wants(c):
            continue
        for cfg in c.configs:
            cfgs.add(cfg)
    for cfg in sorted(cfgs) or ["debug"]:
        program(cfg)
    for name, c in cases.CASES.items():
        if not P.wants(c):
            continue
        for cfg in c.configs:
            for r in c.receivers:
                jobs.append(("case", name, cfg, r, secs, deadline))
    if P.rules:
        program("debug"), program("release")
    for name in P.rules:
        jobs.append(("rule", name, "", "", secs, deadline))
    ctx = mp.get_context("fork")
    with ctx.Pool(min(8, max(1, len(jobs))), maxtasksperchild=20) as pool:
        results = pool.map(one, jobs, chunksize=1)
    known = load_findings(pid)
    viol, shown, found = [], {}, {}
    obligations = traces = und = undcases = 0
    bounded = []
    for r in results:
        obligations += sum(n for k, n in r["cats"].items() if not P.cats or k in P.cats) if "cats" in r else r["obligations"]
        traces += r["traces"]
        b = r.get("bounded") or []
        if b and not any(x["undecided"] for x in b):
            # every undecided trace is decided for each of the fixed word counts
            bounded.append({"case": r["case"], "config": r["config"], "receiver": r["receiver"], "words": [x["words"] for x in b]})
            obligations += sum(x["obligations"] for x in b)
            r["undecided"] = []
        if r.get("shapes"):
            bounded.append({"case": r["case"], "config": r["config"], "receiver": r["receiver"], "shapes": r["shapes"]})
        if r["undecided"]:
            undcases += 1
        und += len(r["undecided"])
        for v in r["violations"]:
            if P.cats and v["cat"] not in P.cats:
                continue
            k = vkey(r, v)
            if k in known:
                found[k] = found.get(k, 0) + 1
                continue
            viol.append((r, v))
    napi = len({r["api"] for r in results if r["api"]})
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for k, n in found.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
    seen = set()
    for r, v in viol:
        k = vkey(r, v)
        if k in seen:
            continue
        seen.add(k)
        n = len(seen)
        path = os.path.join("evidence", "replay-%s-%d.json" % (pid, n))
        json.dump({"property": pid, "api": r["api"], "case": r["case"], "config": r["config"], "receiver": r["receiver"],
                   "key": k, **{x: v.get(x) for x in ("cat", "what", "why", "input", "where")}},
                  open(os.path.join(VERIF, path), "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s [%s] %s: %s" % (r["api"], r["config"], v["what"], v["why"]))
        if v.get("input"):
            print("  member of the abstract state: %s" % v["input"])
        if v.get("where"):
            print("  at: %s" % (v["where"],))
    per = [{"case": r["case"], "api": r["api"], "config": r["config"], "receiver": r["receiver"], "traces": r["traces"],
            "obligations": r["obligations"], "undecided": r["undecided"][:3], "seconds": r["seconds"]} for r in results]
    cov = {
        "obligations": obligations + und + len(viol), "discharged": obligations,
        "checker_cmd": "python3 check.py %s %s" % (pid, tier),
        "trusted_base": ["rustc's MIR construction and callee resolution", "lib/: the abstract interpreter and its summaries of core/alloc/smallvec functions",
                         "lib/cases*.py: the specification of each API path"],
        "api_paths": napi, "cases": len(jobs), "abstract_traces": traces, "undecided": und, "cases_with_undecided": undcases, "decided_for_fixed_word_counts_only": bounded,
        "functions_analysed": sorted({f for r in results for f in r["visited"]}),
        "known_findings": sorted(found), "rule": P.rule, "explanation": P.explanation,
        "samples": per[:6], "per_case": per,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P.level, "coverage": cov, "assumptions": P.assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(seen)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d API paths, %d cases, %d abstract traces, %d obligations discharged, %d undecided in %d cases, %d violations, %.1fs"
          % (pid, napi, len(jobs), traces, obligations, und, undcases, len(seen), time.time() - t0))
    for r in results:
        for u in dict.fromkeys(r["undecided"]):
            print("  undecided: %s [%s %s] %s" % (r["case"], r["config"], r["receiver"], u.replace("\n", " ")[:200]))
    sys.exit(1 if seen else 0)


if __name__ == "__main__":
    try:
        main()
    except extract.ExtractError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        sys.exit(2)
