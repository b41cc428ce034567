#!/usr/bin/env python3
"""check.py <property> [--thorough] [--replay FILE]: decides one property by running monitored executions of /repo.

Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself could not run."""
import hashlib, json, os, re, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as B
import driver as D
from plan import PLAN

EVID = os.path.join(VERIF, "evidence")


def known_findings(pid):
    known, anywhere = {}, set()
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for l in f:
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
            if m:
                anywhere.add(m.group(2))
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3).strip()
    return known, anywhere


def is_sanitizer(sig):
    return sig.split(":")[0] in ("asan", "ubsan", "tsan", "assert", "signal", "terminate", "hang", "exit")


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    if args[0] == "--setup":
        B.sources(), B.includes()
        return 0 if all(os.path.exists(os.path.join(VERIF, "harness", j[0] + ".cpp")) for p in PLAN.values() for t in ("quick", "thorough") for j in p[t]) else 2
    pid = args[0]
    tier = "thorough" if "--thorough" in args or os.environ.get("VERIF_TIER") == "thorough" and "--quick" not in args else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = PLAN[pid]
    if "--replay" in args:
        return replay(json.load(open(args[args.index("--replay") + 1])))
    t0 = time.time()
    jobs = [(j + (None, 1.0))[:2] + ((j[2] if len(j) > 2 else None), (j[3] if len(j) > 3 else 1.0)) for j in plan[tier]]
    try:
        exes, build_s = B.build(sorted({(h, v) for h, v, _, _ in jobs}))
    except B.BuildError as e:
        print("BUILD FAILED", e, file=sys.stderr)
        return 2
    limit = plan.get("limit", 700 if tier == "quick" else 6 * 3600) - build_s
    seeds = [seed] if tier == "quick" else [seed + 1000 * i for i in range(plan.get("seeds", 2))]
    shards = []
    for s in seeds:
        shards += D.run_jobs(exes, jobs, tier, s, max(60, limit - (time.time() - t0 - build_s)), stall=plan.get("stall", 60))

    only_sanitizer = plan.get("only_sanitizer", False)
    counts, sections, keys, samples, evaluations = {}, {}, set(), [], 0
    violations, knowns, problems, ignored = [], {}, [], {}
    for (h, v, only, _), s in shards:
        problems += s.problems
        for r in s.results:
            if r["type"] == "summary":
                evaluations += r["evaluations"]
                for k, n in r["counts"].items():
                    if k.startswith("max "):
                        counts[k] = max(counts.get(k, 0), n)
                    else:
                        counts[k] = counts.get(k, 0) + n
                for k, n in r["sections"].items():
                    k = f"{h}:{v}:{k}"
                    sections[k] = sections.get(k, 0) + n
                keys.update(h + x for x in r["keys"])
                samples += [f"[{h} {v}] {x}" for x in r["samples"]]
            elif r["type"] == "violation":
                if only_sanitizer and not r["sig"].startswith(tuple(plan.get("keep", ()))) or not plan_applies(plan, r["sig"]):
                    ignored[r["sig"]] = ignored.get(r["sig"], 0) + 1
                    continue
                violations.append((h, v, s.seed, r["case"], r["sig"], r["detail"]))
            elif r["type"] == "known":
                knowns.setdefault(r["id"], (h, v, s.seed, r["case"], r["detail"]))
        for sig, case, text in s.crashes:
            violations.append((h, v, s.seed, case, sig, text))
    listed, anywhere = known_findings(pid)
    for k, (h, v, sd, case, detail) in sorted(knowns.items()):
        if k in listed:
            print(f"KNOWN-FINDING: property={pid} {k} {listed[k]}")
        elif k not in anywhere and not only_sanitizer:
            violations.append((h, v, sd, case, "unlisted-known:" + k, detail))

    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    rc = 0
    seen = set()
    for h, v, sd, case, sig, detail in violations:
        if sig in seen or len(seen) >= 5:
            continue
        seen.add(sig)
        name = f"{pid}-" + hashlib.sha256(f"{h}{v}{sd}{case}{sig}".encode()).hexdigest()[:10] + ".json"
        path = os.path.join(EVID, "replay", name)
        with open(path, "w") as f:
            json.dump({"property": pid, "harness": h, "variant": v, "seed": sd, "tier": tier, "case": case, "signature": sig, "detail": detail,
                       "replay": f"python3 check.py {pid} --replay {os.path.relpath(path, VERIF)}"}, f, indent=1)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  {sig} in case {case} of {h}:{v} (seed {sd}): {detail[:700]}")
        rc = 1
    # what must have been observed for the run to mean something
    for k, n in plan.get("require", {}).items():
        if counts.get(k, 0) < n and rc == 0:
            problems.append(f"too little observed: {k} = {counts.get(k, 0)} < {n}")
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(keys), "rule": plan["rule"],
            "samples": samples[:12] or ["none"], "observed": dict(sorted(counts.items())), "cases_per_section": dict(sorted(sections.items())),
            "seeds": seeds, "build_s": round(build_s, 1),
            "known_findings_observed": sorted(k for k in knowns if k in listed),
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    if ignored:
        evidence["coverage"]["reports_of_other_properties_not_counted"] = ignored
    if problems:
        evidence["coverage"]["problems"] = problems[:10]
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for p in problems[:10]:
        print("PROBLEM", p, file=sys.stderr)
    if problems and rc == 0:
        return 2
    if rc == 0:
        print(f"{pid} {tier}: held on {evaluations} cases, {len(keys)} distinct, in {evidence['wall_s']} s (build {build_s:.0f} s)")
    return rc


def plan_applies(plan, sig):
    p = plan.get("signatures")
    return p is None or sig.startswith(tuple(p))


def replay(r):
    exes, _ = B.build([(r["harness"], r["variant"])])
    exe = exes[(r["harness"], r["variant"])]
    env = dict(os.environ, **D.ENV.get(r["variant"], {}))
    os.execve(exe, [exe, "--tier", r["tier"], "--seed", str(r["seed"]), "--only", r["case"]], env)


if __name__ == "__main__":
    sys.exit(main())
