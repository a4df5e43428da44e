#!/usr/bin/env python3
"""run.py ID: decide one property (exit 0 held, 1 VIOLATION, 3 no verdict)."""
import importlib
import json
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
if os.environ.get("VERIF_REEXEC") != "1":
    os.environ["VERIF_REEXEC"] = "1"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(PYTHON, [PYTHON, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from lib import orch  # noqa: E402

KNOWN = os.path.join(HERE, "KNOWN_FINDINGS")


def known_findings(prop):
    """lines 'property=ID match=<text> : description' (fixed: lines suppress nothing)"""
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if not line.startswith(f"property={prop} match="):
                    continue
                key, _, text = line[len(f"property={prop} match="):].partition(" : ")
                out.append((key.strip(), text.strip()))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.environ["VERIF_SEED"] = str(seed)
    t0 = time.time()
    module = importlib.import_module("checks." + prop.lower())
    evidence = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.unlink(evidence)
    base = os.path.join(HERE, "scratch")
    try:
        os.makedirs(base, exist_ok=True)
        scratch = tempfile.mkdtemp(prefix=prop + "-", dir=base)
    except OSError:
        scratch = tempfile.mkdtemp(prefix="verif-" + prop + "-")
    try:
        limit = 800 if tier == "quick" else 3 * 3600
        jobs = module.jobs(tier, seed)
        for i, job in enumerate(jobs):
            job.setdefault("module", prop.lower())
            job.setdefault("name", f"{job['func']}-{job.get('mode')}-{i}")
            job["tier"], job["seed"] = tier, seed
        parallel = int(os.environ.get("VERIF_JOBS", "8"))
        results = orch.run_jobs(jobs, scratch, parallel, time.time() + limit)
        extra = {}
        if hasattr(module, "finalize"):
            extra = module.finalize(results, tier, seed, scratch) or {}
    except TimeoutError as exc:
        print(f"NO VERDICT property={prop}: {exc}")
        return 3
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    violations, errors, notes = [], [], []
    counters = {}
    for res in results:
        violations += res["violations"]
        notes += res["notes"]
        if res["error"] and not res["violations"]:
            errors.append(f"[{res['name']}] {res['error']}")
        for k, v in res["counters"].items():
            counters[k] = counters.get(k, 0) + v
    violations += extra.get("violations", [])
    counters.update(extra.get("counters", {}))
    evaluations = sum(r["evaluations"] for r in results) + extra.get("evaluations", 0)
    distinct = sum(r["distinct"] for r in results) + extra.get("distinct", 0)
    samples = [s for r in results for s in r["samples"][:3]] + extra.get("samples", [])

    known = known_findings(prop)
    hit, fresh = {}, []
    for v in violations:
        for key, text in known:
            if v["message"].startswith(key):
                hit[key] = text
                break
        else:
            fresh.append(v)

    # a deciding monitor that observed nothing decides nothing
    missing = [k for k in getattr(module, "REQUIRED", []) if counters.get(k, 0) <= 0]
    doc = {
        "property": prop, "tier": tier, "seed": seed,
        "level": getattr(module, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct,
            "rule": module.RULE, "samples": samples[:20],
            "counters": dict(sorted(counters.items())),
            "jobs": [{"name": r["name"], "mode": r["mode"], "status": r["status"],
                      "evaluations": r["evaluations"], "wall_s": round(r["wall"], 2)}
                     for r in results],
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    if notes:
        doc["coverage"]["notes"] = notes[:40]
    tmp = evidence + ".tmp"
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, evidence)

    for key, text in hit.items():
        print(f"KNOWN-FINDING: property={prop} {key}: {text}")
    if fresh:
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{tier}-{seed}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed,
                       "rerun": f"cd {HERE} && VERIF_SEED={seed} VERIF_TIER={tier} "
                                f"python3 run.py {prop}",
                       "violations": fresh}, f, indent=1)
        for v in fresh[:8]:
            print(f"  [{v['job']}] {v['message'][:600]}")
        if errors:
            print("  also: " + errors[0][:600])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print(f"NO VERDICT property={prop}: harness error")
        for e in errors[:5]:
            print(e[:3000])
        return 3
    if missing or evaluations == 0:
        print(f"NO VERDICT property={prop}: nothing observed for {missing}")
        return 3
    print(f"HELD property={prop} evaluations={evaluations} distinct={distinct} "
          f"wall={time.time() - t0:.1f}s")
    return 0


sys.exit(main())
