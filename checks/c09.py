"""C09: compiled and numpy-only modes are observationally identical.

The same seeded programs run in one process per mode, every observable result is
logged, and the logs are compared line by line."""
import os

from lib import workload
from lib.rngspec import rng_for

RULE = ("one case = one program (a generator, list, hash, search, table, ... with its arguments "
        "and history) run in compiled and in numpy-only mode; evaluations = results compared "
        "between the modes, line by line; distinct = distinct programs")
REQUIRED = ["compared", "programs", "op:MersenneTwister", "op:SIMDFastMersenneTwister", "lists",
            "factories", "constants", "hashes", "utilities", "searches", "encounters",
            "slot_choices", "area:tables", "area:parts"]
ASSUMPTIONS = ["arguments both modes document: Python ints below 2^63 or the documented numpy "
               "types; a call that fails must fail in both modes (how is not compared)"]

# plan per job pair: areas with their sizes (quick)
PLANS = [
    [["generators", 100], ["utilities", 2000]],
    [["factories", 4], ["constants", 4], ["lists", 3], ["tables", 1]],
    [["lists", 6], ["hashes", 80]],
    [["searches", 200], ["slots", 40]],
    [["parts", 200], ["slots", 150]],
]
GROW = {"factories": 10, "constants": 3, "lists": 10, "tables": 1}


def jobs(tier, seed):
    out = []
    for k, plan in enumerate(PLANS):
        reps = 1 if tier == "quick" else 4
        for rep in range(reps):
            p = plan if tier == "quick" else [[a, n * GROW.get(a, 10)] for a, n in plan]
            for mode in ("numba", "numpy"):
                out.append({"func": "program", "mode": mode, "plan": p, "shard": k * 10 + rep,
                            "keep": True, "name": f"plan{k}.{rep}-{mode}", "pair": f"{k}.{rep}"})
    return out


def program(mon, job):
    workload.run(mon, rng_for(job, "program"), job["plan"])
    mon.evaluations = 0
    if job["mode"] == "numba":
        mon.distinct.clear()


def finalize(results, tier, seed, scratch):
    pairs = {}
    for i, job in enumerate(jobs(tier, seed)):
        pairs.setdefault(job["pair"], []).append(
            (job["mode"], os.path.join(scratch, f"job{i}", workload.LOG), results[i]))
    violations, compared, programs = [], 0, 0
    for name, ((_, a, ra), (_, b, rb)) in pairs.items():
        if ra["status"] != "ok" or rb["status"] != "ok":
            # a mode that cannot even run its program while the other can
            for mine, other, mode in ((ra, rb, "compiled"), (rb, ra, "numpy-only")):
                if mine["status"] == "sut-failure" and other["status"] == "ok":
                    violations.append({"message": f"works only outside of {mode} mode: "
                                       f"{mine['error']}", "job": mine["name"], "witness": {}})
            continue
        n, diffs = workload.diff(a, b)
        compared += n
        programs += ra["counters"].get("scenarios", 0)
        for where, la, lb in diffs[:3]:
            violations.append({
                "message": f"modes differ in {where}: compiled: {la[:250]} | numpy-only: "
                           f"{lb[:250]}", "job": ra["name"],
                "witness": {"program": where, "compiled": la, "numpy": lb}})
    return {"violations": violations, "evaluations": compared,
            "counters": {"compared": compared, "programs": programs}}
