"""C26: numpy-only results do not depend on the numpy release installed.

The same seeded programs run in numpy-only mode in two interpreters, one with the
numpy the repository's lock file names, one with the next major release (which the
package's own requirement admits, and which promotes integers by other rules).
Every observable result is logged, and the logs are compared line by line. The numpy-only
jobs of the other checks run under the newer release too, under their own monitors."""
import importlib
import os

from lib import workload
from lib.rngspec import rng_for

RULE = ("one case = one program (a generator, list, hash, search, table, ... with its arguments "
        "and history) run under both numpy releases, or one case of another check run under the "
        "newer one; evaluations = results compared between the releases, line by line, or with "
        "the other check's oracle; distinct = distinct programs and cases")
REQUIRED = ["compared", "programs", "two_majors", "op:MersenneTwister",
            "op:SIMDFastMersenneTwister", "lists", "factories", "constants", "hashes",
            "utilities", "searches", "encounters", "borrowed", "slot_choices", "area:tables", "area:parts"]
ASSUMPTIONS = ["numpy 1.26 and the numpy 2 release of the sandbox stand for the releases the "
               "package admits; Python 3.12"]

PLANS = [
    [["generators", 100]],
    [["factories", 4], ["constants", 4], ["lists", 3], ["tables", 1], ["utilities", 2000]],
    [["lists", 6], ["hashes", 80]],
    [["searches", 200], ["slots", 40]],
    [["parts", 200], ["slots", 150]],
]
# checks whose oracles need no compiler, and their jobs for numpy-only mode
BORROWED = {"c01": ("builtin", "custom"), "c02": ("run", "grid"),
            "c03": ("lcgs", "xorshifts", "inverse"),
            "c04": ("aimed", "consts", "sweep", "floats", "bounds"),
            "c11": ("windows", "large", "rejected"), "c12": ("histories", "profiles"),
            "c13": ("calls", "strings"), "c14": ("bulk", "texts", "functions", "stat_table"),
            "c15": ("searches",), "c16": ("odds", "levels", "leads", "areas"),
            "c18": ("decoded", "choose"), "c19": ("roundtrip", "large"),
            "c20": ("tables", "lookups"), "c24": ("generators",),
            "c25": ("layouts", "arrays", "shipped")}
GROW = {"factories": 10, "constants": 3, "lists": 10, "tables": 1}


def jobs(tier, seed):
    out = []
    for k, plan in enumerate(PLANS):
        reps = 1 if tier == "quick" else 4
        for rep in range(reps):
            p = plan if tier == "quick" else [[a, n * GROW.get(a, 10)] for a, n in plan]
            for numpy2 in (False, True):
                out.append({"func": "program", "mode": "numpy", "numpy2": numpy2, "plan": p,
                            "shard": k * 10 + rep, "keep": True,
                            "name": f"plan{k}.{rep}-numpy{2 if numpy2 else 1}",
                            "pair": f"{k}.{rep}"})
    for name, funcs in BORROWED.items():
        for k, job in enumerate(importlib.import_module("checks." + name).jobs(tier, seed)):
            if job["mode"] == "numpy" and job["func"] in funcs:
                out.append({**job, "func": "borrowed", "of_module": name, "of_func": job["func"],
                            "numpy2": True, "name": f"{name}-{job['func']}-{k}-numpy2"})
    return out


def borrowed(mon, job):
    """a job of another check, under its own oracle"""
    import numpy
    if int(numpy.__version__.split(".")[0]) >= 2:
        mon.count("borrowed")
    module = importlib.import_module("checks." + job["of_module"])
    getattr(module, job["of_func"])(mon, {**job, "func": job["of_func"],
                                          "module": job["of_module"]})


def program(mon, job):
    import numpy
    if (int(numpy.__version__.split(".")[0]) >= 2) == bool(job["numpy2"]):
        mon.count("two_majors" if job["numpy2"] else "one_major")
    workload.run(mon, rng_for(job, "program"), job["plan"], single=True)
    mon.evaluations = 0
    if not job["numpy2"]:
        mon.distinct.clear()


def finalize(results, tier, seed, scratch):
    pairs = {}
    for i, job in enumerate(jobs(tier, seed)):
        if "pair" not in job:
            continue
        pairs.setdefault(job["pair"], []).append(
            (os.path.join(scratch, f"job{i}", workload.LOG), results[i]))
    violations, compared, programs = [], 0, 0
    for (a, ra), (b, rb) in pairs.values():
        if ra["status"] != "ok" or rb["status"] != "ok":
            for mine, other, which in ((ra, rb, "numpy 1"), (rb, ra, "numpy 2")):
                if mine["status"] == "sut-failure" and other["status"] == "ok":
                    violations.append({"message": f"fails under {which} only: {mine['error']}",
                                       "job": mine["name"], "witness": {}})
            continue
        n, diffs = workload.diff(a, b)
        compared += n
        programs += ra["counters"].get("scenarios", 0)
        for where, la, lb in diffs[:3]:
            violations.append({
                "message": f"numpy releases differ in {where}: numpy 1: {la[:250]} | numpy 2: "
                           f"{lb[:250]}", "job": ra["name"],
                "witness": {"program": where, "numpy1": la, "numpy2": lb}})
    return {"violations": violations, "evaluations": compared,
            "counters": {"compared": compared, "programs": programs}}
