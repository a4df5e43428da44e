"""C27: results depend on the arguments alone, not on the process around the package.

The same seeded programs run in processes that differ in what a user's process may differ
in: locale and text encoding, hash seed, time zone, working directory, optimised bytecode,
a thread other than the main one, a child forked after the import, the application's own
numpy and random settings and, in compiled mode, the processor numba compiles for and its
optimisation level.  The logs of results are compared line by line with those of a plain
process in the same mode."""
import os
import signal
import threading

from lib import sut, workload
from lib.rngspec import rng_for

RULE = ("one case = one program (a generator, list, hash, search, table, ... with its arguments "
        "and history) run in a plain process and in processes that differ from it; evaluations = "
        "results compared with the plain process, line by line; distinct = distinct programs")
REQUIRED = ["compared", "programs", "env:plain", "env:locale", "env:optimised", "env:thread",
            "env:forked", "env:settings", "env:processor", "op:MersenneTwister",
            "op:SIMDFastMersenneTwister", "lists", "hashes", "utilities", "searches", "encounters",
            "slot_choices", "area:tables", "area:parts"]
ASSUMPTIONS = ["Python 3.12 on Linux; a package installed as files; assertions are not judged "
               "under -O"]

ENVS = {
    "plain": {},
    "locale": {"env": {"LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0",
                       "PYTHONHASHSEED": "4242", "TZ": "Pacific/Kiritimati"}},
    "optimised": {"flags": ["-OO"], "env": {"PYTHONHASHSEED": "77"}},
    "thread": {},
    "forked": {},
    "settings": {},
    # another processor's code, and less of it optimised
    "processor": {"env": {"NUMBA_CPU_NAME": "generic", "NUMBA_CPU_FEATURES": "",
                          "NUMBA_ENABLE_AVX": "0", "NUMBA_OPT": "1",
                          "NUMBA_LOOP_VECTORIZE": "0"}},
}
NUMPY = [
    [["generators", 100], ["utilities", 1000]],
    [["factories", 3], ["constants", 3], ["lists", 3], ["tables", 1]],
    [["hashes", 50], ["searches", 120], ["slots", 60], ["parts", 100]],
]
NUMBA = [
    [["generators", 60], ["utilities", 600], ["lists", 2], ["hashes", 40], ["tables", 1]],
    [["searches", 100], ["slots", 60], ["parts", 60]],
]
GROW = {"factories": 8, "constants": 3, "lists": 8, "tables": 1}


def jobs(tier, seed):
    out = []
    for mode, plans in (("numba", NUMBA), ("numpy", NUMPY)):
        for env, what in ENVS.items():
            if env == "processor" and mode == "numpy":
                continue
            if env == "optimised" and mode == "numba" and tier == "quick":
                continue
            for k, plan in enumerate(plans):
                for rep in range(1 if tier == "quick" else 4):
                    p = plan if tier == "quick" else [[a, n * GROW.get(a, 8)] for a, n in plan]
                    out.append({"func": "program", "mode": mode, "around": env, "plan": p,
                                "shard": k * 10 + rep, "keep": True, **what,
                                "name": f"{mode}{k}.{rep}-{env}", "pair": f"{mode}{k}.{rep}"})
    return out


def fork_here():
    """go on in a child; the process started stands for it"""
    pid = os.fork()
    if not pid:
        return
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        os.kill(os.getpid(), os.WTERMSIG(status))
        signal.pause()
    os._exit(os.WEXITSTATUS(status))


def own_settings():
    """what an application around the package may set for itself"""
    import gc
    import locale
    import random
    import numpy as np
    random.seed(99)
    np.random.seed(99)
    np.set_printoptions(precision=2, floatmode="fixed", suppress=True, threshold=3,
                        legacy="1.13")
    locale.setlocale(locale.LC_ALL, "")
    gc.set_threshold(50, 2, 2)
    os.umask(0o077)


def program(mon, job):
    around = job["around"]
    mon.count("env:" + around)
    log = os.path.abspath(workload.LOG)
    if around in ("locale", "settings"):
        os.makedirs("elsewhere")
        os.chdir("elsewhere")
    if around == "settings":
        own_settings()
    if around == "forked":
        sut.load(mon, "lcrng", "mersenne_twister", "xorshift", "data.encounter")
        fork_here()
    run = lambda: workload.run(mon, rng_for(job, "program"), job["plan"], at=log)
    if around == "thread":
        failed = []

        def body():
            try:
                run()
            except BaseException as exc:  # noqa: BLE001
                failed.append(exc)
        t = threading.Thread(target=body)
        t.start()
        t.join()
        if failed:
            raise failed[0]
    else:
        run()
    mon.evaluations = 0
    if around != "plain":
        mon.distinct.clear()


def finalize(results, tier, seed, scratch):
    plain, others = {}, []
    for i, job in enumerate(jobs(tier, seed)):
        row = (job["around"], os.path.join(scratch, f"job{i}", workload.LOG), results[i])
        if job["around"] == "plain":
            plain[job["pair"]] = row
        else:
            others.append((job["pair"], row))
    violations, compared, programs = [], 0, 0
    for pair, (around, b, rb) in others:
        _, a, ra = plain[pair]
        if ra["status"] != "ok" or rb["status"] != "ok":
            if rb["status"] == "sut-failure" and ra["status"] == "ok":
                violations.append({"message": f"fails in the process '{around}' only: "
                                   f"{rb['error']}", "job": rb["name"], "witness": {}})
            continue
        n, diffs = workload.diff(a, b)
        compared += n
        programs += rb["counters"].get("scenarios", 0)
        for where, la, lb in diffs[:3]:
            violations.append({
                "message": f"the process '{around}' gives other results in {where}: plain: "
                           f"{la[:250]} | {around}: {lb[:250]}", "job": rb["name"],
                "witness": {"program": where, "plain": la, around: lb}})
    return {"violations": violations, "evaluations": compared,
            "counters": {"compared": compared, "programs": programs}}
