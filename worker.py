"""Run one job of one check (started by lib/orch.py)."""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
with open(sys.argv[1], encoding="utf-8") as job_file:
    JOB = json.load(job_file)
if JOB.get("alter"):
    from lib import alter
    REPO = os.environ["VERIF_REPO"] = os.environ["PYTHONPATH"] = alter.prepare(
        JOB, REPO, os.getcwd())
# the code under test: always the working tree
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
from lib import nopyc  # noqa: E402
nopyc.install(os.path.realpath(REPO))
nopyc.install(REPO)
# processes started from here
os.environ["PYTHONPYCACHEPREFIX"] = os.environ.get("VERIF_PYC", "/nonexistent")


def main():
    result_path, journal = sys.argv[2:4]
    job = JOB
    from lib.mon import Monitor, SutFailure
    mon = Monitor(job, journal)
    status = "ok"
    error = None
    try:
        module = importlib.import_module("checks." + job["module"])
        getattr(module, job["func"])(mon, job)
    except SutFailure as exc:
        status = "sut-failure"
        error = str(exc)
    except BaseException:  # noqa: BLE001
        status = "harness-error"
        error = traceback.format_exc()
    out = mon.result()
    out["status"] = status
    out["error"] = error
    tmp = result_path + ".tmp"
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(out, f)
    os.replace(tmp, result_path)
    mon.at("<finished>")
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


main()
