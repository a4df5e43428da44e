"""Orchestrator: runs the jobs of a check in worker processes, watches them,
turns crashes / stalls / failed expectations into verdicts, writes evidence."""
import json
import os
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
CLK = os.sysconf("SC_CLK_TCK")
# CPU seconds one journalled operation may burn before it counts as stuck.  The
# longest legitimate one (compiling the encounter generator) needs about 30 s.
STALL_CPU = 200.0
CRASH_SIGNALS = {signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE,
                 signal.SIGILL, signal.SIGTRAP}


def worker_env(scratch, mode, extra=None):
    env = {
        "PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin",
        "HOME": scratch, "LANG": "C.UTF-8",
        "PYTHONPATH": REPO, "PYTHONHASHSEED": "0",
        "PYTHONDONTWRITEBYTECODE": "1",
        "VERIF_PYC": os.path.join(scratch, "pyc"),
        "XDG_CACHE_HOME": os.path.join(scratch, "cache"),
        "NUMBA_CACHE_DIR": os.path.join(scratch, "nbcache"),
        "NUMBA_NUM_THREADS": "2", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
        "TMPDIR": scratch, "VERIF_REPO": REPO,
        "VERIF_SEED": os.environ.get("VERIF_SEED", "1"),
        "VERIF_TIER": os.environ.get("VERIF_TIER", "quick"),
    }
    if mode == "numba":
        env["NPP_USE_NUMBA"] = "TRUE"
    elif mode == "numpy":
        env["NPP_USE_NUMBA"] = "FALSE"
    if extra:
        for k, v in extra.items():
            if v is None:
                env.pop(k, None)
            else:
                env[k] = str(v)
    return env


def bare_site(where):
    """a directory offering every installed library but numba and llvmlite; used as
    PYTHONPATH of an interpreter started with -S, numba is really not installed"""
    probe = [PYTHON, "-c", "import numpy, os; print(os.path.dirname(os.path.dirname("
             "numpy.__file__)))"]
    real = subprocess.run(probe, stdout=subprocess.PIPE, check=True, cwd="/",
                          env={"PATH": "/usr/bin:/bin"}).stdout.decode().strip()
    os.makedirs(where, exist_ok=True)
    for name in os.listdir(real):
        if name.lower().startswith(("numba", "llvmlite")) or name.endswith(".pth"):
            continue
        link = os.path.join(where, name)
        if not os.path.lexists(link):
            os.symlink(os.path.join(real, name), link)
    return where


# another interpreter of the sandbox, whose numpy is of the next major release
PYTHON_NUMPY2 = os.environ.get("VERIF_PYTHON_NUMPY2", "/opt/veriftools/pyvenv/bin/python")


def numpy2_site(where):
    """a directory offering that interpreter the package's pure Python dependencies
    (those it has itself are left alone)"""
    probe = [PYTHON, "-c", "import flatbuffers, os; print(os.path.dirname(os.path.dirname("
             "flatbuffers.__file__)))"]
    env = {"PATH": "/usr/bin:/bin"}
    real = subprocess.run(probe, stdout=subprocess.PIPE, check=True, cwd="/",
                          env=env).stdout.decode().strip()
    os.makedirs(where, exist_ok=True)
    for module in ("flatbuffers", "platformdirs", "typing_extensions"):
        has = subprocess.run([PYTHON_NUMPY2, "-c", f"import {module}"], cwd="/", env=env,
                             stderr=subprocess.DEVNULL, check=False).returncode == 0
        for name in (module, module + ".py"):
            link = os.path.join(where, name)
            if not has and os.path.exists(os.path.join(real, name)) \
                    and not os.path.lexists(link):
                os.symlink(os.path.join(real, name), link)
    return where


def cpu_of(pid):
    """CPU seconds used by pid (own children of this program only)"""
    try:
        with open(f"/proc/{pid}/stat", encoding="ascii", errors="replace") as f:
            fields = f.read().rsplit(")", 1)[1].split()
        return (int(fields[11]) + int(fields[12])) / CLK
    except (OSError, IndexError, ValueError):
        return None


def read_journal(path):
    with open(path, "rb") as f:
        raw = f.read(4096)
    seq, n = struct.unpack("<QQ", raw[:16])
    return seq, raw[16:16 + min(n, 4000)].decode("utf-8", "replace")


class Running:
    def __init__(self, job, root, index):
        self.job = job
        self.dir = os.path.join(root, f"job{index}")
        os.makedirs(self.dir)
        self.result = os.path.join(self.dir, "result.json")
        self.journal = os.path.join(self.dir, "journal")
        with open(self.journal, "wb") as f:
            f.write(b"\0" * 4096)
        with open(os.path.join(self.dir, "job.json"), "w", encoding="utf-8") as f:
            json.dump(job, f)
        self.stdout = open(os.path.join(self.dir, "out"), "wb")
        env = worker_env(self.dir, job.get("mode"), job.get("env"))
        flags = list(job.get("flags", ()))
        python = PYTHON
        if job.get("numpy2"):
            env["PYTHONPATH"] += ":" + numpy2_site(os.path.join(self.dir, "site"))
            python = PYTHON_NUMPY2
        if job.get("no_numba"):
            env["PYTHONPATH"] += ":" + bare_site(os.path.join(self.dir, "site"))
            flags = flags + ["-S"]
        self.t0 = time.time()
        self.proc = subprocess.Popen(
            [python, *flags, "-W", "ignore", os.path.join(HERE, "worker.py"),
             os.path.join(self.dir, "job.json"), self.result, self.journal],
            cwd=self.dir, env=env, stdout=self.stdout, stderr=subprocess.STDOUT,
            stdin=subprocess.DEVNULL, start_new_session=True)
        self.seq = -1
        self.seq_cpu = 0.0
        self.stalled = None

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.proc.wait()

    def poll(self):
        rc = self.proc.poll()
        if rc is not None:
            return True
        seq, text = read_journal(self.journal)
        cpu = cpu_of(self.proc.pid)
        if cpu is None:
            return False
        if seq != self.seq:
            self.seq, self.seq_cpu = seq, cpu
        elif cpu - self.seq_cpu > self.job.get("stall_cpu", STALL_CPU):
            self.stalled = text
            self.kill()
            return True
        return False

    def output(self, limit=4000):
        try:
            with open(os.path.join(self.dir, "out"), "rb") as f:
                return f.read().decode("utf-8", "replace")[-limit:]
        except OSError:
            return ""

    def finish(self):
        """-> result dict"""
        self.stdout.close()
        rc = self.proc.returncode
        wall = time.time() - self.t0
        res = None
        if os.path.exists(self.result):
            with open(self.result, encoding="utf-8") as f:
                res = json.load(f)
        # whatever a worker left running belongs to its process group
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        if res is None:
            _, text = read_journal(self.journal)
            res = {"name": self.job.get("name"), "counters": {}, "evaluations": 0,
                   "distinct": 0, "samples": [], "violations": [], "notes": [],
                   "data": {}, "status": "died", "error": None}
            if self.stalled is not None:
                res["violations"].append({
                    "message": f"operation did not finish (stuck after "
                    f"{self.job.get('stall_cpu', STALL_CPU):.0f} s of CPU time): {self.stalled}",
                    "job": self.job.get("name"), "witness": {"journal": self.stalled}})
            elif rc is not None and rc < 0 and -rc in {int(s) for s in CRASH_SIGNALS} and text:
                res["violations"].append({
                    "message": f"process crashed with {signal.Signals(-rc).name} during: {text}",
                    "job": self.job.get("name"),
                    "witness": {"journal": text, "output": self.output()}})
            else:
                res["error"] = (f"worker ended with {rc} during {text!r}; "
                                f"output:\n{self.output()}")
        res["wall"] = wall
        res["mode"] = self.job.get("mode")
        return res


def run_jobs(jobs, scratch, parallel=8, deadline=None):
    """run all jobs, at most `parallel` weight at a time"""
    pending = list(enumerate(jobs))
    running, results = [], [None] * len(jobs)
    try:
        while pending or running:
            load = sum(r.job.get("weight", 1) for _, r in running)
            while pending:
                w = pending[0][1].get("weight", 1)
                if running and load + w > parallel:
                    break
                i, job = pending.pop(0)
                running.append((i, Running(job, scratch, i)))
                load += w
            for i, r in list(running):
                if r.poll():
                    running.remove((i, r))
                    results[i] = r.finish()
                    if not jobs[i].get("keep"):
                        shutil.rmtree(r.dir, ignore_errors=True)
            if deadline and time.time() > deadline:
                names = [r.job.get("name") for _, r in running]
                ops = [read_journal(r.journal)[1] for _, r in running]
                raise TimeoutError(f"out of time; running: {list(zip(names, ops))}")
            time.sleep(0.03)
    finally:
        for _, r in running:
            r.kill()
    return results
