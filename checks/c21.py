"""C21: the encounter cache never changes results, whatever state a crash left it in."""
import builtins
import hashlib
import importlib
import io
import json
import os
import resource
import select
import shutil
import signal
import subprocess
import sys
import time

import numpy as np

from lib import gen3json, sut
from lib import gen3model as g3
from lib.mon import HarnessError
from lib.rngspec import rng_for

LEVEL = "fault_enumeration"
RULE = ("one case = one import of the encounter data by one process with its cache in one prepared "
        "state (or under one injected fault), every table it then offers compared with the tables "
        "of an import without a cache; for truncations one case = one cache file cut at one byte; "
        "distinct = distinct (state, file, cut position or fault parameter, mode)")
REQUIRED = ["imports", "followups", "truncations", "state:absent", "state:complete",
            "state:empty", "state:garbage", "state:zero-tail", "state:other-mode",
            "state:directory-in-place", "state:cache-dir-is-file", "state:dangling-symlink",
            "state:write-limit", "state:crash-at-write", "state:killed", "state:race",
            "state:mixed-damage", "race_processes", "state:fresh-interpreter",
            "crashes_seen", "kills_seen", "cache_complete_after", "reference_areas"]
ASSUMPTIONS = ["a damaged cache file is a prefix of what the package wrote, such a prefix padded with "
               "zeros, or bytes that are no pickle; a cache that is a well-formed pickle of "
               "something else is outside the property", "faults are injected at the operating "
               "system interface (file size limits, kill, permissions), not into the package"]
MOD = sut.PKG + ".data.encounter"
NOBODY = 65534


def jobs(tier, seed):
    quick = tier == "quick"
    out = []
    for mode in ("numba", "numpy"):
        shards = 2 if quick else 4
        for s in range(shards):
            out.append({"func": "truncate", "mode": mode, "shard": s, "shards": shards,
                        "seconds": 10 if quick else 1500, "weight": 1})
        for part in ("damage", "limits", "rights"):
            out.append({"func": "faults", "mode": mode, "part": part, "rounds": 1 if quick else 12})
        out.append({"func": "races", "mode": mode, "rounds": 2 if quick else 40,
                    "kills": 8 if quick else 120})
    out.append({"func": "fresh", "mode": None, "rounds": 1 if quick else 4})
    return out


# --- what an import offers ------------------------------------------------------

def tables_of(module, enums):
    """-> {name: digest} of everything that comes from the cache, in plain values"""
    out = {}
    for g in ("RUBY", "SAPPHIRE", "EMERALD", "FIRE_RED", "LEAF_GREEN"):
        key = enums.Game[g]
        names, info = module.MAP_NAMES_GEN3[key], module.ENCOUNTER_INFORMATION_GEN3[key]
        h = hashlib.sha256()
        h.update(json.dumps([str(n) for n in names]).encode())
        for field in info.dtype.names:
            h.update(np.ascontiguousarray(info[field]).tobytes())
        # the way callers use it
        h.update(repr([(int(info[i].location), int(info[i].land_rate),
                        int(info[i].land[3].species)) for i in (0, len(info) - 1)]).encode())
        out["gen3 " + g] = h.hexdigest()
    for a in ("OBSIDIAN_FIELDLANDS", "CRIMSON_MIRELANDS", "COBALT_COASTLANDS",
              "CORONET_HIGHLANDS", "ALABASTER_ICELANDS"):
        d = module.ENCOUNTER_INFORMATION_LA[enums.LAArea[a]]
        h = hashlib.sha256()
        keys = sorted(int(k) for k in d.keys())
        for n, k in enumerate(keys):
            t = d[np.uint64(k)]
            slots = t.slots
            h.update(f"{k} {int(t.table_id)} {len(slots)} ".encode())
            for field in slots.dtype.names:
                h.update(np.ascontiguousarray(slots[field]).tobytes())
            if n in (0, len(keys) // 2, len(keys) - 1):
                s = t.calc_slot(np.float32(0.25), 1, 2)
                h.update(f"{int(s.species)} {int(s.min_level)}".encode())
        out["la " + a] = h.hexdigest()
    return out


class Forker:
    """a process that has everything imported but the module whose import is under test"""

    def __init__(self, mon, base):
        self.mon = mon
        self.base = base
        os.makedirs(base, exist_ok=True)
        os.environ["XDG_CACHE_HOME"] = os.path.join(base, "warm")
        self.encounter, self.enums = sut.load(mon, "data.encounter", "enums")
        with mon.sut("tables after an import without a cache"):
            self.reference = tables_of(self.encounter, self.enums)
        self.check_reference()

    def check_reference(self):
        """the reference itself against an independent reading (C17, C18 do so in full)"""
        n = 0
        for g in ("RUBY", "EMERALD"):
            info = self.encounter.ENCOUNTER_INFORMATION_GEN3[self.enums.Game[g]]
            for rec, (_, const, area) in zip(info, gen3json.load(g)):
                got = g3.Area.of(rec)
                n += 1
                self.mon.expect(got.slots == area.slots and got.rates == area.rates,
                                "tables of an import without a cache differ from the shipped file",
                                game=g, map=const)
        self.mon.count("reference_areas", n)

    def start(self, cache, setup=None):
        """fork a child that imports the module with its cache under `cache`"""
        rd, wr = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid:
            os.close(wr)
            return pid, rd
        try:
            os.close(rd)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            os.environ["XDG_CACHE_HOME"] = cache
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            used = time.process_time()
            resource.setrlimit(resource.RLIMIT_CPU, (int(used) + 90, int(used) + 100))
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
            if setup:
                setup()
            out = {}
            try:
                del sys.modules[MOD]
                module = importlib.import_module(MOD)
                out["digest"] = tables_of(module, self.enums)
            except BaseException as exc:  # noqa: BLE001
                import traceback
                out["error"] = f"{type(exc).__name__}: {str(exc)[:300]}"
                out["trace"] = traceback.format_exc()[-1500:]
            data = json.dumps(out).encode()
            # the limit on file sizes does not apply to pipes
            while data:
                data = data[os.write(wr, data):]
        finally:
            os._exit(0)

    def wait(self, pid, rd):
        """-> (exit status, result or None)"""
        chunks = []
        deadline = time.time() + 300
        while True:
            ready, _, _ = select.select([rd], [], [], 5.0)
            if ready:
                c = os.read(rd, 65536)
                if not c:
                    break
                chunks.append(c)
            if time.time() > deadline:
                os.kill(pid, signal.SIGKILL)
                os.close(rd)
                os.waitpid(pid, 0)
                return None, None
        os.close(rd)
        _, status = os.waitpid(pid, 0)
        raw = b"".join(chunks)
        return status, json.loads(raw) if raw else None

    def judge(self, status, res, state, **witness):
        """an import that was not killed has to succeed with the same tables"""
        mon = self.mon
        mon.count("imports")
        mode = mon.job["mode"]
        if status is None:
            mon.violate(f"import did not finish ({state})", mode=mode, **witness)
            return False
        if res is None:
            mon.violate(f"importing process died ({state})", mode=mode, status=status, **witness)
            return False
        if "error" in res:
            mon.violate(f"import failed ({state}): {res['error']}", mode=mode,
                        trace=res.get("trace"), **witness)
            return False
        bad = [k for k in self.reference if res["digest"].get(k) != self.reference[k]]
        return mon.expect(not bad, f"import gave other tables ({state})", tables=bad, mode=mode,
                          **witness)

    def run(self, cache, state, setup=None, **witness):
        self.mon.at(f"import with cache state {state} {witness}")
        return self.judge(*self.wait(*self.start(cache, setup)), state, **witness)

    def followup(self, cache, state, **witness):
        """what the faulty run left behind has to serve the next import"""
        self.mon.count("followups")
        self.run(cache, "import after: " + state, **witness)

    def complete(self, name, setup=None):
        """a directory with the cache a clean import leaves"""
        cache = self.fresh(name)
        self.mon.count("state:absent")
        self.mon.case(("absent", name, self.mon.job["mode"]))
        self.run(cache, "absent", setup)
        return cache

    def fresh(self, name):
        path = os.path.join(self.base, name)
        shutil.rmtree(path, ignore_errors=True)
        os.makedirs(path)
        return path


def cache_files(cache):
    out = []
    for root, _, files in os.walk(cache):
        out += [os.path.join(root, f) for f in files]
    return sorted(out)


def read(path):
    with open(path, "rb") as f:
        return f.read()


def write(path, data):
    with open(path, "wb") as f:
        f.write(data)


def base_dir():
    return os.path.join(os.environ["TMPDIR"], "c21")


def kinds_first(mon, data, order):
    """put one cut per way in which a reader of the prefix fails up front"""
    import pickle
    seen, front, back = {}, [], []
    for n, k in enumerate(order):
        if n >= 2500:
            back += order[n:]
            break
        try:
            pickle.loads(data[:k])
            kind = "loads"
        except Exception as exc:  # noqa: BLE001
            kind = (type(exc).__name__, str(exc)[:14])
        (front if kind not in seen else back).append(k)
        seen[kind] = seen.get(kind, 0) + 1
    mon.count("ways_to_fail", len(seen))
    return front + back


# --- truncations -----------------------------------------------------------------

def truncate(mon, job):
    fork = Forker(mon, base_dir())
    r = rng_for(job, "truncate", job["shard"])
    cache = fork.complete("cache")
    files = cache_files(cache)
    if not files:
        # a package that caches nothing has nothing to truncate
        mon.note("no cache file was written")
        mon.count("truncations")
        return
    good = {f: read(f) for f in files}
    mon.note(f"{len(files)} cache files, {sum(map(len, good.values()))} bytes")
    # every cut, in an order that covers each file's head, tail and middle early
    cuts = {}
    for f, data in good.items():
        n = len(data)
        head = list(range(0, min(40, n)))
        tail = list(range(max(0, n - 40), n))
        rest = [k for k in range(len(head), n - len(tail))][:]
        r.shuffle(rest)
        rest = [k for k in rest if k % job["shards"] == job["shard"]]
        first = head + tail
        r.shuffle(first)
        order = [x for pair in zip(first, rest) for x in pair] + rest[len(first):]
        cuts[f] = kinds_first(mon, data, order)
    end = time.time() + job["seconds"]
    k = 0
    while time.time() < end and not mon.too_many:
        cut = {}
        for f in files:
            todo = cuts[f]
            cut[f] = todo[k % len(todo)] if k < len(todo) else r.randrange(len(good[f]))
            # some stay complete, so that damage to one table alone is seen too (and
            # most of the large ones, which take long to compute again)
            if r.random() < (0.8 if len(good[f]) > 60_000 else 0.1):
                cut[f] = None
            write(f, good[f] if cut[f] is None else good[f][:cut[f]])
        k += 1
        label = {os.path.basename(f): c for f, c in cut.items()}
        ok = fork.run(cache, "truncated", cuts=label)
        for f, c in cut.items():
            if c is not None:
                mon.case((job["mode"], os.path.basename(f), c))
                mon.count("truncations")
        if not ok or k % 5 == 0:
            fork.followup(cache, "truncated", cuts=label)
            after = cache_files(cache)
            mon.count("cache_complete_after", all(read(f) == good[f] for f in files if f in after))
        if k == 1:
            mon.sample({"cuts": label})


# --- other damage ------------------------------------------------------------------

def garbage(r, n):
    """bytes that can not be a pickle: it has no STOP, and no opcode that calls anything"""
    banned = set(b".c\x93iRoP\x81\x85\x86\x87b\x92Q\x82\x83\x84")
    pool = bytes(x for x in range(256) if x not in banned)
    return bytes(r.choice(pool) for _ in range(n))


def write_limit(n, crash):
    def setup():
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
        if crash:
            # die at the write that crosses the limit, as on a crash
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
    return setup


def faults(mon, job):
    fork = Forker(mon, base_dir())
    for i in range(job["rounds"]):
        fault_round(mon, fork, rng_for(job, "faults", i), job)


def fault_round(mon, fork, r, job):
    mode = job["mode"]

    def state(name, cache, setup=None, follow=True, **witness):
        mon.count("state:" + name)
        mon.case((name, mode, repr(sorted(witness.items()))))
        ok = fork.run(cache, name, setup, **witness)
        if follow:
            fork.followup(cache, name, **witness)
        return ok

    cache = fork.complete("cache")
    files = cache_files(cache)
    good = {f: read(f) for f in files}
    sizes = sorted(len(d) for d in good.values())
    if job["part"] == "limits":
        return limits(mon, fork, r, state, sizes)
    if job["part"] == "rights":
        return permissions(mon, fork, r, state)
    state("complete", cache)
    again = {f: read(f) for f in cache_files(cache)}
    mon.count("cache_complete_after", again == good)

    def damage(name, change, **witness):
        for f in files:
            write(f, change(good[f]))
        return state(name, cache, **witness)
    damage("empty", lambda d: b"")
    damage("garbage", lambda d: garbage(r, len(d)), what="random bytes")
    damage("garbage", lambda d: garbage(r, r.randrange(1, 50)), what="few random bytes")
    damage("garbage", lambda d: b"\0" * len(d), what="zeros")
    damage("garbage", lambda d: b"{\"not\": \"a pickle\"}", what="text")
    damage("garbage", lambda d: d[:r.randrange(2, len(d) - 2)][:-1] + garbage(r, 64), what="torn")
    damage("zero-tail", lambda d: (lambda k: d[:k] + b"\0" * (len(d) - k))(
        r.randrange(0, len(d)) // 512 * 512), what="lost blocks")
    damage("zero-tail", lambda d: d[:-1] + b"\0", what="lost last byte")
    # each file in another state
    for _ in range(3):
        kinds = []
        for f in files:
            k = r.randrange(6)
            kinds.append(k)
            if k == 0:
                write(f, good[f])
            elif k == 1:
                os.unlink(f)
            elif k == 2:
                write(f, good[f][:r.randrange(len(good[f]))])
            elif k == 3:
                write(f, garbage(r, r.randrange(1, 5000)))
            elif k == 4:
                write(f, b"")
            else:
                k = r.randrange(len(good[f]))
                write(f, good[f][:k] + b"\0" * (len(good[f]) - k))
        state("mixed-damage", cache, kinds=kinds)
    # names taken by something else
    for f in files:
        if os.path.exists(f):
            os.unlink(f)
        os.makedirs(f)
    state("directory-in-place", cache)
    cache = fork.fresh("links")
    shutil.copytree(os.path.join(fork.base, "cache"), cache, dirs_exist_ok=True,
                    ignore=lambda d, names: [n for n in names if n.endswith(".pkl")])
    for f in files:
        link = f.replace(os.path.join(fork.base, "cache"), cache)
        os.makedirs(os.path.dirname(link), exist_ok=True)
        if not os.path.lexists(link):
            os.symlink(os.path.join(fork.base, "nowhere", "x"), link)
    state("dangling-symlink", cache)
    # directories that can not be made
    path = os.path.join(fork.base, "plainfile")
    write(path, b"x")
    state("cache-dir-is-file", path)
    sub = fork.fresh("dirfile")
    for name in {os.path.relpath(os.path.dirname(f), os.path.join(fork.base, "cache"))
                 for f in files} or {sut.PKG}:
        if name != ".":
            write(os.path.join(sub, name.split(os.sep)[0]), b"")
    state("cache-dir-is-file", sub, what="own directory")


def limits(mon, fork, r, state, sizes):
    """nothing, or only so much, can be written"""
    mode = mon.job["mode"]
    files = cache_files(os.path.join(fork.base, "cache"))
    limits = [0, 1, 100, 4096] + [r.randrange(1, sizes[-1] if sizes else 1000) for _ in range(3)]
    for n in limits[:6]:
        state("write-limit", fork.fresh("limit"), write_limit(n, False), limit=n)
    for n in limits[1:]:
        cache = fork.fresh("crash")
        mon.count("state:crash-at-write")
        mon.case(("crash-at-write", mode, n))
        mon.at(f"import that dies at byte {n} of its cache")
        status, res = fork.wait(*fork.start(cache, write_limit(n, True)))
        if status is not None and os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGXFSZ:
            mon.count("crashes_seen")
        else:
            fork.judge(status, res, "crash-at-write", limit=n)
        fork.followup(cache, "crash-at-write", limit=n)
        # the damage is on top of an older complete cache
        if files:
            cache2 = fork.fresh("crash2")
            shutil.copytree(cache, cache2, dirs_exist_ok=True)
            pick = r.choice(cache_files(cache2) or [None])
            if pick:
                write(pick, read(pick)[:n])
                fork.wait(*fork.start(cache2, write_limit(r.randrange(0, n + 1), True)))
                fork.followup(cache2, "crash while repairing", limit=n)


def permissions(mon, fork, r, state):
    """the same as an unprivileged user, whose rights the file system enforces"""
    # directories of this run only
    top = os.path.dirname(os.path.dirname(os.environ["TMPDIR"]))
    for d in (os.path.dirname(os.environ["TMPDIR"]), os.environ["TMPDIR"], fork.base):
        if d.startswith(top):
            os.chmod(d, 0o711)

    def drop():
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)

    def able(path):
        """can that user read the package and reach the directory?"""
        pid = os.fork()
        if pid == 0:
            try:
                drop()
                ok = os.access(os.path.join(sut.REPO, sut.PKG, "resources", "encount"),
                               os.R_OK | os.X_OK) and os.access(path, os.X_OK)
                os._exit(0 if ok else 1)
            except BaseException:  # noqa: BLE001
                os._exit(1)
        return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) == 0
    cache = fork.fresh("perm")
    os.chmod(cache, 0o777)
    if not able(cache):
        mon.note("an unprivileged user can not run the package here: permission states skipped")
        return
    state("absent", cache, drop, user="nobody")
    files = cache_files(cache)
    good = {f: read(f) for f in files}
    dirs = {os.path.dirname(f) for f in files}
    for f in files:
        os.chmod(f, 0o000)
    state("unreadable-files", cache, drop, follow=False)
    for f in files:
        os.chmod(f, 0o444)
        os.chown(f, 0, 0)
    state("read-only-files", cache, drop, follow=False)
    for f in files:
        write(f, good[f][:len(good[f]) // 2])
    state("read-only-damaged-files", cache, drop, follow=False)
    for d in dirs:
        os.chown(d, 0, 0)
        os.chmod(d, 0o555)
    state("read-only-directory-damaged", cache, drop, follow=False)
    for f in files:
        os.unlink(f)
    state("read-only-directory", cache, drop, follow=False)
    for d in dirs:
        os.chmod(d, 0o000)
    state("closed-directory", cache, drop, follow=False)
    closed = fork.fresh("closed")
    os.chmod(closed, 0o000)
    state("closed-directory", closed, drop, follow=False, what="parent")
    ro = fork.fresh("readonly")
    os.chmod(ro, 0o555)
    state("read-only-parent", ro, drop, follow=False)
    mon.count("permission_states", 8)


# --- races and kills ------------------------------------------------------------------

class Slow:
    """a file whose writes arrive piece by piece, with pauses in between"""

    def __init__(self, f, r):
        self._f, self._r = f, r

    def write(self, data):
        view = memoryview(data).cast("B") if not isinstance(data, str) else data
        n = len(view)
        k = 0
        while k < n:
            step = self._r.choice((1, 7, 300, 4096, 20000, n))
            self._f.write(view[k:k + step])
            self._f.flush()
            k += step
            if self._r.random() < 0.5:
                time.sleep(self._r.choice((0.0, 0.0005, 0.002)))
        return n

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *exc):
        return self._f.__exit__(*exc)

    def __getattr__(self, name):
        return getattr(self._f, name)


def slow_writes(cache, r):
    real = builtins.open

    def slow(file, mode="r", *args, **kwargs):
        f = real(file, mode, *args, **kwargs)
        try:
            inside = os.fspath(file).startswith(cache)
        except TypeError:
            inside = False
        if inside:
            time.sleep(r.choice((0.0, 0.001, 0.01)))
            if any(c in mode for c in "wax+"):
                return Slow(f, r)
        return f
    builtins.open = slow
    io.open = slow


def races(mon, job):
    import random
    fork = Forker(mon, base_dir())
    r = rng_for(job, "races")
    mode = job["mode"]
    done = 0
    for i in range(job["rounds"]):
        for slow in (True, False):
            n = r.randrange(3, 7)
            cache = fork.fresh("race")
            if i % 2:
                # the race starts on a damaged cache
                shutil.rmtree(cache)
                shutil.copytree(os.path.join(fork.base, "warm"), cache)
                for f in cache_files(cache):
                    write(f, read(f)[:r.randrange(1, 2000)])
            seeds = [r.getrandbits(32) for _ in range(n)]
            mon.at(f"{n} processes import at once (slow writes {slow}, seeds {seeds})")
            mon.count("state:race")
            mon.count("race_processes", n)
            mon.case(("race", mode, i, slow, n, tuple(seeds)))
            kids = []
            for s in seeds:
                rr = random.Random(s)

                def setup(rr=rr, slow=slow):
                    time.sleep(rr.random() * 0.2)
                    if slow:
                        slow_writes(cache, rr)
                kids.append(fork.start(cache, setup))
            for s, kid in zip(seeds, kids):
                fork.judge(*fork.wait(*kid), "race", processes=n, slow=slow, seed=s)
            fork.followup(cache, "race", processes=n, slow=slow)
            done += 1
    # a kill at any moment of an import
    for i in range(job["kills"]):
        cache = fork.fresh("kill")
        delay = r.random() ** 1.5 * 1.2
        s = r.getrandbits(32)
        mon.at(f"import killed after {delay:.3f} s")
        mon.count("state:killed")
        mon.case(("killed", mode, round(delay, 3), s))

        def setup(s=s):
            slow_writes(cache, random.Random(s))
        pid, rd = fork.start(cache, setup)
        time.sleep(delay)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        status, res = fork.wait(pid, rd)
        if status is not None and os.WIFSIGNALED(status) and res is None:
            mon.count("kills_seen")
        fork.followup(cache, "killed", delay=delay, seed=s)
    mon.count("cache_complete_after", done)


# --- whole interpreters ------------------------------------------------------------------

CHILD = """
import sys, json, os
sys.path.insert(0, {verif!r})
sys.path.insert(0, {repo!r})
from lib import sut
sut.install_once()
from checks import c21
import importlib
module = importlib.import_module(c21.MOD)
enums = importlib.import_module(sut.PKG + ".enums")
print("DIGEST" + json.dumps(c21.tables_of(module, enums)))
"""


def fresh(mon, job):
    """new interpreters of both modes take turns on one cache"""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    r = rng_for(job, "fresh")
    base = base_dir()
    os.makedirs(base)
    reference = {}

    def launch(cache, mode):
        env = dict(os.environ, XDG_CACHE_HOME=cache, NPP_USE_NUMBA=mode)
        return subprocess.Popen([sys.executable, "-W", "ignore", "-c",
                                 CHILD.format(verif=here, repo=sut.REPO)], env=env,
                                stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)

    def judge(proc, mode, what):
        out, err = proc.communicate()
        mon.count("imports")
        mon.count("state:fresh-interpreter")
        mon.case(("fresh", mode, what))
        if proc.returncode or "DIGEST" not in out:
            mon.violate(f"import in a new interpreter failed ({what}, NPP_USE_NUMBA={mode})",
                        error=err[-1500:], status=proc.returncode)
            return
        digest = json.loads(out.split("DIGEST", 1)[1])
        if not reference:
            reference.update(digest)
        mon.same(digest, reference, f"tables differ ({what}, NPP_USE_NUMBA={mode})")
    for i in range(job["rounds"]):
        cache = os.path.join(base, f"c{i}")
        first, second = r.sample(("TRUE", "FALSE"), 2)
        mon.at("imports in new interpreters, modes in turn")
        judge(launch(cache, first), first, "absent")
        mon.count("state:other-mode")
        judge(launch(cache, second), second, "cache of the other mode")
        judge(launch(cache, first), first, "cache used by both modes")
        for f in cache_files(cache):
            write(f, read(f)[:r.randrange(0, 3000)])
        both = os.path.join(base, f"b{i}")
        os.makedirs(both)
        mon.at("new interpreters of both modes import at once")
        procs = [(m, launch(both, m)) for m in ("TRUE", "FALSE", "TRUE", "FALSE")]
        procs += [(m, launch(cache, m)) for m in ("FALSE", "TRUE")]
        for m, p in procs:
            judge(p, m, "at once")
        for m in ("FALSE", "TRUE"):
            judge(launch(both, m), m, "after imports at once")


def finalize(results, tier, seed, scratch):
    if len(garbage(__import__("random").Random(1), 100)) != 100:
        raise HarnessError("garbage")
    return {}
