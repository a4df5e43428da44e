"""C22: compiled code never touches memory outside its arrays or reads it
uninitialised.

Four sanitizers watch the real compiled code while it runs programs over the
whole API (lib/workload.py):
 * bounds   - numba's own bounds checking compiled in: an index outside an array
              raises
 * guards   - every array a compiled object owns is moved into memory whose
              neighbouring pages may not be touched: vector code that reaches
              past either end dies with SIGSEGV; the slack of the pages holds
              canaries
 * heap     - the programs run under different heap contents (glibc fills every
              allocated and freed block): equal logs, or a result depends on
              memory nobody wrote
 * memcheck - valgrind watches every load, store and branch of the compiled
              generators, including the hand-written vector code
"""
import ctypes
import mmap
import os
import re
import shutil
import subprocess
import sys

import numpy as np

from lib import sut, workload
from lib.mon import HarnessError, SutFailure
from lib.rngspec import ALL_SPECS, plain, rng_for, typed

RULE = ("one case = one program (a generator, list, hash, search, table, ... with its arguments "
        "and history) run under bounds checking, between guard pages, under chosen heap contents "
        "or under memcheck; evaluations = operations executed under one of these monitors; "
        "distinct = distinct programs")
REQUIRED = ["bounds_events", "heap_events", "guarded_ops", "guarded_arrays", "canary_checks",
            "guard:SIMDFastMersenneTwister", "guard:MersenneTwister", "guard:RNGList", "guard:SHA1",
            "memcheck_runs", "memcheck_ops", "searches", "slot_choices", "hashes", "lists"]
ASSUMPTIONS = ["compiled code allocates through the C library's malloc (numba's runtime does)",
               "memcheck judges heap blocks; stack slots are judged by use of undefined values"]

PLANS = [
    [["generators", 40], ["utilities", 200]],
    [["factories", 2], ["constants", 2], ["lists", 6]],
    [["hashes", 30], ["slots", 20], ["lists", 3]],
    [["searches", 90], ["parts", 40]],
]
HEAPS = ("85", "170")
MEMCHECK = ("SIMDFastMersenneTwister", "MersenneTwister", "TinyMersenneTwister")
MEMCHECK_SLOW = ("Xorshift128", "Xoroshiro128PlusRejection", "SplitMixXoroshiro128Plus")


def jobs(tier, seed):
    quick = tier == "quick"
    out = []
    parts = MEMCHECK if quick else MEMCHECK + MEMCHECK_SLOW
    for k, part in enumerate(parts):
        out.append({"func": "memcheck", "mode": "numba", "part": part, "shard": k,
                    "reps": 25 if quick else 400, "name": f"memcheck-{part}", "keep": True})
    grow = {"factories": 6, "constants": 4, "lists": 6}
    for k, plan in enumerate(PLANS):
        p = plan if quick else [[a, n * grow.get(a, 20)] for a, n in plan]
        out.append({"func": "bounds", "mode": "numba", "plan": p, "shard": k,
                    "env": {"NUMBA_BOUNDSCHECK": "1"}, "name": f"bounds{k}"})
        for heap in HEAPS:
            out.append({"func": "heap", "mode": "numba", "plan": p, "shard": 50 + k, "keep": True,
                        # blocks recycled by the thread cache would keep their contents
                        "env": {"MALLOC_PERTURB_": heap,
                                "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}, "name": f"heap{k}-{heap}", "pair": k})
    for k in range(2):
        out.append({"func": "guards", "mode": "numba", "part": k, "shard": k,
                    "reps": 12 if quick else 250})
    return out


def bounds(mon, job):
    with mon.sut("numba configuration"):
        import numba
    if not numba.config.BOUNDSCHECK:
        raise HarnessError("bounds checking is off")
    probe(numba)
    workload.run(mon, rng_for(job, "bounds"), job["plan"], strict=True)
    mon.evaluations = mon.counters["events"]
    mon.count("bounds_events", mon.evaluations)


def probe(numba):
    """the monitor itself: an overrun must raise"""
    @numba.njit
    def over(a, i):
        return a[i]
    try:
        over(np.zeros(4, np.uint32), 4)
    except IndexError:
        return
    raise HarnessError("bounds checking does not catch an overrun")


# --- heap contents --------------------------------------------------------------
def heap(mon, job):
    fill = int(os.environ["MALLOC_PERTURB_"])
    libc = ctypes.CDLL(None)
    libc.malloc.restype = ctypes.c_void_p
    for size in (24, 40, 300, 3000):
        seen = []
        for _ in range(2):
            p = libc.malloc(ctypes.c_size_t(size))
            raw = (ctypes.c_ubyte * size).from_address(p)
            # glibc fills new blocks with the complement, recycled ones too
            seen.append(raw[size // 2] == fill ^ 0xFF)
            ctypes.memset(p, 0x11, size)
            libc.free(ctypes.c_void_p(p))
        if not all(seen):
            raise HarnessError(f"heap contents are not controlled (blocks of {size})")
    workload.run(mon, rng_for(job, "heap"), job["plan"])
    mon.evaluations = mon.counters["events"]
    mon.count("heap_events", mon.evaluations)


# --- guard pages ------------------------------------------------------------------
PAGE = mmap.PAGESIZE
LIBC = ctypes.CDLL(None, use_errno=True)
CANARY = 0xA5


class Guarded:
    """memory for one array between two pages that may not be touched"""

    def __init__(self, like, at_end):
        n = like.nbytes
        pages = max(1, -(-n // PAGE))
        self.map = mmap.mmap(-1, (pages + 2) * PAGE)
        self.base = ctypes.addressof(ctypes.c_char.from_buffer(self.map))
        start = PAGE if not at_end else (pages + 1) * PAGE - n
        start -= start % like.itemsize if at_end else 0
        self.lo, self.hi, self.end = start, start + n, (pages + 1) * PAGE
        self.view = np.frombuffer(self.map, np.uint8)
        self.view[PAGE:self.end] = CANARY
        self.array = np.frombuffer(self.map, like.dtype, count=like.size, offset=start).reshape(
            like.shape)
        self.array[...] = like
        for off in (0, (pages + 1) * PAGE):
            if LIBC.mprotect(ctypes.c_void_p(self.base + off), ctypes.c_size_t(PAGE), 0):
                raise HarnessError("mprotect failed")

    def intact(self):
        return bool((self.view[PAGE:self.lo] == CANARY).all()
                    and (self.view[self.hi:self.end] == CANARY).all())


def owned_arrays(obj):
    """names of the array attributes of a compiled object"""
    out = []
    for name, t in type(obj)._numba_type_.class_type.struct.items() if hasattr(
            type(obj), "_numba_type_") else obj._numba_type_.struct.items():
        if type(t).__name__ == "Array" and not name.startswith("_"):
            out.append(name)
    return out


def guard(mon, obj, at_end, keep):
    held = {}
    for name in owned_arrays(obj):
        a = np.asarray(getattr(obj, name))
        if a.nbytes == 0 or not a.flags.writeable:
            continue
        g = Guarded(a, at_end)
        setattr(obj, name, g.array)
        held[name] = g
        keep.append(g)
        mon.count("guarded_arrays")
    return held


def still_held(obj, held):
    return [g for name, g in held.items()
            if np.asarray(getattr(obj, name)).ctypes.data == g.base + g.lo]


def guards(mon, job):
    r = rng_for(job, "guards")
    keep = []
    specs = [s for s in ALL_SPECS if s.module != "lcrng"]
    if job["part"] == 0:
        pairs = workload.classes(mon, specs)
        for spec, cls in pairs:
            for rep in range(job["reps"] * (3 if "Twister" in spec.name else 1)):
                guarded_generator(mon, r, spec, cls, rep % 2 == 0, keep)
    else:
        guarded_lists(mon, r, job["reps"], keep)
        guarded_hashes(mon, r, job["reps"], keep)
    del keep[:]


def watch(mon, label, held, obj):
    live = still_held(obj, held)
    for g in live:
        mon.count("canary_checks")
        if not g.intact():
            mon.violate(f"{label}: wrote outside of its array")
            return False
    return bool(live)


def guarded_generator(mon, r, spec, cls, at_end, keep):
    seeds = spec.seeds(r)
    try:
        with mon.sut(f"{spec.name}{plain(seeds)}"):
            obj = cls(*seeds)
            twin = cls(*seeds)
        held = guard(mon, obj, at_end, keep)
        if not held:
            mon.note(f"{spec.name}: no array to guard")
            return
        mon.case((spec.name, plain(seeds), at_end))
        for _ in range(60):
            op = r.choices(spec.ops, spec.weights)[0]
            args = op.args(r)
            label = f"{spec.name}.{op.name}{plain(args)} between guard pages"
            with mon.sut(label):
                got = getattr(obj, op.name)(*args)
                want = getattr(twin, op.name)(*args)
            if not watch(mon, label, held, obj):
                break
            mon.count("guarded_ops")
            mon.count("guard:" + spec.name)
            mon.case()
            if got is not None and int(got) != int(want):
                mon.violate(f"{spec.name}: a draw depends on where its array lies in memory",
                            op=op.name, args=plain(args), got=int(got), other=int(want))
                return
    except SutFailure:
        return


def guarded_lists(mon, r, reps, keep):
    rng_list = sut.load(mon, "rng_list")
    combos = [c for c in workload.list_combos() if c[0].name in (
        "PokeRNGMod", "MersenneTwister", "SIMDFastMersenneTwister", "Xorshift128", "BWRNG")]
    for spec, meth, t, _ in r.sample(combos, min(4, len(combos)) if reps < 50 else len(combos)):
        (_, cls), = workload.classes(mon, [spec])
        size = 1 << r.randrange(0, 12)
        try:
            with mon.sut(f"RNGList({spec.name}.{meth}, {t.__name__}, {size})"):
                made = rng_list.build_rnglist(rng_class=cls, next_function_name=meth,
                                              state_type=t, size=size)
            for rep in range(reps):
                seeds = spec.seeds(r)
                label = f"RNGList({spec.name}.{meth}, {t.__name__}, {size})"
                with mon.sut(f"{label} over {plain(seeds)}"):
                    lst = made(cls(*seeds))
                held = guard(mon, lst, rep % 2 == 0, keep)
                mon.case((label, plain(seeds)))
                for _ in range(40):
                    k = r.randrange(6)
                    adv = typed(r, r.choice((0, 1, size - 1, size, size + 1, r.getrandbits(32))),
                                np.uint32)
                    with mon.sut(f"{label}: operation {k} ({int(adv)}) between guard pages"):
                        if k < 2:
                            for _ in range(r.choice((1, 3, min(size, 200)))):
                                lst.get_value()
                        elif k == 2:
                            lst.advance(adv)
                        elif k == 3:
                            lst.advance_state()
                        elif k == 4:
                            lst.advance_states(np.uint32(r.choice((1, size, size + 1)) % 5000))
                        else:
                            lst.re_init()
                    if not watch(mon, label, held, lst):
                        break
                    mon.count("guarded_ops")
                    mon.count("guard:RNGList")
                    mon.case()
        except SutFailure:
            continue


def guarded_hashes(mon, r, reps, keep):
    sha1, enums = sut.load(mon, "sha1", "enums")
    for rep in range(reps):
        g, la = enums.Game[r.choice(workload.GAMES)], enums.Language[r.choice(workload.LANGUAGES)]
        args = (np.uint32(g), np.uint8(la), np.uint8(r.randrange(3)),
                np.uint64(r.getrandbits(48)), r.random() < 0.5, np.uint8(r.randrange(256)),
                np.uint8(r.randrange(256)))
        try:
            with mon.sut(f"SHA1{tuple(int(a) for a in args)}"):
                obj = sha1.SHA1(*args)
            held = guard(mon, obj, rep % 2 == 0, keep)
            mon.case(("SHA1", tuple(int(a) for a in args)))
            alpha = None
            for _ in range(12):
                with mon.sut("SHA1 operations between guard pages"):
                    obj.set_timer0(r.getrandbits(16), r.randrange(256))
                    obj.set_date(2000 + r.randrange(100), r.randrange(1, 13), r.randrange(1, 32),
                                 r.randrange(7))
                    obj.set_time(r.randrange(24), r.randrange(60), r.randrange(60))
                    obj.set_button(np.uint32(r.getrandbits(32)))
                    alpha = obj.precompute()
                    if isinstance(alpha, np.ndarray):
                        ga = Guarded(alpha, rep % 2 == 0)
                        keep.append(ga)
                        alpha = ga.array
                    obj.hash_seed(alpha)
                if not watch(mon, "SHA1", held, obj):
                    break
                mon.count("guarded_ops")
                mon.count("guard:SHA1")
                mon.case()
        except SutFailure:
            continue


# --- memcheck ----------------------------------------------------------------------
def memcheck(mon, job):
    tool = shutil.which("valgrind") or "/usr/bin/valgrind"
    if not os.path.exists(tool):
        raise HarnessError("valgrind is missing")
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env = dict(os.environ, PYTHONMALLOC="malloc", NUMBA_NUM_THREADS="1")
    env.pop("PYTHONPYCACHEPREFIX", None)
    limit = 620 if job["tier"] == "quick" else 7200
    label = f"{job['part']} under memcheck"
    mon.at(label)
    try:
        done = subprocess.run(
            [tool, "--smc-check=all", "--error-limit=no", "--error-exitcode=0",
             "--num-callers=25", "--log-file=vg.log", sys.executable, "-W", "ignore",
             os.path.join(here, "lib", "memdrive.py"), job["part"], str(job["seed"]),
             str(job["reps"]), "vg.journal"],
            env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            timeout=limit, check=False)
    except subprocess.TimeoutExpired:
        mon.note(f"{label}: gave up after {limit} s")
        return
    text = done.stdout.decode("utf-8", "replace")
    with open("vg.log", encoding="utf-8", errors="replace") as f:
        log = f.read()
    at = ""
    if os.path.exists("vg.journal"):
        with open("vg.journal", encoding="utf-8") as f:
            at = f.readline().strip()
    judge(mon, label, text, log, done.returncode, at)


def judge(mon, label, text, log, code, at):
    blocks = [b.strip() for b in re.split(r"^==\d+== $", log, flags=re.M)]
    errors = [b for b in blocks if re.search(
        r"Invalid (read|write)|Conditional jump or move depends on uninit|"
        r"Use of uninitialised value|uninitialised byte|Jump to the invalid|"
        r"Process terminating with default action of signal (4|6|7|8|11)|"
        r"Mismatched free|Invalid free", b)]
    for b in errors[:3]:
        head = [re.sub(r"^==\d+== *", "", x) for x in b.splitlines()]
        mon.violate(f"{label}: {head[0]}" if head else label, at=at, report=head[:30])
    done = re.search(r"^DONE (\d+)", text, flags=re.M)
    if done:
        mon.count("memcheck_runs")
        mon.count("memcheck_ops", int(done[1]))
        mon.evaluations += int(done[1])
        mon.case((label,))
        mon.sample({"memcheck": label, "operations": int(done[1]),
                    "summary": [x for x in log.splitlines() if "ERROR SUMMARY" in x][-1:]})
    elif not errors:
        raise HarnessError(f"{label}: ended with {code} at {at!r}: {text[-1500:]} {log[-1500:]}")


def finalize(results, tier, seed, scratch):
    violations, compared = [], 0
    pairs = {}
    for i, job in enumerate(jobs(tier, seed)):
        if job["func"] == "heap":
            pairs.setdefault(job["pair"], []).append(
                (os.path.join(scratch, f"job{i}", workload.LOG), results[i]))
    for (a, ra), (b, rb) in pairs.values():
        if ra["status"] != "ok" or rb["status"] != "ok":
            continue
        n, diffs = workload.diff(a, b)
        compared += n
        for where, la, lb in diffs[:3]:
            violations.append({
                "message": f"a result depends on uninitialised memory in {where}: {la[:250]} | "
                           f"{lb[:250]}", "job": ra["name"],
                "witness": {"program": where, "heaps": HEAPS, "results": [la, lb]}})
    return {"violations": violations, "counters": {"heap_compared": compared}}
