"""C13: bit rotations, byte swaps, hex formatting and FNV hashes are exact."""
import json
import os

import numpy as np

from lib import sut
from lib.models import M32, M64
from lib.mon import SutFailure
from lib.rngspec import edge_int, rng_for

RULE = ("one case = one value (and rotation count) or one string given to one function and "
        "compared with the mathematical definition; distinct = distinct (function, input); the "
        "thorough tier enumerates every 32-bit value for byte swapping and 32-bit rotations")
REQUIRED = ["bswap", "rotl32", "rotr32", "rotl64", "rotr64", "hex", "fnv1", "fnv1a",
            "empty_strings", "shipped_names"]
ASSUMPTIONS = ["rotation counts 1 to width-1; ASCII strings; FNV offset basis 0xCBF29CE484222645 "
               "(the one the games use; it differs from the published basis in the low bytes)"]
PRIME = 0x100000001B3
BASIS = 0xCBF29CE484222645


def fnv1(s):
    h = BASIS
    for c in s:
        h = h * PRIME & M64 ^ ord(c)
    return h


def fnv1a(s):
    h = BASIS
    for c in s:
        h = (h ^ ord(c)) * PRIME & M64
    return h


def rotl(v, n, w):
    return (v << n | v >> (w - n)) & ((1 << w) - 1)


def bswap(v):
    return int.from_bytes(v.to_bytes(4, "little"), "big")


def jobs(tier, seed):
    quick = tier == "quick"
    out = []
    for mode in ("numba", "numpy"):
        out.append({"func": "calls", "mode": mode, "n": 4000 if quick else 300_000})
        out.append({"func": "strings", "mode": mode, "n": 4000 if quick else 200_000})
    if quick:
        out.append({"func": "sweep", "mode": "numba", "shard": 0, "n": 3_000_000})
    else:
        for shard in range(8):
            out.append({"func": "sweep", "mode": "numba", "shard": shard, "n": 400_000_000})
        for shard in range(8):
            out.append({"func": "exhaustive32", "mode": "numba", "shard": shard, "of": 8})
    return out


def argument(r, v, t):
    return t(v) if r.random() < 0.5 or v >> 63 else v


def calls(mon, job):
    util = sut.load(mon, "util")
    r = rng_for(job, "calls")
    for _ in range(job["n"]):
        if mon.too_many:
            return
        v32, v64 = edge_int(r, 32), edge_int(r, 64)
        n32, n64 = r.randrange(1, 32), r.randrange(1, 64)
        n32, n64 = r.choice((n32, n32, 1, 31)), r.choice((n64, n64, 1, 63, 32))
        try:
            one(mon, "bswap", util.change_endian_u32, (argument(r, v32, np.uint32),), bswap(v32))
            for name, fn, v, n, w, t in (
                    ("rotl32", util.rotate_left_u32, v32, n32, 32, np.uint32),
                    ("rotr32", util.rotate_right_u32, v32, n32, 32, np.uint32),
                    ("rotl64", util.rotate_left_u64, v64, n64, 64, np.uint64),
                    ("rotr64", util.rotate_right_u64, v64, n64, 64, np.uint64)):
                want = rotl(v, n if "rotl" in name else w - n, w)
                one(mon, name, fn, (argument(r, v, t), argument(r, n, np.uint8)), want)
            a = argument(r, v32, np.uint32)
            with mon.sut(f"hex_32({v32:#x})"):
                text = str(util.hex_32(a))
            mon.case(("hex", v32))
            mon.count("hex")
            mon.same(text, "%08X" % v32, "hex_32 differs", value=v32)
        except SutFailure:
            return


def one(mon, name, fn, args, want):
    with mon.sut(f"{name}{tuple(int(a) for a in args)}"):
        got = int(fn(*args))
    mon.case((name,) + tuple(int(a) for a in args))
    mon.count(name)
    mon.same(got, want, f"{name} differs", args=[int(a) for a in args])


def strings(mon, job):
    fnv = sut.load(mon, "fnv")
    r = rng_for(job, "strings")
    todo = ["", "\0", "a", "\x7f", "A" * 5000, "pikachu", " ", "\n"]
    path = os.path.join(sut.REPO, sut.PKG, "resources/encount/la/encounter_table_names.json")
    names = {}
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            names = {v: int(k, 0) if isinstance(k, str) else k for k, v in json.load(f).items()}
    printable = [chr(i) for i in range(32, 127)]
    for _ in range(job["n"]):
        alphabet = r.choice((printable, [chr(i) for i in range(128)], ["a", "_", "0"]))
        todo.append("".join(r.choices(alphabet, k=r.choice((0, 1, 2, 7, 8, 9, r.randrange(60))))))
    # long ones, for what few intermediate values do
    todo += ["".join(r.choices(printable, k=30_000)) for _ in
             range(20 if sut.use_numba() else 1)]
    shipped = [s for s in names if s.isascii()]
    if not sut.use_numba() and job["tier"] == "quick":
        shipped = r.sample(shipped, min(len(shipped), 1500))
    for i, s in enumerate(todo + shipped):
        if mon.too_many:
            return
        try:
            with mon.sut(f"fnv of {s[:200]!r}"):
                got = int(fnv.fnv1_64(s)), int(fnv.fnv1a_64(s))
        except SutFailure:
            return
        mon.case(("s", s))
        mon.count("fnv1")
        mon.count("fnv1a")
        mon.count("empty_strings", s == "")
        mon.same(got, (fnv1(s), fnv1a(s)), "FNV hash differs", string=s[:200])
        if i >= len(todo):
            mon.count("shipped_names")
            mon.same(got[1], names[s], "the hash of a shipped name is not its key", string=s)


def kernels(mon, util):
    import numba as nb
    swap, l32, r32 = util.change_endian_u32, util.rotate_left_u32, util.rotate_right_u32
    l64, r64 = util.rotate_left_u64, util.rotate_right_u64
    u32, u64 = np.uint32, np.uint64

    @nb.njit
    def sweep(a, b, n32, n64):
        """index and function of the first wrong result, or (-1, 0)"""
        for i in range(a.shape[0]):
            v, w = a[i], b[i]
            n, k = n32[i], n64[i]
            x = u32(swap(v))
            y = u32(((v & u32(0xFF)) << u32(24)) | ((v & u32(0xFF00)) << u32(8))
                    | ((v >> u32(8)) & u32(0xFF00)) | (v >> u32(24)))
            if x != y:
                return i, 1
            v64 = u64(v)
            left = u32(((v64 << u64(n)) | (v64 >> u64(32 - n))) & u64(0xFFFFFFFF))
            if u64(l32(v, n)) != u64(left):
                return i, 2
            right = u32(((v64 << u64(32 - n)) | (v64 >> u64(n))) & u64(0xFFFFFFFF))
            if u64(r32(v, n)) != u64(right):
                return i, 3
            if u64(l64(w, k)) != ((w << u64(k)) | (w >> u64(64 - k))):
                return i, 4
            if u64(r64(w, k)) != ((w >> u64(k)) | (w << u64(64 - k))):
                return i, 5
        return -1, 0

    @nb.njit
    def every(lo, hi, n):
        for j in range(lo, hi):
            v = u32(j)
            v64 = u64(v)
            y = u32(((v & u32(0xFF)) << u32(24)) | ((v & u32(0xFF00)) << u32(8))
                    | ((v >> u32(8)) & u32(0xFF00)) | (v >> u32(24)))
            if u32(swap(v)) != y:
                return j, 1
            left = u32(((v64 << u64(n)) | (v64 >> u64(32 - n))) & u64(0xFFFFFFFF))
            if u64(l32(v, n)) != u64(left):
                return j, 2
            right = u32(((v64 << u64(32 - n)) | (v64 >> u64(n))) & u64(0xFFFFFFFF))
            if u64(r32(v, n)) != u64(right):
                return j, 3
        return -1, 0
    return sweep, every


NAMES = {1: "bswap", 2: "rotl32", 3: "rotr32", 4: "rotl64", 5: "rotr64"}


def sweep(mon, job):
    util = sut.load(mon, "util")
    run, _ = kernels(mon, util)
    gen = np.random.Generator(np.random.PCG64(rng_for(job, "sweep").getrandbits(64)))
    left = job["n"]
    while left > 0:
        k = min(left, 2_000_000)
        left -= k
        a = gen.integers(0, 2 ** 32, k, dtype=np.uint32)
        b = gen.integers(0, 2 ** 64, k, dtype=np.uint64)
        n = gen.integers(1, 32, k, dtype=np.uint8)
        m = gen.integers(1, 64, k, dtype=np.uint8)
        try:
            with mon.sut("bulk sweep of the bit utilities"):
                i, which = run(a, b, n, m)
        except SutFailure:
            return
        mon.bulk(5 * k, len(np.unique(b)))
        for name in NAMES.values():
            mon.count(name, k)
        if which:
            mon.violate(f"{NAMES[which]} differs", value32=int(a[i]), value64=int(b[i]),
                        count32=int(n[i]), count64=int(m[i]))
            return


def exhaustive32(mon, job):
    util = sut.load(mon, "util")
    _, every = kernels(mon, util)
    r = rng_for(job, "exhaustive")
    span = 2 ** 32 // job["of"]
    for n in r.sample(range(1, 32), 4):
        lo = job["shard"] * span
        for part in range(lo, lo + span, 1 << 26):
            with mon.sut(f"every value from {part:#x}, rotation {n}"):
                v, which = every(part, part + (1 << 26), np.uint8(n))
            mon.bulk(3 << 26, 2 << 26)
            for name in ("bswap", "rotl32", "rotr32"):
                mon.count(name, 1 << 26)
            if which:
                mon.violate(f"{NAMES[which]} differs", value=int(v), count=n)
                return
