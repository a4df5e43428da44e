"""Search all 2^32 seeds of the three twisters for rare first states and draws.

One-off: prints lib/rareseeds.py (about 25 minutes on 8 cores).  The searched
models are the harness's own (lib/fast.py repeats them and pins them); the seeds
only serve as inputs, so a mistake here costs reach, never soundness.
"""
import sys

import numba
import numpy as np

TARGETS = np.array([0, 1, 0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, 0x000000FF, 0xFFFFFFFE], np.uint64)
M = np.uint64(0xFFFFFFFF)
MUL = np.uint64(0x6C078965)


@numba.njit(inline="always")
def step(x, i):
    return (MUL * (x ^ (x >> np.uint64(30))) + np.uint64(i)) & M


@numba.njit
def tiny_first(seed, s):
    s[0] = seed
    s[1] = np.uint64(0x8F7011EE)
    s[2] = np.uint64(0xFC78FF1F)
    s[3] = np.uint64(0x3793FDFF)
    for i in range(1, 8):
        s[i & 3] ^= step(s[(i - 1) & 3], i)
    for _ in range(8):
        tiny_step(s)


@numba.njit(inline="always")
def tiny_step(s):
    y = s[3]
    x = (s[0] & np.uint64(0x7FFFFFFF)) ^ s[1] ^ s[2]
    x ^= (x << np.uint64(1)) & M
    y ^= (y >> np.uint64(1)) ^ x
    odd = y & np.uint64(1)
    s0, s1 = s[1], s[2]
    s[0] = s0
    s[1] = s1 ^ (odd * np.uint64(0x8F7011EE))
    s[2] = (x ^ (y << np.uint64(10)) ^ (odd * np.uint64(0xFC78FF1F))) & M
    s[3] = y


@numba.njit(inline="always")
def tiny_temper(s):
    t1 = (s[0] + (s[2] >> np.uint64(8))) & M
    return s[3] ^ t1 ^ ((t1 & np.uint64(1)) * np.uint64(0x3793FDFF))


@numba.njit(parallel=True)
def tiny_scan(first, count, targets, hits):
    n = count // 4096
    for b in numba.prange(n):
        s = np.zeros(4, np.uint64)
        for k in range(4096):
            seed = first + np.uint64(b * 4096 + k)
            tiny_first(seed, s)
            for w in range(6):
                if w < 4:
                    v = s[w]
                else:
                    tiny_step(s)
                    v = tiny_temper(s)
                for t in range(targets.shape[0]):
                    if v == targets[t]:
                        hits[w, t] = seed + np.uint64(1)


@numba.njit(parallel=True)
def mt_scan(first, count, targets, hits):
    n = count // 4096
    for b in numba.prange(n):
        for k in range(0, 4096, 4):
            # four seeds at a time hide the latency of the recurrence
            s0 = first + np.uint64(b * 4096 + k)
            a = s0
            c = s0 + np.uint64(1)
            d = s0 + np.uint64(2)
            e = s0 + np.uint64(3)
            a1, c1, d1, e1 = step(a, 1), step(c, 1), step(d, 1), step(e, 1)
            a, c, d, e = a1, c1, d1, e1
            for i in range(2, 398):
                a, c, d, e = step(a, i), step(c, i), step(d, i), step(e, i)
            for j in range(4):
                seed = s0 + np.uint64(j)
                w1 = a1 if j == 0 else (c1 if j == 1 else (d1 if j == 2 else e1))
                wm = a if j == 0 else (c if j == 1 else (d if j == 2 else e))
                y = (seed & np.uint64(0x80000000)) | (w1 & np.uint64(0x7FFFFFFF))
                raw = wm ^ (y >> np.uint64(1)) ^ ((y & np.uint64(1)) * np.uint64(0x9908B0DF))
                v = raw
                v ^= v >> np.uint64(11)
                v ^= (v << np.uint64(7)) & np.uint64(0x9D2C5680)
                v ^= (v << np.uint64(15)) & np.uint64(0xEFC60000)
                v ^= v >> np.uint64(18)
                for t in range(targets.shape[0]):
                    if v == targets[t]:
                        hits[0, t] = seed + np.uint64(1)
                    if raw == targets[t]:
                        hits[1, t] = seed + np.uint64(1)


@numba.njit(parallel=True)
def sfmt_scan(first, count, targets, hits):
    n = count // 4096
    for b in numba.prange(n):
        w = np.zeros(624, np.uint64)
        for k in range(4096):
            seed = first + np.uint64(b * 4096 + k)
            x = seed
            w[0] = x
            for i in range(1, 624):
                x = step(x, i)
                w[i] = x
            p = (w[0] & np.uint64(1)) ^ (w[3] & np.uint64(0x13C9E684))
            p ^= p >> np.uint64(16)
            p ^= p >> np.uint64(8)
            p ^= p >> np.uint64(4)
            p ^= p >> np.uint64(2)
            p ^= p >> np.uint64(1)
            if p & np.uint64(1) == np.uint64(0):
                w[0] ^= np.uint64(1)
            lo = w[0] ^ ((w[0] << np.uint64(8)) & M) \
                ^ ((w[488] >> np.uint64(11)) & np.uint64(0xDFFFFFEF)) \
                ^ (((w[617] << np.uint64(24)) | (w[616] >> np.uint64(8))) & M) \
                ^ ((w[620] << np.uint64(18)) & M)
            hi = w[1] ^ (((w[1] << np.uint64(8)) | (w[0] >> np.uint64(24))) & M) \
                ^ ((w[489] >> np.uint64(11)) & np.uint64(0xDDFECB7F)) \
                ^ (((w[618] << np.uint64(24)) | (w[617] >> np.uint64(8))) & M) \
                ^ ((w[621] << np.uint64(18)) & M)
            for t in range(targets.shape[0]):
                if lo == targets[t]:
                    hits[0, t] = seed + np.uint64(1)
                if hi == targets[t]:
                    hits[1, t] = seed + np.uint64(1)


def main():
    out = {}
    for name, scan, rows in (("tiny", tiny_scan, 6), ("mt", mt_scan, 2), ("sfmt", sfmt_scan, 2)):
        found = set()
        block = 1 << 28
        for b in range(16):
            hits = np.zeros((rows, TARGETS.size), np.uint64)
            scan(np.uint64(b * block), block, TARGETS, hits)
            found |= {int(v) - 1 for v in hits.ravel() if v}
            print(name, b, len(found), file=sys.stderr, flush=True)
        out[name] = sorted(found)
    print('"""Seeds whose first state words or draws are extreme (made by tools/findseeds.py)."""')
    for name, seeds in out.items():
        print(f"{name.upper()} = (")
        for i in range(0, len(seeds), 7):
            print("    " + ", ".join(f"{v:#x}" for v in seeds[i:i + 7]) + ",")
        print(")")


main()
