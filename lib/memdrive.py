"""Runs inside valgrind: one compiled driver over a generator, few imports.

argv: part seed reps journal; prints DONE <operations>"""
import importlib
import os
import random
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import nopyc  # noqa: E402
nopyc.install(os.environ["VERIF_REPO"])

PARTS = {  # module, class, kind
    "SIMDFastMersenneTwister": ("mersenne_twister", 1),
    "MersenneTwister": ("mersenne_twister", 1),
    "TinyMersenneTwister": ("mersenne_twister", 1),
    "Xorshift128": ("xorshift", 4),
    "Xoroshiro128PlusRejection": ("xorshift", 0),
    "SplitMixXoroshiro128Plus": ("xorshift", 0),
}


def main():
    part, seed, reps, journal = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    f = open(journal, "w", encoding="utf-8")

    def at(text):
        f.seek(0)
        f.write(text[:300].ljust(300) + "\n")
        f.flush()
    at("import")
    import numba as nb
    import numpy as np
    module, kind = PARTS[part]
    cls = getattr(importlib.import_module(f"numba_pokemon_prngs.{module}"), part)
    r = random.Random(f"{seed} {part}")
    if kind == 1:
        @nb.njit
        def drive(s, ops, args, out):
            rng = cls(s[0])
            for i in range(ops.shape[0]):
                if ops[i] == 1:
                    rng.advance(args[i])
                elif ops[i] == 2:
                    rng.shuffle()
                elif ops[i] == 3:
                    rng.re_init(args[i])
                else:
                    out[i] = rng.next()
    elif kind == 4:
        @nb.njit
        def drive(s, ops, args, out):
            rng = cls(s[0], s[1], s[2], s[3])
            for i in range(ops.shape[0]):
                if ops[i] == 1:
                    rng.advance(args[i])
                elif ops[i] == 2:
                    out[i] = rng.previous()
                elif ops[i] == 3:
                    rng.re_init(args[i], s[1], s[2], s[3])
                else:
                    out[i] = rng.next()
    else:
        @nb.njit
        def drive(s, ops, args, out):
            rng = cls(np.uint64(s[0]))
            for i in range(ops.shape[0]):
                if ops[i] == 1:
                    rng.advance(args[i])
                elif ops[i] == 2:
                    out[i] = rng.previous()
                elif ops[i] == 3:
                    rng.re_init(np.uint64(args[i]))
                else:
                    out[i] = rng.next()
    total, checksum = 0, 0
    for rep in range(reps):
        n = r.choice((20, 200, 700))
        s = np.array([r.getrandbits(32) | 1 for _ in range(4)], np.uint32)
        ops = np.array([0] * 3 + r.choices((0, 1, 2, 3), (30, 4, 2, 1), k=n - 3), np.uint8)
        args = np.array([r.choice((0, 1, 2, 311, 312, 313, 623, 624, 625, r.randrange(2000)))
                         for _ in range(n)], np.uint32)
        # a run of draws over the edge of a block
        if r.random() < 0.5:
            ops[: n // 2] = 0
        out = np.zeros(n, np.uint64)
        at(f"{part} seed {s[0]}: {n} operations")
        drive(s, ops, args, out)
        # deciding on every value makes memcheck judge it
        for v in out.tolist():
            checksum += 1 if v & 1 else 2
            if v % 7 == 3:
                checksum += 5
        total += n
        if time.process_time() > 420:
            break
    print("DONE", total, checksum, flush=True)
    os._exit(0)


main()
