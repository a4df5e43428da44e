"""C06: the SIMD-oriented twister is SFMT19937, vector and scalar build alike."""
from lib.twister import history, huge, seeds  # noqa: F401

RULE = ("one case = one program of draws, advances, shuffles and re-seedings whose draws are "
        "compared with SFMT19937 at the absolute position those calls stand for, one run of draws "
        "from one seed, or one advance of up to 2^32-1; distinct = distinct programs, seeds and "
        "advance lengths")
REQUIRED = ["draws_compared", "calls:shuffle", "calls:advance", "calls:re_init", "huge_advances",
            "certified_seeds", "corrected_seeds"]
ASSUMPTIONS = ["the reference is pinned to the published SFMT19937 vector of seed 1234",
               "a shuffle exactly on a block edge is only judged after seeding or a shuffle"]

def jobs(tier, seed):
    quick = tier == "quick"
    out = []
    for shard in range(2 if quick else 8):
        out.append({"func": "history", "mode": "numba", "shard": shard,
                    "n": 250 if quick else 6000})
    out.append({"func": "seeds", "mode": "numba", "n": 40_000 if quick else 4_000_000})
    out.append({"func": "huge", "mode": "numba", "n": 1 if quick else 6})
    for shard in range(2 if quick else 6):
        out.append({"func": "history", "mode": "numpy", "shard": shard, "n": 4 if quick else 80})
    out.append({"func": "huge", "mode": "numpy", "n": 1})
    return out
