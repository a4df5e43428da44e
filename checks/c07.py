"""C07: TinyMT is TinyMT32 with the published parameters, from every seed."""
import numpy as np

from lib import fast, streams, sut
from lib.models import M32, TinyMT
from lib.rngspec import rng_for
from lib.twister import family, history, long, seeds  # noqa: F401

RULE = ("one case = one program of draws, advances, shuffles, repeated tempering and re-seedings "
        "whose draws are compared with TinyMT32 at the absolute position those calls stand for, "
        "or the first draw of one seed, or a few draws from one placed state; distinct = distinct programs and seeds; every draw is "
        "also required to fit in 32 bits")
REQUIRED = ["draws_compared", "calls:shuffle", "calls:advance", "calls:re_init", "calls:temper",
            "width_checked", "huge_advances", "far_advances", "placed_states"]
ASSUMPTIONS = ["the reference is pinned to the published TinyMT32 vector of seed 1"]


def jobs(tier, seed):
    quick = tier == "quick"
    out = []
    for shard in range(2 if quick else 8):
        out.append({"func": "history", "mode": "numba", "shard": shard,
                    "n": 250 if quick else 5000})
    out.append({"func": "seeds", "mode": "numba", "n": 4_000_000})
    if not quick:
        out += [{"func": "every_seed", "mode": "numba", "shard": i} for i in range(16)]
    for shard in range(2 if quick else 6):
        out.append({"func": "history", "mode": "numpy", "shard": shard, "n": 25 if quick else 400})
    out += [{"func": "far", "mode": "numba", "which": i} for i in range(2)]
    for mode in ("numba", "numpy"):
        out.append({"func": "long", "mode": mode})
        out.append({"func": "states", "mode": mode, "n": 3000 if quick else 60_000})
        out.append({"func": "widths", "mode": mode, "n": 200 if quick else 5000})
    return out


def far(mon, job):
    streams.far_advance(mon, rng_for(job, "far"), family(mon, job), lambda s: TinyMT(*s), 32,
                        lambda m: m.shuffle(), False)


def widths(mon, job):
    """every value handed out fits in 32 bits and equals the reference"""
    fam = family(mon, job)
    r = rng_for(job, "width")
    for _ in range(job["n"]):
        seed = r.getrandbits(32)
        with mon.sut(f"TinyMersenneTwister({seed}): draws and repeated tempering"):
            rng = fam.make((seed,))
            got = []
            for _ in range(12):
                got += [int(rng.next()), int(rng.temper()), int(rng.temper())]
        want = [int(v) for v in fast.tiny_stream(seed, 0, 12) for _ in range(3)]
        mon.count("width_checked", len(got))
        mon.case(("width", seed))
        mon.expect(max(got) < 2 ** 32 and min(got) >= 0, "TinyMersenneTwister: a draw does not "
                   "fit in 32 bits", seed=seed, got=[hex(v) for v in got])
        if not mon.same(got, want, "TinyMersenneTwister: draws differ from the reference",
                        seed=seed):
            return


WORDS = (0, 0, 0, 1, 2, M32, 0x80000000, 0x7FFFFFFF, 0x80000001, 0xFF, 0xFFFFFF00, 0xFFFFFFFE,
         TinyMT.MAT1, TinyMT.MAT2, TinyMT.TMAT)


def states(mon, job):
    """every state lies on the one orbit all seeds share: walk from chosen ones"""
    fam = family(mon, job)
    r = rng_for(job, "states")
    model = TinyMT(1)
    with mon.sut("TinyMersenneTwister(1)"):
        rng = fam.make((1,))
    for _ in range(job["n"]):
        state = [r.choice(WORDS) if r.random() < 0.7 else r.getrandbits(32) for _ in range(4)]
        if not (state[0] & 0x7FFFFFFF or any(state[1:])):
            continue
        model.state = list(state)
        calls = [r.choice(("next", "next", "next", "temper", "shuffle")) for _ in range(6)]
        want = [getattr(model, c)() for c in calls]
        with mon.sut(f"TinyMersenneTwister in state {[hex(v) for v in state]}: {calls}"):
            for i, v in enumerate(state):
                rng.state[i] = v
            got = [getattr(rng, c)() for c in calls]
            got = [None if w is None else int(g) for g, w in zip(got, want)]
        mon.count("placed_states")
        mon.case(("state", tuple(state), tuple(calls)))
        if not mon.same(got, want, "TinyMersenneTwister: draws from a state differ from the "
                        "reference", state=[hex(v) for v in state], calls=calls):
            return


def every_seed(mon, job):
    """the first draw of a sixteenth of all 2^32 seeds"""
    import numba
    fam = family(mon, job)

    @numba.njit
    def drive(rng, first, out):
        for i in range(out.shape[0]):
            rng.re_init(np.uint32(first + i))
            out[i] = rng.next()

    @numba.njit
    def check(first, out):
        one = np.zeros(1, np.uint64)
        for i in range(out.shape[0]):
            fast.tiny_values(np.uint64(first + i), 0, one)
            if one[0] != out[i]:
                return i
        return -1
    rng = fam.make((0,))
    n = 1 << 20
    out = np.zeros(n, np.uint64)
    for block in range(256):
        first = (job["shard"] << 28) + block * n
        with mon.sut(f"TinyMersenneTwister: first draws of seeds {first}..{first + n - 1}"):
            drive(rng, first, out)
        mon.bulk(n, n)
        mon.count("draws_compared", n)
        bad = check(first, out)
        if bad >= 0:
            mon.violate("TinyMersenneTwister: first draw of a seed differs from the reference",
                        seed=first + bad, got=int(out[bad]))
            return
