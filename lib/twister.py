"""Jobs shared by the checks of the three twisters (C05, C06, C07)."""
import numpy as np

from . import fast, streams, sut
from .rngspec import BY_NAME, edge_int, histories, rng_for, twister_seed
from .streams import ADVANCE, NEXT, REINIT, SHUFFLE, TEMPER, Family

EDGE = (0, 1, 2, 226, 227, 228, 396, 397, 398, 622, 623, 624, 625, 1247, 1248, 1249, 1871, 1872,
        120, 121, 122, 152, 154, 155, 156, 310, 311, 312, 313, 935, 936, 937)


def seeds_of(kind):
    return lambda r: (twister_seed(r, kind),)


def few(r):
    return r.choice((0, 1, 2, 3, 7, 8, r.randrange(100), r.randrange(3000)))


def advances(r):
    return r.choice(EDGE) if r.random() < 0.7 else r.randrange(4000)


CONFIG = {
    "c05": ("MersenneTwister", "mt", fast.mt_stream, fast.mt_values, 624),
    "c06": ("SIMDFastMersenneTwister", "sfmt", fast.sfmt_stream, fast.sfmt_values, 312),
    "c07": ("TinyMersenneTwister", "tiny", fast.tiny_stream, fast.tiny_values, None),
}


def family(mon, job):
    name, kind, stream, _, block = CONFIG[job["module"]]
    mt = sut.load(mon, "mersenne_twister")
    fast.self_test(kind)
    kinds, weights = [NEXT, ADVANCE, SHUFFLE, REINIT], [30, 6, 2, 1]
    if block is None:
        kinds, weights = kinds + [TEMPER], weights + [5]
    return Family(name, getattr(mt, name), np.uint32, 1, seeds_of(kind), lambda s, a, n: stream(s[0], a, n),
                  kinds, weights, advances if block else few, np.uint32, block)


def history(mon, job):
    fam = family(mon, job)
    r = rng_for(job, "history")
    # the bulk reference itself, against numpy's generator
    for _ in range(4 if job["module"] == "c05" else 0):
        s = edge_int(r, 32)
        raw = np.random.RandomState(s)._bit_generator.random_raw(5000)
        if raw.tolist() != fast.mt_stream(s, 0, 5000).tolist():
            raise RuntimeError("reference disagrees with numpy's MT19937")
        mon.count("numpy_oracle", 5000)
    numba = sut.use_numba()
    streams.programs(mon, r, fam, job["n"], 2500 if numba else 500, 60_000)
    # typed Python-level calls, one by one, against the step-by-step model
    mt = sut.load(mon, "mersenne_twister")
    histories(mon, [(BY_NAME[fam.name], getattr(mt, fam.name))], r, 6 if numba else 4, 120)
    # draw by draw over several regenerations, every position
    streams.sweep(mon, r, fam, 20 if numba else 6, 0, 20_000 if numba else 2600)
    for start in EDGE:
        streams.sweep(mon, r, fam, 8 if numba else 2, start, 1400 if numba else 650)


def seeds(mon, job):
    """many seeds, few draws"""
    fam = family(mon, job)
    r = rng_for(job, "seeds")
    if job["module"] == "c06":
        one = np.zeros(1, np.uint64)
        for _ in range(2000):
            odd = fast.sfmt_values(np.uint64(edge_int(r, 32)), 0, one)
            mon.count("certified_seeds" if odd else "corrected_seeds")
        r = rng_for(job, "seeds")
    streams.sweep(mon, r, fam, job["n"] // 20, 0, 700)
    bulk_seeds(mon, job, fam, r, job["n"])


def bulk_seeds(mon, job, fam, r, count):
    """first draws of `count` seeds: consecutive ranges with random starts"""
    import numba

    @numba.njit
    def drive(rng, first, out):
        for i in range(out.shape[0]):
            rng.re_init(np.uint32(first + i))
            out[i] = rng.next()
    bulk(mon, fam, r, count, drive, CONFIG[job["module"]][3])


def bulk(mon, fam, r, count, drive, values):
    import numba

    @numba.njit
    def model(first, out):
        one = np.zeros(1, np.uint64)
        for i in range(out.shape[0]):
            values(np.uint64((first + i) & 0xFFFFFFFF), 0, one)
            out[i] = one[0]
    with mon.sut(f"{fam.name}(0)"):
        rng = fam.make((0,))
    left = count
    while left > 0:
        n = min(left, 20_000)
        first = edge_int(r, 32)
        first = min(first, 2 ** 32 - n)
        got, want = np.zeros(n, np.uint64), np.zeros(n, np.uint64)
        with mon.sut(f"{fam.name}: first draws of seeds {first}..{first + n - 1}"):
            drive(rng, first, got)
        model(first, want)
        bad = np.nonzero(got != want)[0]
        mon.bulk(n, n)
        mon.count("draws_compared", n)
        if len(bad):
            k = int(bad[0])
            mon.violate(f"{fam.name}: first draw of a seed differs from the reference",
                        seed=first + k, got=int(got[k]), want=int(want[k]))
            return
        left -= n


def huge(mon, job):
    """advances of up to 2^32 - 1, from anywhere in a block"""
    fam = family(mon, job)
    r = rng_for(job, "huge")
    top = 2 ** 32 - 1
    if not sut.use_numba():
        for pre, n in ((0, top), (1, top), (r.randrange(700), top - r.randrange(1300)),
                       (r.randrange(1, 700), 2 ** 31)):
            streams.huge_advance(mon, fam, fam.seed_of(r), pre, n, 1.0)
        return
    for _ in range(job["n"]):
        # one seed, one pass of the reference over all the places they end at
        seed = fam.seed_of(r)
        cases = [(r.choice((0, 624, r.randrange(700))), top - k) for k in (0, r.randrange(4000, 6000))]
        cases += [(r.randrange(1, 624), 2 ** 31), (r.randrange(700), r.getrandbits(32))]
        cases.sort(key=sum)
        # the reference pass needs them at least a block apart
        cases = [c for i, c in enumerate(cases) if not i or sum(c) - sum(cases[i - 1]) > 2000]
        want = np.zeros((len(cases), 5), np.uint64)
        at = np.array([sum(c) for c in cases], np.int64)
        (fast.mt_values_at if job["module"] == "c05" else fast.sfmt_values_at)(
            np.uint64(seed[0]), at, want)
        for (pre, n), values in zip(cases, want):
            streams.huge_advance(mon, fam, seed, pre, n, None, values)
        for _ in range(40):
            streams.huge_advance(mon, fam, fam.seed_of(r), r.randrange(700),
                                 r.getrandbits(r.randrange(10, 26)))


def long(mon, job):
    streams.long_advances(mon, rng_for(job, "long"), family(mon, job))
