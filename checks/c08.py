"""C08: Xorshift128 and both Xoroshiro128+ generators follow their recurrences."""
import numpy as np

from lib import fast, streams, sut
from lib.models import M32, M64, SMXORO, XORO, XS128, splitmix64
from lib.mon import SutFailure
from lib.rngspec import BY_NAME, edge_int, histories, rng_for, splitmix_seed
from lib.streams import ADVANCE, NEXT, PREVIOUS, REINIT, Family

RULE = ("one case = one program of draws, advances, steps back and re-seedings whose draws are "
        "compared with the published recurrence at the absolute position those calls stand for, "
        "one interactive history compared after every call (value and state), or one seed's "
        "first draws; distinct = distinct programs, histories and seeds")
REQUIRED = ["draws_compared", "calls:advance", "calls:re_init", "calls:previous", "seedings",
            "default_second_word", "histories:Xorshift128", "huge_advances", "far_advances"]
ASSUMPTIONS = ["references pinned to the published splitmix64 and xorshift128 vectors"]


def jobs(tier, seed):
    quick = tier == "quick"
    out = []
    for mode in ("numba", "numpy"):
        for cls in ("Xorshift128", "Xoroshiro128PlusRejection", "SplitMixXoroshiro128Plus"):
            fastm = mode == "numba"
            out.append({"func": "history", "mode": mode, "cls": cls,
                        "n": (200 if fastm else 40) * (1 if quick else 20)})
    for cls in ("Xorshift128", "Xoroshiro128PlusRejection", "SplitMixXoroshiro128Plus"):
        out += [{"func": "far", "mode": "numba", "cls": cls, "which": i}
                for i in range(2 if cls == "Xorshift128" else 3)]
    out.append({"func": "seeding", "mode": "numba", "n": 100_000 if quick else 20_000_000})
    out.append({"func": "seeding", "mode": "numpy", "n": 3000 if quick else 100_000})
    return out


def advances(r):
    return r.choice((0, 1, 2, 3, 7, 8, r.randrange(100), r.randrange(3000)))


def splitmix_state(seed):
    g = 0x9E3779B97F4A7C15
    return (splitmix64(seed + g), splitmix64(seed + 2 * g))


def family(mon, name):
    xs = sut.load(mon, "xorshift")
    fast.self_test("xs")
    if name == "Xorshift128":
        stream, dt, argc = fast.xs_stream, np.uint32, 4
        seed_of = lambda r: tuple(edge_int(r, 32) for _ in range(4))  # noqa: E731
    elif name == "Xoroshiro128PlusRejection":
        stream, dt, argc = (lambda s, a, n: fast.xoro_stream(s, 0, a, n)), np.uint64, 2
        seed_of = lambda r: tuple(edge_int(r, 64) for _ in range(2))  # noqa: E731
    else:
        stream = lambda s, a, n: fast.xoro_stream(splitmix_state(s[0]), 32, a, n)  # noqa: E731
        dt, argc = np.uint64, 1
        seed_of = lambda r: (splitmix_seed(r),)  # noqa: E731
    return Family(name, getattr(xs, name), dt, argc, seed_of, stream,
                  [NEXT, ADVANCE, PREVIOUS, REINIT], [30, 6, 8, 1], advances, np.uint32)


def history(mon, job):
    fam = family(mon, job["cls"])
    r = rng_for(job, job["cls"])
    numba = sut.use_numba()
    histories(mon, [(BY_NAME[fam.name], fam.cls)], r, 40, 120)
    streams.programs(mon, r, fam, job["n"], 2500 if numba else 400, 60_000)
    streams.long_advances(mon, r, fam)
    streams.sweep(mon, r, fam, job["n"] // 10, 0, 100_000 if numba else 2000)
    streams.sweep(mon, r, fam, job["n"] // 10, 1000, 1000 if numba else 100)


def far(mon, job):
    fam = family(mon, job["cls"])
    model = {"Xorshift128": XS128, "Xoroshiro128PlusRejection": XORO,
             "SplitMixXoroshiro128Plus": SMXORO}[fam.name]
    streams.far_advance(mon, rng_for(job, "far", fam.name), fam, lambda s: model(*s),
                        32 if model is XS128 else 64, lambda m: m.next(), model is not XS128)


def seeding(mon, job):
    """states right after construction and re-initialisation, and the first draws"""
    xs = sut.load(mon, "xorshift")
    r = rng_for(job, "seeding")
    numba = sut.use_numba()
    n = job["n"]

    def drive(rng, seeds, out):
        for i in range(seeds.shape[0]):
            rng.re_init(seeds[i])
            out[i, 0] = rng.next()
            out[i, 1] = rng.next()
    if numba:
        import numba as nb
        drive = nb.njit(drive)
    gen = np.random.Generator(np.random.PCG64(r.getrandbits(64)))
    g = np.uint64(0x9E3779B97F4A7C15)
    default = np.uint64(0x82A2B175229D6A5B)

    def mix(x):
        x = (x ^ (x >> np.uint64(30))) * np.uint64(0xBF58476D1CE4E5B9)
        x = (x ^ (x >> np.uint64(27))) * np.uint64(0x94D049BB133111EB)
        return x ^ (x >> np.uint64(31))
    left = n
    while left > 0:
        k = min(left, 500_000)
        left -= k
        seeds = gen.integers(0, 2 ** 64, size=k, dtype=np.uint64)
        seeds[:200] = [edge_int(r, 64) for _ in range(200)]
        for name in ("SplitMixXoroshiro128Plus", "Xoroshiro128PlusRejection"):
            out = np.zeros((k, 2), np.uint64)
            try:
                with mon.sut(f"{name}: first draws of {k} seeds"):
                    drive(getattr(xs, name)(np.uint64(1)), seeds, out)
            except SutFailure:
                continue
            with np.errstate(over="ignore"):
                if name.startswith("Split"):
                    a, b, shift = mix(seeds + g), mix(seeds + g + g), np.uint64(32)
                else:
                    a, b, shift = seeds, np.full(k, default), np.uint64(0)
                    mon.count("default_second_word", k)
                v0 = (a + b) >> shift
                c = a ^ b
                a2 = ((a << np.uint64(24)) | (a >> np.uint64(40))) ^ c ^ (c << np.uint64(16))
                b2 = (c << np.uint64(37)) | (c >> np.uint64(27))
                v1 = (a2 + b2) >> shift
            bad = np.nonzero((out[:, 0] != v0) | (out[:, 1] != v1))[0]
            mon.bulk(k, k)
            mon.count("seedings", k)
            if len(bad):
                i = int(bad[0])
                mon.violate(f"{name}: first draws of a seed differ from the reference",
                            seed=int(seeds[i]), got=out[i], want=[int(v0[i]), int(v1[i])])
    for _ in range(150):
        s = tuple(edge_int(r, 32) for _ in range(4))
        a, b = edge_int(r, 64), edge_int(r, 64)
        try:
            with mon.sut(f"Xorshift128{s} / Xoroshiro128PlusRejection({a}, {b}): state"):
                got = [int(v) for v in xs.Xorshift128(*(np.uint32(v) for v in s)).state]
                rng = xs.Xoroshiro128PlusRejection(np.uint64(a), np.uint64(b))
                got2 = [int(v) for v in rng.state]
                rng.re_init(np.uint64(b))
                got3 = [int(v) for v in rng.state]
                rng = xs.Xoroshiro128PlusRejection(np.uint64(a))
                got4 = [int(v) for v in rng.state]
                got5 = [int(v) for v in xs.SplitMixXoroshiro128Plus(np.uint64(a)).state]
        except SutFailure:
            return
        mon.case(("state", s, a, b))
        mon.same((got, got2, got3, got4, got5),
                 (list(s), [a, b], [b, int(default)], [a, int(default)],
                  list(splitmix_state(a))),
                 "a freshly seeded Xorshift/Xoroshiro state is not the documented one",
                 seeds=(s, a, b))
        mon.expect(max(got) <= M32 and max(got2) <= M64, "state out of width", state=got)
