"""C02: jump/const_jump/advance by n == n single draws."""
import numpy as np

from lib import sut
from lib.models import LCG, LCRNGS, lcg_model
from lib.mon import SutFailure
from lib.rngspec import edge_int, lcg_families, rng_for

RULE = ("one case = (class, seed, distance, way of jumping); the distances are every power of "
        "two of the width, its neighbours, every all-ones prefix, sparse/dense/random values; "
        "the ways are jump, pre-compiled constant jump, two composed jumps, stepwise advance; "
        "the oracle is exponentiation of the affine map, itself checked against stepwise draws; "
        "distinct = distinct (class, seed, distance, way)")
REQUIRED = ["jump", "const_jump", "advance", "compose", "numpy_typed", "step_check",
            "families", "long"]
ASSUMPTIONS = ["affine exponentiation in Python integers, cross-checked by stepping the real "
               "generator"]


def jobs(tier, seed):
    shards = 3 if tier == "quick" else 6
    out = []
    for mode in ("numba", "numpy"):
        out += [{"func": "run", "mode": mode, "shard": i, "shards": shards,
                 "n": 1 if tier == "quick" else 10} for i in range(shards)]
        out += [{"func": "grid", "mode": mode, "shard": i,
                 "n": (14 if mode == "numba" else 120) * (1 if tier == "quick" else 6)}
                for i in range(2)]
    out += [{"func": "long", "mode": "numba", "width": w, "shard": w} for w in (32, 64)]
    return out


def grid(mon, job):
    """factory-made classes of every family of constants"""
    lcrng = sut.load(mon, "lcrng")
    r = rng_for(job, "grid")
    todo = []
    while len(todo) < job["n"]:
        for width in (32, 64):
            pairs = lcg_families(r, width)
            todo += [(width, m, a, rev) for m, a in pairs for rev in (False, True) if m & 1
                     or not rev]
    # every run: no increment, and no multiplier, in each width and direction
    r.shuffle(todo)
    todo.sort(key=lambda t: not (t[2] == 0 or t[1] == 1) or r.random() < 0.5)
    half = [t for t in todo if (t[0] == 32) == (job["shard"] == 0)]
    for width, mult, add, reverse in half[:job["n"]]:
        if mon.too_many:
            return
        init = lcrng.lcrng32_init if width == 32 else lcrng.lcrng64_init
        base = lcrng.LCRNG32 if width == 32 else lcrng.LCRNG64
        label = f"custom{width}(mult={mult:#x},add={add:#x},reverse={reverse})"
        m2, a2 = LCG.reverse_of(width, mult, add) if reverse else (mult, add)
        try:
            with mon.sut("build " + label):
                @init(add=add, mult=mult, reverse=reverse)
                class Custom(base):
                    """factory-made LCRNG"""
            mon.count("families")
            exercise(mon, job, r, label, Custom, lambda s: LCG(width, m2, a2, s), width, 1,
                     brief=True)
        except SutFailure:
            continue


def distances(r, width, n):
    top = (1 << width) - 1
    out = [0, top, top - 1, 3, 5, 10, 100]
    for b in range(width):
        out += [1 << b, (1 << b) - 1, ((1 << b) + 1) & top, top ^ (1 << b), top ^ ((1 << b) - 1)]
    out += [edge_int(r, width) for _ in range(150 * n)]
    return out


def as_arg(r, n, nt, mon):
    if n >> 63 or r.random() < 0.5:
        mon.count("numpy_typed")
        return nt(n)
    return n


def exercise(mon, job, r, label, cls, make_model, width, n, brief=False):
    nt = np.uint32 if width == 32 else np.uint64
    numba_mode = sut.use_numba()
    ds = distances(r, width, n)
    ref = make_model(0)

    def check(way, seed, dist, seed_got, ret):
        a, c = ref.affine(dist)
        want = (seed * a + c) & ref.mask
        mon.case((label, way, seed, dist))
        mon.count(way)
        if seed_got != want or (ret is not None and ret != want):
            mon.violate(f"{label}: {way} by {dist:#x} from {seed:#x} lands elsewhere than "
                        f"{dist:#x} draws", got_seed=seed_got, returned=ret, want=want)
        mon.sample({"class": label, "way": way, "seed": hex(seed), "n": hex(dist),
                    "seed_after": hex(seed_got)}, 2)

    # plain jumps
    for dist in ds:
        for seed in (edge_int(r, width), 0):
            with mon.sut(f"{label}({seed:#x}).jump({dist:#x})"):
                rng = cls(nt(seed))
                ret = int(rng.jump(as_arg(r, dist, nt, mon)))
                got = int(rng.seed)
            check("jump", seed, dist, got, ret)
    # composed
    for _ in range(10 if brief else 60 * n):
        seed, a, b = (edge_int(r, width) for _ in range(3))
        with mon.sut(f"{label}({seed:#x}).jump({a:#x}).jump({b:#x})"):
            rng = cls(nt(seed))
            rng.jump(nt(a))
            ret = int(rng.jump(nt(b)))
            got = int(rng.seed)
            nxt = int(rng.next())
        check("compose", seed, a + b, got, ret)
        mon.same(nxt, (got * ref.mult + ref.add) & ref.mask,
                 f"{label}: first draw after a jump is not the next of the landing seed",
                 seed=seed, a=a, b=b)
    # constant jumps (compiled one by one under numba)
    if numba_mode:
        picked = r.sample(ds, 2 if brief else 14 * n) + [(1 << width) - 1, 1 << (width - 1)]
    else:
        picked = r.sample(ds, 40) if brief else ds
    for dist in picked:
        with mon.sut(f"{label}.const_jump({dist:#x})"):
            func = cls.const_jump(as_arg(r, dist, nt, mon))
        for seed in (edge_int(r, width), edge_int(r, width)):
            with mon.sut(f"{label}.const_jump({dist:#x})(seed={seed:#x})"):
                rng = cls(nt(seed))
                ret = int(func(rng))
                got = int(rng.seed)
            check("const_jump", seed, dist, got, ret)
    # a pre-computed jump may be applied repeatedly
    for dist in picked[:3]:
        seed = edge_int(r, width)
        with mon.sut(f"{label}.const_jump({dist:#x}) three times from {seed:#x}"):
            func = cls.const_jump(nt(dist))
            rng = cls(nt(seed))
            for _ in range(3):
                func(rng)
            got = int(rng.seed)
        check("const_jump", seed, 3 * dist, got, None)
    if brief:
        return
    # stepwise advance, and stepping itself
    steps = [0, 1, 2, 3, 31, 32, 33, 63, 64, 65, 255, 256, 257, r.randrange(1000)]
    steps.append(r.choice((65536, 65537, 98304 + r.randrange(32768))))
    if numba_mode:
        steps += [65535, 65536, 65537, r.randrange(1 << 20), (1 << 22) + r.randrange(1 << 22)]
    for dist in steps:
        seed = edge_int(r, width)
        with mon.sut(f"{label}({seed:#x}).advance({dist})"):
            rng = cls(nt(seed))
            ret = int(rng.advance(as_arg(r, dist, nt, mon)))
            got = int(rng.seed)
        check("advance", seed, dist, got, ret)
    # every short distance
    for dist in range(4096) if numba_mode else r.sample(range(4096), 60):
        seed = r.getrandbits(width)
        with mon.sut(f"{label}({seed:#x}).advance({dist})"):
            rng = cls(nt(seed))
            ret = int(rng.advance(nt(dist)))
            got = int(rng.seed)
        check("advance", seed, dist, got, ret)
    for dist in (0, 1, 2, 7, 100, 257):
        seed = edge_int(r, width)
        with mon.sut(f"{label}({seed:#x}): {dist} x next()"):
            rng = cls(nt(seed))
            for _ in range(dist):
                rng.next()
            got = int(rng.seed)
        check("step_check", seed, dist, got, None)


def run(mon, job):
    lcrng = sut.load(mon, "lcrng")
    r = rng_for(job, "run")
    shard, shards = job["shard"], job["shards"]
    targets = []
    for name in LCRNGS:
        targets.append((name, LCRNGS[name][0], None))
    extra = 3 if sut.use_numba() else 9
    rr = rng_for({"seed": job["seed"]}, "custom")
    for k in range(extra):
        width = 64 if k % 2 else 32
        targets.append((f"custom{k}", width, (edge_int(rr, width), edge_int(rr, width))))
    for i, (name, width, consts) in enumerate(targets):
        if i % shards != shard:
            continue
        try:
            if consts is None:
                exercise(mon, job, r, name, getattr(lcrng, name),
                         lambda s, n=name: lcg_model(n, s), width, job["n"])
                continue
            mult, add = consts
            reverse = bool(mult & 1) and rr.random() < 0.5
            init = lcrng.lcrng32_init if width == 32 else lcrng.lcrng64_init
            base = lcrng.LCRNG32 if width == 32 else lcrng.LCRNG64
            label = f"custom{width}(mult={mult:#x},add={add:#x},reverse={reverse})"
            with mon.sut("build " + label):
                @init(add=add, mult=mult, reverse=reverse)
                class Custom(base):
                    """factory-made LCRNG"""
            m2, a2 = LCG.reverse_of(width, mult, add) if reverse else (mult, add)
            exercise(mon, job, r, label, Custom, lambda s: LCG(width, m2, a2, s), width, job["n"])
        except SutFailure:
            continue


def long(mon, job):
    """stepwise advances by distances near and beyond the ends of 31 and 32 bits"""
    lcrng = sut.load(mon, "lcrng")
    r = rng_for(job, "long")
    width = job["width"]
    name = r.choice([n for n in LCRNGS if LCRNGS[n][0] == width])
    nt = np.uint32 if width == 32 else np.uint64
    todo = [0x80000000 + r.getrandbits(r.choice((8, 20))), 0xFFFF0000 + r.getrandbits(16)]
    if width == 64:
        todo += [(1 << 32) + r.getrandbits(r.choice((4, 20)))]
    if job["tier"] == "thorough":
        todo += [0xFFFFFFFF] if width == 32 else [(1 << 32) - 1, (1 << 33) + r.getrandbits(20)]
    for n in todo:
        seed = edge_int(r, width)
        with mon.sut(f"{name}({seed:#x}).advance({n:#x})"):
            rng = getattr(lcrng, name)(nt(seed))
            ret = int(rng.advance(nt(n)))
        mon.same(ret, lcg_model(name, seed).jump(n),
                 f"{name}: advance by {n:#x} from {seed:#x} lands elsewhere")
        mon.count("advance")
        mon.count("long")
        mon.case((name, "advance", seed, n))
