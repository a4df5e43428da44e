"""C04: bounded draws stay in range and follow their distribution exactly."""
import copy

import numpy as np

from lib import sut
from lib.models import LCG, LCRNGS, M32, M64, XS128, covering_mask, dist_recip, lcg_model
from lib.mon import SutFailure
from lib.rngspec import (ALL_SPECS, LCG_SPECS, BY_NAME, Pair, bound, edge_int, irange, plain,
                         rng_for, typed)

RULE = ("one case = one bounded draw (class, kind of draw, bound or limits, consumed draw) "
        "compared with the documented map of the draw it consumes, and the generator's position "
        "after it; bounds are aimed at the boundaries of the map for the draw at hand "
        "(divisors and neighbours for modulo, block edges for reciprocal division, carries for "
        "multiplication-shift, masks for rejection), plus sweeps over every bound; distinct = "
        "distinct (class, kind, bound, draw) tuples")
REQUIRED = ["aimed", "swept", "const_rand", "rejections", "float_draws", "limits", "structured_bounds"]
ASSUMPTIONS = ["bounds of at least 1 that fit the documented type",
               "float draws are compared within 8 units in the last place of a float32"]

LCG_KINDS = {"mod": lambda u, m: u % m, "recip": dist_recip,
             "mulshift": lambda u, m: (u * m) >> 32}


def jobs(tier, seed):
    n = 1 if tier == "quick" else 15
    out = []
    for mode in ("numba", "numpy"):
        out.append({"func": "aimed", "mode": mode, "n": n})
        out.append({"func": "consts", "mode": mode, "n": n})
        for half in range(2):
            out.append({"func": "sweep", "mode": mode, "n": n, "shard": half})
        out.append({"func": "floats", "mode": mode, "n": n})
        out.append({"func": "bounds", "mode": mode, "n": n})
    if tier == "thorough":
        out += [{"func": "exhaustive", "mode": "numba", "cls": c, "stall_cpu": 2000}
                for c, v in LCRNGS.items() if v[0] == 32]
    return out


def aim(r, u, ubits, mbits, kind):
    """a bound at a boundary of the map for the draw u"""
    top = (1 << mbits) - 1
    k = r.randrange(8)
    if k == 0:
        m = bound(r, mbits)
    elif kind in ("mod", "reject"):
        d = r.choice((1, 2, 3, 5, 7, r.randrange(1, 100)))
        m = r.choice((u, u + 1, u - 1, u // d, u // d + 1, u >> r.randrange(ubits),
                      (u >> r.randrange(ubits)) + 1, covering_mask(max(u, 1)) + 1))
    elif kind == "recip":
        # 0xFFFF // m + 1 near a divisor of u or of u + 1
        d = r.choice((1, 2, 3, 4, 5, r.randrange(1, 200)))
        block = max(1, (u + r.choice((0, 1))) // d)
        m = 0xFFFF // block + r.choice((-1, 0, 1))
    else:
        q = r.randrange(1, 1 << r.randrange(1, mbits + 1))
        m = -(-(q << ubits) // max(u, 1)) + r.choice((-1, 0, 0, 1))
    return min(max(m, 1), top)


KIND_OF = {"next_rand_mod": "mod", "next_alternate_rand": "mod"}


def kind_of(spec, op):
    if op in KIND_OF:
        return KIND_OF[op]
    if spec.group in LCRNGS:
        return LCRNGS[spec.group][4]
    return {"MersenneTwister": "mulshift", "TinyMersenneTwister": "mulshift",
            "Xoroshiro128PlusRejection": "reject"}.get(spec.name, "mod")


def aimed(mon, job):
    """histories of bounded draws, every bound aimed at the coming draw"""
    lcrng, mt, xs = sut.load(mon, "lcrng", "mersenne_twister", "xorshift")
    r = rng_for(job, "aimed")
    for spec in ALL_SPECS:
        cls = getattr({"lcrng": lcrng, "mersenne_twister": mt, "xorshift": xs}[spec.module],
                      spec.name)
        ops = [o for o in spec.ops if "rand" in o.name]
        lcg = spec.group in LCRNGS
        half = spec.by_name.get("next_u16") or spec.by_name.get("next_u32")
        if lcg:
            ubits = mbits = LCRNGS[spec.group][0] // 2
            t = np.uint16 if mbits == 16 else np.uint32
        else:
            ubits = 64 if spec.name in ("SIMDFastMersenneTwister",
                                        "Xoroshiro128PlusRejection") else 32
            mbits = 64 if spec.name == "SIMDFastMersenneTwister" else 32
            t = np.uint64 if mbits == 64 else np.uint32
        try:
            for h in range(8 * job["n"]):
                pair = Pair(mon, spec, cls, spec.seeds(r))
                for _ in range(120):
                    op = r.choice(ops)
                    peek = copy.deepcopy(pair.model)
                    u = peek.half() if lcg else peek.next()
                    if op.name == "next_randrange":
                        args = irange(r)
                        mon.count("limits")
                    else:
                        kind = kind_of(spec, op.name)
                        seen = u & M32 if op.name == "next_alternate_rand" else u
                        args = (typed(r, aim(r, seen, ubits, mbits, kind), t),)
                        if kind == "reject" and u & covering_mask(int(args[0])) >= int(args[0]):
                            mon.count("rejections")
                    ok = pair.step(r, op, args)
                    mon.case((spec.name, op.name, plain(args), u))
                    mon.count("aimed")
                    # position afterwards, in full draws
                    if ok and r.random() < 0.4:
                        ok = pair.step(r, spec.by_name["next"], ())
                    if not ok:
                        break
                if h == 0:
                    mon.sample({"class": spec.name, "calls": pair.trace[:8]}, 16)
                if mon.too_many:
                    return
        except SutFailure:
            continue
    # rejection, first draws placed exactly at the bound (0, m-1, m, mask)
    for _ in range(300 * job["n"]):
        m = bound(r, 32)
        mask = covering_mask(m)
        low = r.choice((0, m - 1, m, mask, m + 1)) & mask
        a = r.getrandbits(64)
        b = (((r.getrandbits(64) & ~mask) | low) - a) & M64
        spec = BY_NAME["Xoroshiro128PlusRejection"]
        try:
            pair = Pair(mon, spec, xs.Xoroshiro128PlusRejection, (np.uint64(a), np.uint64(b)))
            pair.step(r, spec.by_name["next_rand"], (typed(r, m, np.uint32),))
            mon.count("rejections", low >= m)
            mon.case(("reject", m, low))
        except SutFailure:
            break
    # xorshift draws placed at the edges of its ranges
    spec = BY_NAME["Xorshift128"]
    for _ in range(300 * job["n"]):
        lo, hi = irange(r)
        diff = int(hi) - int(lo)
        u = r.choice((0, diff - 1, diff, M32, 2 * diff - 1, 2 * diff, 0x80000000, 0x7FFFFFFF,
                      0xFFFFFFFE, r.getrandbits(32))) & M32
        model = XS128(r.getrandbits(32), r.getrandbits(32), r.getrandbits(32), u)
        model.previous()
        try:
            pair = Pair(mon, spec, xs.Xorshift128, tuple(np.uint32(v) for v in model.state))
            if r.random() < 0.6:
                pair.step(r, spec.by_name["next_randrange"], (lo, hi))
            else:
                m = aim(r, (u % M32 - 0x80000000) & M32, 32, 32, "mod")
                pair.step(r, spec.by_name["next_alternate_rand"], (typed(r, m, np.uint32),))
            mon.count("limits")
            mon.case(("xs", lo, hi, u))
        except SutFailure:
            break


def consts(mon, job):
    """pre-compiled constant bounds against the same call with that bound"""
    lcrng = sut.load(mon, "lcrng")
    r = rng_for(job, "consts")
    numba_mode = sut.use_numba()
    for spec in LCG_SPECS:
        cls = getattr(lcrng, spec.name)
        width, _, _, _, dist, _ = LCRNGS[spec.name]
        hb = width // 2
        t = np.uint16 if hb == 16 else np.uint32
        nt = np.uint32 if width == 32 else np.uint64
        maxima = {1, 2, 3, 25, 100, (1 << hb) - 1, 1 << (hb - 1)}
        maxima = r.sample(sorted(maxima), 4) if numba_mode else sorted(maxima)
        for _ in range((3 if numba_mode else 60) * job["n"]):
            maxima.append(bound(r, hb))
        for m in maxima:
            try:
                with mon.sut(f"{spec.name}.const_rand({m})"):
                    func = cls.const_rand(typed(r, m, t))
                for _ in range(40):
                    u = r.choice((0, (1 << hb) - 1, m, m - 1, edge_int(r, hb), edge_int(r, hb)))
                    after = (u & ((1 << hb) - 1)) << hb | r.getrandbits(hb)
                    back = lcg_model(spec.name)
                    inv, add = LCG.reverse_of(width, back.mult, back.add)
                    seed = (after * inv + add) & back.mask
                    with mon.sut(f"{spec.name}.const_rand({m}) from seed {seed:#x}"):
                        a, b = cls(nt(seed)), cls(nt(seed))
                        got, plain_got = int(func(a)), int(b.next_rand(t(m)))
                        sa, sb = int(a.seed), int(b.seed)
                    want = LCG_KINDS[dist](after >> hb, m)
                    mon.case((spec.name, "const", m, after >> hb))
                    mon.count("const_rand")
                    if (got, sa) != (want, after) or (plain_got, sb) != (want, after):
                        mon.violate(f"{spec.name}: a constant-bound draw differs from the "
                                    "distribution or from the same draw with that bound",
                                    bound=m, seed=hex(seed), const=(got, sa),
                                    plain=(plain_got, sb), want=(want, after))
                        break
            except SutFailure:
                break


def lcg_driver(numba_mode):
    def drive(rng, seeds, ms, out, after):
        for i in range(seeds.shape[0]):
            rng.re_init(seeds[i])
            out[i] = rng.next_rand(ms[i])
            after[i] = rng.seed
    if numba_mode:
        import numba
        return numba.njit(drive)
    return drive


def sweep(mon, job):
    """every bound (numba: all of them; numpy: a sample), draws at block edges"""
    lcrng = sut.load(mon, "lcrng")
    r = rng_for(job, "sweep")
    gen = np.random.Generator(np.random.PCG64(r.getrandbits(64)))
    numba_mode = sut.use_numba()
    for k, spec in enumerate(LCG_SPECS):
        if k % 2 != job["shard"]:
            continue
        width, _, _, _, dist, _ = LCRNGS[spec.name]
        hb = width // 2
        t, nt = (np.uint16, np.uint32) if width == 32 else (np.uint32, np.uint64)
        cls = getattr(lcrng, spec.name)
        reps = (16 if numba_mode else 1) * job["n"]
        if width == 32:
            m = np.arange(1, 65536, dtype=np.uint64)
            if not numba_mode:
                m = gen.choice(m, 2500 * min(job["n"], 10), replace=False)
        else:
            m = gen.integers(1, 1 << 32, size=65536 if numba_mode else 2500, dtype=np.uint64)
            m >>= gen.integers(0, 32, size=m.size, dtype=np.uint64)
            m[m == 0] = 1
        drive = lcg_driver(numba_mode)
        model = lcg_model(spec.name)
        inv, add = LCG.reverse_of(width, model.mult, model.add)
        for rep in range(reps):
            q = gen.integers(0, 1 << 16, size=m.size, dtype=np.uint64)
            if dist == "mod":
                u = (q % (np.uint64(65535) // m + np.uint64(1))) * m
            elif dist == "recip":
                u = (q % m) * (np.uint64(0xFFFF) // m + np.uint64(1))
            else:
                qq = gen.integers(0, 1 << 32, size=m.size, dtype=np.uint64) % m
                u = ((qq << np.uint64(32)) + m - np.uint64(1)) // m
            if rep % 4 == 1:
                u -= np.uint64(1)
            elif rep % 4 == 2:
                u += np.uint64(1)
            elif rep % 4 == 3:
                u = gen.integers(0, 1 << hb, size=m.size, dtype=np.uint64)
            u &= np.uint64((1 << hb) - 1)
            low = gen.integers(0, 1 << hb, size=m.size, dtype=np.uint64)
            after_want = (u << np.uint64(hb)) | low
            with np.errstate(over="ignore"):
                seeds = (after_want * np.uint64(inv) + np.uint64(add)) & np.uint64(model.mask)
            out = np.zeros(m.size, np.uint64)
            after = np.zeros(m.size, np.uint64)
            try:
                with mon.sut(f"{spec.name}: bounded draws over {m.size} bounds"):
                    drive(cls(nt(0)), seeds.astype(nt), m.astype(t), out, after)
            except SutFailure:
                break
            if dist == "mod":
                want = u % m
            elif dist == "recip":
                want = u // (np.uint64(0xFFFF) // m + np.uint64(1))
            else:
                want = (u * m) >> np.uint64(32)
            bad = np.nonzero((out != want) | (after != after_want) | (out >= m))[0]
            mon.count("swept", m.size)
            mon.bulk(m.size, np.unique(m * np.uint64(1 << 20) ^ u).size)
            if len(bad):
                i = int(bad[0])
                mon.violate(f"{spec.name}: bounded draw differs from its distribution",
                            bound=int(m[i]), draw=int(u[i]), got=int(out[i]), want=int(want[i]),
                            seed_after=int(after[i]), want_after=int(after_want[i]))
                break


def structured(bits):
    """2^a + d, 2^a + 2^b + d and 2^a - 2^b + d: every way carries and masks can end"""
    top = (1 << bits) - 1
    out = set()
    for a in range(bits):
        for d in (-1, 0, 1, 2):
            out.add((1 << a) + d)
            for b in range(a):
                out.add((1 << a) + (1 << b) + d)
                out.add((1 << a) - (1 << b) + d)
        out.add(top - (1 << a))
    out.add(top)
    return sorted(v for v in out if 1 <= v <= top)


def bounds(mon, job):
    """every bounded draw over all structured bounds, several draws each, against the model"""
    lcrng, mt, xs = sut.load(mon, "lcrng", "mersenne_twister", "xorshift")
    r = rng_for(job, "bounds")
    numba_mode = sut.use_numba()
    for spec in ALL_SPECS:
        cls = getattr({"lcrng": lcrng, "mersenne_twister": mt, "xorshift": xs}[spec.module],
                      spec.name)
        for op in spec.ops:
            if "rand" not in op.name or op.name == "next_randrange":
                continue
            bits = 64 if spec.name == "SIMDFastMersenneTwister" else 32
            if spec.group in LCRNGS:
                bits = LCRNGS[spec.group][0] // 2
            t = {16: np.uint16, 32: np.uint32, 64: np.uint64}[bits]
            ms = structured(bits)
            r.shuffle(ms)
            # rejecting draws need several chances to be told apart; the others one
            reps = 6 if spec.name == "Xoroshiro128PlusRejection" else 2
            ms = (ms if job["tier"] == "thorough" else ms[:4000]) * reps
            # and many without structure
            plain_ms = [max(1, r.getrandbits(r.randrange(1, bits + 1)))
                        for _ in range(8000 if numba_mode else 2000)]
            ms += plain_ms
            arr = np.array(ms, t)
            out = np.zeros(arr.size, np.uint64)
            seeds = spec.seeds(r)

            src = (f"def drive(rng, ms, out):\n    for i in range(ms.shape[0]):\n"
                   f"        out[i] = rng.{op.name}(ms[i])\n")
            ns = {}
            exec(src, ns)
            drive = ns["drive"]
            if numba_mode:
                import numba
                drive = numba.njit(drive)
            try:
                with mon.sut(f"{spec.name}{plain(seeds)}: {arr.size} x {op.name}"):
                    rng = cls(*seeds)
                    drive(rng, arr, out)
                    nxt = int(rng.next())
            except SutFailure:
                continue
            model = spec.model(*plain(seeds))
            mon.bulk(arr.size, len(set(ms)))
            mon.count("structured_bounds", arr.size)
            for i, m in enumerate(ms):
                want = op.model(model, m)
                if int(out[i]) != want:
                    mon.violate(f"{spec.name}.{op.name}: a bounded draw differs from the model",
                                seeds=plain(seeds), call_number=i, bound=m, got=int(out[i]),
                                want=want, bounds_before=ms[max(0, i - 3):i])
                    break
            else:
                mon.same(nxt, model.next(), f"{spec.name}.{op.name}: the stream continues "
                         "elsewhere after bounded draws", seeds=plain(seeds))


def exhaustive(mon, job):
    """every (bound, 16-bit draw) pair of one class"""
    import numba
    lcrng = sut.load(mon, "lcrng")
    name = job["cls"]
    dist = LCRNGS[name][4]
    model = lcg_model(name)
    inv, add = LCG.reverse_of(32, model.mult, model.add)
    seeds = np.empty(65536, np.uint32)
    low = np.random.Generator(np.random.PCG64(job["seed"])).integers(0, 65536, 65536)
    for u in range(65536):
        seeds[u] = ((u << 16 | int(low[u])) * inv + add) & M32

    @numba.njit
    def drive(rng, seeds, m0, m1, recip):
        for m in range(m0, m1):
            block = 0xFFFF // m + 1
            for u in range(65536):
                rng.re_init(seeds[u])
                got = np.int64(rng.next_rand(np.uint16(m)))
                want = u // block if recip else u % m
                if got != want or np.int64(rng.seed) >> 16 != u:
                    return m, u, got
        return 0, 0, 0

    rng = getattr(lcrng, name)(np.uint32(0))
    for m0 in range(1, 65536, 256):
        m1 = min(m0 + 256, 65536)
        with mon.sut(f"{name}: all draws for bounds {m0}..{m1 - 1}"):
            m, u, got = drive(rng, seeds, m0, m1, dist == "recip")
        mon.count("swept", (m1 - m0) * 65536)
        mon.bulk((m1 - m0) * 65536, (m1 - m0) * 65536)
        if m:
            mon.violate(f"{name}: bounded draw differs from its distribution", bound=m, draw=u,
                        got=got, want=LCG_KINDS[dist](u, m))
            return


def floats(mon, job):
    xs = sut.load(mon, "xorshift")
    r = rng_for(job, "floats")
    fixed = [(0.0, 1.0), (-1.0, 1.0), (0.0, 100.0), (-0.5, 0.5), (1.0, 1.0), (3.0, -3.0),
             (0.0, 1e30), (-1e30, 1e30), (1e-30, 2e-30), (0.0, 0.0), (100.0, 100.25)]
    for k in range(1500 * job["n"]):
        if k < len(fixed) * 8:
            lo, hi = fixed[k % len(fixed)]
        else:
            e = r.randrange(-60, 60)
            lo, hi = (r.uniform(-1, 1) * 2.0 ** e, r.uniform(-1, 1) * 2.0 ** (e + r.randrange(4)))
        lo, hi = np.float32(lo), np.float32(hi)
        if hi < lo:
            lo, hi = hi, lo
        u = r.choice((0, 0x7FFFFF, 0x800000, 0x7FFFFE, 1, M32, 0xFF800000, edge_int(r, 32),
                      r.getrandbits(32), r.getrandbits(32)))
        model = XS128(*(r.getrandbits(32) for _ in range(3)), u)
        want_state = list(model.state)
        model.previous()
        args = (lo, hi) if r.random() < 0.6 else (float(lo), float(hi))
        try:
            with mon.sut(f"Xorshift128{model.state}.next_float_randrange{args}"):
                rng = xs.Xorshift128(*(np.uint32(v) for v in model.state))
                got = float(rng.next_float_randrange(*args))
                state = [int(v) for v in rng.state]
        except SutFailure:
            return
        frac = (u & 0x7FFFFF) / 0x7FFFFF
        lo, hi = float(lo), float(hi)
        want = frac * lo + (1 - frac) * hi
        tol = 8 * 2.0 ** -24 * max(abs(lo), abs(hi)) + 1e-42
        mon.case(("float", lo, hi, u))
        mon.count("float_draws")
        mon.sample({"limits": [lo, hi], "draw": hex(u), "got": got}, 3)
        if not abs(got - want) <= tol or not lo - tol <= got <= hi + tol:
            mon.violate("Xorshift128: float draw differs from its range map", limits=(lo, hi),
                        draw=hex(u), got=got, want=want)
            return
        if state != want_state:
            mon.violate("Xorshift128: a float draw does not consume exactly one draw",
                        state=state, want=want_state)
            return
