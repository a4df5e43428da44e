"""How to build each public generator, its operations, and the model of each."""
import numpy as np

from . import crafted, focus
from . import models as m
from .models import M32, M64


def edge_int(r, bits):
    """an integer of `bits` bits, biased to edges"""
    k = r.randrange(12)
    top = (1 << bits) - 1
    if k == 0:
        return r.choice((0, 1, 2, 3, top, top - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1))
    if k == 1:
        return 1 << r.randrange(bits)
    if k == 2:
        return top ^ (1 << r.randrange(bits))
    if k == 3:
        return (1 << r.randrange(bits + 1)) - 1
    if k == 4:
        return r.randrange(1 << min(bits, 10))
    if k == 5:
        return r.getrandbits(bits) & r.getrandbits(bits)
    if k == 6:
        return r.getrandbits(bits) | r.getrandbits(bits)
    return r.getrandbits(bits)


def lcg_families(r, width):
    """multipliers and increments whose maps have different periods and factors"""
    top = (1 << width) - 1
    v = r.getrandbits(width)
    mults = [1, 0, top, v & ~1, v | 3, (v & ~7) | 5, (v & ~7) | 1, (v & ~0xFFFF) | 1, v | 1,
             2 | (v & ~3), edge_int(r, width)]
    adds = [0, 1, v & ~1 & top, v | 1, 1 << (width - 1), top, edge_int(r, width)]
    return [(m & top, a) for m in mults for a in adds]


def lcg_constants(r, n):
    """n (width, mult, add): first no increment or multiplier one, then any family"""
    todo = []
    while len(todo) < n:
        for width in (32, 64):
            todo += [(width, m, a) for m, a in lcg_families(r, width)]
    r.shuffle(todo)
    todo.sort(key=lambda t: not (t[2] == 0 or t[1] <= 1) or r.random() < 0.5)
    return todo[:n]


def typed(r, value, np_type):
    """value as a Python int or as the documented numpy type (numba's dispatcher
    takes Python ints only below 2**63)"""
    return np_type(value) if r.random() < 0.5 or value >> 63 else value


def steps(r, *common):
    """a distance to advance by: mostly short, now and then past 16 bits"""
    if r.random() < 0.004:
        return r.choice((65535, 65536, 65537, 98304 + r.randrange(32768),
                         131072 + r.randrange(5000)))
    return r.choice(common)


def twister_seed(r, kind):
    return crafted.twister_seed(r, kind) if r.random() < 0.15 else edge_int(r, 32)


def splitmix_seed(r):
    return crafted.splitmix_seed(r) if r.random() < 0.15 else edge_int(r, 64)


def bound(r, bits):
    """a bound 1..2^bits-1, biased to edges"""
    k = r.randrange(6)
    top = (1 << bits) - 1
    if k == 0:
        v = r.choice((1, 2, 3, 4, 5, 7, 25, 100, 101, 255, 256, 257, top, top - 1))
    elif k == 1:
        v = (1 << r.randrange(bits)) + r.choice((-1, 0, 1))
    elif k == 2:
        v = r.randrange(1, 300)
    else:
        v = r.getrandbits(r.randrange(1, bits + 1))
    return min(max(v, 1), top)


class Op:
    def __init__(self, name, weight, args, model, check=True):
        self.name, self.weight, self.args = name, weight, args
        self.model, self.check = model, check


class Spec:
    """name, module path, seed args, model class, operations"""

    def __init__(self, name, module, seeds, model, ops, observe=None, group=None):
        self.name, self.module, self.seeds = name, module, seeds
        self.group = group or name
        self.model, self.ops, self.observe = model, ops, observe
        self.weights = [o.weight for o in ops]
        self.by_name = {o.name: o for o in ops}

    def __repr__(self):
        return self.name


def _ints(values):
    return [int(v) for v in values]


def lcg_spec(name, width=None, mult=None, add=None, dist=None, module="lcrng"):
    if width is None:
        width, _, _, _, dist, _ = m.LCRNGS[name]
        make = lambda s: m.lcg_model(name, s)  # noqa: E731
    else:
        make = lambda s: m.LCG(width, mult, add, s)  # noqa: E731
    nt = np.uint32 if width == 32 else np.uint64
    half = "next_u16" if width == 32 else "next_u32"
    hb = width // 2
    ht = np.uint16 if width == 32 else np.uint32
    fn = {"mod": m.dist_mod, "recip": m.dist_recip, "mulshift": m.dist_mulshift,
          None: None}[dist]
    ops = [
        Op("next", 6, lambda r: (), lambda o: o.next()),
        Op(half, 5, lambda r: (), lambda o: o.half()),
        Op("jump", 3, lambda r: (typed(r, edge_int(r, width), nt),), lambda o, n: o.jump(n)),
        Op("advance", 2, lambda r: (typed(r, steps(r, 0, 1, 2, 3, r.randrange(40)), nt),),
           lambda o, n: o.jump(n)),
        Op("re_init", 1, lambda r: (typed(r, edge_int(r, width), nt),),
           lambda o, s: o.re_init(s), check=False),
    ]
    if fn:
        ops.append(Op("next_rand", 4, lambda r: (typed(r, bound(r, hb), ht),),
                      lambda o, k: fn(o.half(), k)))
    return Spec(name, module, lambda r: (typed(r, edge_int(r, width), nt),), make, ops,
                (lambda real: int(real.seed), lambda mod: mod.seed),
                group=name.split("(")[0])


def advance_mt(r):
    return r.choice((0, 1, 2, 3, 310, 311, 312, 313, 622, 623, 624, 625, 1247, 1248, 1249,
                     r.randrange(700), r.randrange(3000)))


MT_SPEC = Spec(
    "MersenneTwister", "mersenne_twister",
    lambda r: (typed(r, twister_seed(r, "mt"), np.uint32),), m.MT,
    [
        Op("next", 10, lambda r: (), lambda o: o.next()),
        Op("next_rand", 3, lambda r: (typed(r, bound(r, 32), np.uint32),),
           lambda o, k: m.dist_mulshift(o.next(), k)),
        Op("next_rand_mod", 3, lambda r: (typed(r, bound(r, 32), np.uint32),),
           lambda o, k: o.next() % k),
        Op("advance", 3, lambda r: (typed(r, advance_mt(r), np.uint32),),
           lambda o, n: o.advance(n), check=False),
        Op("shuffle", 1, lambda r: (), lambda o: o.shuffle(), check=False),
        Op("re_init", 1, lambda r: (typed(r, twister_seed(r, "mt"), np.uint32),),
           lambda o, s: o.re_init(s), check=False),
    ])

SFMT_SPEC = Spec(
    "SIMDFastMersenneTwister", "mersenne_twister",
    lambda r: (typed(r, twister_seed(r, "sfmt"), np.uint32),), m.SFMT,
    [
        Op("next", 10, lambda r: (), lambda o: o.next()),
        Op("next_rand", 4, lambda r: (typed(r, bound(r, 64), np.uint64),),
           lambda o, k: o.next() % k),
        Op("advance", 3, lambda r: (typed(r, advance_mt(r), np.uint32),),
           lambda o, n: o.advance(n), check=False),
        Op("shuffle", 1, lambda r: (), lambda o: o.shuffle(), check=False),
        Op("re_init", 1, lambda r: (typed(r, twister_seed(r, "sfmt"), np.uint32),),
           lambda o, s: o.re_init(s), check=False),
    ])

TINY_SPEC = Spec(
    "TinyMersenneTwister", "mersenne_twister",
    lambda r: (typed(r, twister_seed(r, "tiny"), np.uint32),), m.TinyMT,
    [
        Op("next", 10, lambda r: (), lambda o: o.next()),
        Op("temper", 3, lambda r: (), lambda o: o.temper()),
        Op("next_rand", 4, lambda r: (typed(r, bound(r, 32), np.uint32),),
           lambda o, k: m.dist_mulshift(o.next(), k)),
        Op("next_rand_mod", 4, lambda r: (typed(r, bound(r, 32), np.uint32),),
           lambda o, k: o.next() % k),
        Op("advance", 2, lambda r: (typed(r, steps(r, 0, 1, 2, 5, r.randrange(60)), np.uint32),),
           lambda o, n: o.advance(n), check=False),
        Op("shuffle", 2, lambda r: (), lambda o: o.shuffle(), check=False),
        Op("re_init", 1, lambda r: (typed(r, twister_seed(r, "tiny"), np.uint32),),
           lambda o, s: o.re_init(s), check=False),
    ])


def _seeds4(r):
    while True:
        s = tuple(edge_int(r, 32) for _ in range(4))
        if any(s):
            break
    t = r.random() < 0.5
    return tuple(np.uint32(v) for v in s) if t else s


def irange(r):
    """integer limits lo < hi within int32"""
    k = r.randrange(5)
    if k == 0:
        lo, hi = r.choice(((-0x80000000, 0x7FFFFFFF), (0, 1), (-1, 0), (0, 0x7FFFFFFF),
                           (-0x80000000, -0x7FFFFFFF), (-5, 5), (1, 101)))
    else:
        lo = r.getrandbits(32) - 0x80000000
        hi = r.getrandbits(32) - 0x80000000
        if k == 1:
            lo, hi = lo % 1000, lo % 1000 + hi % 1000 + 1
        if k == 2:
            lo, hi = -(lo % 1000), hi % 1000 + 1
        lo, hi = min(lo, hi), max(lo, hi)
        if lo == hi:
            hi += 1 if hi < 0x7FFFFFFF else 0
            lo -= 1 if lo == hi else 0
    if r.random() < 0.5:
        return (np.int32(lo), np.int32(hi))
    return (lo, hi)


def xs_randrange(o, lo, hi):
    return (o.next() % (hi - lo) + lo) & M32


def xs_alternate(o, k):
    return xs_randrange(o, -0x80000000, 0x7FFFFFFF) % k


XS_SPEC = Spec(
    "Xorshift128", "xorshift", _seeds4, m.XS128,
    [
        Op("next", 8, lambda r: (), lambda o: o.next()),
        Op("previous", 5, lambda r: (), lambda o: o.previous()),
        Op("next_rand", 3, lambda r: (typed(r, bound(r, 32), np.uint32),),
           lambda o, k: o.next() % k),
        Op("next_alternate_rand", 3, lambda r: (typed(r, bound(r, 32), np.uint32),), xs_alternate),
        Op("next_randrange", 3, irange, xs_randrange),
        Op("advance", 2, lambda r: (typed(r, steps(r, 0, 1, 2, 5, r.randrange(60)), np.uint32),),
           lambda o, n: o.advance(n), check=False),
        Op("re_init", 1, _seeds4, lambda o, *s: o.re_init(*s), check=False),
    ],
    (lambda real: _ints(real.state), lambda mod: list(mod.state)))


def xoro_rejection(o, k):
    mask = m.covering_mask(k)
    while True:
        v = o.raw() & mask
        if v < k:
            return v


def _seed_xr(r):
    a, b = edge_int(r, 64), edge_int(r, 64)
    if not (a or b):
        a = 1
    if r.random() < 0.5 or a >> 63 or b >> 63:
        return (np.uint64(a),) if r.random() < 0.5 else (np.uint64(a), np.uint64(b))
    return (a,) if r.random() < 0.5 else (a, b)


XR_SPEC = Spec(
    "Xoroshiro128PlusRejection", "xorshift", _seed_xr, m.XORO,
    [
        Op("next", 8, lambda r: (), lambda o: o.next()),
        Op("previous", 5, lambda r: (), lambda o: o.previous()),
        Op("next_rand", 5, lambda r: (typed(r, bound(r, 32), np.uint32),), xoro_rejection),
        Op("advance", 2, lambda r: (typed(r, steps(r, 0, 1, 2, 5, r.randrange(60)), np.uint64),),
           lambda o, n: o.advance(n), check=False),
        Op("re_init", 1, _seed_xr, lambda o, *s: o.re_init(*s), check=False),
    ],
    (lambda real: _ints(real.state), lambda mod: list(mod.state)))

SX_SPEC = Spec(
    "SplitMixXoroshiro128Plus", "xorshift",
    lambda r: (typed(r, splitmix_seed(r), np.uint64),), m.SMXORO,
    [
        Op("next", 8, lambda r: (), lambda o: o.next()),
        Op("previous", 5, lambda r: (), lambda o: o.previous()),
        Op("next_rand", 5, lambda r: (typed(r, bound(r, 32), np.uint32),),
           lambda o, k: o.next() % k),
        Op("advance", 2, lambda r: (typed(r, steps(r, 0, 1, 2, 5, r.randrange(60)), np.uint64),),
           lambda o, n: o.advance(n), check=False),
        Op("re_init", 1, lambda r: (typed(r, splitmix_seed(r), np.uint64),),
           lambda o, s: o.re_init(s), check=False),
    ],
    (lambda real: _ints(real.state), lambda mod: list(mod.state)))

LCG_SPECS = [lcg_spec(n) for n in m.LCRNGS]
ALL_SPECS = LCG_SPECS + [MT_SPEC, SFMT_SPEC, TINY_SPEC, XS_SPEC, XR_SPEC, SX_SPEC]
BY_NAME = {s.name: s for s in ALL_SPECS}


def plain(args):
    return tuple(int(a) for a in args)


def related_seeds(r, fresh, first, state):
    """`fresh` seeds, or words an object was made from, or of where it stands"""
    state = [int(v) for v in (state if isinstance(state, (list, tuple)) else (state,))]
    out = []
    for k, word in enumerate(fresh):
        pick = r.randrange(4)
        wide = type(word) if isinstance(word, np.generic) else None
        top = 1 << (32 if wide is np.uint32 else 64)
        if pick == 0 and k < len(first):
            value = int(first[k])
        elif 0 < pick < 3 and k < len(state):
            value = state[k]
        else:
            value = int(word)
        if value < top:
            if wide is None and value >> 63:
                wide = np.uint64
            word = wide(value) if wide else value
        out.append(word)
    if len(out) > 1 and not any(int(v) for v in out):
        return fresh
    return tuple(out)


class Pair:
    """a real object and its model, compared after every operation"""

    def __init__(self, mon, spec, cls, seeds, tag=""):
        self.mon, self.spec, self.tag = mon, spec, tag
        self.trace = [("__init__", plain(seeds))]
        with mon.sut(f"{tag}{spec.name}{plain(seeds)}", spec=spec.name):
            self.real = cls(*seeds)
        self.model = spec.model(*plain(seeds))
        self.alive = True
        self._observe("__init__")

    def _bad(self, what, got, want):
        self.alive = False
        self.mon.violate(
            f"{self.tag}{self.spec.name}: {what} differs from the model",
            got=got, want=want, history=self.trace[:3] + ["..."] + self.trace[-25:]
            if len(self.trace) > 28 else self.trace)

    def _observe(self, after):
        if self.spec.observe and self.alive:
            with self.mon.sut(f"{self.tag}{self.spec.name}: read state after {after}"):
                got = self.spec.observe[0](self.real)
            want = self.spec.observe[1](self.model)
            if got != want:
                self._bad(f"state after {after}", got, want)

    def step(self, r, op=None, args=None):
        spec = self.spec
        if op is None:
            op = r.choices(spec.ops, spec.weights)[0]
            # on a block edge "the next block" depends on how the edge was reached
            if op.name == "shuffle" and getattr(self.model, "index", 1) in (0, 624):
                op = spec.by_name["next"]
        if args is None:
            args = op.args(r)
            if op.name == "re_init" and r.random() < 0.4:
                state = spec.observe[1](self.model) if spec.observe else ()
                args = related_seeds(r, args, self.trace[0][1], state)
        self.trace.append((op.name, plain(args)))
        want = op.model(self.model, *plain(args))
        with self.mon.sut(f"{self.tag}{spec.name}.{op.name}{plain(args)}",
                          history=self.trace[-25:]):
            got = getattr(self.real, op.name)(*args)
            if op.check:
                got = int(got)
        self.mon.count(f"op:{spec.group}.{op.name}")
        if op.check and got != want:
            self._bad(f"result of {op.name}{plain(args)}", got, want)
        elif op.name != "next":
            self._observe(op.name)
        return self.alive


def histories(mon, specs_classes, r, n_hist, length, tag=""):
    """n_hist random histories per (spec, class)"""
    for spec, cls in specs_classes:
        for h in range(n_hist):
            if mon.too_many:
                return
            try:
                pair = Pair(mon, spec, cls, spec.seeds(r), tag)
                n = r.randrange(length // 2, length + 1)
                for _ in range(n):
                    if not pair.step(r):
                        break
                pair._observe("history")
            except SutFailure:
                continue
            mon.case(repr(pair.trace))
            mon.count(f"histories:{spec.group}")
            if h == 0:
                mon.sample({"class": spec.name, "ops": pair.trace[:8], "len": len(pair.trace)})


from .mon import SutFailure  # noqa: E402


def rng_for(job, *salt):
    return focus.make(repr((job["seed"], job.get("shard", 0)) + salt))
