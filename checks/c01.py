"""C01: LCRNG streams follow their recurrence."""
import numpy as np

from lib import sut
from lib.models import LCG, LCRNGS, lcg_model
from lib.mon import SutFailure
from lib.rngspec import LCG_SPECS, edge_int, histories, lcg_constants, lcg_spec, rng_for

RULE = ("one case = one random operation history (draw, half draw, bounded draw, jump, "
        "advance, re-seed) of one LCRNG class compared with the integer recurrence after "
        "every operation, or one long stream; distinct = distinct histories / stream seeds; "
        "built-in classes and classes made by the factories with random, even, zero and "
        "all-ones constants")
REQUIRED = ["op:PokeRNGMod.next", "op:BWRNGR.next_u32", "stream_values", "custom_classes"]
ASSUMPTIONS = ["constants of the README are the specification"]


def jobs(tier, seed):
    n = 3 if tier == "quick" else 12
    out = []
    for mode in ("numba", "numpy"):
        out += [{"func": "builtin", "mode": mode, "shard": i, "n": n} for i in range(2)]
        out.append({"func": "custom", "mode": mode, "n": n})
    return out


def stream_model(model, n):
    """n successive seeds, vectorised by doubling"""
    t = np.uint32 if model.width == 32 else np.uint64
    out = np.empty(n, dtype=t)
    out[0] = LCG(model.width, model.mult, model.add, model.seed).next()
    have = 1
    with np.errstate(over="ignore"):
        while have < n:
            a, c = model.affine(have)
            k = min(have, n - have)
            out[have:have + k] = out[:k] * t(a) + t(c)
            have += k
    return out


def streams(mon, cls, make_model, width, r, count, length, label):
    t = np.uint32 if width == 32 else np.uint64
    half = "next_u16" if width == 32 else "next_u32"
    drivers = {}
    if sut.use_numba():
        import numba

        def build(name):
            src = (f"def drive(rng, out):\n"
                   f"    for i in range(out.shape[0]):\n"
                   f"        out[i] = rng.{name}()\n")
            ns = {}
            exec(src, ns)
            return numba.njit(ns["drive"])
        drivers = {"next": build("next"), half: build(half)}
    for i in range(count):
        seed = edge_int(r, width)
        for name in ("next", half):
            want = stream_model(make_model(seed), length)
            if name == half:
                want = want >> t(width // 2)
            out = np.empty(length, dtype=np.uint64)
            with mon.sut(f"{label}({seed:#x}): {length} x {name}"):
                rng = cls(t(seed))
                if drivers:
                    drivers[name](rng, out)
                else:
                    for k in range(length):
                        out[k] = int(getattr(rng, name)())
            bad = np.nonzero(out != want.astype(np.uint64))[0]
            if len(bad):
                k = int(bad[0])
                mon.violate(f"{label}: {name} number {k} from seed differs from the recurrence",
                            seed=seed, index=k, got=int(out[k]), want=int(want[k]))
                break
            mon.count("stream_values", length)
            mon.case((label, name, seed))


def builtin(mon, job):
    lcrng = sut.load(mon, "lcrng")
    r = rng_for(job, "builtin")
    mine = [s for i, s in enumerate(LCG_SPECS) if i % 2 == job["shard"]]
    pairs = [(s, getattr(lcrng, s.name)) for s in mine]
    n = job["n"]
    histories(mon, pairs, r, 25 * n, 120)
    numba_mode = sut.use_numba()
    for spec, cls in pairs:
        try:
            streams(mon, cls, lambda s, k=spec.name: lcg_model(k, s), LCRNGS[spec.name][0], r,
                    (6 if numba_mode else 2) * n, 300_000 if numba_mode else 4000, spec.name)
        except SutFailure:
            pass


def custom(mon, job):
    lcrng = sut.load(mon, "lcrng")
    r = rng_for(job, "custom")
    numba_mode = sut.use_numba()
    n_cls = (3 if numba_mode else 100) * job["n"] // 2
    for k, (width, mult, add) in enumerate(lcg_constants(r, n_cls)):
        reverse = bool(mult & 1) and r.random() < 0.5
        base = lcrng.LCRNG32 if width == 32 else lcrng.LCRNG64
        init = lcrng.lcrng32_init if width == 32 else lcrng.lcrng64_init
        dist = r.choice((("mod", "MODULO"), ("recip", "RECIPROCAL_DIVISION"))) if width == 32 \
            else ("mulshift", "MULTIPLICATION_SHIFT")
        enum_ = lcrng.LCRNG32RandomDistribution if width == 32 else lcrng.LCRNG64RandomDistribution
        ns = {}
        label = f"custom{width}(mult={mult:#x},add={add:#x},reverse={reverse})"
        try:
            with mon.sut("build " + label):
                @init(add=add, mult=mult, distribution=getattr(enum_, dist[1]), reverse=reverse)
                class Custom(base):
                    """factory-made LCRNG"""
            m2, a2 = (LCG.reverse_of(width, mult, add) if reverse else (mult, add))
            spec = lcg_spec(label, width, m2, a2, dist[0])
            mon.count("custom_classes")
            histories(mon, [(spec, Custom)], r, 3, 40)
            if not numba_mode or k < 6:
                streams(mon, Custom, lambda s: LCG(width, m2, a2, s), width, r, 1,
                        5000 if numba_mode else 300, label)
        except SutFailure:
            continue
