"""C03: backward stepping undoes forward stepping."""
import collections
import importlib.util
import os
import sys

import numpy as np

from lib import sut
from lib.models import LCRNGS, XORO, SMXORO, XS128
from lib.mon import SutFailure
from lib.rngspec import BY_NAME, Pair, edge_int, lcg_constants, plain, rng_for

RULE = ("one case = one random walk of forward/backward steps (and jumps) that must return to "
        "every state it left, or one multiplier given to the inverse / the reversed factories; "
        "distinct = distinct walks / multipliers; walks include all-zero, all-ones and "
        "single-bit states")
REQUIRED = ["lcg_undo", "xs_undo", "bulk_undo", "even_rejected", "legacy_inverse", "modern_inverse"]


def jobs(tier, seed):
    n = 1 if tier == "quick" else 10
    out = []
    for mode in ("numba", "numpy"):
        out.append({"func": "lcgs", "mode": mode, "n": n})
        out.append({"func": "xorshifts", "mode": mode, "n": n})
    out.append({"func": "inverse", "mode": "numpy", "n": n})
    return out


def walk_pair(mon, r, label, fwd, rev, width, steps):
    """walk on one seed with the two classes taking turns"""
    nt = np.uint32 if width == 32 else np.uint64
    seed = edge_int(r, width)
    trace = [hex(seed)]
    with mon.sut(f"{label}: walk from {seed:#x}"):
        f, b = fwd(nt(seed)), rev(nt(seed))
        for _ in range(steps):
            start = int(f.seed)
            n = r.choice((0, 1, 1, 2, 3, r.randrange(30)))
            big = edge_int(r, width)
            kind = r.randrange(5)
            first, second = (f, b) if r.random() < 0.5 else (b, f)
            first.re_init(nt(start))
            if kind == 0:
                first.jump(nt(big))
                second.re_init(nt(int(first.seed)))
                back = int(second.jump(nt(big)))
            elif kind == 1:
                for _ in range(n):
                    first.next()
                second.re_init(nt(int(first.seed)))
                for _ in range(n):
                    second.next()
                back = int(second.seed)
            elif kind == 2:
                for _ in range(n):
                    first.next()
                second.re_init(nt(int(first.seed)))
                back = int(second.jump(n))
            elif kind == 3:
                first.jump(n)
                second.re_init(nt(int(first.seed)))
                back = int(second.advance(n))
            else:
                getattr(first, "next_u16" if width == 32 else "next_u32")()
                second.re_init(nt(int(first.seed)))
                back = int(second.next())
            trace.append((kind, n, hex(big)))
            mon.count("lcg_undo")
            if back != start:
                mon.violate(f"{label}: stepping forward and back does not return to the seed",
                            start=hex(start), back=hex(back), step=trace[-1], walk=trace[-12:])
                return
            # move on
            f.re_init(nt(start))
            f.next()
    mon.case((label, trace[0], len(trace), repr(trace[-1])))
    mon.sample({"pair": label, "start": trace[0], "steps": trace[1:5]}, 2)


def lcgs(mon, job):
    lcrng = sut.load(mon, "lcrng")
    r = rng_for(job, "lcgs")
    for name, (width, _, _, rev, _, partner) in LCRNGS.items():
        try:
            for _ in range(25 * job["n"]):
                walk_pair(mon, r, f"{name}/{partner}", getattr(lcrng, name),
                          getattr(lcrng, partner), width, 25)
        except SutFailure:
            continue
    for width, mult, add in lcg_constants(r, (4 if sut.use_numba() else 150) * job["n"]):
        mult |= 1
        init = lcrng.lcrng32_init if width == 32 else lcrng.lcrng64_init
        base = lcrng.LCRNG32 if width == 32 else lcrng.LCRNG64
        label = f"custom{width}(mult={mult:#x},add={add:#x})"
        try:
            with mon.sut("build " + label + " forward and reversed"):
                @init(add=add, mult=mult)
                class Fwd(base):
                    """forward"""

                @init(add=add, mult=mult, reverse=True)
                class Rev(base):
                    """reversed"""
            walk_pair(mon, r, label, Fwd, Rev, width, 25)
        except SutFailure:
            continue
    # an even multiplier has no reversed generator
    for k in range(40):
        width = 64 if k % 2 else 32
        mult = edge_int(r, width) & ~1
        add = edge_int(r, width)
        init = lcrng.lcrng32_init if width == 32 else lcrng.lcrng64_init
        base = lcrng.LCRNG32 if width == 32 else lcrng.LCRNG64
        mon.at(f"reversed factory with even multiplier {mult:#x}")
        mon.case(("even", width, mult))
        try:
            @init(add=add, mult=mult, reverse=True)
            class Bad(base):
                """impossible"""
            mon.violate("a reversed LCRNG with an even multiplier was built without error",
                        width=width, mult=hex(mult))
        except ValueError:
            mon.count("even_rejected")
        except Exception as exc:  # noqa: BLE001
            mon.violate("an even multiplier is rejected with another error than ValueError",
                        width=width, mult=hex(mult), error=repr(exc))


def xorshifts(mon, job):
    xorshift = sut.load(mon, "xorshift")
    r = rng_for(job, "xs")
    numba_mode = sut.use_numba()
    drive = None
    if numba_mode:
        import numba

        @numba.njit
        def drive(rng, fwd, back):
            for i in range(fwd.shape[0]):
                fwd[i] = rng.next()
            for i in range(fwd.shape[0] - 1, -1, -1):
                back[i] = rng.previous()
    for name in ("Xorshift128", "Xoroshiro128PlusRejection", "SplitMixXoroshiro128Plus"):
        cls, spec = getattr(xorshift, name), BY_NAME[name]
        read = lambda o: tuple(int(v) for v in o.state)  # noqa: E731
        try:
            for k in range(60 * job["n"]):
                seeds = spec.seeds(r)
                if k == 0 and name != "SplitMixXoroshiro128Plus":
                    seeds = tuple(0 for _ in seeds)
                trace = []
                with mon.sut(f"{name}{plain(seeds)}: forward/backward walk"):
                    obj = cls(*seeds)
                    past = []          # (state before, value drawn)
                    for _ in range(150):
                        if past and r.random() < 0.47:
                            before, value = past.pop()
                            got = int(obj.previous())
                            now = read(obj)
                            trace.append("p")
                            mon.count("xs_undo")
                            if got != value or now != before:
                                mon.violate(f"{name}: stepping back does not undo the draw",
                                            seeds=plain(seeds), drawn=value, returned=got,
                                            state_before=before, state_restored=now,
                                            walk="".join(trace))
                                break
                        else:
                            past.append((read(obj), None))
                            past[-1] = (past[-1][0], int(obj.next()))
                            trace.append("n")
                    else:
                        # backward below the starting point, then forward again
                        below = []
                        while past:
                            before, value = past.pop()
                            mon.same(int(obj.previous()), value,
                                     f"{name}: stepping back returns another value",
                                     seeds=plain(seeds))
                        for _ in range(40):
                            here = read(obj)
                            below.append((here, int(obj.previous())))
                        for here, value in reversed(below):
                            got = int(obj.next())
                            mon.count("xs_undo")
                            if got != value or read(obj) != here:
                                mon.violate(f"{name}: a forward draw does not undo a step back",
                                            seeds=plain(seeds), returned=got, want=value,
                                            state=read(obj), want_state=here)
                                break
                mon.case((name, plain(seeds), "".join(trace)))
                if k < 2:
                    mon.sample({"class": name, "seeds": plain(seeds), "walk": "".join(trace)[:60]})
            # stepping back right after any other call: re-seeding, bounded draws, advances
            names = [o.name for o in spec.ops if o.name != "previous"]
            for k in range(25 * job["n"]):
                pair = Pair(mon, spec, cls, spec.seeds(r))
                for _ in range(60):
                    op = spec.by_name[r.choice(names)]
                    ok = pair.step(r, op)
                    for _ in range(r.choice((0, 1, 1, 2, 3))):
                        ok = ok and pair.step(r, spec.by_name["previous"], ())
                        mon.count("xs_undo")
                    if not ok:
                        break
                mon.case(repr(pair.trace))
                if mon.too_many:
                    return
            for _ in range(8 * job["n"]):
                n = 400_000 if numba_mode else 1500
                seeds = spec.seeds(r)
                fwd, back = np.zeros(n, np.uint64), np.ones(n, np.uint64)
                with mon.sut(f"{name}{plain(seeds)}: {n} forward, {n} back"):
                    obj = cls(*seeds)
                    start = read(obj)
                    if drive:
                        drive(obj, fwd, back)
                    else:
                        for i in range(n):
                            fwd[i] = int(obj.next())
                        for i in range(n - 1, -1, -1):
                            back[i] = int(obj.previous())
                    end = read(obj)
                bad = np.nonzero(fwd != back)[0]
                mon.count("bulk_undo", n)
                mon.case((name, "bulk", plain(seeds)))
                if len(bad) or end != start:
                    k = int(bad[-1]) if len(bad) else None
                    mon.violate(f"{name}: {n} steps back do not replay {n} draws in reverse",
                                seeds=plain(seeds), index=k, start=start, end=end,
                                fwd=int(fwd[k]) if len(bad) else None,
                                back=int(back[k]) if len(bad) else None)
                    break
        except SutFailure:
            continue
    # the stepping back of the models themselves, from the same states, agrees
    for name, model in (("Xorshift128", XS128), ("Xoroshiro128PlusRejection", XORO),
                        ("SplitMixXoroshiro128Plus", SMXORO)):
        cls, spec = getattr(xorshift, name), BY_NAME[name]
        for _ in range(40):
            seeds = spec.seeds(r)
            n = r.randrange(1, 30)
            try:
                with mon.sut(f"{name}{plain(seeds)}: {n} steps back"):
                    obj = cls(*seeds)
                    got = [int(obj.previous()) for _ in range(n)]
                ref = model(*plain(seeds))
                mon.same(got, [ref.previous() for _ in range(n)],
                         f"{name}: values returned going back differ from the inverse recurrence",
                         seeds=plain(seeds))
                mon.case((name, "back", plain(seeds), n))
            except SutFailure:
                break


def load_compat(minor):
    path = os.path.join(sut.REPO, sut.PKG, "compatability.py")
    spec = importlib.util.spec_from_file_location(f"compat_py3{minor}", path)
    mod = importlib.util.module_from_spec(spec)
    real = sys.version_info
    fake = collections.namedtuple("version_info", "major minor micro releaselevel serial")
    if minor is not None:
        sys.version_info = fake(3, minor, 0, "final", 0)
    try:
        spec.loader.exec_module(mod)
    finally:
        sys.version_info = real
    return mod.mod_inv


def inverse(mon, job):
    r = rng_for(job, "inverse")
    with mon.sut("load the compatibility helpers as on Python 3.7 and as on this Python"):
        legacy, modern = load_compat(7), load_compat(None)
    for k in range(3000 * job["n"]):
        width = r.choice((8, 16, 32, 32, 64, 64))
        mod = 1 << width
        val = edge_int(r, width)
        for tag, func in (("legacy", legacy), ("modern", modern)):
            mon.at(f"{tag} inverse of {val:#x} mod 2^{width}")
            mon.case((tag, width, val))
            try:
                got = func(val, mod)
            except ValueError:
                got = ValueError
            except Exception as exc:  # noqa: BLE001
                got = repr(exc)
            mon.count(f"{tag}_inverse")
            if val & 1:
                if not isinstance(got, int) or not 0 <= got < mod or got * val % mod != 1:
                    mon.violate(f"{tag} modular inverse is wrong", value=val, modulus=mod,
                                got=str(got))
            elif got is not ValueError:
                mon.violate(f"{tag} modular inverse of an even value is not rejected",
                            value=val, modulus=mod, got=str(got))
