"""C11: a cached rand list is an exact sliding window over its generator's stream."""
import contextlib

import numpy as np

from lib import sut
from lib.mon import SutFailure
from lib.rngspec import ALL_SPECS, edge_int, plain, rng_for, typed

RULE = ("one case = one history of reads, skips, state advances, refills and outside draws on a "
        "rand list of one (class, draw method, element type, size), every read and every outside "
        "draw compared with a queue over the reference stream; distinct = distinct histories; "
        "sizes from 1 to 2^17")
REQUIRED = ["reads", "wraps", "state_advances", "refills", "outside_draws", "rejected_sizes",
            "window_scans", "large_lists", "siblings"]
ASSUMPTIONS = ["the element type can hold every value the draw method returns",
               "advance_states(0) is not judged (whether it rewinds reading is not specified)"]

BAD_SIZES = (0, 3, 5, 6, 7, 9, 10, 12, 15, 17, 24, 48, 100, 255, 257, 624, 1000, 0xFFFF, 0x10001)


def jobs(tier, seed):
    quick = tier == "quick"
    out = []
    for shard in range(5):
        out.append({"func": "windows", "mode": "numba", "shard": shard, "of": 5,
                    "reps": 1 if quick else 12, "steps": 700})
    for shard in range(2):
        out.append({"func": "windows", "mode": "numpy", "shard": shard, "of": 2,
                    "reps": 3 if quick else 40, "steps": 400})
    for mode in ("numba", "numpy"):
        out.append({"func": "large", "mode": mode, "n": 1 if quick else 4})
        out.append({"func": "rejected", "mode": mode})
    return out


def methods(spec):
    """(draw method, bits) a list can be built over"""
    if spec.module == "lcrng":
        w = 32 if "next_u16" in spec.by_name else 64
        return [("next", w), ("next_u16" if w == 32 else "next_u32", w // 2)]
    bits = {"SIMDFastMersenneTwister": 64, "Xoroshiro128PlusRejection": 64}.get(spec.name, 32)
    out = [("next", bits)]
    if "previous" in spec.by_name:
        out.append(("previous", bits))
    return out


TYPES = {16: (np.uint16, np.uint32, np.uint64), 32: (np.uint32, np.uint64), 64: (np.uint64,)}


def combos():
    return [(spec, meth, t) for spec in ALL_SPECS for meth, bits in methods(spec)
            for t in TYPES[bits]]


class Window:
    """queue model"""

    def __init__(self, draw, size):
        self.draw, self.size = draw, size
        self.refill()

    def refill(self):
        self.values = [self.draw() for _ in range(self.size)]
        self.ptr = 0

    def step(self, n):
        self.values += [self.draw() for _ in range(n)]
        del self.values[:len(self.values) - self.size]
        self.ptr = 0

    def read(self):
        v = self.values[self.ptr % self.size]
        self.ptr = (self.ptr + 1) % self.size
        return v


def history(mon, r, spec, cls, meth, t, size, list_cls, steps):
    model_op = spec.by_name[meth]
    seeds = spec.seeds(r)
    label = f"RNGList({spec.name}.{meth}, {t.__name__}, {size})"
    trace = [("seed", plain(seeds))]
    with mon.sut(f"{label} over {plain(seeds)}"):
        rng = cls(*seeds)
        model = spec.model(*plain(seeds))
        lst = list_cls(rng)
    win = Window(lambda: model_op.model(model), size)

    def scan(why):
        """one full turn of reading shows the whole window in order"""
        n = size if size <= 64 else 64
        with mon.sut(f"{label}: read {n} values {why}"):
            got = [int(lst.get_value()) for _ in range(n)]
        want = [win.read() for _ in range(n)]
        mon.count("reads", n)
        mon.count("window_scans")
        if got != want:
            k = next(i for i in range(n) if got[i] != want[i])
            mon.violate(f"rand list over {spec.name}.{meth}: read differs from the window {why}",
                        size=size, type=t.__name__, read=k, got=got[k], want=want[k],
                        history=trace[-25:])
            return False
        return True
    if not scan("after construction"):
        return False
    for _ in range(steps):
        k = r.randrange(100)
        if k < 45:
            trace.append("get_value")
            wrap = win.ptr == size - 1
            with mon.sut(f"{label}.get_value()", history=trace[-25:]):
                got = int(lst.get_value())
            want = win.read()
            mon.count("reads")
            mon.count("wraps", wrap)
            if got != want:
                mon.violate(f"rand list over {spec.name}.{meth}: read differs from the window",
                            size=size, type=t.__name__, got=got, want=want, history=trace[-25:])
                return False
        elif k < 60:
            n = r.choice((0, 1, size - 1, size, size + 1, r.randrange(2 * size + 1),
                          edge_int(r, 32), 2 ** 32 - 1))
            trace.append(("advance", n))
            with mon.sut(f"{label}.advance({n})", history=trace[-25:]):
                lst.advance(typed(r, n, np.uint32))
            # the position wraps at the (power of two) size, also past 2^32
            win.ptr = (win.ptr + n) % size
        elif k < 75:
            trace.append("advance_state")
            with mon.sut(f"{label}.advance_state()", history=trace[-25:]):
                lst.advance_state()
            win.step(1)
            mon.count("state_advances")
        elif k < 84:
            n = r.choice((1, 2, max(1, size - 1), size, size + 1, r.randrange(1, 3 * size + 2)))
            n = min(n, 400)
            trace.append(("advance_states", n))
            with mon.sut(f"{label}.advance_states({n})", history=trace[-25:]):
                lst.advance_states(typed(r, n, np.uint32))
            win.step(n)
            mon.count("state_advances", n)
        elif k < 90:
            # the generator stays the caller's: drawing from it moves the stream on
            trace.append("rng." + meth)
            with mon.sut(f"{label}: draw from the generator itself", history=trace[-25:]):
                got = int(getattr(rng, meth)())
            mon.count("outside_draws")
            want = model_op.model(model)
            if got != want:
                mon.violate(f"rand list over {spec.name}.{meth}: its generator is not where the "
                            "window's draws left it", size=size, got=got, want=want,
                            history=trace[-25:])
                return False
        elif k < 96:
            if r.random() < 0.6:
                args = spec.by_name["re_init"].args(r)
                trace.append(("rng.re_init", plain(args)))
                with mon.sut(f"{label}: re-seed the generator", history=trace[-25:]):
                    rng.re_init(*args)
                spec.by_name["re_init"].model(model, *plain(args))
            trace.append("re_init")
            with mon.sut(f"{label}.re_init()", history=trace[-25:]):
                lst.re_init()
            win.refill()
            mon.count("refills")
        elif not scan("midway"):
            return False
    mon.case((label, trace))
    mon.sample({"list": label, "calls": trace[:10]}, 4)
    return scan("at the end")


def windows(mon, job):
    mods = dict(zip(("lcrng", "mersenne_twister", "xorshift", "rng_list"),
                    sut.load(mon, "lcrng", "mersenne_twister", "xorshift", "rng_list")))
    r = rng_for(job, "windows")
    todo = combos()
    mine = [c for i, c in enumerate(todo) if i % job["of"] == job["shard"]]
    r.shuffle(mine)
    for rep in range(job["reps"]):
        # all classes are built before any is used; some have siblings of narrower elements,
        # which are not judged
        built = []
        for spec, meth, t in mine:
            size = 1 << r.choice((0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 10))
            cls = getattr(mods[spec.module], spec.name)
            narrow = {8: np.uint32, 4: np.uint16}.get(np.dtype(t).itemsize)
            with contextlib.suppress(SutFailure):
                with mon.sut(f"build_rnglist({spec.name}, {meth}, {t.__name__}, {size})"):
                    if narrow and r.random() < 0.4:
                        mods["rng_list"].build_rnglist(
                            rng_class=cls, next_function_name=meth, state_type=narrow, size=size)
                        mon.count("siblings")
                    list_cls = mods["rng_list"].build_rnglist(
                        rng_class=cls, next_function_name=meth, state_type=t, size=size)
                built.append((spec, cls, meth, t, size, list_cls))
        r.shuffle(built)
        for spec, cls, meth, t, size, list_cls in built:
            if mon.too_many:
                return
            with contextlib.suppress(SutFailure):
                for _ in range(2):
                    if not history(mon, r, spec, cls, meth, t, size, list_cls, job["steps"]):
                        break
                mon.count("lists_built")


def large(mon, job):
    """lists beyond 16-bit positions"""
    lcrng, mt, rl = sut.load(mon, "lcrng", "mersenne_twister", "rng_list")
    from lib.rngspec import BY_NAME
    r = rng_for(job, "large")
    numba = sut.use_numba()
    sizes = (1 << 15, 1 << 16, 1 << 17) if numba or job["n"] > 1 else (1 << 16, 1 << 17)
    for rep in range(job["n"]):
        for size in sizes:
            name, meth, t, mod = r.choice((("PokeRNGMod", "next_u16", np.uint16, lcrng),
                                           ("XDRNG", "next", np.uint32, lcrng),
                                           ("BWRNG", "next_u32", np.uint32, lcrng)))
            spec, cls = BY_NAME[name], getattr(mod, name)
            seeds = spec.seeds(r)
            label = f"RNGList({name}.{meth}, {t.__name__}, {size})"
            try:
                with mon.sut(f"{label} over {plain(seeds)}"):
                    list_cls = rl.build_rnglist(rng_class=cls, next_function_name=meth,
                                                state_type=t, size=size)
                    lst = list_cls(cls(*seeds))
                model = spec.model(*plain(seeds))
                win = Window(lambda: spec.by_name[meth].model(model), size)
                mon.count("large_lists")
                mon.case((label, plain(seeds)))
                for turn in range(30):
                    k = r.randrange(3)
                    n = r.choice((1, 2, 0xFFFF, 0x10000, 0x10001, size - 1, size,
                                  r.randrange(1, size)))
                    with mon.sut(f"{label}: step {turn}"):
                        if k == 0 and n <= 70000:
                            m = n if numba else min(n, 3000)
                            lst.advance_states(np.uint32(m))
                            win.step(m)
                            mon.count("state_advances", m)
                        else:
                            lst.advance(np.uint32(n))
                            win.ptr = (win.ptr + n) % size
                        reads = 200
                        got = [int(lst.get_value()) for _ in range(reads)]
                    want = [win.read() for _ in range(reads)]
                    mon.count("reads", reads)
                    if got != want:
                        i = next(i for i in range(reads) if got[i] != want[i])
                        mon.violate(f"{label}: read differs from the window", read=i,
                                    got=got[i], want=want[i], step=turn)
                        break
                # one full turn, across the end of the buffer
                with mon.sut(f"{label}: read the whole window"):
                    got = [int(lst.get_value()) for _ in range(size)]
                want = [win.read() for _ in range(size)]
                mon.count("reads", size)
                mon.count("window_scans")
                mon.expect(got == want, f"{label}: a full turn of reads differs from the window",
                           first=next((i for i in range(size) if got[i] != want[i]), None))
            except SutFailure:
                continue


def rejected(mon, job):
    lcrng, rl = sut.load(mon, "lcrng", "rng_list")
    for size in BAD_SIZES:
        mon.at(f"build_rnglist of size {size}")
        mon.case(("size", size))
        try:
            rl.build_rnglist(rng_class=lcrng.PokeRNGMod, next_function_name="next",
                             state_type=np.uint32, size=size)
        except Exception:  # noqa: BLE001
            mon.count("rejected_sizes")
        else:
            mon.violate("a rand list whose size is not a power of two was built", size=size)
