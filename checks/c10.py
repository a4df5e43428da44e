"""C10: generator objects are isolated, deterministic, and re-seed to a fresh start.

Programs are first run one after the other; then the same programs run on fresh
objects interleaved in random order, in threads that switch every few bytecodes,
and in threads that really run in parallel (compiled code without the GIL).  Any
result that differs means that objects share something."""
import itertools
import random
import sys
import threading
import time

import numpy as np

from lib import gen3json, sut, workload
from lib import gen3model as g3
from lib.mon import HarnessError, SutFailure
from lib.rngspec import ALL_SPECS, BY_NAME, edge_int, lcg_spec, plain, related_seeds, rng_for
from lib.workload import norm, state_values

RULE = ("one case = one object's program (construction and operations) whose every result, when "
        "interleaved with other objects' programs in one thread, in switching threads or in "
        "parallel compiled threads, is compared with the same program run alone; or one history "
        "ended by re-initialisation and compared with a new object; or one call repeated, with "
        "its arguments and the shared tables compared before and after; distinct = distinct "
        "(program, schedule) pairs")
REQUIRED = ["interleaved_ops", "thread_ops", "thread_switches", "parallel_draws",
            "parallel_overlaps", "reinits", "reinits_related", "reinits_placed",
            "reinit:MersenneTwister", "reinit:RNGList",
            "table_snapshots", "argument_checks", "repeat_calls", "kept_results",
            "random_state_checks", "actor:list", "actor:sha1", "actor:wild", "actor:slots"]
ASSUMPTIONS = ["each object is used by one thread at a time",
               "a slot returned by calc_slot or calculate_hslot may be a view of its table "
               "(writing to it is outside the claim)"]


def jobs(tier, seed):
    quick = tier == "quick"
    out = []
    for mode in ("numba", "numpy"):
        grow = 1 if quick else 15
        for shard in range(2):
            out.append({"func": "interleave", "mode": mode, "shard": shard,
                        "n": (60 if mode == "numba" else 40) * grow})
        out.append({"func": "threads", "mode": mode, "n": 12 * grow})
        out.append({"func": "reinit", "mode": mode, "n": 10 * grow})
        out.append({"func": "placed", "mode": mode, "n": 2 * grow})
        out.append({"func": "shared", "mode": mode, "n": (60 if mode == "numba" else 40) * grow})
        out.append({"func": "globals_", "mode": mode, "n": 1 * grow})
    out.append({"func": "parallel", "mode": "numba", "n": 6 * (1 if quick else 60)})
    return out


# --- actors: an object and a fixed program on it ---------------------------------
class Actor:
    """kind, label, make() -> object, ops: list of (label, fn(object, memory) -> value)"""

    def __init__(self, kind, label, make, ops):
        self.kind, self.label, self.make, self.ops = kind, label, make, ops

    def start(self):
        return self.make(), {}


class World:
    """modules, classes and data the actors use"""

    def __init__(self, mon, r):
        self.mon = mon
        self.pairs = dict((s.name, c) for s, c in workload.classes(mon, ALL_SPECS))
        (self.rng_list, self.sha1, self.enums, self.wild, self.area_mod, self.enc, self.lcrng,
         self.la) = sut.load(mon, "rng_list", "sha1", "enums", "gen3.wild_generator_3",
                             "data.encounter.encounter_area_3", "data.encounter", "lcrng",
                             "data.encounter.encounter_area_la")
        self.made, self.lists, self.areas = [], [], {}
        # two classes made from the same parameters, and lists sharing a generator class
        mult, add = edge_int(r, 32) | 1, edge_int(r, 32)
        for k in range(2):
            with mon.sut(f"factory-made LCRNG {mult:#x} {add:#x}"):
                cls = self.lcrng.lcrng32_init(
                    add=add, mult=mult,
                    distribution=self.lcrng.LCRNG32RandomDistribution.MODULO)(
                        type(f"Made{k}", (self.lcrng.LCRNG32,), {}))
            self.made.append((lcg_spec(f"made{k}", 32, mult, add, "mod"), cls))
        for name, meth, t, size in (("PokeRNGMod", "next_u16", np.uint16, 8),
                                    ("PokeRNGMod", "next_u16", np.uint16, 32),
                                    ("MersenneTwister", "next", np.uint32, 16)):
            with mon.sut(f"build_rnglist({name}, {size})"):
                self.lists.append((BY_NAME[name], self.pairs[name], size, self.rng_list.
                                   build_rnglist(rng_class=self.pairs[name],
                                                 next_function_name=meth, state_type=t,
                                                 size=size)))

    def data(self, game):
        if game not in self.areas:
            self.areas[game] = workload.areas_of(self.mon, game, self.enums, self.enc)
        return self.areas[game]


def generator_actor(w, r, length):
    if r.random() < 0.2:
        spec, cls = r.choice(w.made)
    else:
        spec = r.choice(ALL_SPECS)
        cls = w.pairs[spec.name]
    seeds = spec.seeds(r)
    ops = []
    for _ in range(length):
        op = r.choices(spec.ops, spec.weights)[0]
        args = op.args(r)
        ops.append((f"{op.name}{plain(args)}",
                    lambda o, m, n=op.name, a=args: norm(getattr(o, n)(*a))))
    if spec.observe:
        ops.append(("state", lambda o, m: norm(spec.observe[0](o))))
    return Actor("generator", f"{spec.name}{plain(seeds)}", lambda: cls(*seeds), ops)


def list_actor(w, r, length):
    spec, cls, size, made = r.choice(w.lists)
    seeds = spec.seeds(r)
    ops = []
    for _ in range(length):
        k = r.randrange(10)
        adv = np.uint32(r.choice((1, 2, size, r.randrange(2 * size))))
        if k < 5:
            ops.append(("get_value", lambda o, m: norm(o.get_value())))
        elif k < 7:
            ops.append(("advance_state", lambda o, m: norm(o.advance_state())))
        elif k == 7:
            ops.append((f"advance_states({adv})", lambda o, m, a=adv: norm(o.advance_states(a))))
        elif k == 8:
            ops.append((f"advance({adv})", lambda o, m, a=adv: norm(o.advance(a))))
        else:
            ops.append(("re_init", lambda o, m: norm(o.re_init())))
    return Actor("list", f"RNGList({spec.name}{plain(seeds)}, {size})",
                 lambda: made(cls(*seeds)), ops)


def sha1_actor(w, r, length):
    g, la = w.enums.Game[r.choice(workload.GAMES)], w.enums.Language[r.choice(workload.LANGUAGES)]
    args = (np.uint32(g), np.uint8(la), np.uint8(r.randrange(3)), np.uint64(r.getrandbits(48)),
            r.random() < 0.5, np.uint8(r.randrange(256)), np.uint8(r.randrange(256)))
    timer = (r.getrandbits(16), r.randrange(256))
    date = (2000 + r.randrange(100), r.randrange(1, 13), r.randrange(1, 32), r.randrange(7))

    def precompute(o, m):
        m["alpha"] = o.precompute()
        return norm(np.asarray(m["alpha"]))
    ops = [("set_timer0", lambda o, m: norm(o.set_timer0(*timer))),
           ("set_date", lambda o, m: norm(o.set_date(*date))),
           ("set_time", lambda o, m: norm(o.set_time(1, 2, 3))),
           ("set_button", lambda o, m: norm(o.set_button(0xFF2F0000))),
           ("precompute", precompute)]
    for _ in range(length // 2):
        t = (r.randrange(24), r.randrange(60), r.randrange(60))
        b = r.getrandbits(32)
        ops.append((f"set_time{t}", lambda o, m, t=t: norm(o.set_time(*t))))
        if r.random() < 0.4:
            ops.append((f"set_button({b})", lambda o, m, b=b: norm(o.set_button(b))))
        if r.random() < 0.1:
            d = (2000 + r.randrange(100), r.randrange(1, 13), 1, 1)
            ops.append((f"set_date{d}", lambda o, m, d=d: norm(o.set_date(*d))))
            ops.append(("precompute", precompute))
        ops.append(("hash_seed", lambda o, m: norm(o.hash_seed(m["alpha"]))))
    return Actor("sha1", f"SHA1{tuple(int(a) for a in args)}", lambda: w.sha1.SHA1(*args), ops)


def wild_actor(w, r, length):
    game = r.choice(list(gen3json.FILES) + ["EMERALD"] * 3)
    areas, real = w.data(game)
    e = r.choice(list(g3.ENCOUNTERS))
    name, _, rate = g3.ENCOUNTERS[e]
    fit = [k for k, a in enumerate(areas) if a.rates[rate] and all(
        s[0] <= s[1] for s in a.slots[name])]
    # few areas, so that actors share them
    k = r.choice(fit[:3])
    lead = r.choice((255, 25, 26, 27, 28, 32, r.randrange(25)))
    args = (np.uint8(w.enums.Method[r.choice(("METHOD_1", "METHOD_2", "METHOD_4"))]),
            np.uint8(e), np.uint8(lead), np.uint8(w.enums.Game[game]),
            np.uint16(r.getrandbits(16)), np.uint16(r.getrandbits(16)))

    def search(o, m, s):
        states = o.generate(np.uint32(s), np.uint32(0), np.uint32(0), np.uint32(2), real[k])
        m.setdefault("kept", []).append(states)
        return [state_values(x) for x in states]

    def kept(o, m):
        # results of earlier searches stay as they were
        return [[state_values(x) for x in states] for states in m.get("kept", [])]
    ops = []
    for _ in range(max(1, length // 10)):
        s = edge_int(r, 32)
        ops.append((f"generate({s:#x})", lambda o, m, s=s: search(o, m, s)))
    ops.append(("results kept", kept))
    return Actor("wild", f"WildGenerator3{tuple(int(a) for a in args)} on {game} area {k}",
                 lambda: w.wild.WildGenerator3(*args), ops)


def slots_actor(w, r, length):
    area = r.choice(list(w.enc.ENCOUNTER_INFORMATION_LA))
    tabs = w.enc.ENCOUNTER_INFORMATION_LA[area]
    key = r.choice(sorted(int(k) for k in tabs.keys())[:4])
    obj = tabs[np.uint64(key)]
    ops = []
    for _ in range(length):
        a = (np.float32(r.random() * 0.999), r.randrange(4), r.randrange(9))
        ops.append((f"calc_slot{a}", lambda o, m, a=a: [
            int(getattr(o.calc_slot(*a), f)) for f in ("species", "form", "min_level",
                                                       "is_alpha")]))
    return Actor("slots", f"slots of {int(area)}/{key}", lambda: obj, ops)


ACTORS = [(generator_actor, 10), (list_actor, 3), (sha1_actor, 2), (wild_actor, 2),
          (slots_actor, 2)]


def actors(w, r, n, length):
    out = []
    for _ in range(n):
        kind = r.choices([a for a, _ in ACTORS], [k for _, k in ACTORS])[0]
        out.append(kind(w, r, r.randrange(length // 2, length + 1)))
    # twins: the same program on another object of the same class
    for _ in range(max(1, n // 3)):
        out.append(r.choice(out))
    return out


def alone(mon, actor):
    """the results of the program run alone"""
    mon.at(f"{actor.label}: alone")
    obj, mem = actor.start()
    return [fn(obj, mem) for _, fn in actor.ops]


def solo_all(mon, cast):
    """programs alone; an actor that fails alone is not this property's business"""
    out = []
    for a in cast:
        try:
            out.append(alone(mon, a))
        except Exception as exc:  # noqa: BLE001
            raise HarnessError(f"{a.label} fails when run alone: {exc!r}") from exc
    return out


def interleave(mon, job):
    r = rng_for(job, "interleave")
    w = World(mon, r)
    for rnd in range(job["n"]):
        if mon.too_many:
            return
        cast = actors(w, r, r.choice((2, 3, 5, 8)), 24)
        solo = solo_all(mon, cast)
        live, at = [], [0] * len(cast)
        lazily = r.random() < 0.5
        live = [None if lazily else a.start() for a in cast]
        left = list(range(len(cast)))
        burst = r.choice((1, 1, 1, 2, 4))
        schedule = []
        while left:
            i = r.choice(left)
            schedule.append(i)
            for _ in range(burst):
                if at[i] >= len(cast[i].ops):
                    break
                label, fn = cast[i].ops[at[i]]
                try:
                    with mon.sut(f"{cast[i].label}: {label} (interleaved)"):
                        if live[i] is None:
                            live[i] = cast[i].start()
                        got = fn(*live[i])
                except SutFailure:
                    return
                want = solo[i][at[i]]
                mon.count("interleaved_ops")
                mon.count("actor:" + cast[i].kind)
                if got != want:
                    mon.violate(f"{cast[i].label}: {label} gives another result when other "
                                f"objects are in use", got=got, alone=want, op=at[i],
                                others=[c.label for c in cast], schedule=schedule[-40:])
                    return
                at[i] += 1
            if at[i] >= len(cast[i].ops):
                left.remove(i)
        for i, a in enumerate(cast):
            mon.case((a.label, hash(tuple(schedule)), i))
        if rnd < 2:
            mon.sample({"objects": [a.label for a in cast], "schedule": schedule[:30]})


def threads(mon, job):
    """one thread per object, switching as often as the interpreter can"""
    r = rng_for(job, "threads")
    w = World(mon, r)
    old = sys.getswitchinterval()
    for rnd in range(job["n"]):
        if mon.too_many:
            return
        cast = actors(w, r, 5, 30)
        solo = solo_all(mon, cast)
        gate = threading.Barrier(len(cast))
        order, failures = [], []

        def play(i):
            a = cast[i]
            try:
                gate.wait()
                obj, mem = a.start()
                for k, (label, fn) in enumerate(a.ops):
                    got = fn(obj, mem)
                    order.append(i)
                    if got != solo[i][k]:
                        failures.append((a.label, label, k, got, solo[i][k]))
                        return
            except BaseException as exc:  # noqa: BLE001
                failures.append((a.label, "raised", 0, repr(exc)[:300], None))
        mon.at(f"threads over {[a.label for a in cast]}")
        sys.setswitchinterval(1e-6)
        try:
            pool = [threading.Thread(target=play, args=(i,)) for i in range(len(cast))]
            for t in pool:
                t.start()
            for t in pool:
                t.join()
        finally:
            sys.setswitchinterval(old)
        mon.count("thread_ops", len(order))
        switches = sum(a != b for a, b in zip(order, order[1:]))
        mon.count("thread_switches", switches)
        for i, a in enumerate(cast):
            mon.case((a.label, hash(tuple(order)), i))
        for who, what, k, got, want in failures[:2]:
            mon.violate(f"{who}: {what} gives another result when other threads use other objects",
                        got=got, alone=want, op=k, others=[c.label for c in cast])
        if rnd == 0:
            mon.sample({"threads": len(cast), "operations": len(order), "switches": switches})


def parallel(mon, job):
    """compiled loops without the GIL, one object per thread"""
    import numba as nb
    r = rng_for(job, "parallel")
    w = World(mon, r)
    draw_kinds = [(s, w.pairs[s.name]) for s in ALL_SPECS if s.name in (
        "PokeRNGMod", "BWRNG", "MersenneTwister", "SIMDFastMersenneTwister",
        "TinyMersenneTwister", "Xorshift128", "Xoroshiro128PlusRejection",
        "SplitMixXoroshiro128Plus")]

    @nb.njit(nogil=True)
    def draw(rng, out):
        for i in range(out.shape[0]):
            out[i] = rng.next()

    @nb.njit(nogil=True)
    def read(lst, out):
        for i in range(out.shape[0]):
            if i % 3 == 0:
                lst.advance_state()
            out[i] = lst.get_value()

    @nb.njit(nogil=True)
    def search(gen, seed, area, out):
        k = 0
        for s in range(40):
            for st in gen.generate(np.uint32(seed + s), np.uint32(0), np.uint32(0), np.uint32(5),
                                   area):
                if k < out.shape[0]:
                    out[k] = np.uint64(st.pid) ^ (np.uint64(st.ivs[0]) << np.uint64(40)) ^ (
                        np.uint64(st.stats[2]) << np.uint64(46))
                    k += 1

    @nb.njit(nogil=True)
    def hashes(obj, out):
        for i in range(out.shape[0] // 8):
            obj.set_time(np.uint8(i % 24), np.uint8(i % 60), np.uint8((i * 7) % 60))
            alpha = obj.precompute()
            obj.set_button(np.uint32(i * 2654435761))
            out[i] = obj.hash_seed(alpha)
    areas, real = w.data("EMERALD")
    fit = [k for k, a in enumerate(areas) if a.rates["land_rate"]]

    def task():
        """(label, run(out)) on a fresh object each time it is called"""
        k = r.randrange(10)
        if k < 5:
            spec, cls = r.choice(draw_kinds)
            seeds = spec.seeds(r)
            return f"{spec.name}{plain(seeds)}", lambda out: draw(cls(*seeds), out)
        if k < 7:
            spec, cls, size, made = r.choice(w.lists)
            seeds = spec.seeds(r)
            return f"RNGList({spec.name}{plain(seeds)})", lambda out: read(made(cls(*seeds)), out)
        if k < 9:
            area, seed = real[r.choice(fit[:4])], r.getrandbits(31)
            args = (np.uint8(1), np.uint8(0), np.uint8(r.choice((255, 27, 26, 3))),
                    np.uint8(w.enums.Game.EMERALD), np.uint16(1), np.uint16(2))
            return f"WildGenerator3 from {seed:#x}", lambda out: search(
                w.wild.WildGenerator3(*args), seed, area, out)
        mac = r.getrandbits(48)
        args = (np.uint32(w.enums.Game.BLACK), np.uint8(w.enums.Language.ENGLISH), np.uint8(0),
                np.uint64(mac), True, np.uint8(5), np.uint8(6))

        def run(out):
            obj = w.sha1.SHA1(*args)
            obj.set_timer0(np.uint32(1), np.uint8(2))
            obj.set_date(np.uint16(2011), np.uint8(3), np.uint8(6), np.uint8(1))
            hashes(obj, out)
        return f"SHA1 {mac:#x}", run
    n = 30_000
    for _ in range(job["n"]):
        if mon.too_many:
            return
        todo = [task() for _ in range(6)]
        todo += todo[:2]
        want = []
        for label, run in todo:
            out = np.zeros(n, np.uint64)
            with mon.sut(f"{label}: alone"):
                run(out)
            want.append(out)
        got = [np.zeros(n, np.uint64) for _ in todo]
        spans, failed = [None] * len(todo), []
        gate = threading.Barrier(len(todo))

        def play(i):
            gate.wait()
            t0 = time.perf_counter()
            try:
                todo[i][1](got[i])
            except BaseException as exc:  # noqa: BLE001
                failed.append((todo[i][0], repr(exc)[:300]))
            spans[i] = (t0, time.perf_counter())
        mon.at(f"in parallel: {[t for t, _ in todo]}")
        pool = [threading.Thread(target=play, args=(i,)) for i in range(len(todo))]
        for t in pool:
            t.start()
        for t in pool:
            t.join()
        mon.count("parallel_draws", n * len(todo))
        mon.count("parallel_overlaps", sum(
            a[0] < b[1] and b[0] < a[1] for k, a in enumerate(spans) for b in spans[:k]))
        for label, err in failed[:2]:
            mon.violate(f"{label}: failed when other threads ran compiled code", error=err)
        for i, (label, _) in enumerate(todo):
            mon.case((label, "parallel", i))
            bad = np.nonzero(got[i] != want[i])[0]
            if len(bad) and not failed:
                k = int(bad[0])
                mon.violate(f"{label}: another result when other threads run compiled code",
                            position=k, got=int(got[i][k]), alone=int(want[i][k]))


# --- re-initialisation -------------------------------------------------------------
def reinit(mon, job):
    r = rng_for(job, "reinit")
    w = World(mon, r)
    kinds = [(s, w.pairs[s.name]) for s in ALL_SPECS] + w.made
    for _ in range(job["n"]):
        for spec, cls in kinds:
            if mon.too_many:
                return
            try:
                one_reinit(mon, r, spec, cls)
            except SutFailure:
                continue
        for spec, cls, size, made in w.lists:
            try:
                list_reinit(mon, r, spec, cls, size, made)
            except SutFailure:
                continue


def placed(mon, job):
    """re-initialisation from and to every mixture of an object's own words"""
    r = rng_for(job, "placed")
    w = World(mon, r)
    kinds = [(s, w.pairs[s.name]) for s in ALL_SPECS] + w.made
    for _ in range(job["n"]):
        for spec, cls in kinds:
            widths = {4: 4, 2: 2, 1: 1}[max(len(spec.seeds(r)) for _ in range(12))]
            for mix in itertools.product(("new", "first", "state", "next", "zero"),
                                         repeat=min(widths, 2)):
                if widths == 4:
                    mix = tuple(r.choice(mix) for _ in range(4))
                for length in (0, r.randrange(1, 20)):
                    if mon.too_many:
                        return
                    try:
                        one_placed(mon, r, spec, cls, mix, length)
                    except SutFailure:
                        continue


def one_placed(mon, r, spec, cls, mix, length):
    first, new = spec.seeds(r), spec.seeds(r)
    history = random_ops(r, spec, length)
    label = f"{spec.name}{plain(first)}"
    with mon.sut(f"{label}: history"):
        obj = cls(*first)
        for name, args in history:
            getattr(obj, name)(*args)
        state = spec.observe[0](obj) if spec.observe else ()
        state = [int(v) for v in (state if isinstance(state, (list, tuple)) else (state,))]
        twin = cls(*first)
        for name, args in history:
            getattr(twin, name)(*args)
        drawn = int(twin.next())
    narrow = spec.module == "mersenne_twister" or spec.name == "Xorshift128" or (
        "next_u16" in spec.by_name)
    t = np.uint32 if narrow else np.uint64
    words = []
    for k, what in enumerate(mix):
        pool = {"new": int(new[k % len(new)]), "first": int(first[k % len(first)]),
                "state": state[k % len(state)] if state else int(first[0]),
                "next": drawn, "zero": 0}
        words.append(t(pool[what] & ((1 << (32 if narrow else 64)) - 1)))
    if len(words) > 1 and not any(int(x) for x in words):
        words[-1] = t(1)
    # the second word of Xoroshiro128PlusRejection has a default
    if spec.name == "Xoroshiro128PlusRejection" and r.random() < 0.3:
        words = words[:1]
    mon.count("reinits_placed")
    compare_reinit(mon, spec, cls, obj, first, tuple(words), history,
                   random_ops(r, spec, 10))


def random_ops(r, spec, n):
    ops = []
    for _ in range(n):
        op = r.choices(spec.ops, spec.weights)[0]
        ops.append((op.name, op.args(r)))
    return ops


def one_reinit(mon, r, spec, cls):
    first, again = spec.seeds(r), spec.seeds(r)
    if len(first) != len(again) and r.random() < 0.5:
        again = first
    history = random_ops(r, spec, r.randrange(0, 40))
    after = random_ops(r, spec, 25)
    # long enough to leave the block a twister was left in
    if "Twister" in spec.name and spec.name != "TinyMersenneTwister" and r.random() < 0.5:
        after += [("next", ())] * r.choice((320, 640))
    label = f"{spec.name}{plain(first)}"
    with mon.sut(f"{label}: history and re_init{plain(again)}"):
        obj = cls(*first)
        for name, args in history:
            getattr(obj, name)(*args)
        if r.random() < 0.4:
            state = norm(spec.observe[0](obj)) if spec.observe else ()
            again = related_seeds(r, again, first, state)
            mon.count("reinits_related")
    compare_reinit(mon, spec, cls, obj, first, again, history, after)


def compare_reinit(mon, spec, cls, obj, first, again, history, after):
    """re-seed the object: from there on it is a new one"""
    label = f"{spec.name}{plain(first)}"
    with mon.sut(f"{label}: re_init{plain(again)}"):
        obj.re_init(*again)
        fresh = cls(*again)
    mon.count("reinits")
    mon.count("reinit:" + spec.group)
    mon.case((label, plain(again), [(n, plain(a)) for n, a in history]))
    for k, (name, args) in enumerate([("state", ())] * bool(spec.observe) + after):
        with mon.sut(f"{label}: {name}{plain(args)} after re_init{plain(again)}"):
            if name == "state":
                a, b = norm(spec.observe[0](obj)), norm(spec.observe[0](fresh))
            else:
                a, b = norm(getattr(obj, name)(*args)), norm(getattr(fresh, name)(*args))
        if a != b:
            mon.violate(f"{spec.name}: after re_init the object differs from a new one",
                        operation=f"{name}{plain(args)}", number=k, got=a, fresh=b,
                        first_seed=plain(first), seed=plain(again),
                        history=[(n, plain(x)) for n, x in history])
            return


def list_reinit(mon, r, spec, cls, size, made):
    """re-initialising a list over its generator as it stands = a new list over it"""
    seeds = spec.seeds(r)
    ops = [r.choice(("get_value", "advance_state")) for _ in range(r.randrange(3 * size))]
    label = f"RNGList({spec.name}{plain(seeds)}, {size})"
    with mon.sut(f"{label}: history and re_init"):
        rng = cls(*seeds)
        lst = made(rng)
        for op in ops:
            getattr(lst, op)()
        twin = cls(*seeds)
        for _ in range(size + ops.count("advance_state")):
            (twin.next_u16 if spec.module == "lcrng" else twin.next)()
        lst.re_init()
        fresh = made(twin)
        a, b = ([norm(x.get_value()) for _ in range(2 * size)] for x in (lst, fresh))
        for x in (lst, fresh):
            x.advance_state()
        c, d = ([norm(x.get_value()) for _ in range(size)] for x in (lst, fresh))
    mon.count("reinits")
    mon.count("reinit:RNGList")
    mon.case((label, len(ops)))
    if a != b or c != d:
        mon.violate("a re-initialised rand list differs from a new one over the same generator",
                    list=label, got=a, fresh=b, later=[c, d])


# --- shared tables and arguments ------------------------------------------------------
def snapshot(mon):
    """bytes of every public table of the loaded package"""
    out = {}

    def walk(name, v, depth):
        if isinstance(v, np.ndarray):
            out[name] = (v.shape, str(v.dtype), v.tobytes())
        elif isinstance(v, (tuple, list)) and depth < 3:
            if v and isinstance(v[0], (str, int, float)):
                out[name] = repr(v)
            else:
                for i, x in enumerate(v[:400]):
                    walk(f"{name}[{i}]", x, depth + 1)
        elif isinstance(v, dict) and depth < 3:
            for k, x in list(v.items())[:3000]:
                walk(f"{name}[{k!r}]", x, depth + 1)
        elif isinstance(v, (str, int, float)):
            out[name] = repr(v)
    for mod in sorted(m for m in sys.modules if m.startswith(sut.PKG)):
        for attr, v in sorted(vars(sys.modules[mod]).items()):
            if attr.isupper() or attr.replace("_", "").isupper() or attr.replace(
                    "_", "").isalnum() and attr == attr.upper():
                if not attr.startswith("_"):
                    walk(f"{mod}.{attr}", v, 0)
    enc = sys.modules.get(sut.PKG + ".data.encounter")
    if enc is not None:
        for area, tabs in enc.ENCOUNTER_INFORMATION_LA.items():
            for k in tabs.keys():
                t = tabs[np.uint64(k)]
                out[f"LA {int(area)} {int(k)}"] = (int(t.table_id), np.asarray(t.slots).tobytes())
    mon.count("table_snapshots")
    mon.count("tables_watched", len(out))
    return out


def same_tables(mon, before, what):
    after = snapshot(mon)
    for k, v in before.items():
        if k not in after:
            mon.violate(f"{what}: table {k} is gone")
        elif after[k] != v:
            mon.violate(f"{what}: shared table {k} changed")
            return False
    return True


def shared(mon, job):
    """calls leave tables and arguments alone, so repeating them repeats their results"""
    r = rng_for(job, "shared")
    w = World(mon, r)
    ea, personal, state = sut.load(mon, "gen3.encounter_area_3", "data.personal", "gen3.state")
    for game in gen3json.FILES:
        w.data(game)
    before = snapshot(mon)
    if len(before) < 50:
        raise HarnessError(f"only {len(before)} tables found")
    infos = personal.PERSONAL_INFO_E

    def repeat(label, call, args, show):
        """call twice with the same arguments, watching the array arguments"""
        held = [(i, a, a.tobytes()) for i, a in enumerate(args)
                if isinstance(a, (np.ndarray, np.void))]
        lens = [(i, a, [norm(x) for x in a]) for i, a in enumerate(args) if type(
            a).__name__ in ("list", "List")]
        results = []
        for k in range(2):
            with mon.sut(f"{label} (call {k + 1})"):
                results.append(show(call(*args)))
            mon.count("repeat_calls")
        for i, a, raw in held:
            mon.count("argument_checks")
            if a.tobytes() != raw:
                mon.violate(f"{label}: argument {i} was changed by the call")
        for i, a, was in lens:
            mon.count("argument_checks")
            if [norm(x) for x in a] != was:
                mon.violate(f"{label}: argument {i} was changed by the call")
        mon.case((label, repr(results[0])[:200]))
        mon.same(results[1], results[0], f"{label.split('(')[0]}: repeating a call changes its "
                 "result", call=label)
    for i in range(job["n"]):
        if mon.too_many:
            return
        game = r.choice(list(gen3json.FILES) + ["EMERALD"] * 3)
        areas, real = w.data(game)
        e = r.choice(list(g3.ENCOUNTERS))
        name, _, rate = g3.ENCOUNTERS[e]
        if r.random() < 0.5:
            table = np.zeros(1, w.area_mod.EncounterArea3.dtype).view(np.recarray)
            gen3json.fill(table[0], workload.synthetic_area(r))
            area = table[0]
        else:
            area = real[r.choice([k for k, a in enumerate(areas) if a.rates[rate] and all(
                s[0] <= s[1] for s in a.slots[name])])]
        lead = np.uint8(r.choice((255, 25, 26, 27, 28, 32, r.randrange(25))))
        g, method = np.uint8(w.enums.Game[game]), r.choice(("METHOD_1", "METHOD_2", "METHOD_4"))
        tid, sid = np.uint16(r.getrandbits(16)), np.uint16(r.getrandbits(16))
        seed, first = np.uint32(edge_int(r, 32)), np.uint32(r.randrange(1000))
        ivs = np.array([r.randrange(32) for _ in range(6)], np.uint8)
        alpha = None
        try:
            with mon.sut("WildGenerator3"):
                gen = w.wild.WildGenerator3(np.uint8(w.enums.Method[method]), np.uint8(e), lead,
                                            g, tid, sid)
            kept = []

            def show(states):
                kept.append((states, [state_values(s) for s in states]))
                return kept[-1][1]
            repeat(f"generate({game}, type {e}, lead {int(lead)}, seed {int(seed):#x})",
                   gen.generate, (seed, np.uint32(3), first, np.uint32(6), area), show)
            for states, was in kept:
                mon.count("kept_results", len(was))
                with mon.sut("read earlier results again"):
                    now = [state_values(s) for s in states]
                mon.same(now, was, "results of an earlier search changed afterwards")
            repeat(f"get_modified_slots({game}, type {e}, lead {int(lead)})",
                   ea.get_modified_slots, (area, np.uint8(e), lead, g, infos),
                   lambda v: [norm(x) for x in v])
            repeat(f"get_encounter_rate(type {e})", ea.get_encounter_rate, (area, np.uint8(e)),
                   int)
            repeat("is_rse_safari_zone", ea.is_rse_safari_zone, (area, g), bool)
            repeat("GeneratorState", state.GeneratorState,
                   (np.uint32(1), np.uint32(edge_int(r, 32)), np.uint16(25), np.uint8(0), ivs,
                    np.uint8(0), np.uint8(50), np.uint8(0), infos[r.randrange(1, 387)]),
                   state_values)
            with mon.sut("GeneratorState over given IVs"):
                s = state.GeneratorState(np.uint32(1), np.uint32(5), np.uint16(25), np.uint8(0),
                                         ivs, np.uint8(0), np.uint8(50), np.uint8(0), infos[25])
                was = state_values(s)
                ivs[:] = (ivs + 1) % 32
                now = state_values(s)
            mon.count("argument_checks")
            mon.same(now, was, "an encounter changes when the IV array it was built from does")
            gname, lname = r.choice(workload.GAMES), r.choice(workload.LANGUAGES)
            args = (np.uint32(w.enums.Game[gname]), np.uint8(w.enums.Language[lname]),
                    np.uint8(r.randrange(3)), np.uint64(r.getrandbits(48)), True, np.uint8(1),
                    np.uint8(2))
            with mon.sut(f"SHA1({gname}, {lname})"):
                obj = w.sha1.SHA1(*args)
                obj.set_timer0(r.getrandbits(16), 5)
                obj.set_date(2011, 3, 6, 1)
                obj.set_time(1, 2, 3)
                obj.set_button(r.getrandbits(32))
                alpha = obj.precompute()
            repeat(f"hash_seed({gname}, {lname})", obj.hash_seed, (alpha,), int)
            repeat(f"get_nazo({gname}, {lname})", w.sha1.get_nazo, args[:3],
                   lambda v: norm(np.asarray(v)))
            repeat(f"precompute({gname}, {lname})", obj.precompute, (),
                   lambda v: norm(np.asarray(v)))
            area_la = r.choice(list(w.enc.ENCOUNTER_INFORMATION_LA))
            tabs = w.enc.ENCOUNTER_INFORMATION_LA[area_la]
            t = tabs[np.uint64(r.choice(sorted(int(k) for k in tabs.keys())))]
            repeat("calc_slot", t.calc_slot, (np.float32(r.random() * 0.999), r.randrange(4),
                                              r.randrange(9)), lambda s: int(s.species))
        except SutFailure:
            continue
        if i % 20 == 0 and not same_tables(mon, before, "after searches, hashes and slot choices"):
            return
    same_tables(mon, before, "after searches, hashes and slot choices")


# --- process-wide random state --------------------------------------------------------
def globals_(mon, job):
    """neither read nor written: same programs under other seeds, states compared"""
    random.seed(job["seed"] + 5)
    np.random.seed(job["seed"] % 2 ** 32)

    def states():
        return random.getstate(), [x.tolist() if isinstance(x, np.ndarray) else x
                                   for x in np.random.get_state()]
    mode = job["mode"]
    if mode == "numba":
        import numba as nb

        @nb.njit
        def nb_seed(s):
            np.random.seed(s)

        @nb.njit
        def nb_draw():
            return np.random.randint(0, 2 ** 31 - 1)
        random.seed(job["seed"] + 5)
        np.random.seed(job["seed"] % 2 ** 32)
    plan = [["generators", 8], ["factories", 1], ["constants", 1], ["lists", 2], ["hashes", 4],
            ["utilities", 40], ["searches", 20], ["parts", 15], ["slots", 4]]
    before = states()
    sut.load(mon, "", "lcrng", "mersenne_twister", "xorshift", "sha1", "rng_list",
             "gen3.wild_generator_3", "data.encounter", "data.personal")
    mon.count("random_state_checks")
    mon.expect(states() == before, "importing the package changes process-wide random state")
    logs = []
    for k in range(2):
        random.seed(1000 + k)
        np.random.seed(2000 + k)
        first = None
        if mode == "numba":
            nb_seed(77)
            first = [nb_draw() for _ in range(3)]
            nb_seed(77)
        before = states()
        workload.run(mon, rng_for(job, "globals"), [[a, n * job["n"]] for a, n in plan])
        mon.count("random_state_checks")
        mon.expect(states() == before, "using the package changes process-wide random state")
        if mode == "numba":
            mon.expect([nb_draw() for _ in range(3)] == first,
                       "using the package changes the random state of compiled code")
            nb_seed(99 + k)
        with open(workload.LOG, encoding="utf-8") as f:
            logs.append(f.read().splitlines())
    mon.count("repeat_events", len(logs[0]))
    for a, b in zip(*logs):
        if a != b:
            mon.violate("running a program again gives another result", first=a[:300],
                        again=b[:300])
            break
    mon.expect(len(logs[0]) == len(logs[1]), "running a program again gives other results",
               lines=[len(x) for x in logs])
