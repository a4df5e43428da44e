"""Programs over the whole public API whose every observable result is logged.

The same seed gives the same program in every process and mode, so the logs of
two runs (compiled / numpy-only, other heap contents, bounds checking on) are
compared line by line.  Nothing here depends on the mode or on results.
"""
import hashlib

import numpy as np

from . import gen3json, sut
from . import gen3model as g3
from .mon import HarnessError
from .names import DS_TYPES, TIMES, WEATHERS
from .rngspec import ALL_SPECS, LCG_SPECS, bound, edge_int, irange, lcg_spec, plain, typed

LOG = "events.log"


def norm(v):
    """a result as plain Python (scalars by value, arrays by element)"""
    if isinstance(v, str):
        return str(v)
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, (np.bool_,)):
        return int(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        # numbers are compared by value: 70.0 is 70
        v = float(v)
        return int(v) if v.is_integer() and v else v.hex()
    if isinstance(v, np.void):
        return [norm(v[n]) for n in v.dtype.names] if v.dtype.names else norm(v.item())
    if isinstance(v, np.ndarray):
        return [norm(x) for x in v.tolist()] if v.dtype.names is None else [norm(x) for x in v]
    if isinstance(v, (tuple, list)):
        return [norm(x) for x in v]
    return repr(v)


class Log:
    """strict: an exception is a violation; otherwise it is one more result"""

    def __init__(self, mon, strict=False, at=LOG):
        self.mon, self.strict, self.single = mon, strict, False
        self.f = open(at, "w", encoding="utf-8")
        self.failed = 0

    def scenario(self, name):
        self.f.write("# " + name + "\n")
        self.mon.count("scenarios")
        self.mon.case(name)

    def put(self, label, value):
        self.mon.count("events")
        self.f.write(f"{label} -> {norm(value)}\n")

    def do(self, label, fn, *args, bits=None, keep=True, post=None):
        """call, log the result, return it (None when it raised)"""
        shown = label + "(" + ", ".join(show(a) for a in args) + ")"
        self.mon.at(shown)
        try:
            got = fn(*args)
            out = norm(post(got) if post else got) if keep else None
        except (KeyboardInterrupt, SystemExit, MemoryError, HarnessError):
            raise
        except BaseException as exc:  # noqa: BLE001
            self.failed += 1
            self.mon.count("raised")
            if self.strict:
                self.mon.violate(f"operation failed: {label}: {type(exc).__name__}: "
                                 f"{str(exc)[:300]}", call=shown)
            self.f.write(f"{shown} -> raised\n")
            if self.failed <= 3:
                self.mon.note(f"{shown} raised {type(exc).__name__}: {str(exc)[:200]}")
            return None
        self.mon.count("events")
        if bits is not None and isinstance(out, int) and not 0 <= out < 1 << bits:
            self.mon.violate("a value does not fit its width", call=shown, value=out, bits=bits)
        self.f.write(f"{shown} -> {out}\n")
        return got

    def close(self):
        self.f.close()


def show(a):
    if isinstance(a, (np.integer, np.bool_)):
        return f"{type(a).__name__}:{int(a)}"
    if isinstance(a, (np.ndarray, np.void, list)) or type(a).__module__ not in ("builtins", "numpy"):
        return "." if not hasattr(a, "name") else str(int(a))
    if isinstance(a, np.floating):
        return f"{type(a).__name__}:{float(a).hex()}"
    return repr(a)


# --- generators -------------------------------------------------------------
def width_of(spec, op):
    if spec.module == "lcrng":
        w = 32 if "next_u16" in spec.by_name else 64
        if op in ("next", "jump", "advance"):
            return w
        return w // 2 if op != "re_init" else None
    wide = {"SIMDFastMersenneTwister": 64, "Xoroshiro128PlusRejection": 64}.get(spec.name, 32)
    if op in ("advance", "shuffle", "re_init"):
        return None
    if op in ("next_rand", "next_rand_mod", "next_alternate_rand"):
        return wide
    return wide if op != "next_randrange" else 32


def history(log, r, spec, cls, length, tag=""):
    seeds = spec.seeds(r)
    log.scenario(f"{tag}{spec.name}{plain(seeds)}")
    obj = log.do(spec.name, cls, *seeds, keep=False)
    if obj is None:
        return None
    for _ in range(r.randrange(length // 2, length + 1)):
        op = r.choices(spec.ops, spec.weights)[0]
        args = op.args(r)
        log.mon.count("op:" + spec.group)
        log.do(f"{spec.name}.{op.name}", getattr(obj, op.name), *args,
               bits=width_of(spec, op.name))
    if spec.observe:
        log.do(f"{spec.name} state", spec.observe[0], obj)
    if spec.name == "Xorshift128":
        for _ in range(4):
            lo = np.float32(r.choice((0.0, -1.0, 1.0, r.uniform(-1e6, 1e6))))
            hi = np.float32(float(lo) + r.choice((0.5, 1.0, 360.0, r.uniform(0.0, 1e6))))
            log.do("next_float_randrange", obj.next_float_randrange, lo, hi)
    return obj


def classes(mon, specs):
    names = sorted({s.module for s in specs})
    mods = sut.load(mon, *names)
    mods = dict(zip(names, mods if isinstance(mods, list) else [mods]))
    return [(s, getattr(mods[s.module], s.name)) for s in specs]


def generators(log, r, n, length=40, specs=None):
    for spec, cls in classes(log.mon, specs or ALL_SPECS):
        k = n if spec.name not in ("MersenneTwister", "SIMDFastMersenneTwister") else max(1, n // 4)
        for _ in range(k):
            history(log, r, spec, cls, length)


def factories(log, r, n, length=40):
    """LCRNGs made by the public factories"""
    lcrng = sut.load(log.mon, "lcrng")
    for i in range(n):
        width = r.choice((32, 64))
        mult, add = edge_int(r, width) | 1, edge_int(r, width)
        dist = r.choice(("mod", "recip") if width == 32 else ("mod", "mulshift"))
        reverse = r.random() < 0.4
        enum = getattr(lcrng, f"LCRNG{width}RandomDistribution")
        kind = {"mod": "MODULO", "recip": "RECIPROCAL_DIVISION",
                "mulshift": "MULTIPLICATION_SHIFT"}[dist]
        if not hasattr(enum, kind):
            dist, kind = ("mulshift", "MULTIPLICATION_SHIFT") if width == 64 else ("mod", "MODULO")
        init = getattr(lcrng, f"lcrng{width}_init")
        base = getattr(lcrng, f"LCRNG{width}")
        nt = np.uint32 if width == 32 else np.uint64
        wrap = r.random() < 0.5 and not reverse
        name = f"made{width}({mult:#x},{add:#x},{kind},{reverse})"

        def make():
            return init(add=nt(add) if wrap else add, mult=nt(mult) if wrap else mult,
                        distribution=enum[kind], reverse=reverse)(
                type("Made", (base,), {"__annotations__": {}}))
        cls = log.do("factory", make, keep=False)
        if cls is None:
            continue
        log.put(name, "made")
        spec = lcg_spec(name, width, mult, add, dist)
        log.mon.count("factories")
        for _ in range(2):
            history(log, r, spec, cls, length)
        constants(log, r, spec, cls, 1)


def constants(log, r, spec, cls, n):
    """pre-compiled constant jumps and draws"""
    w = 32 if "next_u16" in spec.by_name else 64
    nt, ht = (np.uint32, np.uint16) if w == 32 else (np.uint64, np.uint32)
    for _ in range(n):
        seed, adv, m = edge_int(r, w), edge_int(r, w), bound(r, w // 2)
        log.scenario(f"{spec.name} const_jump({adv}) const_rand({m}) from {seed}")
        obj = log.do(spec.name, cls, nt(seed), keep=False)
        jump = log.do("const_jump", cls.const_jump, typed(r, adv, nt), keep=False)
        rand = log.do("const_rand", cls.const_rand, typed(r, m, ht), keep=False)
        if obj is None or jump is None or rand is None:
            continue
        log.mon.count("constants")
        for _ in range(6):
            log.do("jump_func", jump, obj, bits=w)
            log.do("rand_func", rand, obj, bits=w // 2)
        log.do("seed", lambda o: o.seed, obj, bits=w)


def all_constants(log, r, n):
    pairs = classes(log.mon, LCG_SPECS)
    for spec, cls in r.sample(pairs, min(n, len(pairs))):
        constants(log, r, spec, cls, 1)


# --- cached rand lists --------------------------------------------------------
def list_combos():
    types = {16: (np.uint16, np.uint32, np.uint64), 32: (np.uint32, np.uint64), 64: (np.uint64,)}
    out = []
    for spec in ALL_SPECS:
        if spec.module == "lcrng":
            w = 32 if "next_u16" in spec.by_name else 64
            meths = [("next", w), ("next_u16" if w == 32 else "next_u32", w // 2)]
        else:
            bits = {"SIMDFastMersenneTwister": 64,
                    "Xoroshiro128PlusRejection": 64}.get(spec.name, 32)
            meths = [(m, bits) for m in ("next", "previous") if m in spec.by_name]
        out += [(spec, m, t, b) for m, b in meths for t in types[b]]
    return out


def lists(log, r, n, steps=120, sizes=None):
    rng_list = sut.load(log.mon, "rng_list")
    for spec, meth, t, bits in r.sample(list_combos(), n):
        (_, cls), = classes(log.mon, [spec])
        size = 1 << (r.choice(sizes) if sizes else r.randrange(0, 9))
        seeds = spec.seeds(r)
        name = f"RNGList({spec.name}.{meth}, {t.__name__}, {size})"
        log.scenario(name + str(plain(seeds)))
        made = log.do("build_rnglist", lambda: rng_list.build_rnglist(
            rng_class=cls, next_function_name=meth, state_type=t, size=size), keep=False)
        rng = log.do(spec.name, cls, *seeds, keep=False)
        if made is None or rng is None:
            continue
        lst = log.do(name, made, rng, keep=False)
        if lst is None:
            continue
        log.mon.count("lists")
        for _ in range(min(size, 64)):
            log.do("get_value", lst.get_value, bits=bits)
        for _ in range(steps):
            k = r.randrange(20)
            if k < 9:
                log.do("get_value", lst.get_value, bits=bits)
            elif k < 12:
                adv = r.choice((0, 1, size - 1, size, r.randrange(2 * size + 1),
                                edge_int(r, 32), 2 ** 32 - 1))
                log.do("advance", lst.advance, typed(r, adv, np.uint32))
            elif k < 15:
                log.do("advance_state", lst.advance_state)
            elif k < 18:
                adv = min(400, r.choice((1, 2, size, size + 1, r.randrange(1, 3 * size + 2))))
                log.do("advance_states", lst.advance_states, typed(r, adv, np.uint32))
            elif k == 18:
                log.do("re_init", lst.re_init)
            else:
                log.do("outside draw", rng.next)
        for _ in range(min(size, 64)):
            log.do("get_value", lst.get_value, bits=bits)


# --- initial seeds ------------------------------------------------------------
GAMES = ("BLACK", "WHITE", "BLACK2", "WHITE2")
LANGUAGES = ("ENGLISH", "FRENCH", "GERMAN", "ITALIAN", "JAPANESE", "KOREAN", "SPANISH")


def hashes(log, r, n, steps=12, styles=(1,)):
    sha1, enums = sut.load(log.mon, "sha1", "enums")
    for i in range(n):
        game, lang, ds = r.choice(GAMES), r.choice(LANGUAGES), r.randrange(3)
        g, la, d = enums.Game[game], enums.Language[lang], enums.DSType[DS_TYPES[ds]]
        mac, soft = r.choice((edge_int(r, 48), r.getrandbits(48))), r.random() < 0.5
        vf, gx = r.randrange(256), r.randrange(256)
        log.scenario(f"SHA1({game},{lang},{ds},{mac:#x},{soft},{vf},{gx})")
        style = styles[i % len(styles)]
        args = [(g, la, d, mac, soft, vf, gx),
                (np.uint32(g), np.uint8(la), np.uint8(d), np.uint64(mac), soft, np.uint8(vf),
                 np.uint8(gx)),
                (int(g), int(la), int(d), mac, soft, vf, gx)][style]
        log.put("nazo", log.do("get_nazo", sha1.get_nazo, np.uint32(g), np.uint8(la),
                               np.uint8(d), keep=False))
        # combinations the table of constants does not list
        v2, l2 = r.choice(list(enums.Game)), r.choice((0, 3, 6, 9, 255, int(la)))
        log.put("nazo", log.do("get_nazo", sha1.get_nazo, np.uint32(v2), np.uint8(l2),
                               np.uint8(d), keep=False))
        obj = log.do("SHA1", sha1.SHA1, *args, keep=False)
        if obj is None:
            continue
        log.do("set_timer0", obj.set_timer0, edge_int(r, 16), r.randrange(256))
        log.do("set_date", obj.set_date, 2000 + r.randrange(100), r.randrange(1, 13),
               r.randrange(1, 32), r.randrange(7))
        log.do("set_time", obj.set_time, r.randrange(24), r.randrange(60), r.randrange(60))
        log.do("set_button", obj.set_button, edge_int(r, 32))
        alpha = log.do("precompute", obj.precompute)
        for _ in range(steps):
            k = r.randrange(6)
            if k == 0:
                log.do("set_timer0", obj.set_timer0, edge_int(r, 16), r.randrange(256))
            if k == 1:
                log.do("set_date", obj.set_date, 2000 + r.randrange(100), r.randrange(1, 13),
                       r.randrange(1, 32), r.randrange(7))
            if k < 2:
                alpha = log.do("precompute", obj.precompute)
            if k in (2, 3):
                log.do("set_time", obj.set_time, r.randrange(24), r.randrange(60),
                       r.randrange(60))
            if k in (3, 4):
                log.do("set_button", obj.set_button, r.choice((0xFF2F0000, edge_int(r, 32))))
            if alpha is not None:
                log.mon.count("hashes")
                log.do("hash_seed", obj.hash_seed, alpha, bits=64)


# --- bit utilities and hash functions ----------------------------------------
def utilities(log, r, n):
    util, fnv = sut.load(log.mon, "util", "fnv")
    log.scenario("utilities")
    for _ in range(n):
        v32, v64 = typed(r, edge_int(r, 32), np.uint32), typed(r, edge_int(r, 64), np.uint64)
        n32, n64 = (typed(r, r.choice((1, w - 1, r.randrange(1, w))), np.uint8) for w in (32, 64))
        log.mon.count("utilities")
        log.do("change_endian_u32", util.change_endian_u32, v32, bits=32)
        log.do("rotate_left_u32", util.rotate_left_u32, v32, n32, bits=32)
        log.do("rotate_right_u32", util.rotate_right_u32, v32, n32, bits=32)
        log.do("rotate_left_u64", util.rotate_left_u64, v64, n64, bits=64)
        log.do("rotate_right_u64", util.rotate_right_u64, v64, n64, bits=64)
        log.do("hex_32", lambda v: str(util.hex_32(v)), v32)
        # stats reach 2 * 255 + 31 + 5 at level 100, times 1.1
        log.do("compute_stat", util.compute_stat, np.uint16(r.randrange(4, 547)),
               np.uint8(r.randrange(25)), np.uint8(r.randrange(1, 6)), bits=16)
        text = "".join(chr(r.randrange(128)) for _ in range(r.choice((0, 1, 2, 8, 30))))
        log.do("fnv1_64", fnv.fnv1_64, text, bits=64)
        log.do("fnv1a_64", fnv.fnv1a_64, text, bits=64)
    log.do("tables", lambda: [util.NATURE_MODIFIERS, list(util.HEX_LOOKUP)])


# --- Gen 3 --------------------------------------------------------------------
FIELDS = ("advance", "pid", "species", "form", "ability", "ability_index", "level", "shiny",
          "nature", "gender", "hidden_power", "hidden_power_strength", "characteristic")


def state_values(s):
    return [int(getattr(s, f)) for f in FIELDS] + [int(v) for v in s.ivs] + [
        int(v) for v in s.stats]


def areas_of(mon, game, enums, encounter):
    return [a for _, _, a in gen3json.load(game)], encounter.ENCOUNTER_INFORMATION_GEN3[
        enums.Game[game]]


def synthetic_area(r):
    slots = {}
    for name, k in gen3json.SIZES.items():
        mons = []
        for _ in range(k):
            lo = r.choice((1, 5, 70, 99, r.randrange(1, 101)))
            sp = r.randrange(1, 387)
            if sp == 201 or r.random() < 0.1:
                sp = 201 | r.randrange(28) << 11
            mons.append((lo, min(100, lo + r.choice((0, 0, 1, 5, 30))), sp))
        slots[name] = mons
    rates = {k: r.choice((1, 20, 100, 180, 255, r.randrange(1, 256)))
             for k in ("land_rate", "water_rate", "rock_rate", "fish_rate")}
    return g3.Area(r.choice((0, 20, 72, 73, 74, 89, 90, 91, 92, 97, 98, r.randrange(97))),
                   rates, slots)


def searches(log, r, n, span=10, texts=2):
    wild, area_mod, enums, encounter = sut.load(
        log.mon, "gen3.wild_generator_3", "data.encounter.encounter_area_3", "enums",
        "data.encounter")
    data = {}
    games = list(gen3json.FILES)
    for i in range(n):
        game = r.choice(games + ["EMERALD"] * 4)
        if game not in data:
            data[game] = areas_of(log.mon, game, enums, encounter)
        areas, real = data[game]
        e = r.choice(list(g3.ENCOUNTERS) + [g3.E_ROCK])
        name, _, rate = g3.ENCOUNTERS[e]
        if r.random() < 0.6:
            k = r.choice([k for k, a in enumerate(areas) if a.rates[rate] and all(
                s[0] <= s[1] for s in a.slots[name])])
            rec, where = real[k], f"{game} area {k}"
        else:
            table = np.zeros(1, area_mod.EncounterArea3.dtype).view(np.recarray)
            gen3json.fill(table[0], synthetic_area(r))
            rec, where = table[0], f"{game} synthetic area {i}"
        lead = r.choice([255] + list(range(36)) + [25, 26, 27, 28, 32])
        method = r.choice(("METHOD_1", "METHOD_2", "METHOD_4"))
        tid, sid = edge_int(r, 16), edge_int(r, 16)
        log.scenario(f"search {where} type {e} lead {lead} {method} ids {tid} {sid}")
        gen = log.do("WildGenerator3", wild.WildGenerator3, np.uint8(enums.Method[method]),
                     np.uint8(e), np.uint8(lead), np.uint8(enums.Game[game]), np.uint16(tid),
                     np.uint16(sid), keep=False)
        if gen is None:
            continue
        for _ in range(r.choice((1, 2))):
            count = r.choice((0, 1, r.randrange(1, span + 1)))
            first = min(r.choice((0, r.randrange(1000), edge_int(r, 32))), 2 ** 32 - 2 - span)
            delay = min(r.choice((0, r.randrange(5000), edge_int(r, 32))),
                        2 ** 32 - 2 - first - span)
            states = log.do("generate", gen.generate, np.uint32(edge_int(r, 32)),
                            np.uint32(delay), np.uint32(first), np.uint32(count), rec,
                            post=len)
            log.mon.count("searches")
            for j, s in enumerate(states if states is not None else ()):
                log.mon.count("encounters")
                log.do("encounter", state_values, s)
                if j < texts and i % 4 == 0:
                    log.do("text", lambda s=s: [str(s), str(s.csv())])


def gen3_parts(log, r, n):
    """the public helpers of Gen 3 generation, one by one"""
    ea, area_mod, lcrng, enums, personal, util, state = sut.load(
        log.mon, "gen3.encounter_area_3", "data.encounter.encounter_area_3", "lcrng", "enums",
        "data.personal", "gen3.util", "gen3.state")
    for i in range(n):
        table = np.zeros(1, area_mod.EncounterArea3.dtype).view(np.recarray)
        gen3json.fill(table[0], synthetic_area(r))
        rec = table[0]
        e = r.choice(list(g3.ENCOUNTERS))
        game = r.choice(list(gen3json.FILES))
        g = np.uint8(enums.Game[game])
        lead = np.uint8(r.choice((27, 28, 255, 25, r.randrange(25))))
        log.scenario(f"parts {i} type {e} {game} lead {int(lead)}")
        infos = log.do("get_info_table_3", personal.get_info_table_3, g, keep=False)
        log.do("rate", ea.get_encounter_rate, rec, np.uint8(e), bits=8)
        log.do("safari", lambda: bool(ea.is_rse_safari_zone(rec, g)))
        slots = log.do("get_modified_slots", ea.get_modified_slots, rec, np.uint8(e), lead, g,
                       infos, post=lambda v: [norm(s) for s in v])
        rng = log.do("PokeRNGMod", lcrng.PokeRNGMod, np.uint32(edge_int(r, 32)), keep=False)
        if slots is None or rng is None:
            continue
        for _ in range(6):
            slot = log.do("calculate_hslot", ea.calculate_hslot, rec, rng, np.uint8(e))
            log.do("calculate_hslot_lead", ea.calculate_hslot_lead, rec, rng, np.uint8(e), lead,
                   slots)
            if slot is not None:
                log.do("calculate_level", ea.calculate_level, slot, rng, r.random() < 0.5, bits=8)
            log.do("seed", lambda: rng.seed, bits=32)
        pid, tsv = edge_int(r, 32), edge_int(r, 16)
        if r.random() < 0.5:
            tsv = ((pid >> 16) ^ pid ^ r.randrange(12)) & 0xFFFF
        log.do("get_gender", util.get_gender, np.uint32(pid),
               np.uint8(r.choice((0, 31, 127, 191, 254, 255))), bits=8)
        log.do("get_shiny", util.get_shiny, np.uint32(pid), np.uint16(tsv), bits=8)
        log.do("unown_check", lambda: bool(util.unown_check(np.uint32(pid), np.uint8(
            r.randrange(28)))))
        ivs = np.array([r.choice((0, 31, r.randrange(32))) for _ in range(6)], np.uint8)
        s = log.do("GeneratorState", state.GeneratorState, np.uint32(edge_int(r, 32)),
                   np.uint32(pid), np.uint16(r.randrange(1, 387)), np.uint8(r.randrange(28)),
                   ivs, np.uint8(r.randrange(2)), np.uint8(r.randrange(1, 101)),
                   np.uint8(r.randrange(3)), infos[r.randrange(1, 387)], keep=False)
        if s is not None:
            log.do("state", state_values, s)
            if i % 3 == 0:
                log.do("text", lambda: [str(s), str(s.csv())])


def digest(array):
    return hashlib.sha1(np.ascontiguousarray(array).tobytes()).hexdigest()


def tables(log, r):
    """every loaded table and name, as values"""
    enc, personal, data, enums = sut.load(log.mon, "data.encounter", "data.personal", "data",
                                          "enums")
    log.scenario("tables")
    for game in sorted(enc.ENCOUNTER_INFORMATION_GEN3, key=int):
        info = enc.ENCOUNTER_INFORMATION_GEN3[game]
        log.do(f"names {int(game)}", lambda g=game: list(enc.MAP_NAMES_GEN3[g]))
        for k in range(len(info)):
            log.do(f"gen3 {int(game)} area {k}", lambda i=info, k=k: i[k])
    for area in enums.LAArea:
        tabs = enc.ENCOUNTER_INFORMATION_LA.get(area)
        if tabs is None:
            continue
        keys = log.do(f"la {int(area)} keys", lambda t=tabs: [int(k) for k in t.keys()])
        for k in sorted(keys or ()):
            log.do(f"la {int(area)} table {k}", lambda t=tabs, k=k: [
                int(t[np.uint64(k)].table_id), len(t[np.uint64(k)].slots),
                digest(t[np.uint64(k)].slots)])
        log.do(f"la {int(area)} spawners", lambda a=area: digest(np.frombuffer(
            bytes(enc.SPAWNER_INFORMATION_LA[a].buf), np.uint8)) if hasattr(
                enc.SPAWNER_INFORMATION_LA[a], "buf") else len(
                    enc.SPAWNER_INFORMATION_LA[a].spawners))
    log.do("names of tables", lambda: sorted(enc.ENCOUNTER_TABLE_NAMES_LA.items())[:3000])
    for name in ("SPECIES_EN", "CONSTANT_CASE_SPECIES_EN", "ABILITIES_EN", "NATURES_EN",
                 "TYPES_EN", "GENDER_SYMBOLS"):
        log.do(name, lambda n=name: list(getattr(data, n)))
    for game in sorted(enums.Game, key=int):
        log.do(f"personal {int(game)}", lambda g=game: [
            len(personal.get_info_table(g)), digest(personal.get_info_table(g))])
    for game in list(enums.Game)[:6]:
        if 0 < int(game) < 32:  # the Gen 3 games
            log.do(f"personal3 {int(game)}", lambda g=game: personal.get_info_table_3(
                np.uint32(g)), post=lambda t: [len(t), [int(t["hp"][i]) for i in range(0, 380, 7)]])


def slot_choices(log, r, n, made=12):
    """Legends Arceus slot choice, loaded and given tables, draws at share boundaries"""
    enc, mod, enums = sut.load(log.mon, "data.encounter", "data.encounter.encounter_area_la",
                               "enums")
    todo = []
    for area in enums.LAArea:
        tabs = enc.ENCOUNTER_INFORMATION_LA.get(area)
        if tabs is not None:
            todo += [(f"la {int(area)} {k}", tabs[np.uint64(k)])
                     for k in r.sample(sorted(int(k) for k in tabs.keys()), 6)]
    for i in range(made):
        size = r.choice((1, 2, 3, 5, 9, 16))
        rec = np.zeros(size, mod.SlotLA.dtype)
        for j in range(size):
            rec[j]["species"] = j
            rec[j]["base_probability"] = r.choice((0, 1, 2, 10, r.randrange(1, 1000)))
            rec[j]["time_multipliers"] = [r.choice((0, 1, 1.5, 0.1, r.random())) for _ in range(4)]
            rec[j]["weather_multipliers"] = [r.choice((0, 1, 1.2, r.random())) for _ in range(9)]
        rec[r.randrange(size)]["base_probability"] += 1
        rec["time_multipliers"][r.randrange(size)] = 1
        obj = log.do("EncounterAreaLA", mod.EncounterAreaLA, np.uint64(i), size, keep=False)
        if obj is None:
            continue
        obj.slots = rec.view(np.recarray)
        todo.append((f"given {i}", obj))
    for name, obj in todo:
        log.scenario("slots of " + name)
        for _ in range(n):
            time, weather = r.randrange(4), r.randrange(9)
            with np.errstate(all="ignore"):
                slots = np.asarray(obj.slots)
                w = (slots["base_probability"].astype(np.float64)
                     * slots["time_multipliers"][:, time].astype(np.float64)
                     * slots["weather_multipliers"][:, weather].astype(np.float64))
            total = float(w.sum())
            if total <= 0:
                continue
            edges = np.cumsum(w) / total
            x = r.choice((0.0, r.random(), 1 - 2 ** -24, float(edges[r.randrange(len(w))])))
            x = min(max(x + r.choice((0, 0, 2 ** -24, -(2 ** -24), 2 ** -26)), 0.0), 1 - 2 ** -24)
            rand = np.float32(x) if r.random() < 0.7 or log.single else x
            if rand >= 1:
                continue
            args = r.choice(((time, weather),
                             (enums.LATime[TIMES[time]], enums.LAWeather[WEATHERS[weather]]),
                             (np.uint8(time), np.uint8(weather))))
            log.mon.count("slot_choices")
            log.do(f"calc_slot {float(rand).hex()} {time} {weather}",
                   lambda: obj.calc_slot(rand, *args),
                   post=lambda s: [int(s.species), int(s.form), int(s.gender), int(s.min_level),
                                   int(s.max_level), int(s.guaranteed_ivs), int(s.is_alpha),
                                   int(s.base_probability)])


AREAS = {"generators": generators, "factories": factories, "constants": all_constants,
         "lists": lists, "hashes": hashes, "utilities": utilities, "searches": searches,
         "parts": gen3_parts, "tables": lambda log, r, n: tables(log, r),
         "slots": slot_choices}


def run(mon, r, plan, strict=False, single=False, at=LOG):
    """plan: list of [area, n]; single: fractions always as the documented np.float32"""
    log = Log(mon, strict, at)
    log.single = single
    for area, n in plan:
        AREAS[area](log, r, n)
        mon.count("area:" + area)
    log.close()


def diff(path_a, path_b, limit=5):
    """first differing lines of two logs: list of (scenario, line a, line b)"""
    out, name, n = [], "", 0
    with open(path_a, encoding="utf-8") as a, open(path_b, encoding="utf-8") as b:
        while True:
            la, lb = a.readline(), b.readline()
            if not la and not lb:
                break
            if la.startswith("# ") and la == lb:
                name = la[2:].strip()
                continue
            n += 1
            if la != lb:
                out.append((name, la.strip()[:400] or "<end>", lb.strip()[:400] or "<end>"))
                if len(out) >= limit or not la or not lb or (
                        la.startswith("# ") != lb.startswith("# ")):
                    break
    return n, out
