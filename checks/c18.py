"""C18: Legends Arceus tables decode faithfully; slot choice follows the weights."""
import json
import os
import struct
import subprocess
import sys

import numpy as np

from lib import sut
from lib.flat import T
from lib.mon import HarnessError, SutFailure
from lib.names import TIMES, WEATHERS
from lib.rngspec import rng_for

RULE = ("one case = one encounter table, spawner, multiplier, alpha entry or outbreak group compared "
        "with an independent reading of the shipped file, or one slot choice (table, time, weather, "
        "draw) compared with the exact share of the summed weights the draw lies in; distinct = "
        "distinct such records, ways of loading and (table, time, weather, draw)")
REQUIRED = ["tables:first", "altered_tables", "tables:reload", "tables:foreign", "slots", "alpha_slots",
            "override_slots", "species_multipliers", "spawners", "multipliers", "alpha_entries",
            "groups", "lotteries", "raw_tables", "table_names", "choices:f32", "choices:f64",
            "choices_boundary", "choices_zero_weight", "choices_shipped", "choices_api"]
ASSUMPTIONS = ["draws are on the 2^-24 grid as float32 or on the 2^-32 grid as float64 (what the "
               "games' 32-bit generators give); draws so close to a boundary that single precision "
               "rounding decides are only judged not to choose a slot without a weight (boundaries are judged on the coarser grid on which "
               "the arithmetic is exact); "
               "tables with no slot or no weight are not chosen from"]
AREAS = {1: "OBSIDIAN_FIELDLANDS", 2: "CRIMSON_MIRELANDS", 3: "COBALT_COASTLANDS",
         4: "CORONET_HIGHLANDS", 5: "ALABASTER_ICELANDS"}
BOOST = {1: 15, 2: 15, 3: 15, 4: 20, 5: 20}
FIELDS = ("species", "gender", "form", "min_level", "max_level", "guaranteed_ivs",
          "base_probability", "is_alpha")
BASE = os.path.join(sut.REPO, sut.PKG, "resources", "encount", "la")


def raw(name):
    with open(os.path.join(BASE, name), "rb") as f:
        return f.read()


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def key(t):
    return t.num(0, "i32"), t.num(1, "i32", 0) or 0


class Shipped:
    """everything the files say, read without the package"""

    def __init__(self):
        self.multipliers = {}
        self.multiplier_rows = []
        for t in T.root(raw("poke_encount.bin")).tables(0):
            row = (key(t), tuple(t.num(k, "f32", 0.0) for k in range(2, 6)),
                   (1.0,) + tuple(t.num(k, "f32", 0.0) for k in range(6, 14)))
            self.multiplier_rows.append(row)
            self.multipliers[row[0]] = row
        self.misc_rows = [(key(t), t.num(6, "i32", 0))
                          for t in T.root(raw("poke_misc.bin")).tables(0)]
        self.misc = dict(self.misc_rows)
        self.groups = [(t.num(0, "u64"), [w.num(7, "u64") for w in t.tables(1)], t.num(2, "u64"))
                       for t in T.root(raw("new_huge_outbreak_group.bin")).tables(0)]
        self.lottery = [(t.num(0, "u64"), [[d.num(0, "u64") for d in t.tables(k)]
                                           for k in (1, 2, 3)])
                        for t in T.root(raw("new_huge_outbreak_group_lottery.bin")).tables(0)]
        self.names = {int(k): v for k, v in json.loads(raw("encounter_table_names.json")).items()}

    def raw_tables(self, area):
        return T.root(raw(f"ha_area{area:02d}_encounter.bin")).tables(0)

    def slot(self, table, s):
        """-> (values of FIELDS, times, weathers, what was applied)"""
        species, form = s.num(0, "i32"), s.num(3, "i32", 0)
        levels, override = [], False
        for own, field in ((30, 1), (31, 2)):
            v = s.num(own, "i32", 0)
            if 0 < v <= 100:
                override = True
            else:
                v = table.num(field, "i32")
            levels.append(v)
        alpha = any(s.table(46).num(k, "i8", 0) for k in (0, 1))
        if alpha:
            levels = [v + BOOST[self.misc[(species, form)]] for v in levels]
        e = s.table(45)
        own = ([e.num(k, "f32", 0.0) for k in range(7, 11)],
               [1.0] + [e.num(k, "f32", 0.0) for k in range(11, 19)])
        baked, species_used = [], 0
        for mine, theirs in zip(own, self.multipliers[(species, form)][1:]):
            out = []
            for a, b in zip(mine, theirs):
                if a < 0:
                    species_used += 1
                    a = b if b >= 0 else 1.0
                out.append(f32(a))
            baked.append(tuple(out))
        # a slot without a fixed gender holds -1, which is 255 in the 8-bit field
        values = (species, s.num(2, "i32", 0) & 0xFF, form, levels[0], levels[1],
                  s.num(25, "i32", 0), s.num(29, "i32"), int(alpha))
        return values, baked[0], baked[1], (override, alpha, species_used)

    def tables(self, area):
        out = {}
        for t in self.raw_tables(area):
            out[t.num(0, "u64")] = [self.slot(t, s) for s in t.tables(3)]
        return out

    def spawners(self, area):
        out = []
        for t in T.root(raw(f"ha_area{area:02d}_spawner.bin")).tables(0):
            v = t.tables(2)[0].table(7)
            out.append({
                "spawner_id": t.num(0, "u64"), "group_id": t.num(1, "u64"),
                "coordinates": tuple(v.num(k, "f32") for k in range(3)),
                "min_spawn_count": t.num(7, "i32"), "max_spawn_count": t.num(8, "i32"),
                **{n: None if t.num(k, "i8") is None else bool(t.num(k, "i8"))
                   for k, n in ((10, "is_mass_outbreak"), (11, "is_water"), (12, "is_sky"))},
                "encounter_table_id": t.tables(20)[0].num(0, "u64")})
        return out


def jobs(tier, seed):
    quick = tier == "quick"
    out = []
    for mode in ("numba", "numpy"):
        out.append({"func": "decoded", "mode": mode})
        for writer in ("TRUE", "FALSE"):
            out.append({"func": "foreign", "mode": mode, "writer": writer})
        # other contents than the shipped ones
        for v in range(2 if quick else 30):
            out.append({"func": "decoded", "mode": mode, "alter": "la", "variant": v})
        shards = 1 if quick else 4
        for s in range(shards):
            out.append({"func": "choose", "mode": mode, "shard": s, "shards": shards,
                        "tables": (260 if quick else 100_000) if mode == "numba"
                        else (25 if quick else 300),
                        "synthetic": (300 if quick else 6000) if mode == "numba"
                        else (40 if quick else 600)})
    return out


def plain_slot(rec):
    return (tuple(int(rec[f]) for f in FIELDS), tuple(float(x) for x in rec["time_multipliers"]),
            tuple(float(x) for x in rec["weather_multipliers"]))


def check_tables(mon, how, area, loaded, expected):
    with mon.sut(f"keys of the {AREAS[area]} tables"):
        keys = [int(k) for k in loaded.keys()]
    mon.same(sorted(keys), sorted(expected), "set of table ids differs", area=AREAS[area], how=how)
    for k in keys:
        if k not in expected or mon.too_many:
            continue
        with mon.sut(f"table {k} of {AREAS[area]} ({how})"):
            table = loaded[np.uint64(k)]
            tid = int(table.table_id)
            slots = [plain_slot(s) for s in table.slots]
        mon.case((how, area, k, mon.job["mode"], mon.job.get("writer"), mon.job.get("variant")))
        mon.count("tables:" + how)
        mon.count("altered_tables", bool(mon.job.get("alter")))
        mon.same(tid, k, "a table is listed under another id", area=AREAS[area], how=how)
        want = [s[:3] for s in expected[k]]
        if not mon.same(len(slots), len(want), "number of slots differs", table=k, how=how):
            continue
        for i, (g, w) in enumerate(zip(slots, want)):
            mon.count("slots")
            override, alpha, n = expected[k][i][3]
            mon.count("override_slots", override)
            mon.count("alpha_slots", alpha)
            mon.count("species_multipliers", n)
            if g == w:
                continue
            for f, a, b in zip(FIELDS, g[0], w[0]):
                if a != b:
                    mon.violate(f"slot field {f} differs from the shipped file", got=a, want=b,
                                table=k, slot=i, area=AREAS[area], how=how)
            mon.same(g[1], w[1], "time multipliers differ", table=k, slot=i, how=how)
            mon.same(g[2], w[2], "weather multipliers differ", table=k, slot=i, how=how)


def plain_misc(mon, e, enums, ship):
    """the flatbuffer-backed public objects"""
    with mon.sut("multipliers"):
        m = e.ENCOUNTER_MULTIPLIER_LA
        rows = [((int(x.species), int(x.form or 0)), tuple(map(float, x.time_of_day_multipliers)),
                 tuple(map(float, x.weather_multipliers))) for x in m.encounter_multipliers]
        lookup = {tuple(map(int, k)): tuple(map(float, x.time_of_day_multipliers)) + tuple(
            map(float, x.weather_multipliers)) for k, x in m.multiplier_lookup.items()}
    mon.same(len(rows), len(ship.multiplier_rows), "number of multipliers differs")
    for g, w in zip(rows, ship.multiplier_rows):
        mon.case(("mult", w[0]))
        mon.count("multipliers")
        mon.same(g, w, "multiplier differs")
    mon.same(lookup, {k: v[1] + v[2] for k, v in ship.multipliers.items()},
             "multiplier lookup differs")
    with mon.sut("alpha entries"):
        p = e.POKE_MISC_LA
        rows = [((int(x.species), int(x.form or 0)), int(x.alpha_level_index)) for x in p.misc_list]
        lookup = {tuple(map(int, k)): int(x.alpha_level_index) for k, x in p.misc_lookup.items()}
    mon.same(len(rows), len(ship.misc_rows), "number of alpha entries differs")
    for g, w in zip(rows, ship.misc_rows):
        mon.case(("misc", w[0]))
        mon.count("alpha_entries")
        mon.same(g, w, "alpha level entry differs")
    mon.same(lookup, ship.misc, "alpha level lookup differs")
    with mon.sut("outbreak groups"):
        g = e.NHO_GROUP_TABLE_LA
        rows = [(int(x.hash), [int(w.encounter_table_id) for w in x.wave_details],
                 int(x.first_wave_encounter_table_id)) for x in g.groups]
        lookup = {int(k): int(v.first_wave_encounter_table_id) for k, v in g.group_lookup.items()}
    mon.same(len(rows), len(ship.groups), "number of outbreak groups differs")
    for a, b in zip(rows, ship.groups):
        mon.case(("group", b[0]))
        mon.count("groups")
        mon.same(a, b, "outbreak group differs")
    mon.same(lookup, {h: f for h, _, f in ship.groups}, "outbreak group lookup differs")
    with mon.sut("outbreak lotteries"):
        t = e.NHO_LOTTERY_TABLE_LA
        rows = [(int(x.hash), [[int(d.hash) for d in part] for part in (
            x.table_common, x.table_rare_1, x.table_rare_2)]) for x in t.lottery_groups]
        full = [[int(d.hash) for d in x.full_table] for x in t.lottery_groups]
        look = [{int(k): int(d.hash) for k, d in x.full_table_lookup.items()}
                for x in t.lottery_groups]
        lookup = {int(k): int(v.hash) for k, v in t.lottery_group_lookup.items()}
    mon.same(len(rows), len(ship.lottery), "number of outbreak lotteries differs")
    for i, (a, b) in enumerate(zip(rows, ship.lottery)):
        mon.case(("lottery", b[0]))
        mon.count("lotteries")
        mon.same(a, b, "outbreak lottery differs")
        joined = sum(b[1], [])
        mon.same(full[i], joined, "joined outbreak lottery differs")
        mon.same(look[i], {h: h for h in joined}, "lookup of an outbreak lottery differs")
    mon.same(lookup, {h: h for h, _ in ship.lottery}, "outbreak lottery lookup differs")
    with mon.sut("encounter table names"):
        names = {int(k): v for k, v in e.ENCOUNTER_TABLE_NAMES_LA.items()}
        kinds = {type(k) for k in e.ENCOUNTER_TABLE_NAMES_LA}
    mon.count("table_names", len(names))
    mon.case("names")
    mon.same(names, ship.names, "encounter table names differ")
    mon.same(kinds, {int}, "encounter table names are not keyed by id")


def spawners(mon, e, enums, ship):
    for area, label in AREAS.items():
        want = ship.spawners(area)
        with mon.sut(f"spawners of {label}"):
            table = e.SPAWNER_INFORMATION_LA[enums.LAArea[label]]
            got = [spawner(s) for s in table.spawners]
            by_id = {int(k): int(v.spawner_id) for k, v in table.spawner_table_lookup.items()}
            by_group = {int(k): int(v.spawner_id) for k, v in table.spawner_by_group.items()}
        mon.same(len(got), len(want), "number of spawners differs", area=label)
        for g, w in zip(got, want):
            mon.case(("spawner", area, w["spawner_id"]))
            mon.count("spawners")
            for f in w:
                mon.same(g[f], w[f], f"spawner field {f} differs from the shipped file",
                         area=label, spawner=w["spawner_id"])
        mon.same(by_id, {w["spawner_id"]: w["spawner_id"] for w in want},
                 "spawner lookup differs", area=label)
        mon.same(by_group, {w["group_id"]: w["spawner_id"] for w in want},
                 "spawner lookup by group differs", area=label)


def spawner(s):
    return {"spawner_id": int(s.spawner_id), "group_id": int(s.group_id),
            "coordinates": tuple(float(x) for x in s.coordinates.as_tuple()),
            "min_spawn_count": s.min_spawn_count and int(s.min_spawn_count),
            "max_spawn_count": s.max_spawn_count and int(s.max_spawn_count),
            "is_mass_outbreak": s.is_mass_outbreak, "is_water": s.is_water, "is_sky": s.is_sky,
            "encounter_table_id": int(s.encounter_table_id)}


def raw_tables(mon, ship):
    """the reader classes on the shipped files, field by field (absent = default)"""
    fb = sut.load(mon, "data.fbs.encounter_la")
    for area, label in AREAS.items():
        want = ship.raw_tables(area)
        with mon.sut(f"EncounterTable8aTable of {label}"):
            root = fb.EncounterTable8aTable(raw(f"ha_area{area:02d}_encounter.bin"))
            got = [(int(t.table_id), t.min_level, t.max_level, [
                (s.species, s.gender, s.form, s.guaranteed_ivs, s.base_probability,
                 s.override_min_level, s.override_max_level,
                 tuple(s.encounter_eligibility.time_of_day_multipliers),
                 tuple(s.encounter_eligibility.weather_multipliers), bool(s.is_alpha))
                for s in t.encounter_slots]) for t in root.encounter_tables]
            lookup = {int(k): int(v.table_id) for k, v in root.encounter_table_lookup.items()}
        ids = [t.num(0, "u64") for t in want]
        mon.same(lookup, {i: i for i in ids}, "encounter table lookup differs", area=label)
        mon.same(len(got), len(want), "number of raw tables differs", area=label)
        for g, t in zip(got, want):
            mon.case(("raw", area, g[0]))
            mon.count("raw_tables")
            slots = []
            for s in t.tables(3):
                e = s.table(45)
                slots.append((s.num(0, "i32"), s.num(2, "i32", 0), s.num(3, "i32"),
                              s.num(25, "i32"), s.num(29, "i32"), s.num(30, "i32", 0),
                              s.num(31, "i32", 0), tuple(e.num(k, "f32", 0.0) for k in range(7, 11)),
                              (1.0,) + tuple(e.num(k, "f32", 0.0) for k in range(11, 19)),
                              any(s.table(46).num(k, "i8", 0) for k in (0, 1))))
            mon.same(g, (t.num(0, "u64"), t.num(1, "i32"), t.num(2, "i32"), slots),
                     "raw encounter table differs", area=label)


def decoded(mon, job):
    ship = Shipped()
    e, enums = sut.load(mon, "data.encounter", "enums")
    for area, label in AREAS.items():
        expected = ship.tables(area)
        with mon.sut(f"ENCOUNTER_INFORMATION_LA[{label}]"):
            loaded = e.ENCOUNTER_INFORMATION_LA[enums.LAArea[label]]
        check_tables(mon, "first", area, loaded, expected)
        with mon.sut(f"load_encounter_tables_la({label}) again"):
            again = e.load_encounter_tables_la(enums.LAArea[label])
        check_tables(mon, "reload", area, again, expected)
    plain_misc(mon, e, enums, ship)
    spawners(mon, e, enums, ship)
    raw_tables(mon, ship)
    with mon.sut("number of areas"):
        n = sorted(int(k) for k in e.ENCOUNTER_INFORMATION_LA)
    mon.same(n, sorted(AREAS), "areas with encounter tables differ")


CHILD = """
import sys
sys.path.insert(0, {verif!r})
sys.path.insert(0, {repo!r})
from lib import sut
sut.install_once()
import numba_pokemon_prngs.data.encounter
"""


def foreign(mon, job):
    env = dict(os.environ, NPP_USE_NUMBA=job["writer"])
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    mon.at("writing the cache in another process")
    done = subprocess.run([sys.executable, "-W", "ignore", "-c",
                           CHILD.format(verif=here, repo=sut.REPO)],
                          env=env, capture_output=True, text=True, check=False)
    if done.returncode:
        mon.violate("importing the encounter data failed (NPP_USE_NUMBA=" + job["writer"] + ")",
                    output=done.stderr[-2000:])
        return
    ship = Shipped()
    e, enums = sut.load(mon, "data.encounter", "enums")
    for area, label in AREAS.items():
        check_tables(mon, "foreign", area, e.ENCOUNTER_INFORMATION_LA[enums.LAArea[label]],
                     ship.tables(area))


# --- choosing a slot ---------------------------------------------------------

def weights_of(slots, time, weather):
    return [s[0][6] * s[1][time] * s[2][weather] for s in slots]


def draws_for(r, weights, bits, n):
    """numerators over 2^bits: edges, both sides of every boundary, random"""
    one = 1 << bits
    total = sum(weights)
    out = {0, 1, one - 1, one - 2, one >> 1}
    cum = 0.0
    for w in weights[:8]:
        cum += w
        k = int(cum / total * one)
        out.update(x for x in range(k - 1, k + 3) if 0 <= x < one)
    while len(out) < min(n, one):
        out.add(r.getrandbits(bits))
    return sorted(out)


def exact_bits(weights):
    """the finest grid of draws on which single precision is exact, or None"""
    total = sum(weights)
    if total >= 1 << 20 or not all(float(w).is_integer() for w in weights):
        return None
    return 24 - int(total).bit_length()


def want_slots(weights, ks, bits):
    """-> list of (slot, on a boundary) or (None, ...) where rounding decides"""
    one = 1 << bits
    limit = exact_bits(weights)
    out = []
    if limit is not None and bits <= limit:
        edges, c = [], 0
        for w in weights:
            c += int(w)
            edges.append(c * one)
        for k in ks:
            x = k * c
            out.append((next(i for i, e in enumerate(edges) if x < e), x in edges or x == 0))
        return out
    cum = np.cumsum(np.array(weights, np.float64))
    total = cum[-1]
    x = np.array(ks, np.float64) / one * total
    i = np.searchsorted(cum, x, side="right")
    # single precision: one rounding per weight, sum, product and subtraction
    slack = (3 * len(weights) + 4) * 2.0 ** -24 * total
    near = np.min(np.abs(x[:, None] - cum[None, :]), axis=1) <= slack
    # with nothing drawn the first slot with a weight is chosen, without rounding
    first = next(j for j, w in enumerate(weights) if w > 0)
    for k, a, b in zip(ks, i.tolist(), near.tolist()):
        if k == 0:
            out.append((first, True))
        else:
            out.append((None, False) if b or a >= len(weights) else (a, False))
    return out


def build(mon, mod, dtype, slots, tid):
    """an area whose slots carry their index as species"""
    rec = np.zeros(len(slots), dtype)
    for i, s in enumerate(slots):
        for f, v in zip(FIELDS, s[0]):
            rec[i][f] = v
        rec[i]["species"] = i
        rec[i]["time_multipliers"] = s[1]
        rec[i]["weather_multipliers"] = s[2]
    with mon.sut("EncounterAreaLA of given slots"):
        area = mod.EncounterAreaLA(np.uint64(tid), len(slots))
        if len(slots) % 2:
            area.slots = rec.view(np.recarray)
        else:
            for i in range(len(slots)):
                area.slots[i] = rec[i]
    return area


def synthetic(r):
    n = r.choice((1, 1, 2, 2, 3, 4, 5, 7, 9, 12, 16))
    kind = r.randrange(3)
    slots = []
    for _ in range(n):
        p = r.choice((0, 0, 1, 1, 2, 5, 10, 100, r.randrange(1, 1000)))
        if kind == 0:
            mults = (0.0, 1.0, 1.0, 1.0, 2.0, 3.0)
        elif kind == 1:
            mults = (0.0, 0.5, 1.0, 1.2, 1.5, 0.1, 5.0)
        else:
            mults = tuple(r.random() * 4 for _ in range(3)) + (0.0,)
        if kind == 2 and _ == n - 1:
            p *= r.randrange(2)
        slots.append(((0, 0, 0, 1, 1, 0, p, 0),
                      tuple(f32(r.choice(mults)) for _ in range(4)),
                      tuple(f32(r.choice(mults)) for _ in range(9))))
    return slots


def choose(mon, job):
    ship = Shipped()
    e, mod, enums = sut.load(mon, "data.encounter", "data.encounter.encounter_area_la", "enums")
    r = rng_for(job, "choose", job["shard"])
    dtype = mod.SlotLA.dtype
    numba = sut.use_numba()

    def drive(area, rands, time, weather, out):
        for i in range(rands.shape[0]):
            out[i] = area.calc_slot(rands[i], time, weather).species
    if numba:
        import numba as nb
        drive = nb.njit(drive)
    tables = [(a, k, s) for a in AREAS for k, s in ship.tables(a).items()]
    picked = tables if len(tables) <= job["tables"] else r.sample(tables, job["tables"])
    picked = picked[job["shard"]::job["shards"]]
    todo = [("shipped", k, s, a) for a, k, s in picked]
    todo += [("synthetic", j, synthetic(r), 0) for j in range(job["synthetic"] // job["shards"])]
    combos = [(t, w) for t in range(4) for w in range(9)]
    for kind, tid, slots, area in todo:
        if mon.too_many:
            return
        obj = build(mon, mod, dtype, slots, tid)
        for time, weather in (combos if numba and kind == "shipped" else r.sample(combos, 6)):
            weights = weights_of(slots, time, weather)
            if sum(weights) <= 0:
                continue
            bits = r.choice((24, 24, 32, exact_bits(weights) or 24, exact_bits(weights) or 24))
            ks = draws_for(r, weights, bits, 16)
            label = "f64" if bits == 32 or r.random() < 0.2 else "f32"
            rands = np.array([k / (1 << bits) for k in ks],
                             np.float32 if label == "f32" else np.float64)
            out = np.full(len(ks), -1, np.int64)
            args = (time, weather) if numba or r.random() < 0.5 else (
                enums.LATime[TIMES[time]], enums.LAWeather[WEATHERS[weather]])
            with mon.sut(f"calc_slot on {kind} table {tid} (time {time}, weather {weather})"):
                drive(obj, rands, args[0], args[1], out)
            want = want_slots(weights, ks, bits)
            zero = 0 in weights
            for k, g, (w, edge) in zip(ks, out.tolist(), want):
                if not 0 <= g < len(weights) or weights[g] == 0:
                    mon.violate("a slot without a weight was chosen", got=g, weights=weights,
                                draw=f"{k}/2^{bits}", table=tid, kind=kind, time=time,
                                weather=weather)
                    break
                if w is None:
                    mon.count("choices_near")
                    continue
                mon.count("choices:" + label)
                mon.count("choices_boundary", edge)
                mon.count("choices_zero_weight", zero)
                mon.count("choices_shipped", kind == "shipped")
                mon.case((kind, tid, area, time, weather, bits, k))
                if g != w:
                    mon.violate("another slot than the one whose share holds the draw was chosen",
                                got=g, want=w, weights=weights, draw=f"{k}/2^{bits}", table=tid,
                                kind=kind, time=time, weather=weather)
                    break
    # the areas as loaded, called from Python, enums included
    for area, tid, slots in r.sample(tables, 60):
        with mon.sut("table lookup"):
            obj = e.ENCOUNTER_INFORMATION_LA[enums.LAArea[AREAS[area]]][np.uint64(tid)]
        for _ in range(4):
            time, weather = r.randrange(4), r.randrange(9)
            weights = weights_of(slots, time, weather)
            if sum(weights) <= 0:
                continue
            ks = [r.getrandbits(24)]
            (w, _), = want_slots(weights, ks, 24)
            if w is None:
                continue
            rand = np.float32(ks[0] / (1 << 24))
            style = r.randrange(3)
            args = ((time, weather),
                    (enums.LATime[TIMES[time]], enums.LAWeather[WEATHERS[weather]]),
                    (np.uint8(time), np.uint8(weather)))[style]
            try:
                with mon.sut(f"calc_slot{(float(rand),) + args} on loaded table {tid}"):
                    s = obj.calc_slot(rand, *args)
                    got = plain_slot(s)
                    attr = int(s.species), int(s.min_level), int(s.is_alpha)
            except SutFailure:
                if mon.too_many:
                    return
                continue
            mon.count("choices_api")
            mon.case(("api", area, tid, time, weather, ks[0], style))
            mon.same(got, slots[w][:3], "calc_slot on a loaded table returned another slot",
                     draw=ks[0], table=tid, time=time, weather=weather)
            mon.same(attr, (slots[w][0][0], slots[w][0][3], slots[w][0][7]),
                     "attributes of the chosen slot differ", table=tid)
            mon.sample({"table": tid, "time": time, "weather": weather, "draw": ks[0], "slot": w})


def finalize(results, tier, seed, scratch):
    # pin the oracle: weights 2, 0, 6 split [0,1) at 1/4
    ks = [0, (1 << 18) - 1, 1 << 18, (1 << 20) - 1]
    if [w for w, _ in want_slots([2.0, 0.0, 6.0], ks, 20)] != [0, 0, 2, 2]:
        raise HarnessError("slot choice oracle")
    if [w for w, _ in want_slots([0.0, 1.2, 0.0, 1.2], [0, 500], 24)] != [1, 1]:
        raise HarnessError("slot choice oracle")
    return {}
