"""C16: Gen 3 slots, levels, rates and lead effects match the games' odds."""
import numpy as np

from lib import gen3json, names, sut
from lib import gen3model as g3
from lib.mon import HarnessError, SutFailure
from lib.models import M32
from lib.rngspec import edge_int, rng_for

RULE = ("one case = one draw given to slot selection (all 65536 draws for each encounter type), "
        "one (level range, draw, pressure) or one (area, encounter type, lead, game) query, "
        "compared with the published odds or the shipped data and with the draws consumed; "
        "distinct = distinct such inputs")
REQUIRED = ["slot_draws", "level_draws", "pressure_levels", "lead_slots", "type_filtered_slots",
            "rates", "safari_areas", "modified_lists", "every_level_reached"]
ASSUMPTIONS = ["the six Gen 3 encounter types; min level <= max level; Magnet Pull and Static (the "
               "type leads that exist in Gen 3); safari maps are those named SAFARI_ZONE in the "
               "shipped Ruby, Sapphire and Emerald files"]
INVERSE = pow(0x41C64E6D, -1, 1 << 32)
NAMES = {0: "GRASS", 3: "ROCK_SMASH", 4: "SURFING", 6: "OLD_ROD", 7: "GOOD_ROD", 8: "SUPER_ROD"}


def before(draw, low):
    """the seed whose next half draw is `draw`"""
    return ((draw << 16 | low) - 0x6073) * INVERSE & M32


def jobs(tier, seed):
    quick = tier == "quick"
    out = []
    for mode in ("numba", "numpy"):
        out.append({"func": "odds", "mode": mode})
        out.append({"func": "levels", "mode": mode,
                    "n": (60 if quick else 1500) if mode == "numba" else (4 if quick else 40)})
        out.append({"func": "leads", "mode": mode,
                    "n": 4000 if quick and mode == "numpy" else 40_000 if quick else 600_000})
        out.append({"func": "areas", "mode": mode})
    return out


def modules(mon):
    return sut.load(mon, "gen3.encounter_area_3", "data.encounter.encounter_area_3", "lcrng",
                    "enums", "data.personal")


def njit(fn):
    if sut.use_numba():
        import numba as nb
        return nb.njit(fn)
    return fn


def records(area_mod, areas):
    table = np.zeros(len(areas), area_mod.EncounterArea3.dtype).view(np.recarray)
    for rec, a in zip(table, areas):
        gen3json.fill(rec, a)
    return table


def marked_area(r):
    """every slot of every type tells itself apart by its levels and species"""
    slots, k = {}, 0
    for name, n in gen3json.SIZES.items():
        mons = []
        for _ in range(n):
            k += 1
            lo = r.randrange(1, 90)
            mons.append((lo, lo + r.randrange(10), k * 7 + r.randrange(7)))
        slots[name] = mons
    rates = dict(zip(("land_rate", "water_rate", "rock_rate", "fish_rate"),
                     r.sample(range(1, 256), 4)))
    return g3.Area(r.randrange(100), rates, slots)


def enc_args(r, numba, enums, e):
    """encounter type argument styles"""
    if numba:
        return np.uint8(r.choice((e, enums.Encounter[names.ENCOUNTERS[e]])))
    return r.choice((np.uint8(e), int(e), enums.Encounter[names.ENCOUNTERS[e]]))


def odds(mon, job):
    ea, area_mod, lcrng, enums, _ = modules(mon)
    if sum(g3.GRASS) != 100 or sum(g3.WATER) != 100 or sum(g3.SUPER) != 100:
        raise HarnessError("odds")
    r = rng_for(job, "odds")
    hslot = ea.calculate_hslot

    def drive(area, rng, encounter, seeds, out, after):
        for i in range(seeds.shape[0]):
            rng.re_init(seeds[i])
            slot = hslot(area, rng, encounter)
            out[i, 0] = slot.min_level
            out[i, 1] = slot.max_level
            out[i, 2] = slot.species
            after[i] = rng.seed
    drive = njit(drive)
    numba = sut.use_numba()
    for e, (name, percent, _) in g3.ENCOUNTERS.items():
        plain = marked_area(r)
        area = records(area_mod, [plain])[0]
        low = r.getrandbits(16)
        step = 1 if numba or job["tier"] == "thorough" else 4
        draws = range(r.randrange(step), 65536, step)
        seeds = np.array([before(d, low) for d in draws], np.uint32)
        out = np.zeros((len(seeds), 3), np.int64)
        after = np.zeros(len(seeds), np.uint64)
        try:
            with mon.sut(f"slots of encounter type {NAMES[e]} over the draws"):
                drive(area, lcrng.PokeRNGMod(np.uint32(0)), enc_args(r, numba, enums, e), seeds,
                      out, after)
        except SutFailure:
            continue
        counts = [0] * len(percent)
        for d, got, end in zip(draws, out.tolist(), after.tolist()):
            want = g3.slot_of(percent, d)
            if tuple(got) != plain.slots[name][want]:
                mon.violate(f"{NAMES[e]}: a draw selects another slot", draw=d, want_slot=want,
                            got=got, slots=plain.slots[name])
                break
            if end != (d << 16 | low):
                mon.violate(f"{NAMES[e]}: choosing a slot does not take exactly one draw",
                            draw=d, seed_after=end)
                break
            counts[want] += 1
        mon.bulk(len(seeds), len(seeds))
        mon.count("slot_draws", len(seeds))
        mon.sample({"type": NAMES[e], "draws_per_slot": counts})


def levels(mon, job):
    ea, area_mod, lcrng, _, _ = modules(mon)
    r = rng_for(job, "levels")
    calc = ea.calculate_level

    def drive(slots, rng, which, seeds, pressure, out, after):
        for i in range(seeds.shape[0]):
            rng.re_init(seeds[i])
            out[i] = calc(slots[which[i]], rng, pressure[i])
            after[i] = rng.seed
    drive = njit(drive)
    slots = np.zeros(400, area_mod.Slot3.dtype).view(np.recarray)
    ranges = [(lo, hi) for g in gen3json.FILES for _, _, a in gen3json.load(g)
              for mons in a.slots.values() for lo, hi, sp in mons if sp]
    ranges = sorted(set(ranges))
    mon.count("shipped_ranges", len(ranges))
    per = 20_000
    for _ in range(job["n"]):
        if mon.too_many:
            return
        pairs = ranges[:250]
        while len(pairs) < 400:
            lo = r.randrange(1, 101)
            pairs.append(r.choice(((lo, lo), (1, 100), (lo, r.randrange(lo, 101)))))
        for rec, (lo, hi) in zip(slots, pairs):
            rec["min_level"], rec["max_level"], rec["species"] = lo, hi, 1
        which = np.array([r.randrange(400) for _ in range(per)])
        seeds = np.array([before(edge_int(r, 16), r.getrandbits(16)) for _ in range(per)],
                         np.uint32)
        pressure = np.array([r.random() < 0.5 for _ in range(per)])
        out, after = np.zeros(per, np.int64), np.zeros(per, np.uint64)
        try:
            with mon.sut("levels of slots"):
                drive(slots, lcrng.PokeRNGMod(np.uint32(0)), which, seeds, pressure, out, after)
        except SutFailure:
            return
        seen = {}
        for w, s, p, got, end in zip(which.tolist(), seeds.tolist(), pressure.tolist(),
                                     out.tolist(), after.tolist()):
            rng = g3.Rng(s)
            lo, hi = pairs[w]
            want = g3.level_of((lo, hi), rng, p)
            if got != want or end != rng.s:
                mon.violate("level differs from the game's formula" if got != want else
                            "choosing a level takes another number of draws", range=(lo, hi),
                            seed=s, pressure=p, got=got, want=want, seed_after=end,
                            want_after=rng.s)
                break
            seen.setdefault((lo, hi), set()).add(got)
        mon.bulk(per, per)
        mon.count("level_draws", per)
        mon.count("pressure_levels", int(pressure.sum()))
        mon.count("every_level_reached",
                  sum(len(v) == hi - lo + 1 for (lo, hi), v in seen.items()))


def leads(mon, job):
    """slot selection with a lead, over the areas of every game"""
    ea, area_mod, lcrng, enums, personal = modules(mon)
    r = rng_for(job, "leads")
    pick, modified = ea.calculate_hslot_lead, ea.get_modified_slots
    numba = sut.use_numba()

    def drive(area, rng, encounter, lead, special, seeds, out, after):
        for i in range(seeds.shape[0]):
            rng.re_init(seeds[i])
            slot = pick(area, rng, encounter, lead, special)
            out[i, 0] = slot.min_level
            out[i, 1] = slot.max_level
            out[i, 2] = slot.species
            after[i] = rng.seed
    drive = njit(drive)
    per = 40
    left = job["n"]
    data = {g: (records(area_mod, [a for _, _, a in gen3json.load(g)]),
                [a for _, _, a in gen3json.load(g)], g3.personal(g)) for g in gen3json.FILES}
    rng = lcrng.PokeRNGMod(np.uint32(0))
    steel = None
    while left > 0 and not mon.too_many:
        left -= per
        game = r.choice(list(gen3json.FILES))
        table, areas, infos = data[game]
        k = r.randrange(len(areas))
        e = r.choice(list(g3.ENCOUNTERS))
        lead = r.choice((g3.MAGNET, g3.STATIC, g3.MAGNET, g3.STATIC, g3.NONE, g3.PRESSURE,
                         g3.CUTE_F, 0, 24))
        if r.random() < 0.5:
            # a synthetic area, so that every list holds matching species somewhere
            if steel is None:
                steel = [i for i in range(1, 387) if {8, 13} & set(infos[i].types)]
            plain = marked_area(r)
            for mons in plain.slots.values():
                for n, (lo, hi, _) in enumerate(mons):
                    mons[n] = (lo, hi, r.choice(steel) if r.random() < 0.3
                               else r.randrange(1, 387))
            area = records(area_mod, [plain])[0]
        else:
            plain, area = areas[k], table[k]
        seeds = [edge_int(r, 32) for _ in range(per)]
        out, after = np.zeros((per, 3), np.int64), np.zeros(per, np.uint64)
        g = enums.Game[game]
        try:
            with mon.sut(f"lead {lead} in {game} area {k} type {NAMES[e]}"):
                enc = enc_args(r, numba, enums, e)
                info = personal.get_info_table_3(np.uint8(g) if numba else g)
                special = modified(area, enc, np.uint8(lead), np.uint8(g), info)
                got_special = [(int(s.min_level), int(s.max_level), int(s.species))
                               for s in special]
                drive(area, rng, enc, np.uint8(lead), special, np.array(seeds, np.uint32), out,
                      after)
        except SutFailure:
            continue
        want_special = g3.matching(plain.slots[g3.ENCOUNTERS[e][0]], lead, infos) if lead in (
            g3.MAGNET, g3.STATIC) else []
        mon.same(got_special, want_special, "the slots a lead attracts are not exactly those "
                 "holding a species of its type", game=game, area=k, type=NAMES[e], lead=lead)
        mon.count("modified_lists")
        mon.count("type_filtered_slots", len(want_special))
        for s, got, end in zip(seeds, out.tolist(), after.tolist()):
            m = g3.Rng(s)
            want = g3.pick_slot(plain, m, e, lead, infos)
            mon.case((game, k, e, lead, s))
            if tuple(got) != want or end != m.s:
                mon.violate("slot selection with a lead differs", game=game, area=k,
                            type=NAMES[e], lead=lead, seed=s, got=got, want=want,
                            seed_after=end, want_after=m.s)
                break
        mon.count("lead_slots", per)


def areas(mon, job):
    """rates, safari and type filters of every shipped area of every game"""
    ea, area_mod, _, enums, personal = modules(mon)
    r = rng_for(job, "areas")
    numba = sut.use_numba()
    for game in gen3json.FILES:
        loaded = gen3json.load(game)
        table = records(area_mod, [a for _, _, a in loaded])
        infos = g3.personal(game)
        g = np.uint8(enums.Game[game]) if numba else r.choice(
            (np.uint8(enums.Game[game]), enums.Game[game]))
        with mon.sut(f"personal table of {game}"):
            info = personal.get_info_table_3(g)
        for k, (name, const, plain) in enumerate(loaded):
            if mon.too_many:
                return
            rec = table[k]
            try:
                with mon.sut(f"safari flag and rates of {game} area {k} ({const})"):
                    safari = bool(ea.is_rse_safari_zone(rec, g))
                    rates = {e: int(ea.get_encounter_rate(rec, enc_args(r, numba, enums, e)))
                             for e in g3.ENCOUNTERS}
            except SutFailure:
                continue
            if name:
                want = "SAFARI_ZONE" in const and game not in ("FIRE_RED", "LEAF_GREEN")
                mon.same(safari, want, "safari zone flag differs", game=game, area=k, map=const)
                mon.count("safari_areas", want)
            mon.same(rates, {e: plain.rates[g3.ENCOUNTERS[e][2]] for e in g3.ENCOUNTERS},
                     "encounter rate is not that of the area and type", game=game, area=k,
                     map=const)
            mon.count("rates", len(rates))
            mon.case((game, k), n=1)
            for e in g3.ENCOUNTERS:
                for lead in (g3.MAGNET, g3.STATIC):
                    try:
                        with mon.sut(f"slots for lead {lead}, {game} area {k}, {NAMES[e]}"):
                            got = [(int(s.min_level), int(s.max_level), int(s.species))
                                   for s in ea.get_modified_slots(
                                       rec, enc_args(r, numba, enums, e), np.uint8(lead), g,
                                       info)]
                    except SutFailure:
                        return
                    want = g3.matching(plain.slots[g3.ENCOUNTERS[e][0]], lead, infos)
                    mon.same(got, want, "the slots a lead attracts are not exactly those holding "
                             "a species of its type", game=game, area=k, type=NAMES[e], lead=lead)
                    mon.count("modified_lists")
                    mon.count("type_filtered_slots", len(want))
                    mon.case((game, k, e, lead))
    # areas whose four rates all differ
    for _ in range(300):
        plain = marked_area(r)
        rec = records(area_mod, [plain])[0]
        with mon.sut("rates of a synthetic area"):
            rates = {e: int(ea.get_encounter_rate(rec, enc_args(r, numba, enums, e)))
                     for e in g3.ENCOUNTERS}
        mon.case(tuple(plain.rates.values()))
        mon.count("rates", len(rates))
        mon.same(rates, {e: plain.rates[g3.ENCOUNTERS[e][2]] for e in g3.ENCOUNTERS},
                 "encounter rate is not that of the area and type", rates=plain.rates)
