"""C15: Gen 3 wild searches return exactly what the game's call order gives."""
import numpy as np

from lib import gen3json, names, sut
from lib import gen3model as g3
from lib.mon import SutFailure
from lib.rngspec import edge_int, rng_for

RULE = ("one case = one search (game, method, encounter type, lead, ids, seed, delay, advance "
        "range, area) whose every returned encounter, field by field and in order, is compared "
        "with a replay of the game's call order in plain integers; distinct = distinct searches; "
        "split cases search the same range in parts")
REQUIRED = ["searches", "encounters", "rock_smash_misses", "cute_charm_applied",
            "safari_encounters", "synchronized", "unown", "split_ranges", "pressure", "type_leads",
            "empty_results", "reused_generators", "shipped_areas", "synthetic_areas",
            "shiny_star", "shiny_square"]
ASSUMPTIONS = ["methods 1, 2 and 4; encounter types the area has; initial advances plus delay and "
               "plus count below 2^32; Magnet Pull and Static fall back to the ordinary draw when "
               "no slot matches"]
LEADS = [255] + list(range(36))
GAME_NAMES = list(gen3json.FILES)


def jobs(tier, seed):
    quick = tier == "quick"
    out = []
    for shard in range(3):
        out.append({"func": "searches", "mode": "numba", "shard": shard,
                    "n": 350 if quick else 20_000, "span": 60})
    for shard in range(2):
        out.append({"func": "searches", "mode": "numpy", "shard": 10 + shard,
                    "n": 140 if quick else 4000, "span": 12})
    out.append({"func": "long_search", "mode": "numba", "n": 4 if quick else 150,
                "span": 3000 if quick else 20000})
    return out


def setup(mon):
    wild, area_mod, enums, encounter = sut.load(
        mon, "gen3.wild_generator_3", "data.encounter.encounter_area_3", "enums",
        "data.encounter")
    data = {}
    for g in GAME_NAMES:
        loaded = gen3json.load(g)
        data[g] = ([a for _, _, a in loaded], g3.personal(g),
                   encounter.ENCOUNTER_INFORMATION_GEN3[enums.Game[g]])
    return wild, area_mod, enums, data


def dumper():
    def dump(states, out):
        i = 0
        for s in states:
            o = out[i]
            o[0] = s.advance
            o[1] = s.pid
            o[2] = s.species
            o[3] = s.form
            o[4] = s.ability
            o[5] = s.ability_index
            o[6] = s.level
            o[7] = s.shiny
            o[8] = s.nature
            o[9] = s.gender
            o[10] = s.hidden_power
            o[11] = s.hidden_power_strength
            o[12] = s.characteristic
            for k in range(6):
                o[13 + k] = s.ivs[k]
                o[19 + k] = s.stats[k]
            i += 1
        return i
    if sut.use_numba():
        import numba as nb
        return nb.njit(dump)
    return dump


def flat(d):
    return [d[f] for f in g3.FIELDS] + d["ivs"] + d["stats"]


COLUMNS = list(g3.FIELDS) + [f"iv{i}" for i in range(6)] + [f"stat{i}" for i in range(6)]


def synthetic(r, encounter):
    slots = {}
    unown = r.random() < 0.25
    for name, n in gen3json.SIZES.items():
        mons = []
        for _ in range(n):
            lo = r.choice((1, 5, 20, 70, 99, r.randrange(1, 101)))
            hi = min(100, lo + r.choice((0, 0, 1, 5, 30)))
            sp = r.randrange(1, 387)
            if sp == 201 or unown and r.random() < 0.5:
                sp = 201 | r.randrange(28) << 11
            mons.append((lo, hi, sp))
        slots[name] = mons
    rates = {k: r.choice((1, 20, 100, 179, 180, 181, 255, r.randrange(1, 256)))
             for k in ("land_rate", "water_rate", "rock_rate", "fish_rate")}
    return g3.Area(r.choice((0, 20, 72, 73, 74, 89, 90, 91, 92, 97, 98, r.randrange(97))),
                   rates, slots)


def scenario(mon, r, area_mod, enums, data):
    game = r.choice(GAME_NAMES + ["EMERALD"] * 5)
    areas, infos, real = data[game]
    e = r.choice(list(g3.ENCOUNTERS) + [g3.E_ROCK])
    name, _, rate = g3.ENCOUNTERS[e]
    if r.random() < 0.6:
        fit = [k for k, a in enumerate(areas) if a.rates[rate] and all(
            s[0] <= s[1] for s in a.slots[name])]
        safari = [k for k in fit if areas[k].location in g3.SAFARI[enums.Game[game]]]
        letters = [k for k in fit if areas[k].slots["land"][0][2] & 0x7FF == 201]
        k = r.choice(safari if safari and r.random() < 0.15 else
                     letters if letters and e == 0 and r.random() < 0.2 else fit)
        plain, rec = areas[k], real[k]
        mon.count("shipped_areas")
        where = f"{game} area {k}"
    else:
        plain = synthetic(r, e)
        table = np.zeros(1, area_mod.EncounterArea3.dtype).view(np.recarray)
        gen3json.fill(table[0], plain)
        rec = table[0]
        mon.count("synthetic_areas")
        where = f"{game} synthetic area"
    lead = r.choice(LEADS + [25, 26, 27, 28, 32, r.randrange(25)])
    return game, e, plain, rec, lead, infos, where


def build(mon, r, wild, enums, game, e, lead, method, tid, sid, numba):
    g, m = enums.Game[game], enums.Method[method]
    args = (m, e, lead, g, tid, sid)
    if lead in names.LEADS and r.random() < 0.6:
        # as users write them
        args = (m, names.member(mon, enums.Encounter, names.ENCOUNTERS[e]),
                names.member(mon, enums.Lead, r.choice(names.LEADS[lead])), g, tid, sid)
        mon.count("named_arguments")
    if numba or r.random() < 0.5:
        args = tuple(t(v) for t, v in zip((np.uint8,) * 4 + (np.uint16,) * 2, args))
    with mon.sut(f"WildGenerator3({method}, {e}, {lead}, {game}, {tid}, {sid})"):
        return wild.WildGenerator3(*args)


def start(r, span):
    """initial advance and delay with sums inside 32 bits"""
    first = r.choice((0, 1, r.randrange(1000), edge_int(r, 32)))
    first = min(first, 2 ** 32 - 1 - span)
    delay = r.choice((0, 0, 1, r.randrange(5000), edge_int(r, 32)))
    return first, min(delay, 2 ** 32 - 1 - first - span)


def draw_range(r, span):
    """seed, delay, initial advances and count of one search"""
    count = r.choice((0, 1, 2, r.randrange(1, span + 1)))
    seed = edge_int(r, 32)
    first, delay = start(r, span + 1)
    return seed, delay, first, count


def trainer(r, search):
    """trainer and secret id, often ones an encounter is shiny for, or nearly"""
    tid = edge_int(r, 16)
    if r.random() < 0.5:
        pids = [d["pid"] for d in search()]
        if pids:
            pid = r.choice(pids)
            tsv = (pid >> 16) ^ (pid & 0xFFFF) ^ r.choice((0, 0, r.randrange(1, 10)))
            if r.random() < 0.5:
                return tid, tid ^ tsv
            sid = r.choice((1 << r.randrange(16), 0xFFFF - r.randrange(16), edge_int(r, 16)))
            return sid ^ tsv, sid
    return tid, edge_int(r, 16)


def run(mon, gen, dump, rec, seed, delay, first, count, label):
    with mon.sut(f"generate(seed={seed:#x}, delay={delay}, initial={first}, max={count}) {label}"):
        states = gen.generate(np.uint32(seed), np.uint32(delay), np.uint32(first),
                              np.uint32(count), rec)
        n = len(states)
        out = np.zeros((max(n, 1), 25), np.int64)
        if n:
            dump(states, out)
    return out[:n].tolist(), states


def compare(mon, got, want, what, **witness):
    want = [flat(d) for d in want]
    if got == want:
        return True
    k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
    if k < len(got) and k < len(want):
        diff = [f"{c} {a} (replay: {b})" for c, a, b in zip(COLUMNS, got[k], want[k]) if a != b]
        text = f"{what}: encounter {k} differs: " + ", ".join(diff)
    else:
        text = f"{what}: {len(got)} encounters returned, the replay gives {len(want)}"
    mon.violate(text, **witness)
    return False


def searches(mon, job):
    wild, area_mod, enums, data = setup(mon)
    r = rng_for(job, "search")
    numba, dump = sut.use_numba(), dumper()
    for i in range(job["n"]):
        if mon.too_many:
            return
        game, e, plain, rec, lead, infos, where = scenario(mon, r, area_mod, enums, data)
        method = r.choice(list(g3.METHODS))
        plan = draw_range(r, job["span"])
        tid, sid = trainer(r, lambda: g3.generate(
            *plan, plain, g3.METHODS[method], e, lead, int(enums.Game[game]), 0, infos))
        try:
            gen = build(mon, r, wild, enums, game, e, lead, method, tid, sid, numba)
            # several searches on one generator object: other seeds, ranges and splits
            for rep in range(r.choice((1, 1, 2, 3))):
                mon.count("reused_generators", rep > 0)
                seed, delay, first, count = plan if rep == 0 else draw_range(r, job["span"])
                label = f"{where} type {e} lead {lead} {method}"
                witness = dict(game=game, encounter=e, lead=lead, method=method, tid=tid,
                               sid=sid, seed=seed, delay=delay, initial_advances=first,
                               max_advances=count, area=where, location=plain.location)
                want = g3.generate(seed, delay, first, count, plain, g3.METHODS[method], e, lead,
                                   int(enums.Game[game]), tid ^ sid, infos, mon.count)
                got, states = run(mon, gen, dump, rec, seed, delay, first, count, label)
                mon.case((game, e, lead, method, tid, sid, seed, delay, first, count, where))
                mon.count("searches")
                mon.count("encounters", len(want))
                mon.count("empty_results", not want)
                mon.count("unown", sum(d["species"] == 201 for d in want))
                mon.count("shiny_star", sum(d["shiny"] == 1 for d in want))
                mon.count("shiny_square", sum(d["shiny"] == 2 for d in want))
                mon.count("pressure", lead == 32 and game == "EMERALD")
                mon.count("type_leads", lead in (27, 28) and game == "EMERALD")
                if not compare(mon, got, want, "search", **witness):
                    break
                if want and rep == 0 and i % 16 == 0:
                    k = r.randrange(len(want))
                    with mon.sut("read an encounter's fields"):
                        one = g3.read_state(states[k])
                    mon.same(one, want[k], "encounter read through its attributes differs",
                             **witness)
                if i < 2:
                    mon.sample(dict(witness, encounters=len(want)))
                if count > 1 and r.random() < 0.4:
                    cut = r.randrange(1, count)
                    a, _ = run(mon, gen, dump, rec, seed, delay, first, cut, label)
                    b, _ = run(mon, gen, dump, rec, seed, delay, first + cut, count - cut, label)
                    mon.count("split_ranges")
                    if not compare(mon, a + b, want, "range searched in two parts", cut=cut,
                                   **witness):
                        break
        except SutFailure:
            continue


def long_search(mon, job):
    """long ranges: nothing missing, repeated or drifting far into a search"""
    wild, area_mod, enums, data = setup(mon)
    r = rng_for(job, "long")
    dump = dumper()
    for _ in range(job["n"]):
        if mon.too_many:
            return
        game, e, plain, rec, lead, infos, where = scenario(mon, r, area_mod, enums, data)
        method = r.choice(list(g3.METHODS))
        seed, (first, delay) = edge_int(r, 32), start(r, job["span"])
        tid, sid = trainer(r, lambda: g3.generate(
            seed, delay, first, 100, plain, g3.METHODS[method], e, lead, int(enums.Game[game]), 0,
            infos))
        try:
            gen = build(mon, r, wild, enums, game, e, lead, method, tid, sid, True)
            got, _ = run(mon, gen, dump, rec, seed, delay, first, job["span"], where)
        except SutFailure:
            continue
        want = g3.generate(seed, delay, first, job["span"], plain, g3.METHODS[method], e, lead,
                           int(enums.Game[game]), tid ^ sid, infos, mon.count)
        mon.case((game, e, lead, method, seed, first, delay))
        mon.count("searches")
        mon.count("encounters", len(want))
        compare(mon, got, want, "long search", game=game, encounter=e, lead=lead, method=method,
                seed=seed, delay=delay, initial_advances=first, area=where)
