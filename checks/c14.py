"""C14: derived Pokemon attributes follow the games' integer formulas."""
import numpy as np

from lib import sut
from lib import gen3model as g3
from lib.mon import HarnessError, SutFailure
from lib.rngspec import edge_int, rng_for

RULE = ("one case = one Pokemon (PID, IVs, level, base-stat line, gender ratio, ids) derived by "
        "the package with every field (and in `texts` the text form) compared with integer "
        "formulas, or one (stat, nature, index) / (PID, ratio) / (PID, id) / letter given to one "
        "function; distinct = distinct inputs")
REQUIRED = ["pokemon", "texts", "stat_table", "genders", "shinies", "letters", "all_iv_parities",
            "female", "male", "genderless", "square", "star"]
ASSUMPTIONS = ["no effort values (the package models none); levels 1-100; ability 0 or 1"]
TABLES = ("RS", "E", "FR", "LG")


def jobs(tier, seed):
    quick = tier == "quick"
    out = []
    for shard in range(1 if quick else 4):
        out.append({"func": "bulk", "mode": "numba", "shard": shard,
                    "n": 150_000 if quick else 4_000_000})
    out.append({"func": "bulk", "mode": "numpy", "shard": 9, "n": 4000 if quick else 150_000})
    for mode in ("numba", "numpy"):
        out.append({"func": "texts", "mode": mode, "n": 1500 if quick else 20_000})
        out.append({"func": "functions", "mode": mode, "n": 20_000 if quick else 1_000_000})
        out.append({"func": "stat_table", "mode": mode})
    out.append({"func": "function_sweep", "mode": "numba",
                "n": 4_000_000 if quick else 300_000_000})
    return out


def self_test():
    # published example (Garchomp, level 78, Adamant); its effort values enter like IVs
    ivs = [iv + ev // 4 for iv, ev in zip((24, 12, 30, 16, 23, 5), (74, 190, 91, 48, 84, 23))]
    got = g3.stats((108, 130, 95, 80, 85, 102), ivs, 78, 3)
    if got != [289, 278, 193, 135, 171, 171]:
        raise HarnessError(f"stat formula {got}")
    if g3.hidden_power([31] * 6) != (15, 70) or g3.hidden_power([30] * 6) != (0, 70):
        raise HarnessError("hidden power formula")
    # 31/30/30/31/31/31 is Hidden Power Ice, the fourteenth type
    if g3.hidden_power([31, 30, 30, 31, 31, 31])[0] != 13:
        raise HarnessError("hidden power formula")


def iv_set(r):
    k = r.randrange(6)
    if k == 0:
        v = r.choice((0, 1, 30, 31))
        return [v] * 6
    if k == 1:  # ties for the characteristic
        a, b = r.randrange(32), r.randrange(32)
        return [r.choice((a, b)) for _ in range(6)]
    if k == 2:
        return [r.choice((0, 1, 30, 31)) for _ in range(6)]
    return [r.randrange(32) for _ in range(6)]


def base_of(r):
    k = r.randrange(4)
    return [1 if k == 0 else 255 if k == 1 else r.randrange(1, 256) for _ in range(6)]


def records(mon, personal, r, n):
    """rows of the shipped tables and synthetic rows: base stats, ratios, abilities"""
    table = np.zeros(n, personal.PersonalInfo3.dtype).view(np.recarray)
    names = ("hp", "attack", "defense", "special_attack", "special_defense", "speed")
    real = []
    for t in TABLES:
        real.append(getattr(personal, "PERSONAL_INFO_" + t))
    infos = []
    for i in range(n):
        if r.random() < 0.5:
            src = r.choice(real)
            row = src[r.randrange(len(src))]
            table[i] = row
        else:
            for nme, v in zip(names, base_of(r)):
                table[i][nme] = v
            table[i]["gender_ratio"] = r.choice((0, 1, 30, 31, 63, 64, 126, 127, 190, 191, 192,
                                                 224, 225, 252, 253, 254, 255, r.randrange(256)))
            table[i]["ability_1"] = r.randrange(1, 77)
            table[i]["ability_2"] = r.randrange(1, 77)
        infos.append(g3.Info(table[i].tobytes()))
    return table, infos


def case(r, infos):
    pid = edge_int(r, 32)
    if r.random() < 0.3:  # genders at the edge of the ratio
        pid = pid & 0xFFFFFF00 | r.choice((0, 30, 31, 63, 64, 126, 127, 190, 191, 224, 225, 254,
                                           255))
    tsv = edge_int(r, 16)
    if r.random() < 0.3:
        tsv = ((pid >> 16) ^ (pid & 0xFFFF) ^ r.choice((0, 1, 2, 7, 8, 9, 15))) & 0xFFFF
    return (edge_int(r, 32), pid, r.randrange(0, 387), r.choice((0, 0, 0, 1, 27, 28, 255)),
            iv_set(r), r.randrange(2), r.choice((1, 2, 50, 99, 100, r.randrange(1, 101))),
            tsv, r.randrange(len(infos)))


def classify(mon, d):
    mon.count(("male", "female", "genderless")[d["gender"]])
    mon.count("square", d["shiny"] == 2)
    mon.count("star", d["shiny"] == 1)
    mon.count("all_iv_parities", len({v & 3 for v in d["ivs"]}) == 4)


def bulk(mon, job):
    self_test()
    state, personal, util = sut.load(mon, "gen3.state", "data.personal", "gen3.util")
    r = rng_for(job, "bulk")
    GeneratorState, get_shiny = state.GeneratorState, util.get_shiny

    def drive(adv, pid, species, form, ivs, ability, level, tsv, which, table, out):
        for i in range(pid.shape[0]):
            s = GeneratorState(adv[i], pid[i], species[i], form[i], ivs[i], ability[i], level[i],
                               get_shiny(pid[i], tsv[i]), table[which[i]])
            o = out[i]
            o[0] = s.advance
            o[1] = s.pid
            o[2] = s.species
            o[3] = s.form
            o[4] = s.ability
            o[5] = s.ability_index
            o[6] = s.level
            o[7] = s.shiny
            o[8] = s.nature
            o[9] = s.gender
            o[10] = s.hidden_power
            o[11] = s.hidden_power_strength
            o[12] = s.characteristic
            for k in range(6):
                o[13 + k] = s.ivs[k]
                o[19 + k] = s.stats[k]
    if sut.use_numba():
        import numba as nb
        drive = nb.njit(drive)
    left = job["n"]
    while left > 0 and not mon.too_many:
        k = min(left, 20_000)
        left -= k
        table, infos = records(mon, personal, r, 400)
        cases = [case(r, infos) for _ in range(k)]
        cols = list(zip(*cases))
        out = np.zeros((k, 25), np.int64)
        args = [np.array(c, t) for c, t in zip(cols, (
            np.uint32, np.uint32, np.uint16, np.uint8, np.uint8, np.uint8, np.uint8, np.uint16,
            np.int64))]
        try:
            with mon.sut(f"deriving {k} Pokemon"):
                drive(*args, table, out)
        except SutFailure:
            return
        got = out.tolist()
        for c, g in zip(cases, got):
            adv, pid, species, form, ivs, ability, level, tsv, w = c
            want = g3.derive(adv, pid, species, form, ivs, ability, level,
                             g3.shiny(pid, tsv), infos[w])
            flat = [want[f] for f in g3.FIELDS] + want["ivs"] + want["stats"]
            classify(mon, want)
            mon.case(hash((pid, tuple(ivs), level, w, tsv, ability)))
            if flat != g:
                names = list(g3.FIELDS) + [f"iv{i}" for i in range(6)] + [
                    f"stat{i}" for i in range(6)]
                bad = [(n, a, b) for n, a, b in zip(names, g, flat) if a != b]
                mon.violate("derived attributes differ: "
                            + ", ".join(f"{n} is {a}, formula gives {b}" for n, a, b in bad),
                            pid=pid, ivs=ivs, level=level, tsv=tsv, ability=ability,
                            base=infos[w].base, ratio=infos[w].ratio)
                if mon.too_many:
                    return
        mon.count("pokemon", k)


def texts(mon, job):
    """single objects, built from Python, fields and text form"""
    state, personal, util = sut.load(mon, "gen3.state", "data.personal", "gen3.util")
    text = g3.Text()
    r = rng_for(job, "texts")
    table, infos = records(mon, personal, r, 300)
    for i in range(job["n"]):
        if mon.too_many:
            return
        adv, pid, species, form, ivs, ability, level, tsv, w = case(r, infos)
        try:
            with mon.sut(f"GeneratorState(pid={pid:#x}, ivs={ivs}, level={level})"):
                sh = util.get_shiny(np.uint32(pid), np.uint16(tsv))
                given = np.array(ivs, np.uint8)
                args = (adv, pid, species, form, given, ability, level, int(sh), table[w])
                if i % 2:
                    args = (np.uint32(adv), np.uint32(pid), np.uint16(species), np.uint8(form),
                            given, np.uint8(ability), np.uint8(level), np.uint8(sh), table[w])
                s = state.GeneratorState(*args)
                got = g3.read_state(s)
                csv = tuple((str(a), str(b)) for a, b in s.csv())
                line = str(s)
        except SutFailure:
            continue
        want = g3.derive(adv, pid, species, form, ivs, ability, level, g3.shiny(pid, tsv),
                         infos[w])
        mon.case(("t", pid, tuple(ivs), level, w))
        mon.count("texts")
        mon.count("pokemon")
        classify(mon, want)
        mon.same(got, want, "derived attributes differ", base=infos[w].base,
                 ratio=infos[w].ratio)
        wcsv = text.csv(want)
        mon.same(csv, wcsv, "the text fields do not show the state's values", pid=pid)
        mon.same(line, ", ".join(f"{a}: {b}" for a, b in wcsv),
                 "the text form does not show the state's values", pid=pid)
        # the state keeps its own copy of the IVs it was given
        before = list(ivs)
        given[:] = 255
        with mon.sut("read ivs again"):
            mon.same([int(v) for v in s.ivs], before, "a state's IVs changed with the caller's")
        if i < 2:
            mon.sample({"text": line})


def stat_table(mon, job):
    """every nature x stat x value reachable by a Gen 3 stat"""
    util = sut.load(mon, "util")
    numba = sut.use_numba()
    fn = util.compute_stat

    def drive(values, out):
        for v in range(values.shape[0]):
            for n in range(25):
                for i in range(1, 6):
                    out[v, n, i - 1] = fn(values[v], np.uint8(n), np.uint8(i))
    if numba:
        import numba as nb
        drive = nb.njit(drive)
    values = np.arange(5, 720).astype(np.uint16)
    out = np.zeros((len(values), 25, 5), np.int64)
    try:
        with mon.sut(f"compute_stat for all natures and values {values[0]}..{values[-1]}"):
            drive(values, out)
    except SutFailure:
        return
    mon.bulk(out.size, out.size)
    mon.count("stat_table", out.size)
    for v, block in zip(values.tolist(), out.tolist()):
        for n in range(25):
            want = [g3.natured(v, n, i) for i in range(1, 6)]
            if block[n] != want:
                mon.violate("nature-modified stat differs from the integer formula", stat=v,
                            nature=n, got=block[n], want=want)
                if mon.too_many:
                    return


def functions(mon, job):
    util = sut.load(mon, "gen3.util")
    r = rng_for(job, "functions")
    for i in range(job["n"]):
        if mon.too_many:
            return
        _, pid, _, _, _, _, _, tsv, _ = case(r, [0])
        ratio = r.choice((0, 1, 31, 63, 127, 191, 225, 253, 254, 255, pid & 0xFF,
                          (pid & 0xFF) + 1 & 0xFF, r.randrange(256)))
        want = g3.letter(pid)
        form = want if r.random() < 0.4 else r.choice((want ^ 1, r.randrange(28)))
        if i % 2:
            a = (np.uint32(pid), np.uint8(ratio), np.uint16(tsv), np.uint8(form))
        else:
            a = (pid, ratio, tsv, form)
        try:
            with mon.sut(f"get_gender/get_shiny/unown_check({pid:#x}, {ratio}, {tsv}, {form})"):
                got = (int(util.get_gender(a[0], a[1])), int(util.get_shiny(a[0], a[2])),
                       bool(util.unown_check(a[0], a[3])))
        except SutFailure:
            return
        mon.case(("f", pid, ratio, tsv, form))
        for k in ("genders", "shinies", "letters"):
            mon.count(k)
        mon.same(got, (g3.gender(pid, ratio), g3.shiny(pid, tsv), form == want),
                 "gender, shininess or letter differs", pid=pid, ratio=ratio, tsv=tsv, form=form)


def function_sweep(mon, job):
    import numba as nb
    util = sut.load(mon, "gen3.util")
    gg, gs, uc = util.get_gender, util.get_shiny, util.unown_check

    @nb.njit
    def drive(pid, ratio, tsv, form, out):
        for i in range(pid.shape[0]):
            out[i, 0] = gg(pid[i], ratio[i])
            out[i, 1] = gs(pid[i], tsv[i])
            out[i, 2] = uc(pid[i], form[i])
    gen = np.random.Generator(np.random.PCG64(rng_for(job, "fsweep").getrandbits(64)))
    left = job["n"]
    while left > 0:
        k = min(left, 1_000_000)
        left -= k
        pid = gen.integers(0, 2 ** 32, k, dtype=np.uint32)
        ratio = gen.integers(0, 256, k, dtype=np.uint8)
        psv = ((pid >> np.uint32(16)) ^ (pid & np.uint32(0xFFFF))).astype(np.uint16)
        near = gen.integers(0, 16, k, dtype=np.uint16)
        tsv = np.where(gen.integers(0, 2, k) == 0, psv ^ near,
                       gen.integers(0, 65536, k, dtype=np.uint16)).astype(np.uint16)
        form = gen.integers(0, 28, k, dtype=np.uint8)
        out = np.zeros((k, 3), np.int64)
        try:
            with mon.sut("bulk gender, shininess and letter"):
                drive(pid, ratio, tsv, form, out)
        except SutFailure:
            return
        low = (pid & np.uint32(0xFF)).astype(np.int64)
        gender = np.where(ratio == 255, 2, np.where(ratio == 254, 1, np.where(
            ratio == 0, 0, (low < ratio).astype(np.int64))))
        x = (psv ^ tsv).astype(np.int64)
        shiny = np.where(x == 0, 2, np.where(x < 8, 1, 0))
        p = pid.astype(np.int64)
        let = ((p >> 24 & 3) * 64 + (p >> 16 & 3) * 16 + (p >> 8 & 3) * 4 + (p & 3)) % 28
        want = np.stack([gender, shiny, (let == form).astype(np.int64)], 1)
        bad = np.nonzero((want != out).any(1))[0]
        mon.bulk(3 * k, 3 * len(np.unique(pid)))
        for key in ("genders", "shinies", "letters"):
            mon.count(key, k)
        if len(bad):
            i = int(bad[0])
            mon.violate("gender, shininess or letter differs", pid=int(pid[i]),
                        ratio=int(ratio[i]), tsv=int(tsv[i]), form=int(form[i]), got=out[i],
                        want=want[i])
            return
