"""Gen 3 rules in plain Python integers (the games' formulas), for C14-C16."""
import os

from .sut import PKG, REPO

M32 = 0xFFFFFFFF
GAMES = {"RUBY": 1, "SAPPHIRE": 2, "EMERALD": 4, "FIRE_RED": 8, "LEAF_GREEN": 16}
PERSONAL = {"RUBY": "rs", "SAPPHIRE": "rs", "EMERALD": "e", "FIRE_RED": "fr", "LEAF_GREEN": "lg"}
# attack/defense/speed/special attack/special defense in the nature order; ivs are stored
# hp, attack, defense, special attack, special defense, speed
NATURE_STATS = (1, 2, 5, 3, 4)
# hp, attack, defense, speed, special attack, special defense
SPEED_FOURTH = (0, 1, 2, 5, 3, 4)


def gender(pid, ratio):
    if ratio == 255:
        return 2
    if ratio == 254:
        return 1
    if ratio == 0:
        return 0
    return 1 if (pid & 0xFF) < ratio else 0


def shiny(pid, tsv):
    x = (pid >> 16) ^ (pid & 0xFFFF) ^ tsv
    return 2 if x == 0 else (1 if x < 8 else 0)


def letter(pid):
    return ((pid >> 24 & 3) << 6 | (pid >> 16 & 3) << 4 | (pid >> 8 & 3) << 2 | pid & 3) % 28


def natured(value, nature, stat):
    """stat: 0 hp, 1 atk, 2 def, 3 spa, 4 spd, 5 spe"""
    up, down = NATURE_STATS[nature // 5], NATURE_STATS[nature % 5]
    if up != down:
        if stat == up:
            return value * 110 // 100
        if stat == down:
            return value * 90 // 100
    return value


def stats(base, ivs, level, nature):
    """base and ivs in hp, atk, def, spa, spd, spe order"""
    out = []
    for i in range(6):
        v = (2 * base[i] + ivs[i]) * level // 100
        out.append(v + level + 10 if i == 0 else natured(v + 5, nature, i))
    return out


def hidden_power(ivs):
    low = sum((ivs[SPEED_FOURTH[i]] & 1) << i for i in range(6))
    high = sum((ivs[SPEED_FOURTH[i]] >> 1 & 1) << i for i in range(6))
    return low * 15 // 63, 30 + high * 40 // 63


def characteristic(pid, ivs):
    order = [(pid % 6 + k) % 6 for k in range(6)]
    best = max(order, key=lambda i: ivs[SPEED_FOURTH[i]])  # first maximum wins
    return best * 5 + ivs[SPEED_FOURTH[best]] % 5


class Info:
    """one row of a Gen 3 personal table (28 bytes)"""

    def __init__(self, row):
        self.base = (row[0], row[1], row[2], row[4], row[5], row[3])
        self.types = (row[6], row[7])
        self.ratio = row[16]
        self.abilities = (row[22], row[23])


def personal(game):
    path = os.path.join(REPO, PKG, "resources/bin/personal", "personal_" + PERSONAL[game])
    with open(path, "rb") as f:
        raw = f.read()
    return [Info(raw[i:i + 28]) for i in range(0, len(raw), 28)]


def derive(advance, pid, species, form, ivs, ability, level, shiny_, info):
    nature = pid % 25
    hp, strength = hidden_power(ivs)
    return {
        "advance": advance, "pid": pid, "species": species, "form": form, "ivs": list(ivs),
        "ability": ability, "ability_index": info.abilities[0 if ability == 0 else 1],
        "level": level, "shiny": shiny_, "nature": nature,
        "stats": stats(info.base, ivs, level, nature), "gender": gender(pid, info.ratio),
        "hidden_power": hp, "hidden_power_strength": strength,
        "characteristic": characteristic(pid, ivs),
    }


FIELDS = ("advance", "pid", "species", "form", "ability", "ability_index", "level", "shiny",
          "nature", "gender", "hidden_power", "hidden_power_strength", "characteristic")


def read_state(s):
    """every public field of a GeneratorState, as plain values"""
    d = {k: int(getattr(s, k)) for k in FIELDS}
    d["ivs"] = [int(v) for v in s.ivs]
    d["stats"] = [int(v) for v in s.stats]
    return d


class Text:
    """name tables read straight from the shipped text files"""

    def __init__(self):
        base = os.path.join(REPO, PKG, "resources/txt")

        def lines(name):
            with open(os.path.join(base, name), encoding="utf-8-sig") as f:
                return f.read().splitlines()
        self.species, self.abilities = lines("species_en.txt"), lines("abilities_en.txt")
        self.natures, self.types = lines("natures_en.txt"), lines("types_en.txt")

    def csv(self, d):
        return (
            ("Advance", str(d["advance"])),
            ("Species", self.species[d["species"]] + (f"-{d['form']}" if d["form"] else "")),
            ("Level", str(d["level"])),
            ("PID", f"{d['pid']:08X}"),
            ("Nature", self.natures[d["nature"]]),
            ("Ability", f"{self.abilities[d['ability_index']]} ({d['ability']})"),
            ("IVs", "/".join(map(str, d["ivs"]))),
            ("Stats", "/".join(map(str, d["stats"]))),
            ("HP", f"{self.types[d['hidden_power'] + 1]} ({d['hidden_power_strength']})"),
            ("Gender", "♂♀-"[d["gender"]]),
        )


# --- encounters --------------------------------------------------------------
class Rng:
    def __init__(self, seed):
        self.s, self.draws = seed & M32, 0

    def u16(self):
        self.s = (self.s * 0x41C64E6D + 0x6073) & M32
        self.draws += 1
        return self.s >> 16

    def rand(self, n):
        return self.u16() % n

    def jump(self, n):
        a, c = 0x41C64E6D, 0x6073
        s = self.s
        n &= M32
        while n:
            if n & 1:
                s = (s * a + c) & M32
            a, c = a * a & M32, (c * a + c) & M32
            n >>= 1
        self.s = s


GRASS = (20, 20, 10, 10, 10, 10, 5, 5, 4, 4, 1, 1)
WATER = (60, 30, 5, 4, 1)
OLD, GOOD, SUPER = (70, 30), (60, 20, 20), (40, 40, 15, 4, 1)
E_GRASS, E_ROCK, E_SURF, E_OLD, E_GOOD, E_SUPER = 0, 3, 4, 6, 7, 8
ENCOUNTERS = {E_GRASS: ("land", GRASS, "land_rate"), E_ROCK: ("rock", WATER, "rock_rate"),
              E_SURF: ("water", WATER, "water_rate"), E_OLD: ("fish_old", OLD, "fish_rate"),
              E_GOOD: ("fish_good", GOOD, "fish_rate"), E_SUPER: ("fish_super", SUPER, "fish_rate")}
NONE, SYNC_LAST, CUTE_F, CUTE_M, MAGNET, STATIC, PRESSURE = 255, 24, 25, 26, 27, 28, 32
LEAD_TYPE = {MAGNET: 8, STATIC: 13, 29: 11, 30: 9, 31: 10}
SAFARI = {1: {89, 90, 91, 92, 186, 187, 188, 189}, 2: {89, 90, 91, 92, 186, 187, 188, 189},
          4: {20, 72, 73, 74, 97, 98}, 8: set(), 16: set()}


def slot_of(percentages, draw):
    draw %= 100
    for i, p in enumerate(percentages):
        if draw < p:
            return i
        draw -= p
    raise AssertionError


def matching(slots, lead, table):
    t = LEAD_TYPE.get(lead)
    if t is None:
        return []
    return [s for s in slots if t in table[s[2] & 0x3FF].types]


class Area:
    """plain copy of an encounter area record"""

    def __init__(self, location, rates, slots):
        self.location, self.rates, self.slots = location, rates, slots

    @classmethod
    def of(cls, rec):
        names = ("land", "water", "rock", "fish_old", "fish_good", "fish_super")
        slots = {n: [(int(s["min_level"]), int(s["max_level"]), int(s["species"]))
                     for s in rec[n]] for n in names}
        rates = {n: int(rec[n]) for n in ("land_rate", "water_rate", "rock_rate", "fish_rate")}
        return cls(int(rec["location"]), rates, slots)


def level_of(slot, rng, pressure):
    lo, hi = slot[0], slot[1]
    k = rng.rand(hi - lo + 1)
    if pressure:
        if rng.rand(2) == 0:
            return hi
        if k:
            k -= 1
    return lo + k


def pick_slot(area, rng, encounter, lead, table):
    name, odds, _ = ENCOUNTERS[encounter]
    slots = area.slots[name]
    if lead in (MAGNET, STATIC):
        special = matching(slots, lead, table)
        if rng.rand(2) == 0 and special:
            return special[rng.rand(len(special))]
    return slots[slot_of(odds, rng.u16())]


METHODS = {"METHOD_1": 1, "METHOD_2": 3, "METHOD_4": 4}


def generate(seed, delay, first, count, area, method, encounter, lead, game, tsv, table, note=None):
    """the encounters of advances first..first+count-1, in order"""
    if game != 4:
        lead = NONE
    out = []
    main = Rng(seed)
    main.jump(first + delay)
    rate = area.rates[ENCOUNTERS[encounter][2]] * 16
    safari = area.location in SAFARI[game]
    for advance in range(first, first + count):
        rng = Rng(main.s)
        main.u16()
        if game & 7 and encounter == E_ROCK and rng.rand(2880) >= rate:
            if note:
                note("rock_smash_misses")
            continue
        slot = pick_slot(area, rng, encounter, lead, table)
        species, form = slot[2] & 0x7FF, slot[2] >> 11
        level = level_of(slot, rng, lead == PRESSURE)
        info = table[species]
        want = None
        if lead in (CUTE_F, CUTE_M) and 0 < info.ratio < 254 and rng.rand(3) != 0:
            want = 0 if lead == CUTE_F else 1
            if note:
                note("cute_charm_applied")
        if safari:
            rng.u16()
            if note:
                note("safari_encounters")
        if lead <= SYNC_LAST and rng.rand(2) == 0:
            nature = lead
            if note:
                note("synchronized")
        else:
            nature = rng.rand(25)
        while True:
            pid = rng.u16() | rng.u16() << 16
            if pid % 25 != nature:
                continue
            if want is not None and gender(pid, info.ratio) != want:
                continue
            if species == 201 and letter(pid) != form:
                continue
            break
        if method == 3:
            rng.u16()
        iv1 = rng.u16()
        if method == 4:
            rng.u16()
        iv2 = rng.u16()
        ivs = [iv1 & 31, iv1 >> 5 & 31, iv1 >> 10 & 31, iv2 >> 5 & 31, iv2 >> 10 & 31, iv2 & 31]
        out.append(derive(advance, pid, species, form, ivs, pid & 1, level,
                          shiny(pid, tsv), info))
    return out
