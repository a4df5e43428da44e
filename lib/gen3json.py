"""The shipped Gen 3 encounter files, read independently of the package."""
import json
import os

from .gen3model import Area
from .sut import PKG, REPO

FILES = {"RUBY": ("rs", "Ruby"), "SAPPHIRE": ("rs", "Sapphire"), "EMERALD": ("e", ""),
         "FIRE_RED": ("frlg", "FireRed"), "LEAF_GREEN": ("frlg", "LeafGreen")}
# letters of the Tanoby chambers, slot by slot ("?" is 27, "!" is 26)
UNOWN = {
    "MONEAN": "AAAAAAAAAAA?", "LIPTOO": "CCCDDDHHHUUO", "WEEPTH": "NNNNSSSSIIEE",
    "DILFORD": "PPLLJJRRRQQQ", "SCUFIB": "YYTTGGGFFFKK", "RIXY": "VVVWWWXXMMBB",
    "VIAPOIS": "ZZZZZZZZZZZ!",
}
SIZES = {"land": 12, "water": 5, "rock": 5, "fish_old": 2, "fish_good": 3, "fish_super": 5}


def species_names():
    path = os.path.join(REPO, PKG, "resources/txt/species_en.txt")
    with open(path, encoding="utf-8-sig") as f:
        names = f.read().splitlines()
    out = {}
    for i, n in enumerate(names):
        key = {"Nidoran♂": "NIDORAN_M", "Nidoran♀": "NIDORAN_F"}.get(n, n.upper())
        out.setdefault("SPECIES_" + key, i)
    return out


def raw_entries(game):
    stem, label = FILES[game]
    path = os.path.join(REPO, PKG, f"resources/encount/{stem}_wild_encounters.json")
    with open(path, encoding="utf-8") as f:
        groups = json.load(f)["wild_encounter_groups"]
    return [e for e in groups[0]["encounters"] if label in e["base_label"]]


def unused(label):
    if "Unused" in label:
        return True
    k = label.find("AlteringCave")
    if k < 0:
        return False
    tail = label[k + len("AlteringCave"):].lstrip("_")
    return tail[:1] in set("23456789")


def clean(name):
    """readable map name: words capitalised, floors kept, routes and rooms numbered"""
    out = []
    for w in name.replace("MAP_", "").replace("_", " ").split():
        for word in ("Route", "Room"):
            n = leading_digits(w[len(word):])
            if w.upper().startswith(word.upper()) and n:
                out.append(f"{word} {n}")
                break
        else:
            out.append(w if floor(w) else w[:1].upper() + w[1:].lower())
    return " ".join(out)


def leading_digits(text):
    n = 0
    while n < len(text) and text[n].isdigit():
        n += 1
    return text[:n]


def floor(w):
    """B1F, 2F, 3R ... at the start of the word"""
    body = w[1:] if w[:1] == "B" else w
    rest = body[len(leading_digits(body)):]
    return rest != body and (rest[:1] == "F" or (rest[:1] == "R" and w[:1] != "B"))


def load(game):
    """[(name, map constant, Area)] in file order; unused ones are empty and unnamed"""
    species = species_names()
    out = []
    for i, e in enumerate(raw_entries(game)):
        slots = {k: [(0, 0, 0)] * n for k, n in SIZES.items()}
        rates = {k: 0 for k in ("land_rate", "water_rate", "rock_rate", "fish_rate")}
        if unused(e["base_label"]):
            out.append(("", e["map"], Area(0, rates, slots)))
            continue
        letters = next((v for k, v in UNOWN.items()
                        if e["map"] == f"MAP_SEVEN_ISLAND_TANOBY_RUINS_{k}_CHAMBER"), None)

        def read(kind):
            mons = []
            for n, s in enumerate(e[kind]["mons"]):
                v = species[s["species"]]
                if letters and kind == "land_mons":
                    c = letters[n]
                    v |= {"!": 26, "?": 27}.get(c, ord(c) - 65) << 11
                mons.append((s["min_level"], s["max_level"], v))
            return mons

        for kind, key, rate in (("land_mons", "land", "land_rate"),
                                ("water_mons", "water", "water_rate"),
                                ("rock_smash_mons", "rock", "rock_rate")):
            if kind in e:
                rates[rate] = e[kind]["encounter_rate"]
                slots[key] = read(kind)
        if "fishing_mons" in e:
            rates["fish_rate"] = e["fishing_mons"]["encounter_rate"]
            mons = read("fishing_mons")
            slots["fish_old"], slots["fish_good"], slots["fish_super"] = (
                mons[:2], mons[2:5], mons[5:])
        out.append((clean(e["map"]), e["map"], Area(i, rates, slots)))
    return out


def fill(record, area):
    """write an Area into a record of the package's area type"""
    record["location"] = area.location
    for k, v in area.rates.items():
        record[k] = v
    for k, mons in area.slots.items():
        for n, (lo, hi, sp) in enumerate(mons):
            record[k][n]["min_level"], record[k][n]["max_level"] = lo, hi
            record[k][n]["species"] = sp
