"""C20: each game resolves to its own personal table, decoded at the right offsets."""
import os
import struct

import numpy as np

from lib import sut
from lib.mon import HarnessError, SutFailure
from lib.rngspec import rng_for

RULE = ("one case = one row of one personal table (every field compared with the bytes of the "
        "shipped file at this check's own offsets), one lookup of a game or a combination of "
        "games, or one field of one row read inside compiled code; distinct = distinct (table, "
        "row), (lookup, game value, argument kind) and (table, field)")
REQUIRED = ["rows", "fields", "lookups", "lookups:none", "lookups:combined", "lookups:compiled",
            "loads", "compiled_fields", "flags", "anchors", "altered_rows"]
ASSUMPTIONS = ["the offsets of lib-independent layout tables below (PKHeX/pret); the compiled "
               "Gen 3 lookup is asked for Gen 3 games only; fields of unknown meaning "
               "(padding, TM bits, misc) are not judged beyond the size of the row"]
DIR = os.path.join(sut.REPO, sut.PKG, "resources", "bin", "personal")

STATS = {"hp": 0, "attack": 1, "defense": 2, "speed": 3, "special_attack": 4, "special_defense": 5}
G3 = {**STATS, "type_1": 6, "type_2": 7, "catch_rate": 8, "base_exp": 9, "ev_yield": (0xA, 2),
      "item_1": (0xC, 2), "item_2": (0xE, 2), "gender_ratio": 0x10, "hatch_cycles": 0x11,
      "base_friendship": 0x12, "exp_growth": 0x13, "egg_group_1": 0x14, "egg_group_2": 0x15,
      "ability_1": 0x16, "ability_2": 0x17, "escape_rate": 0x18}
G4 = {**G3, "form_count": 0x29, "form_stats_index": (0x2A, 2)}
HEAD = {**STATS, "type_1": 6, "type_2": 7, "catch_rate": 8, "evo_stage": 9, "ev_yield": (0xA, 2),
        "item_1": (0xC, 2), "item_2": (0xE, 2), "item_3": (0x10, 2), "gender_ratio": 0x12,
        "hatch_cycles": 0x13, "base_friendship": 0x14, "exp_growth": 0x15, "egg_group_1": 0x16,
        "egg_group_2": 0x17}
G5 = {**HEAD, "ability_1": 0x18, "ability_2": 0x19, "ability_h": 0x1A, "escape_rate": 0x1B,
      "form_stats_index": (0x1C, 2), "form_sprite": (0x1E, 2), "form_count": 0x20,
      "base_exp": (0x22, 2), "height": (0x24, 2), "weight": (0x26, 2)}
Z = {"special_z_item": (0x4C, 2), "special_z_base_move": (0x4E, 2), "special_z_move": (0x50, 2),
     "local_variant": 0x52}
G8 = {**HEAD, "ability_1": (0x18, 2), "ability_2": (0x1A, 2), "ability_h": (0x1C, 2),
      "form_stats_index": (0x1E, 2), "form_count": 0x20, "base_exp": (0x22, 2),
      "height": (0x24, 2), "weight": (0x26, 2)}
SWSH = {**G8, "species": (0x4C, 2), "hatch_species": (0x56, 2), "local_form_index": (0x58, 2),
        "regional_flags": (0x5A, 2), "pokedex_index": (0x5C, 2), "regional_form_index": (0x5E, 2),
        "armor_dex_index": (0xAC, 2), "crown_dex_index": (0xAE, 2)}
BDSP = {**G8, "species": (0x3C, 2), "hatch_species": (0x3E, 2), "hatch_form_index": (0x40, 2),
        "pokedex_index": (0x42, 2)}
LA = {**G8, "hatch_species": (0x56, 2), "hatch_form_index": (0x58, 2), "regional_flags": (0x5A, 2),
      "species": (0x5C, 2), "form": (0x5E, 2), "dex_index_hisui": (0x60, 2),
      **{f"dex_index_hisui_local_{i}": (0x60 + 2 * i, 2) for i in range(1, 6)}}
G1 = {"gender_ratio": 0, "hp": 1, "attack": 2, "defense": 3, "speed": 4, "special": 5, "type_1": 6,
      "type_2": 7, "catch_rate": 8, "base_exp": 9, "move_1": 0xF, "move_2": 0x10, "move_3": 0x11,
      "move_4": 0x12, "exp_growth": 0x13}
G2 = {"dex_id": 0, "hp": 1, "attack": 2, "defense": 3, "speed": 4, "special_attack": 5,
      "special_defense": 6, "type_1": 7, "type_2": 8, "catch_rate": 9, "base_exp": 0xA,
      "item_1": 0xB, "item_2": 0xC, "gender_ratio": 0xD, "hatch_cycles": 0xF, "exp_growth": 0x16,
      "egg_group": 0x17}
G9 = {**STATS, "type_1": 6, "type_2": 7, "catch_rate": 8, "evo_stage": 9, "ev_yield": (0xA, 2),
      "gender_ratio": 0xC, "hatch_cycles": 0xD, "base_friendship": 0xE, "exp_growth": 0xF,
      "egg_group_1": 0x10, "egg_group_2": 0x11, "ability_1": (0x12, 2), "ability_2": (0x14, 2),
      "ability_h": (0x16, 2), "form_stats_index": (0x18, 2), "form_count": 0x1A,
      "is_present_in_game": 0x1C, "dex_group": 0x1D, "dex_index": (0x1E, 2), "height": (0x20, 2),
      "weight": (0x22, 2), "hatch_species": (0x24, 2), "local_form_index": (0x26, 2),
      "regional_flags": (0x28, 2), "regional_form_index": (0x2A, 2)}
# file -> (row size, layout, name of the loaded table or None, name of the layout class)
FILES = {
    "rs": (28, G3, "RS", "PersonalInfo3"), "e": (28, G3, "E", "PersonalInfo3"),
    "fr": (28, G3, "FR", "PersonalInfo3"), "lg": (28, G3, "LG", "PersonalInfo3"),
    "dp": (44, G4, "DP", "PersonalInfo4"), "pt": (44, G4, "PT", "PersonalInfo4"),
    "bw": (60, G5, "BW", "PersonalInfo5BW"), "b2w2": (76, G5, "B2W2", "PersonalInfo5B2W2"),
    "xy": (64, G5, "XY", "PersonalInfo6XY"), "ao": (80, G5, "ORAS", "PersonalInfo6AO"),
    "sm": (84, {**G5, **Z}, "SM", "PersonalInfo7"), "uu": (84, {**G5, **Z}, "USUM", "PersonalInfo7"),
    "swsh": (176, SWSH, "SWSH", "PersonalInfo8SWSH"), "bdsp": (68, BDSP, "BDSP", "PersonalInfo8BDSP"),
    "la": (176, LA, "LA", "PersonalInfo8LA"),
    "rb": (28, G1, None, "PersonalInfo1"), "y": (28, G1, None, "PersonalInfo1"),
    "gs": (32, G2, None, "PersonalInfo2"), "c": (32, G2, None, "PersonalInfo2"),
    "hgss": (44, G4, None, "PersonalInfo4"),
    "gg": (84, {**G5, **Z, "go_species": (0x48, 2)}, None, "PersonalInfo7GG"),
    "sv": (68, G9, None, "PersonalInfo9SV"),
}
GAMES = {"RUBY": "rs", "SAPPHIRE": "rs", "EMERALD": "e", "FIRE_RED": "fr", "LEAF_GREEN": "lg",
         "GALES": None, "COLOSSEUM": None, "DIAMOND": "dp", "PEARL": "dp", "PLATINUM": "pt",
         "HEART_GOLD": None, "SOUL_SILVER": None, "BLACK": "bw", "WHITE": "bw", "BLACK2": "b2w2",
         "WHITE2": "b2w2", "X": "xy", "Y": "xy", "OMEGA_RUBY": "ao", "ALPHA_SAPPHIRE": "ao",
         "SUN": "sm", "MOON": "sm", "ULTRA_SUN": "uu", "ULTRA_MOON": "uu", "SWORD": "swsh",
         "SHIELD": "swsh", "BRILLIANT_DIAMOND": "bdsp", "SHINING_PEARL": "bdsp",
         "LEGENDS_ARCEUS": "la"}
# facts about the games that pin these layouts: (file, row, field, value)
ANCHORS = [
    ("rs", 1, "hp", 45), ("rs", 1, "ability_1", 65), ("e", 25, "speed", 90),
    ("fr", 25, "ability_1", 9), ("lg", 6, "type_2", 2), ("dp", 448, "hp", 70),
    ("pt", 1, "gender_ratio", 31), ("bw", 6, "ability_h", 94), ("bw", 6, "weight", 905),
    ("b2w2", 445, "speed", 102), ("xy", 700, "type_1", 17), ("ao", 384, "hp", 105),
    ("sm", 25, "gender_ratio", 127), ("uu", 806, "hp", 53), ("swsh", 890, "hp", 140),
    ("bdsp", 493, "hp", 120), ("bdsp", 25, "species", 25),
    ("la", 899, "hp", 103), ("la", 899, "species", 899), ("rb", 1, "move_1", 33),
    ("rb", 1, "exp_growth", 3), ("gs", 1, "hatch_cycles", 20), ("gg", 25, "go_species", 25),
    ("hgss", 25, "speed", 90), ("sv", 25, "hp", 35),
]


def shipped(name):
    with open(os.path.join(DIR, "personal_" + name), "rb") as f:
        return f.read()


def values(name):
    """-> {field: array of every row}, read with our own offsets"""
    size, layout, _, _ = FILES[name]
    data = np.frombuffer(shipped(name), np.uint8).reshape(-1, size).astype(np.int64)
    out = {}
    for f, at in layout.items():
        if isinstance(at, tuple):
            out[f] = data[:, at[0]] | data[:, at[0] + 1] << 8
        else:
            out[f] = data[:, at]
    return out


def jobs(tier, seed):
    out = []
    for mode in ("numba", "numpy"):
        out.append({"func": "tables", "mode": mode})
        # other contents than the shipped ones
        for v in range(2 if tier == "quick" else 20):
            out.append({"func": "tables", "mode": mode, "alter": "personal", "variant": v})
        out.append({"func": "lookups", "mode": mode, "alter": "personal", "n": 300})
        out.append({"func": "lookups", "mode": mode, "n": 3000 if tier == "quick" else 60_000})
    return out


def compare(mon, how, name, table):
    size, layout, _, _ = FILES[name]
    want = values(name)
    rows = len(want["hp"])
    with mon.sut(f"length of {how} of {name}"):
        n = len(table)
        item = table.dtype.itemsize
    if not mon.same((n, item), (rows, size), "number or size of rows differs", table=name):
        return
    for f, col in want.items():
        try:
            with mon.sut(f"field {f} of {how} of {name}"):
                got = np.asarray(table[f]).astype(np.int64)
                attr = np.asarray(getattr(table, f)).astype(np.int64)
        except SutFailure:
            continue
        mon.count("fields")
        if not np.array_equal(got, col) or not np.array_equal(attr, col):
            bad = int(np.flatnonzero((got != col) | (attr != col))[0]) if got.shape == col.shape \
                else None
            mon.violate("a field differs from the bytes of the shipped file", table=name, field=f,
                        row=bad, how=how, got=None if bad is None else int(got[bad]),
                        want=None if bad is None else int(col[bad]))
    with mon.sut(f"rows of {how} of {name}"):
        probe = [{f: int(getattr(table[i], f)) for f in layout} for i in range(0, rows, 97)]
    for i, row in zip(range(0, rows, 97), probe):
        mon.same(row, {f: int(want[f][i]) for f in layout}, "a row differs from the shipped file",
                 table=name, row=i)
    for i in range(rows):
        mon.case((how, name, i, mon.job.get("variant")))
    mon.count("rows", rows)
    mon.count("altered_rows", rows * bool(mon.job.get("alter")))


def tables(mon, job):
    personal, info = sut.load(mon, "data.personal", "data.personal.personal_info")
    for name, (size, layout, loaded, cls) in FILES.items():
        with mon.sut(f"layout {cls}"):
            layout_cls = getattr(info, cls)
        if loaded:
            with mon.sut(f"PERSONAL_INFO_{loaded}"):
                table = getattr(personal, "PERSONAL_INFO_" + loaded)
            compare(mon, "table", name, table)
        with mon.sut(f"load_personal({name})"):
            table = personal.load_personal(name, layout_cls)
        mon.count("loads")
        compare(mon, "load", name, table)
    if sut.use_numba():
        compiled_fields(mon, personal)
    mon.sample({"file": "bw", "row": 6, "hp": int(values("bw")["hp"][6])})


def compiled_fields(mon, personal):
    """every field of every loaded table as compiled code reads it"""
    import numba as nb
    for name, (size, layout, loaded, _) in FILES.items():
        if not loaded:
            continue
        table = getattr(personal, "PERSONAL_INFO_" + loaded)
        src = "def read(table, out):\n    for i in range(table.shape[0]):\n"
        src += "        row = table[i]\n"
        for k, f in enumerate(layout):
            src += f"        out[{k}, i] = row.{f}\n"
        scope = {}
        exec(src, scope)  # noqa: S102
        out = np.zeros((len(layout), len(table)), np.int64)
        try:
            with mon.sut(f"fields of {name} in compiled code"):
                nb.njit(scope["read"])(table, out)
        except SutFailure:
            continue
        want = values(name)
        for k, f in enumerate(layout):
            mon.count("compiled_fields")
            mon.case(("compiled", name, f))
            mon.expect(np.array_equal(out[k], want[f]),
                       "a field differs from the shipped file in compiled code", table=name, field=f)


def lookups(mon, job):
    personal, enums = sut.load(mon, "data.personal", "enums")
    Game = enums.Game
    r = rng_for(job, "lookups")
    with mon.sut("the Game enum"):
        flags = {n: int(Game[n]) for n in GAMES}
        none = int(Game.NONE)
        members = sorted(int(g) for g in Game)
        aliases = [n for n in Game.__members__ if Game.__members__[n].name != n]
    mon.case("enum")
    mon.count("flags", len(flags))
    mon.same(aliases, [], "two names of games share a value")
    mon.expect(all(v > 0 and v & (v - 1) == 0 for v in flags.values()) and none == 0,
               "a game is not a single flag", flags=flags)
    mon.same(len(set(flags.values())), len(flags), "two games share a flag", flags=flags)
    mon.same(len(members), len(set(members)), "enum values repeat")
    raws = {f: shipped(f) for f in FILES}
    first = [np.frombuffer(raws[f], np.uint8) for f in FILES]
    for i, a in enumerate(first):
        for b in first[:i]:
            if len(a) == len(b) and np.array_equal(a, b):
                mon.count("identical_files")

    def judge(value, label, allowed, how):
        """allowed: files the result may hold; empty: NotImplementedError"""
        mon.at(f"get_info_table({label})")
        try:
            got = personal.get_info_table(value)
        except NotImplementedError as exc:
            mon.count("lookups:none")
            mon.case((how, label, "none"))
            mon.expect(not allowed, "a game with a personal table has none", game=label,
                       error=str(exc)[:100])
            return
        except Exception as exc:  # noqa: BLE001
            mon.violate("get_info_table failed", game=label, error=repr(exc)[:300])
            return
        mon.count("lookups")
        mon.case((how, label))
        with mon.sut(f"table of {label}"):
            data = got.tobytes()
            size = got.dtype.itemsize
        if not any(data == raws[f] and size == FILES[f][0] for f in allowed):
            mon.violate("get_info_table returned the table of another game", game=label,
                        allowed=sorted(allowed),
                        returned=[f for f in FILES if raws[f] == data])
    for n, f in GAMES.items():
        for how, v in (("member", Game[n]), ("int", flags[n]), ("uint32", np.uint32(flags[n]))):
            judge(v, n, {f} - {None}, how)
    judge(Game.NONE, "NONE", set(), "member")
    judge(0, "NONE", set(), "int")
    names = list(GAMES)
    for _ in range(job["n"]):
        if mon.too_many:
            return
        combo = r.sample(names, r.randrange(2, 6) if r.random() < 0.8 else r.randrange(2, len(names)))
        value = 0
        for n in combo:
            value |= flags[n]
        mon.count("lookups:combined")
        judge(value, "|".join(sorted(combo)), {GAMES[n] for n in combo} - {None}, "combined")
    # the lookup used by compiled code
    gen3 = names[:5]

    def pick(game):
        return personal_get(game)
    personal_get = personal.get_info_table_3
    if sut.use_numba():
        import numba as nb
        pick = nb.njit(pick)

    def fields(table):
        return tuple(np.asarray(table[f]).astype(np.int64).tolist() for f in G3)
    want = {f: tuple(values(f)[x].tolist() for x in G3) for f in ("rs", "e", "fr", "lg")}
    for n in gen3:
        for how, fn in (("direct", personal_get), ("inside", pick)):
            for v in (Game[n], flags[n], np.uint32(flags[n])):
                with mon.sut(f"get_info_table_3({n}) {how}"):
                    got = fields(fn(v))
                mon.count("lookups:compiled")
                mon.case(("gen3", how, n, type(v).__name__))
                mon.expect(got == want[GAMES[n]],
                           "get_info_table_3 returned the table of another game", game=n, how=how,
                           returned=[f for f in want if want[f] == got])
    for _ in range(20):
        combo = r.sample(gen3, r.randrange(2, 5))
        value = sum(flags[n] for n in combo)
        with mon.sut(f"get_info_table_3({combo})"):
            got = fields(personal_get(value))
        mon.case(("gen3", "combined", tuple(sorted(combo))))
        mon.expect(any(got == want[GAMES[n]] for n in combo),
                   "get_info_table_3 of a combination is no member's table", games=combo)
    # lookups hand out the loaded data, whatever was asked before
    for n in r.sample(names, len(names)):
        judge(Game[n], n, {GAMES[n]} - {None}, "again")


def finalize(results, tier, seed, scratch):
    for f, row, field, value in ANCHORS:
        size, layout, _, _ = FILES[f]
        data = shipped(f)
        if len(data) % size:
            raise HarnessError(f"personal_{f} does not hold whole rows of {size}")
        got = int(values(f)[field][row])
        if got != value:
            raise HarnessError(f"anchor {f}[{row}].{field} = {got}, expected {value}")
    return {"counters": {"anchors": len(ANCHORS)}, "evaluations": 0}
