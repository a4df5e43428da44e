"""C17: loaded Gen 3 encounter tables say what the shipped data files say."""
import os
import subprocess
import sys

import numpy as np

from lib import gen3json, sut
from lib import gen3model as g3
from lib.mon import HarnessError

RULE = ("one case = one map of one game, loaded in one way (first load, reload in the same "
        "process, load from another process's cache, read inside compiled code), every rate, "
        "level, species, letter, location and name of it compared with an independent reading of "
        "the shipped JSON file; distinct = distinct (map, way of loading, mode)")
REQUIRED = ["maps:first", "altered_maps", "maps:reload", "maps:foreign-cache", "maps:compiled", "slots",
            "unused_maps", "altered_maps", "unown_slots", "map_names"]
ASSUMPTIONS = ["the letters of the seven Tanoby chambers, which the JSON files do not hold, are as "
               "listed in lib/gen3json.py"]
GAMES = {1: "RUBY", 2: "SAPPHIRE", 4: "EMERALD", 8: "FIRE_RED", 16: "LEAF_GREEN"}


def jobs(tier, seed):
    out = []
    for mode in ("numba", "numpy"):
        out.append({"func": "first", "mode": mode})
        for writer in ("TRUE", "FALSE"):
            out.append({"func": "foreign", "mode": mode, "writer": writer})
        # other contents than the shipped ones
        for v in range(2 if tier == "quick" else 40):
            out.append({"func": "first", "mode": mode, "alter": "gen3", "variant": v})
        out.append({"func": "foreign", "mode": mode, "writer": "TRUE", "alter": "gen3",
                    "variant": 9})
    return out


def check(mon, how, game, names, info, expected):
    """every record of one game"""
    if not mon.same((len(names), len(info)), (len(expected), len(expected)),
                    "number of maps differs", game=game, how=how):
        return
    for k, (name, const, area) in enumerate(expected):
        if mon.too_many:
            return
        with mon.sut(f"{game} map {k} ({how})"):
            got_name = names[k]
            rec = info[k]
            got = g3.Area.of(rec)
            # attribute access reads the same values
            attr = (int(rec.location), int(rec.land_rate), int(rec.fish_rate),
                    [int(s.species) for s in rec.water])
        mon.case((how, game, k, mon.job["mode"], mon.job.get("writer"), mon.job.get("variant")))
        mon.count("maps:" + how)
        mon.count("altered_maps", bool(mon.job.get("alter")))
        mon.count("unused_maps", name == "")
        mon.count("map_names")
        mon.same(got_name, name, "map name differs", game=game, map=const, how=how)
        mon.same(got.location, area.location, "location differs", game=game, map=const, how=how)
        mon.same(attr, (got.location, got.rates["land_rate"], got.rates["fish_rate"],
                        [s[2] for s in got.slots["water"]]),
                 "attribute and item access differ", game=game, map=const, how=how)
        mon.same(got.rates, area.rates, "encounter rates differ", game=game, map=const, how=how)
        for kind, mons in area.slots.items():
            mon.count("slots", len(mons))
            mon.count("unown_slots", sum(s[2] >> 11 != 0 for s in mons))
            mon.same(got.slots[kind], mons, f"{kind} slots differ (min, max, species)",
                     game=game, map=const, how=how)


def all_games(mon, how, encounter, enums):
    for g, game in GAMES.items():
        expected = gen3json.load(game)
        with mon.sut(f"tables of {game}"):
            key = enums.Game[game]
            names = encounter.MAP_NAMES_GEN3[key]
            info = encounter.ENCOUNTER_INFORMATION_GEN3[key]
            named = (getattr(encounter, "MAP_NAMES_" + game),
                     getattr(encounter, "ENCOUNTER_INFORMATION_" + game))
        check(mon, how, game, names, info, expected)
        mon.expect(tuple(named[0]) == tuple(names) and bytes(named[1]) == bytes(info),
                   "the per-game tables and the lookup by game differ", game=game)
        if game == "RUBY":
            mon.sample({"map": names[0], "location": int(info[0]["location"])})


def reload(mon, encounter, enums):
    for g, game in GAMES.items():
        with mon.sut(f"load_encounter_3({game}) again"):
            names, info = encounter.load_encounter_3(enums.Game[game])
        check(mon, "reload", game, names, info, gen3json.load(game))


def compiled(mon, encounter, enums):
    """the fields as compiled code sees them"""
    import numba as nb

    def reader(kind):
        def read(areas, out):
            for i in range(areas.shape[0]):
                rec = areas[i]
                slots = getattr_slots(rec)
                for j in range(slots.shape[0]):
                    out[i, j, 0] = slots[j].min_level
                    out[i, j, 1] = slots[j].max_level
                    out[i, j, 2] = slots[j].species
        scope = {}
        exec("def getattr_slots(rec):\n    return rec." + kind, scope)  # noqa: S102
        getattr_slots = nb.njit(scope["getattr_slots"])
        return nb.njit(read)

    @nb.njit
    def rates(areas, out):
        for i in range(areas.shape[0]):
            rec = areas[i]
            out[i, 0] = rec.location
            out[i, 1] = rec.land_rate
            out[i, 2] = rec.water_rate
            out[i, 3] = rec.rock_rate
            out[i, 4] = rec.fish_rate
    readers = {k: reader(k) for k in gen3json.SIZES}
    for game in GAMES.values():
        expected = gen3json.load(game)
        info = encounter.ENCOUNTER_INFORMATION_GEN3[enums.Game[game]]
        out = np.zeros((len(info), 5), np.int64)
        with mon.sut(f"rates of {game} in compiled code"):
            rates(info, out)
        got = {}
        for kind, n in gen3json.SIZES.items():
            got[kind] = np.zeros((len(info), n, 3), np.int64)
            with mon.sut(f"{kind} slots of {game} in compiled code"):
                readers[kind](info, got[kind])
        for k, (name, const, area) in enumerate(expected):
            mon.case(("compiled", game, k, mon.job.get("variant")))
            mon.count("maps:compiled")
            mon.same(out[k].tolist(), [area.location] + [area.rates[x] for x in (
                "land_rate", "water_rate", "rock_rate", "fish_rate")],
                "location or rates differ in compiled code", game=game, map=const)
            for kind, mons in area.slots.items():
                mon.same([tuple(s) for s in got[kind][k].tolist()], mons,
                         f"{kind} slots differ in compiled code", game=game, map=const)


def first(mon, job):
    encounter, enums = sut.load(mon, "data.encounter", "enums")
    all_games(mon, "first", encounter, enums)
    reload(mon, encounter, enums)
    if sut.use_numba():
        compiled(mon, encounter, enums)


CHILD = """
import sys
sys.path.insert(0, {verif!r})
sys.path.insert(0, {repo!r})
from lib import sut
sut.install_once()
import numba_pokemon_prngs.data.encounter
"""


def foreign(mon, job):
    """tables loaded from a cache that another process (possibly in the other mode) wrote"""
    env = dict(os.environ, NPP_USE_NUMBA=job["writer"])
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    mon.at("writing the cache in another process")
    done = subprocess.run([sys.executable, "-W", "ignore", "-c",
                           CHILD.format(verif=here, repo=sut.REPO)],
                          env=env, capture_output=True, text=True, check=False)
    if done.returncode:
        mon.violate("importing the encounter data failed (NPP_USE_NUMBA=" + job["writer"] + ")",
                    output=done.stderr[-2000:])
        return
    if not os.path.isdir(os.environ["XDG_CACHE_HOME"]):
        mon.note("the writer left no cache directory")
    encounter, enums = sut.load(mon, "data.encounter", "enums")
    all_games(mon, "foreign-cache", encounter, enums)


def finalize(results, tier, seed, scratch):
    # pin the reading of the file itself: Route 101 of Emerald, Monean Chamber of FireRed
    names = [n for n, _, _ in gen3json.load("EMERALD")]
    if names[0] != "Route 101" or gen3json.load("FIRE_RED")[0][2].slots["land"][11][2] >> 11 != 27:
        raise HarnessError("reference reading of the shipped files")
