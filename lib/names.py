"""Public names of the enumerations' members, by the number the models use for them."""
NATURES = ("HARDY LONELY BRAVE ADAMANT NAUGHTY BOLD DOCILE RELAXED IMPISH LAX TIMID HASTY SERIOUS "
           "JOLLY NAIVE MODEST MILD QUIET BASHFUL RASH CALM GENTLE SASSY CAREFUL QUIRKY").split()
LEADS = {i: (f"SYNCHRONIZE_{n}",) for i, n in enumerate(NATURES)}
LEADS.update({25: ("CUTE_CHARM_F",), 26: ("CUTE_CHARM_M",), 27: ("MAGNET_PULL",),
              28: ("STATIC",), 29: ("HARVEST",), 30: ("FLASH_FIRE",), 31: ("STORM_DRAIN",),
              32: ("PRESSURE", "HUSTLE", "VITAL_SPIRIT"), 33: ("SUCTION_CUPS", "STICKY_HOLD"),
              34: ("COMPOUND_EYES", "SUPER_LUCK"), 35: ("ARENA_TRAP", "ILLUMINATE", "NO_GUARD"),
              255: ("NONE",)})
ENCOUNTERS = {0: "GRASS", 3: "ROCK_SMASH", 4: "SURFING", 6: "OLD_ROD", 7: "GOOD_ROD",
              8: "SUPER_ROD"}
DS_TYPES = ("DS", "DSI", "DS3")
TIMES = ("DAWN", "DAY", "DUSK", "NIGHT")
WEATHERS = ("NONE", "SUNNY", "CLOUDY", "RAIN", "SNOW", "DROUGHT", "FOG", "RAINSTORM", "SNOWSTORM")


def member(mon, enum, name):
    """the member users write; a missing one is the package's failure"""
    with mon.sut(f"{enum.__name__}.{name}"):
        return enum[name]
