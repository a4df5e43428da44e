"""C12: Gen 5 initial seeds equal the SHA-1 derivation (oracle: hashlib)."""
import hashlib
import struct

import numpy as np

from lib import names, sut
from lib.mon import HarnessError, SutFailure
from lib.rngspec import edge_int, rng_for

RULE = ("one case = one boot profile and moment hashed by the package and compared with hashlib's "
        "SHA-1 of the boot message, reached through a random history of setters, precomputations "
        "and repeated hashes; distinct = distinct messages")
REQUIRED = ["hashes", "profiles", "alpha_reused", "repeat_hashes", "precomputations",
            "enum_arguments", "pm_ds3", "pm_ds", "bulk_hashes"]
ASSUMPTIONS = ["version constants as listed in this module (transcribed from the tables the "
               "package was published with); dates 2000-2099; 48-bit MAC addresses",
               "only the intermediate values of an object's latest precomputation are claimed "
               "valid, and only until its date or timer changes"]

M64 = 0xFFFFFFFFFFFFFFFF
GAMES = ("BLACK", "WHITE", "BLACK2", "WHITE2")
LANGUAGES = ("ENGLISH", "FRENCH", "GERMAN", "ITALIAN", "JAPANESE", "KOREAN", "SPANISH")
# (DS, DSi/3DS) constants: BW one base address; BW2 (base, n0, n1)
BW = {
    "ENGLISH": {"BLACK": (0x022160B0, 0x02760190), "WHITE": (0x022160D0, 0x027601B0)},
    "JAPANESE": {"BLACK": (0x02215F10, 0x02761150), "WHITE": (0x02215F30, 0x02761150)},
    "GERMAN": {"BLACK": (0x02215FF0, 0x027602F0), "WHITE": (0x02216010, 0x027602F0)},
    "SPANISH": {"BLACK": (0x02216070, 0x027601F0), "WHITE": (0x02216070, 0x027601F0)},
    "FRENCH": {"BLACK": (0x02216030, 0x02760230), "WHITE": (0x02216050, 0x02760250)},
    "ITALIAN": {"BLACK": (0x02215FB0, 0x027601D0), "WHITE": (0x02215FD0, 0x027601D0)},
    "KOREAN": {"BLACK": (0x022167B0, 0x02761150), "WHITE": (0x022167B0, 0x02761150)},
}
BW2 = {
    "ENGLISH": {"BLACK2": (0x02200010, 0x027A5F70, 0x0209AEE8, 0x02039DE9),
                "WHITE2": (0x02200050, 0x027A5E90, 0x0209AF28, 0x02039E15)},
    "JAPANESE": {"BLACK2": (0x021FF9B0, 0x027AA730, 0x0209A8DC, 0x02039AC9),
                 "WHITE2": (0x021FF9D0, 0x027AA5F0, 0x0209A8FC, 0x02039AF5)},
    "GERMAN": {"BLACK2": (0x021FFF50, 0x027A6110, 0x0209AE28, 0x02039D69),
               "WHITE2": (0x021FFF70, 0x027A6010, 0x0209AE48, 0x02039D95)},
    "SPANISH": {"BLACK2": (0x021FFFD0, 0x027A6070, 0x0209AEA8, 0x02039DB9),
                "WHITE2": (0x021FFFF0, 0x027A5FB0, 0x0209AEC8, 0x02039DE5)},
    "FRENCH": {"BLACK2": (0x02200030, 0x027A5F90, 0x0209AF08, 0x02039DF9),
               "WHITE2": (0x02200050, 0x027A5EF0, 0x0209AF28, 0x02039E25)},
    "ITALIAN": {"BLACK2": (0x021FFF10, 0x027A5F70, 0x0209ADE8, 0x02039D69),
                "WHITE2": (0x021FFF50, 0x027A5ED0, 0x0209AE28, 0x02039D95)},
    "KOREAN": {"BLACK2": (0x02200750, 0x02200770, 0x0209B60C, 0x0203A4D5),
               "WHITE2": (0x02200770, 0x027A57B0, 0x0209B62C, 0x0203A501)},
}


def bswap(v):
    return int.from_bytes(v.to_bytes(4, "little"), "big")


def nazos(game, language, ds_type):
    i = 0 if ds_type == 0 else 1
    if game in ("BLACK", "WHITE"):
        n = BW[language][game][i]
        return [bswap(v) for v in (n, n + 0xFC, n + 0xFC, n + 0x148, n + 0x148)]
    row = BW2[language][game]
    n = row[i]
    return [bswap(v) for v in (row[2], row[3], n, n + 0x54, n + 0x54)]


def bcd(v):
    return int(str(v), 16)


class Boot:
    """the boot message and the seed the game derives from it"""

    def __init__(self, game, language, ds_type, mac, soft, v_frame, gx):
        self.head = nazos(game, language, ds_type)
        self.six = (mac & 0xFFFF) ^ (0x01000000 if soft else 0)
        self.seven = (mac >> 16) ^ (v_frame << 24) ^ gx
        self.ds3 = ds_type == 2
        self.timer = self.date = self.time = self.button = 0

    def set_timer0(self, timer0, vcount):
        self.timer = bswap((vcount << 16) | timer0)

    def set_date(self, year, month, day, dow):
        self.date = bcd(year - 2000) << 24 | bcd(month) << 16 | bcd(day) << 8 | dow

    def set_time(self, h, m, s):
        pm = 0x40 if h >= 12 and not self.ds3 else 0
        self.time = (bcd(h) + pm) << 24 | bcd(m) << 16 | bcd(s) << 8

    def set_button(self, b):
        self.button = b

    def message(self):
        return struct.pack(">13I", *self.head, self.timer, self.six, self.seven, self.date,
                           self.time, 0, 0, self.button)

    def seed(self):
        return step(int.from_bytes(hashlib.sha1(self.message()).digest()[:8], "little"))


def step(v):
    return (v * 0x5D588B656C078965 + 0x269EC3) & M64


def jobs(tier, seed):
    quick = tier == "quick"
    out = []
    for shard in range(2):
        out.append({"func": "histories", "mode": "numba", "shard": shard,
                    "n": 500 if quick else 20000})
    out.append({"func": "histories", "mode": "numpy", "shard": 7, "n": 80 if quick else 3000})
    for mode in ("numba", "numpy"):
        out.append({"func": "profiles", "mode": mode})
    out.append({"func": "bulk", "mode": "numba", "n": 12 if quick else 600})
    return out


def mac_of(r):
    return r.choice((edge_int(r, 48), r.getrandbits(48), 0x0009BF000000 | r.getrandbits(24)))


def clock(r):
    h = r.choice((0, 1, 9, 10, 11, 12, 13, 19, 20, 23, r.randrange(24)))
    return h, r.choice((0, 9, 10, 59, r.randrange(60))), r.choice((0, 9, 10, 59, r.randrange(60)))


def calendar(r):
    return (2000 + r.choice((0, 9, 10, 99, r.randrange(100))), r.randrange(1, 13),
            r.randrange(1, 32), r.randrange(7))


BUTTON_BITS = (0x10000, 0x20000, 0x40000, 0x80000, 0x1000000, 0x2000000, 0x4000000,
               0x8000000, 0x10000000, 0x20000000, 0x40000000, 0x80000000)


def buttons(r):
    k = r.randrange(4)
    if k == 0:
        return 0xFF2F0000
    if k == 1:
        return edge_int(r, 32)
    return 0xFF2F0000 - sum(r.sample(BUTTON_BITS, r.randrange(4))) & 0xFFFFFFFF


def construct(mon, sha1, enums, r, game, language, ds, mac, soft, vf, gx, style):
    """style 0: enums and Python ints; 1: documented numpy types; 2: plain ints"""
    with mon.sut(f"enumeration members {game}, {language}, {names.DS_TYPES[ds]}"):
        g, lang, d = enums.Game[game], enums.Language[language], enums.DSType[names.DS_TYPES[ds]]
    if style == 0:
        args = (g, lang, d, mac, soft, vf, gx)
        mon.count("enum_arguments")
    elif style == 1:
        args = (np.uint32(g), np.uint8(lang), np.uint8(d), np.uint64(mac), soft,
                np.uint8(vf), np.uint8(gx))
    else:
        args = (int(g), int(lang), int(d), mac, soft, vf, gx)
    with mon.sut(f"SHA1({game}, {language}, DSType({ds}), mac={mac:#x}, soft_reset={soft}, "
                 f"v_frame={vf}, gx_state={gx}) [argument style {style}]"):
        return sha1.SHA1(*args)


def check(mon, obj, alpha, boot, label, trace):
    with mon.sut(f"{label}.hash_seed", history=trace[-20:]):
        got = int(obj.hash_seed(alpha))
    want = boot.seed()
    mon.count("hashes")
    mon.case(int.from_bytes(hashlib.sha1(boot.message()).digest()[8:16], "little"))
    return mon.same(hex(got), hex(want), "initial seed differs from the SHA-1 derivation",
                    profile=label, boot_message=boot.message().hex(), history=trace[-20:])


def one_history(mon, r, sha1, enums, label, boot, obj, steps):
    trace = []

    def call(name, *args):
        trace.append((name, args))
        np_args = args
        with mon.sut(f"{label}.{name}{args}", history=trace[-20:]):
            getattr(obj, name)(*np_args)
        getattr(boot, name)(*args)
    order = ["set_timer0", "set_date", "set_time", "set_button"]
    r.shuffle(order)
    pending = []
    for name in order:
        if name in ("set_time", "set_button") and r.random() < 0.4:
            pending.append(name)
            continue
        call(name, *values(r, name))
    trace.append("precompute")
    with mon.sut(f"{label}.precompute()"):
        alpha = obj.precompute()
    mon.count("precomputations")
    for name in pending:
        call(name, *values(r, name))
    since = 0
    for _ in range(steps):
        k = r.randrange(10)
        if k < 6:
            for name in r.choice((("set_time",), ("set_button",), ("set_time", "set_button"),
                                  ("set_button", "set_time"))):
                call(name, *values(r, name))
        elif k < 7:
            mon.count("repeat_hashes")
        else:
            if k == 7:
                call("set_timer0", *values(r, "set_timer0"))
            if k == 8:
                call("set_date", *values(r, "set_date"))
            trace.append("precompute")
            with mon.sut(f"{label}.precompute()", history=trace[-20:]):
                alpha = obj.precompute()
            mon.count("precomputations")
            since = 0
        trace.append("hash_seed")
        if not check(mon, obj, alpha, boot, label, trace):
            return
        mon.count("alpha_reused", since > 0)
        h = boot.time >> 24
        mon.count("pm_ds3", boot.ds3 and (h & 0x3F) >= 0x12)
        mon.count("pm_ds", not boot.ds3 and h >= 0x52)
        since += 1


def values(r, name):
    if name == "set_timer0":
        return edge_int(r, 16), r.randrange(256)
    if name == "set_date":
        return calendar(r)
    if name == "set_time":
        return clock(r)
    return (buttons(r),)


def self_test():
    # FIPS 180-1 "abc" pins hashlib; one BWRNG step of zero pins step()
    if hashlib.sha1(b"abc").hexdigest() != "a9993e364706816aba3e25717850c26c9cd0d89d":
        raise HarnessError("hashlib sha1")
    if step(0) != 0x269EC3 or bswap(0x01020304) != 0x04030201:
        raise HarnessError("model")


def histories(mon, job):
    self_test()
    sha1, enums = sut.load(mon, "sha1", "enums")
    r = rng_for(job, "hist")
    numba = sut.use_numba()
    for i in range(job["n"]):
        if mon.too_many:
            return
        game, language = r.choice(GAMES), r.choice(LANGUAGES)
        ds, mac = r.randrange(3), mac_of(r)
        soft, vf, gx = r.random() < 0.5, r.randrange(256), r.randrange(256)
        label = f"SHA1({game},{language},{ds},{mac:#x},{soft},{vf},{gx})"
        try:
            obj = construct(mon, sha1, enums, r, game, language, ds, mac, soft, vf, gx,
                            (1 if r.random() < 0.9 else 2) if numba and i % 50 else r.randrange(3))
            one_history(mon, r, sha1, enums, label,
                        Boot(game, language, ds, mac, soft, vf, gx), obj, 30)
        except SutFailure:
            continue
        if i < 3:
            mon.sample({"profile": label})


def profiles(mon, job):
    """every version, language and console once or more, every hour"""
    self_test()
    sha1, enums = sut.load(mon, "sha1", "enums")
    r = rng_for(job, "profiles")
    numba = sut.use_numba()
    hour = 0
    for game in GAMES:
        for language in LANGUAGES:
            for ds in range(3):
                if mon.too_many:
                    return
                mac, soft, vf, gx = mac_of(r), bool(hour & 1), r.randrange(256), r.randrange(256)
                label = f"SHA1({game},{language},{ds},{mac:#x},{soft},{vf},{gx})"
                boot = Boot(game, language, ds, mac, soft, vf, gx)
                try:
                    obj = construct(mon, sha1, enums, r, game, language, ds, mac, soft, vf, gx,
                                    1 if numba and hour % 8 else hour % 3)
                    trace = []
                    for name in ("set_timer0", "set_date"):
                        args = values(r, name)
                        trace.append((name, args))
                        with mon.sut(f"{label}.{name}{args}"):
                            getattr(obj, name)(*args)
                        getattr(boot, name)(*args)
                    with mon.sut(f"{label}.precompute()"):
                        alpha = obj.precompute()
                    for h in (range(24) if numba else (hour % 24, (hour + 12) % 24)):
                        args = (h, r.randrange(60), r.randrange(60))
                        b = buttons(r)
                        trace.append(("set_time", args))
                        with mon.sut(f"{label}.set_time{args}; set_button({b:#x})"):
                            obj.set_time(*args)
                            obj.set_button(b)
                        boot.set_time(*args)
                        boot.set_button(b)
                        if not check(mon, obj, alpha, boot, label, trace):
                            break
                    mon.count("profiles")
                except SutFailure:
                    pass
                hour += 1


def bulk(mon, job):
    """whole seconds-of-day x buttons searches on one precomputation"""
    import numba as nb
    self_test()
    sha1, enums = sut.load(mon, "sha1", "enums")
    r = rng_for(job, "bulk")

    @nb.njit
    def search(obj, alpha, times, keys, out):
        for i in range(times.shape[0]):
            obj.set_time(times[i, 0], times[i, 1], times[i, 2])
            obj.set_button(keys[i])
            out[i] = obj.hash_seed(alpha)
    for i in range(job["n"]):
        game, language = r.choice(GAMES), r.choice(LANGUAGES)
        ds, mac = r.randrange(3), mac_of(r)
        soft, vf, gx = r.random() < 0.5, r.randrange(256), r.randrange(256)
        label = f"SHA1({game},{language},{ds},{mac:#x},{soft},{vf},{gx})"
        boot = Boot(game, language, ds, mac, soft, vf, gx)
        n = 20000
        times = np.array([clock(r) for _ in range(n)], np.uint8)
        keys = np.array([buttons(r) for _ in range(n)], np.uint32)
        out = np.zeros(n, np.uint64)
        date, timer = values(r, "set_date"), values(r, "set_timer0")
        try:
            obj = construct(mon, sha1, enums, r, game, language, ds, mac, soft, vf, gx, 1)
            with mon.sut(f"{label}: search over {n} times and buttons"):
                obj.set_timer0(*timer)
                obj.set_date(*date)
                alpha = obj.precompute()
                search(obj, alpha, times, keys, out)
        except SutFailure:
            return
        boot.set_timer0(*timer)
        boot.set_date(*date)
        head, got, ds3 = boot.message()[:36], out.tolist(), boot.ds3
        seen = set()
        for (h, m, s), b, g in zip(times.tolist(), keys.tolist(), got):
            pm = 0x40 if h >= 12 and not ds3 else 0
            msg = head + struct.pack(">4I", (bcd(h) + pm) << 24 | bcd(m) << 16 | bcd(s) << 8,
                                     0, 0, b)
            want = step(int.from_bytes(hashlib.sha1(msg).digest()[:8], "little"))
            seen.add(want)
            if want != g:
                mon.violate("initial seed differs from the SHA-1 derivation", profile=label,
                            time=(h, m, s), button=hex(b), date=date, timer0=timer, got=hex(g),
                            want=hex(want))
                break
        mon.bulk(n, len(seen))
        mon.count("bulk_hashes", n)
        mon.count("alpha_reused", n - 1)
