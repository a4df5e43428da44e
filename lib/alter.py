"""Data files like the shipped ones but with other contents.

A job with job["alter"] runs against a scratch copy of the package whose data
files were rewritten here before anything was imported: the code is the tree's
own, the data is well formed and new, and the monitors compare what was loaded
with their own reading of the rewritten files.  What the shipped files happen
not to contain is exercised that way."""
import json
import os
import random
import shutil
import struct

PKG = "numba_pokemon_prngs"


def copy(repo, where):
    shutil.copytree(os.path.join(repo, PKG), os.path.join(where, PKG),
                    ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
    return where


def prepare(job, repo, where):
    """-> the root of the scratch copy"""
    root = os.path.join(os.path.realpath(where), "altered")
    copy(repo, root)
    r = random.Random(repr(("alter", job["seed"], job["alter"], job.get("variant", 0))))
    {"gen3": gen3, "la": la, "personal": personal}[job["alter"]](
        r, os.path.join(root, PKG, "resources"))
    return root


def rewrite(path, data):
    with open(path, "wb") as f:
        f.write(data)


# --- Gen 3 -----------------------------------------------------------------------
KINDS = {"land_mons": 12, "water_mons": 5, "rock_smash_mons": 5, "fishing_mons": 10}


def gen3(r, base):
    paths = [os.path.join(base, "encount", f"{s}_wild_encounters.json") for s in ("rs", "e", "frlg")]
    docs = []
    for p in paths:
        with open(p, encoding="utf-8") as f:
            docs.append(json.load(f))
    species = sorted({s["species"] for d in docs for e in d["wild_encounter_groups"][0]["encounters"]
                      for k in KINDS if k in e for s in e[k]["mons"]})
    maps = sorted({e["map"] for d in docs for e in d["wild_encounter_groups"][0]["encounters"]})
    for path, doc in zip(paths, docs):
        entries = doc["wild_encounter_groups"][0]["encounters"]
        for e in entries:
            if r.random() < 0.15:
                e["map"] = r.choice(maps)
            for kind, n in KINDS.items():
                if kind in e and r.random() < 0.1:
                    del e[kind]
                elif kind not in e and r.random() < 0.15:
                    e[kind] = {"encounter_rate": 1, "mons": [{} for _ in range(n)]}
                if kind not in e:
                    continue
                e[kind]["encounter_rate"] = r.choice((0, 1, 255, r.randrange(256), r.randrange(60)))
                for s in e[kind]["mons"]:
                    lo, hi = sorted((r.randrange(1, 101), r.randrange(1, 101)))
                    if r.random() < 0.3:
                        hi = lo
                    s.update(min_level=lo, max_level=hi, species=r.choice(species))
        rewrite(path, json.dumps(doc).encode())


# --- personal tables --------------------------------------------------------------
def personal(r, base):
    folder = os.path.join(base, "bin", "personal")
    for name in sorted(os.listdir(folder)):
        path = os.path.join(folder, name)
        if not name.startswith("personal_"):
            continue
        rewrite(path, r.randbytes(os.path.getsize(path)))


# --- Legends Arceus ---------------------------------------------------------------
class Edit:
    """in-place changes of scalars and vtables of a FlatBuffer"""

    def __init__(self, path):
        self.path = path
        with open(path, "rb") as f:
            self.buf = bytearray(f.read())

    def save(self):
        rewrite(self.path, self.buf)

    def u32(self, at):
        return struct.unpack_from("<I", self.buf, at)[0]

    def root(self):
        return self.u32(0)

    def entry(self, table, k):
        """where the vtable keeps the offset of field k, or None"""
        vt = table - struct.unpack_from("<i", self.buf, table)[0]
        size, = struct.unpack_from("<H", self.buf, vt)
        at = vt + 4 + 2 * k
        return at if at < vt + size else None

    def where(self, table, k):
        at = self.entry(table, k)
        off = struct.unpack_from("<H", self.buf, at)[0] if at is not None else 0
        return table + off if off else None

    def put(self, table, k, fmt, value):
        at = self.where(table, k)
        if at is not None:
            struct.pack_into("<" + fmt, self.buf, at, value)

    def drop(self, table, k):
        """the field becomes absent (in every table sharing the vtable)"""
        at = self.entry(table, k)
        if at is not None:
            struct.pack_into("<H", self.buf, at, 0)

    def child(self, table, k):
        at = self.where(table, k)
        return None if at is None else at + self.u32(at)

    def children(self, table, k):
        at = self.where(table, k)
        if at is None:
            return []
        v = at + self.u32(at)
        return [v + 4 + 4 * i + self.u32(v + 4 + 4 * i) for i in range(self.u32(v))]


def factor(r):
    v = r.choice((-1.0, -1.0, 0.0, 1.0, 2.0, -0.5, -0.0, 0.1, 1.5, r.uniform(0, 5), r.uniform(-2, 0)))
    return struct.unpack("<f", struct.pack("<f", v))[0]


def la(r, base):
    base = os.path.join(base, "encount", "la")
    e = Edit(os.path.join(base, "poke_misc.bin"))
    boosted = set()
    for t in e.children(e.root(), 0):
        if e.where(t, 6) is not None:
            e.put(t, 6, "i", r.randrange(1, 6))
            boosted.add(key(e, t, 1))
    e.save()
    e = Edit(os.path.join(base, "poke_encount.bin"))
    keys = set()
    rows = e.children(e.root(), 0)
    for t in rows:
        keys.add(key(e, t, 1))
        for k in (*range(2, 6), *range(6, 14)):
            e.put(t, k, "f", factor(r))
    for t in r.sample(rows, 3):
        e.drop(t, r.choice((*range(2, 6), *range(6, 14))))
    e.save()
    keys = sorted(keys & boosted)
    for area in range(1, 6):
        encounters(r, Edit(os.path.join(base, f"ha_area{area:02d}_encounter.bin")), keys)
        spawners(r, Edit(os.path.join(base, f"ha_area{area:02d}_spawner.bin")))
    for name in ("new_huge_outbreak_group", "new_huge_outbreak_group_lottery"):
        e = Edit(os.path.join(base, name + ".bin"))
        for t in e.children(e.root(), 0):
            e.put(t, 0, "Q", r.getrandbits(64))
            if name.endswith("lottery"):
                for d in sum((e.children(t, k) for k in (1, 2, 3)), []):
                    e.put(d, 0, "Q", r.getrandbits(64))
            else:
                e.put(t, 2, "Q", r.getrandbits(64))
                for w in e.children(t, 1):
                    e.put(w, 7, "Q", r.getrandbits(64))
        e.save()


def key(e, t, form):
    at, f = e.where(t, 0), e.where(t, form)
    return (struct.unpack_from("<i", e.buf, at)[0],
            0 if f is None else struct.unpack_from("<i", e.buf, f)[0])


def encounters(r, e, keys):
    slots = []
    for t in e.children(e.root(), 0):
        lo, hi = sorted((r.randrange(1, 101), r.randrange(1, 101)))
        e.put(t, 1, "i", lo)
        e.put(t, 2, "i", hi)
        slots += e.children(t, 3)
    by_form = {}
    for s, f in keys:
        by_form.setdefault(f, []).append(s)
    for s in slots:
        form = 0
        if e.where(s, 3) is not None:
            form = r.choice(sorted(by_form))
            e.put(s, 3, "i", form)
        e.put(s, 0, "i", r.choice(by_form[form]))
        e.put(s, 2, "i", r.choice((-1, 0, 1, 2)))
        e.put(s, 25, "i", r.choice((0, 1, 2, 3, 4, 6)))
        e.put(s, 29, "i", r.choice((0, 1, 5, 100, 255, 256, 65536, r.randrange(1 << 20),
                                    r.randrange(1 << 31))))
        for k in (30, 31):
            e.put(s, k, "i", r.choice((-1, 0, 1, 50, 99, 100, 101, 200, r.randrange(1, 101))))
        traits = e.child(s, 45)
        for k in range(7, 19):
            e.put(traits, k, "f", factor(r))
        alpha = e.child(s, 46)
        for k in (0, 1):
            e.put(alpha, k, "b", int(r.random() < 0.4))
    # absent fields that have a default
    for s in r.sample(slots, 12):
        e.drop(s, r.choice((2, 25, 30, 31)))
        e.drop(e.child(s, 45), r.randrange(7, 19))
    # alphas of either kind alone
    for s in r.sample(slots, 12):
        k = r.randrange(2)
        e.put(e.child(s, 46), k, "b", 1)
        e.put(e.child(s, 46), 1 - k, "b", 0)
    e.save()


def spawners(r, e):
    for t in e.children(e.root(), 0):
        for k in (0, 1):
            e.put(t, k, "Q", r.getrandbits(64))
        v = e.child(e.children(t, 2)[0], 7)
        for k in range(3):
            e.put(v, k, "f", r.uniform(-2000, 2000))
        lo, hi = sorted((r.randrange(20), r.randrange(20)))
        e.put(t, 7, "i", lo)
        e.put(t, 8, "i", hi)
        for k in (10, 11, 12):
            e.put(t, k, "b", r.randrange(2))
        e.put(e.children(t, 20)[0], 0, "Q", r.getrandbits(64))
    e.save()
