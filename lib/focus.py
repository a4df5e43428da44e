"""Input dictionary, as a fuzzer has one: integer constants the tree under test
has and the pinned tree (lib/constants.json) had not.  Random inputs take one of
them now and then, so that code guarded by a constant is reached.  They are
inputs only: nothing is judged by them, and without new constants (the unchanged
tree) the generator is a plain random.Random."""
import ast
import collections
import json
import os
import random

HERE = os.path.dirname(os.path.abspath(__file__))
CHANCE = 0.04


def constants(root):
    """{file: Counter of the integer constants in it}"""
    out = {}
    for where, _, names in sorted(os.walk(os.path.join(root, "numba_pokemon_prngs"))):
        for name in sorted(names):
            if not name.endswith(".py"):
                continue
            path = os.path.join(where, name)
            count = collections.Counter()
            try:
                with open(path, encoding="utf-8") as f:
                    tree = ast.parse(f.read())
            except (OSError, SyntaxError, ValueError):
                continue
            for node in ast.walk(tree):
                value = getattr(node, "value", None) if isinstance(node, ast.Constant) else None
                if isinstance(value, int) and not isinstance(value, bool):
                    count[value] += 1
                elif isinstance(value, str) and len(value) == 1:
                    count[ord(value)] += 1
            out[os.path.relpath(path, root)] = count
    return out


def fresh(root):
    with open(os.path.join(HERE, "constants.json"), encoding="utf-8") as f:
        known = {k: collections.Counter({int(c): n for c, n in v.items()})
                 for k, v in json.load(f).items()}
    out = set()
    for path, count in constants(root).items():
        out |= set(count - known.get(path, collections.Counter()))
    return sorted(v for v in out if v > 1)[:64]


def variant(r, value):
    k = r.random()
    if k < 0.5:
        return value
    if k < 0.8:
        return value + (1 if r.random() < 0.5 else -1)
    f = int(r.random() * 5)
    shift = (8, 16, 32)[int(r.random() * 3)]
    return (value << shift, value >> shift, (1 << 32) - 1 - value, (1 << 32) - value,
            value | 1 << 31)[f]


class Focused(random.Random):
    """random.Random whose integers are now and then a fresh constant"""
    pool = ()

    def _randbelow(self, n):
        return int(self.random() * n) if n < 1 << 40 else super().getrandbits(n.bit_length()) % n

    def _pick(self, lo, hi):
        if self.random() < CHANCE:
            value = variant(self, self.pool[int(self.random() * len(self.pool))])
            if lo <= value < hi:
                return value
        return None

    def getrandbits(self, k):
        value = self._pick(0, 1 << k)
        return super().getrandbits(k) if value is None else value

    def randrange(self, start, stop=None, step=1):
        lo, hi = (0, start) if stop is None else (start, stop)
        if step == 1:
            value = self._pick(lo, hi)
            if value is not None:
                return value
            if hi <= lo:
                raise ValueError("empty range")
            return lo + self._randbelow(hi - lo)
        return lo + step * self._randbelow((hi - lo + step - 1) // step)

    def randint(self, a, b):
        return self.randrange(a, b + 1)


def make(seed):
    global _pool
    if _pool is None:
        _pool = tuple(fresh(os.environ.get("VERIF_REPO", "/repo")))
    if not _pool:
        return random.Random(seed)
    r = Focused(seed)
    r.pool = _pool
    return r


_pool = None
