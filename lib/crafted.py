"""Seeds aimed at rare internal states: found by inverting the seeding, or by the
one-off search of tools/findseeds.py.  They are inputs only; every oracle is
computed from the seed as for any other one."""
from . import rareseeds
from .models import M32, M64

_MUL, _INV = 0x6C078965, pow(0x6C078965, -1, 1 << 32)
EXTREME = (0, 0, 0, 1, M32, 0x80000000, 0x7FFFFFFF, 0xFFFFFFFE, 0x80000001)


def mt_seed(r, word=None, value=None):
    """a seed whose initial state holds `value` at index `word`"""
    word = r.choice((1, 2, 3, 226, 227, 228, 396, 397, 398, 488, 616, 619, 620, 622, 623,
                     r.randrange(1, 624))) if word is None else word
    x = r.choice(EXTREME) if value is None else value
    for i in range(word, 0, -1):
        y = (x - i) * _INV & M32
        x = y ^ (y >> 30)
    return x


def twister_seed(r, kind):
    """`kind` is mt, sfmt or tiny"""
    if kind != "tiny" and r.random() < 0.6:
        return mt_seed(r)
    return r.choice(getattr(rareseeds, kind.upper()))


def _unshift(y, k):
    x = y
    for _ in range(64 // k + 1):
        x = y ^ (x >> k)
    return x


def splitmix_seed(r, value=None):
    """a seed one of whose splitmix64 outputs is extreme"""
    x = r.choice((0, M64, 1, 1 << 63, M32, M64 ^ M32)) if value is None else value
    x = _unshift(x, 31)
    x = x * pow(0x94D049BB133111EB, -1, 1 << 64) & M64
    x = _unshift(x, 27)
    x = x * pow(0xBF58476D1CE4E5B9, -1, 1 << 64) & M64
    x = _unshift(x, 30)
    return (x - r.choice((1, 2)) * 0x9E3779B97F4A7C15) & M64
