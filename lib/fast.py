"""The reference models once more, compiled for bulk use: stateless "values at
absolute stream positions".  Every one of them is pinned to lib/models.py (which
is pinned to published vectors) by self_test() before use.  The models are the
harness's own code: they never call the package."""
import numba
import numpy as np

from . import models

U32, U64 = np.uint32, np.uint64


@numba.njit(cache=False)
def _mt_init(s, seed):
    x = np.uint64(seed)
    s[0] = np.uint32(x)
    for i in range(1, 624):
        x = (np.uint64(0x6C078965) * (x ^ (x >> np.uint64(30))) + np.uint64(i)) \
            & np.uint64(0xFFFFFFFF)
        s[i] = np.uint32(x)


@numba.njit(cache=False)
def _mt_gen(s):
    a, hi, lo = np.uint32(0x9908B0DF), np.uint32(0x80000000), np.uint32(0x7FFFFFFF)
    one = np.uint32(1)
    for i in range(227):
        y = (s[i] & hi) | (s[i + 1] & lo)
        s[i] = s[i + 397] ^ (y >> one) ^ (a * (y & one))
    for i in range(227, 623):
        y = (s[i] & hi) | (s[i + 1] & lo)
        s[i] = s[i - 227] ^ (y >> one) ^ (a * (y & one))
    y = (s[623] & hi) | (s[0] & lo)
    s[623] = s[396] ^ (y >> one) ^ (a * (y & one))


@numba.njit(cache=False)
def mt_values(seed, start, out):
    s = np.zeros(624, np.uint32)
    _mt_init(s, seed)
    for _ in range(start // 624 + 1):
        _mt_gen(s)
    i = start % 624
    for k in range(out.shape[0]):
        if i == 624:
            _mt_gen(s)
            i = 0
        y = s[i]
        i += 1
        y ^= y >> np.uint32(11)
        y ^= (y << np.uint32(7)) & np.uint32(0x9D2C5680)
        y ^= (y << np.uint32(15)) & np.uint32(0xEFC60000)
        y ^= y >> np.uint32(18)
        out[k] = np.uint64(y)


@numba.njit(cache=False)
def _sfmt_gen(s):
    """one block, as 156 128-bit words in 64-bit halves"""
    m18 = np.uint64(0xFFFC0000FFFC0000)
    b0 = np.uint64(0x001FFFFF001FFFFF) & np.uint64(0xDDFECB7FDFFFFFEF)
    b1 = np.uint64(0x001FFFFF001FFFFF) & np.uint64(0xBFFFFFF6BFFAFFFF)
    e8, e11, e18, e56 = np.uint64(8), np.uint64(11), np.uint64(18), np.uint64(56)
    cl, ch, dl, dh = s[308], s[309], s[310], s[311]
    for i in range(0, 312, 2):
        j = i + 244
        if j >= 312:
            j -= 312
        al, ah = s[i], s[i + 1]
        rl = al ^ (al << e8) ^ ((s[j] >> e11) & b0) ^ ((cl >> e8) | (ch << e56)) \
            ^ ((dl << e18) & m18)
        rh = ah ^ ((ah << e8) | (al >> e56)) ^ ((s[j + 1] >> e11) & b1) ^ (ch >> e8) \
            ^ ((dh << e18) & m18)
        s[i] = rl
        s[i + 1] = rh
        cl, ch = dl, dh
        dl, dh = rl, rh


@numba.njit(cache=False)
def _sfmt_init(s, seed):
    _mt_init(s, seed)
    p = (s[0] & np.uint32(1)) ^ (s[3] & np.uint32(0x13C9E684))
    n = 0
    for k in range(32):
        n += (p >> np.uint32(k)) & np.uint32(1)
    if n % 2 == 0:
        s[0] ^= np.uint32(1)
    return n % 2


@numba.njit(cache=False)
def sfmt_values(seed, start, out):
    s32 = np.zeros(624, np.uint32)
    certified = _sfmt_init(s32, seed)
    s = s32.view(np.uint64)     # little-endian halves of the 128-bit words
    for _ in range(start // 312 + 1):
        _sfmt_gen(s)
    i = start % 312
    for k in range(out.shape[0]):
        if i == 312:
            _sfmt_gen(s)
            i = 0
        out[k] = s[i]
        i += 1
    return certified


@numba.njit(cache=False)
def mt_values_at(seed, starts, out):
    """out[j] = 5 values from starts[j] (ascending, at least a block apart)"""
    s = np.zeros(624, np.uint32)
    _mt_init(s, seed)
    done = -1
    for j in range(starts.shape[0]):
        for k in range(5):
            q = starts[j] + k
            while done < q // 624:
                _mt_gen(s)
                done += 1
            y = s[q % 624]
            y ^= y >> np.uint32(11)
            y ^= (y << np.uint32(7)) & np.uint32(0x9D2C5680)
            y ^= (y << np.uint32(15)) & np.uint32(0xEFC60000)
            y ^= y >> np.uint32(18)
            out[j, k] = np.uint64(y)


@numba.njit(cache=False)
def sfmt_values_at(seed, starts, out):
    s32 = np.zeros(624, np.uint32)
    _sfmt_init(s32, seed)
    s = s32.view(np.uint64)
    done = -1
    for j in range(starts.shape[0]):
        for k in range(5):
            q = starts[j] + k
            while done < q // 312:
                _sfmt_gen(s)
                done += 1
            out[j, k] = s[q % 312]


@numba.njit(cache=False)
def _tiny_step(s):
    y = s[3]
    x = (s[0] & np.uint32(0x7FFFFFFF)) ^ s[1] ^ s[2]
    x ^= x << np.uint32(1)
    y ^= (y >> np.uint32(1)) ^ x
    s[0] = s[1]
    s[1] = s[2]
    s[2] = x ^ (y << np.uint32(10))
    s[3] = y
    if y & np.uint32(1):
        s[1] ^= np.uint32(0x8F7011EE)
        s[2] ^= np.uint32(0xFC78FF1F)


@numba.njit(cache=False)
def tiny_values(seed, start, out):
    s = np.zeros(4, np.uint32)
    s[0] = np.uint32(seed)
    s[1] = np.uint32(0x8F7011EE)
    s[2] = np.uint32(0xFC78FF1F)
    s[3] = np.uint32(0x3793FDFF)
    for i in range(1, 8):
        p = np.uint64(s[(i - 1) & 3])
        v = (np.uint64(0x6C078965) * (p ^ (p >> np.uint64(30))) + np.uint64(i)) \
            & np.uint64(0xFFFFFFFF)
        s[i & 3] ^= np.uint32(v)
    zero = (s[0] & np.uint32(0x7FFFFFFF)) == 0 and s[1] == 0 and s[2] == 0 and s[3] == 0
    if zero:
        s[0], s[1], s[2], s[3] = (np.uint32(84), np.uint32(73), np.uint32(78), np.uint32(89))
    for _ in range(8 + start):
        _tiny_step(s)
    for k in range(out.shape[0]):
        _tiny_step(s)
        t1 = (np.uint64(s[0]) + np.uint64(s[2] >> np.uint32(8))) & np.uint64(0xFFFFFFFF)
        t = np.uint64(s[3]) ^ t1
        if t1 & np.uint64(1):
            t ^= np.uint64(0x3793FDFF)
        out[k] = t
    return zero


@numba.njit(cache=False)
def xs_values(a, b, c, d, start, out):
    # 64-bit arithmetic with explicit masks: numba widens 32-bit operations
    m = np.uint64(0xFFFFFFFF)
    x, y, z, w = np.uint64(a), np.uint64(b), np.uint64(c), np.uint64(d)
    for k in range(start + out.shape[0]):
        t = x ^ ((x << np.uint64(11)) & m)
        x, y, z = y, z, w
        w = w ^ (w >> np.uint64(19)) ^ t ^ (t >> np.uint64(8))
        if k >= start:
            out[k - start] = w


@numba.njit(cache=False)
def xoro_values(a, b, shift, start, out):
    s0, s1 = np.uint64(a), np.uint64(b)
    for k in range(start + out.shape[0]):
        v = s0 + s1
        s1 ^= s0
        s0 = ((s0 << np.uint64(24)) | (s0 >> np.uint64(40))) ^ s1 ^ (s1 << np.uint64(16))
        s1 = (s1 << np.uint64(37)) | (s1 >> np.uint64(27))
        if k >= start:
            out[k - start] = v >> np.uint64(shift)


def mt_stream(seed, start, n):
    out = np.empty(n, U64)
    mt_values(U64(seed), start, out)
    return out


def sfmt_stream(seed, start, n):
    out = np.empty(n, U64)
    sfmt_values(U64(seed), start, out)
    return out


def tiny_stream(seed, start, n):
    out = np.empty(n, U64)
    tiny_values(U64(seed), start, out)
    return out


def xs_stream(seeds, start, n):
    out = np.empty(n, U64)
    xs_values(*(U32(v) for v in seeds), start, out)
    return out


def xoro_stream(state, shift, start, n):
    out = np.empty(n, U64)
    xoro_values(U64(state[0]), U64(state[1]), shift, start, out)
    return out


def self_test(which):
    for seed in (0, 1, 5489, 0xFFFFFFFF, 0x80000000, 1234567):
        for cls, fn, block in {"mt": [(models.MT, mt_stream, 624)],
                               "sfmt": [(models.SFMT, sfmt_stream, 312)],
                               "tiny": [(models.TinyMT, tiny_stream, 7)],
                               "xs": []}[which]:
            m = cls(seed)
            want = [m.next() for _ in range(3 * block + 5)]
            assert fn(seed, 0, len(want)).tolist() == want, cls
            assert fn(seed, block + 3, 2 * block + 2).tolist() == want[block + 3:], cls
    if which == "xs":
        m = models.XS128(1, 2, 3, 0xFFFFFFFF)
        assert xs_stream((1, 2, 3, 0xFFFFFFFF), 0, 50).tolist() == [m.next() for _ in range(50)]
        m = models.XORO(2 ** 64 - 1, 77)
        m.advance(5)
        assert xoro_stream((2 ** 64 - 1, 77), 0, 5, 50).tolist() == \
            [m.next() for _ in range(50)]
