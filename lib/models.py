"""Reference models, in plain Python integers, written from the published
algorithms (README constants, MT19937/SFMT19937/TinyMT32 papers, Vigna's
xoroshiro128+/splitmix64, Marsaglia's xorshift128).  self_test() pins them to
published vectors before any of them is trusted."""

M32 = 0xFFFFFFFF
M64 = 0xFFFFFFFFFFFFFFFF


class LCG:
    def __init__(self, width, mult, add, seed=0):
        self.width, self.mask = width, (1 << width) - 1
        self.mult, self.add = mult & self.mask, add & self.mask
        self.seed = seed & self.mask

    def re_init(self, seed):
        self.seed = seed & self.mask

    def next(self):
        self.seed = (self.seed * self.mult + self.add) & self.mask
        return self.seed

    def affine(self, n):
        """(a, c) with n steps == s*a + c"""
        a, c, ba, bc = 1, 0, self.mult, self.add
        while n:
            if n & 1:
                a, c = a * ba & self.mask, (c * ba + bc) & self.mask
            ba, bc = ba * ba & self.mask, (bc * ba + bc) & self.mask
            n >>= 1
        return a, c

    def jump(self, n):
        a, c = self.affine(n)
        self.seed = (self.seed * a + c) & self.mask
        return self.seed

    def half(self):
        return self.next() >> (self.width // 2)

    @staticmethod
    def reverse_of(width, mult, add):
        mod = 1 << width
        inv = pow(mult, -1, mod)
        return inv, (-add * inv) % mod


class MT:
    N, M = 624, 397

    def __init__(self, seed):
        self.state = [0] * 624
        self.re_init(seed)

    def re_init(self, seed):
        s = self.state
        s[0] = seed & M32
        for i in range(1, 624):
            s[i] = (0x6C078965 * (s[i - 1] ^ (s[i - 1] >> 30)) + i) & M32
        self.index = 624

    def shuffle(self):
        s = self.state
        for i in range(624):
            y = (s[i] & 0x80000000) | (s[(i + 1) % 624] & 0x7FFFFFFF)
            s[i] = s[(i + 397) % 624] ^ (y >> 1) ^ (0x9908B0DF if y & 1 else 0)
        self.index = 0

    def next(self):
        if self.index == 624:
            self.shuffle()
        y = self.state[self.index]
        self.index += 1
        y ^= y >> 11
        y ^= (y << 7) & 0x9D2C5680
        y ^= (y << 15) & 0xEFC60000
        y ^= y >> 18
        return y

    def advance(self, n):
        left = 624 - self.index
        if n <= left:
            self.index += n
            return
        n -= left
        while n > 624:
            self.shuffle()
            n -= 624
        self.shuffle()
        self.index = n


class SFMT:
    N = 156
    MASKS = (0xDFFFFFEF, 0xDDFECB7F, 0xBFFAFFFF, 0xBFFFFFF6)
    PARITY = (1, 0, 0, 0x13C9E684)
    M128 = (1 << 128) - 1

    def __init__(self, seed):
        self.re_init(seed)

    def re_init(self, seed):
        w = [seed & M32]
        for i in range(1, 624):
            w.append((0x6C078965 * (w[-1] ^ (w[-1] >> 30)) + i) & M32)
        inner = 0
        for i in range(4):
            inner ^= w[i] & self.PARITY[i]
        if bin(inner).count("1") % 2 == 0:
            w[0] ^= 1  # lowest bit of the parity vector
        self.w = w
        self.index = 624

    def shuffle(self):
        w = self.w
        v = [w[4 * i] | w[4 * i + 1] << 32 | w[4 * i + 2] << 64 | w[4 * i + 3] << 96
             for i in range(156)]
        c, d = v[154], v[155]
        mask18 = sum(((0xFFFFFFFF << 18) & M32) << (32 * k) for k in range(4))
        mask11 = sum(((self.MASKS[k]) & (M32 >> 11)) << (32 * k) for k in range(4))
        for i in range(156):
            a, b = v[i], v[(i + 122) % 156]
            r = (a ^ ((a << 8) & self.M128) ^ ((b >> 11) & mask11)
                 ^ (c >> 8) ^ ((d << 18) & mask18))
            v[i] = r
            c, d = d, r
        for i in range(156):
            for k in range(4):
                w[4 * i + k] = (v[i] >> (32 * k)) & M32
        self.index = 0

    def next(self):
        if self.index == 624:
            self.shuffle()
        r = self.w[self.index] | self.w[self.index + 1] << 32
        self.index += 2
        return r

    def advance(self, n):
        n *= 2
        left = 624 - self.index
        if n <= left:
            self.index += n
            return
        n -= left
        while n > 624:
            self.shuffle()
            n -= 624
        self.shuffle()
        self.index = n

    @property
    def state(self):
        return self.w


class TinyMT:
    MAT1, MAT2, TMAT = 0x8F7011EE, 0xFC78FF1F, 0x3793FDFF

    def __init__(self, seed):
        self.re_init(seed)

    def re_init(self, seed):
        s = [seed & M32, self.MAT1, self.MAT2, self.TMAT]
        for i in range(1, 8):
            p = s[(i - 1) & 3]
            s[i & 3] ^= (i + 0x6C078965 * (p ^ (p >> 30))) & M32
        if s[0] & 0x7FFFFFFF == 0 and s[1] == s[2] == s[3] == 0:
            s = [ord(c) for c in "TINY"]
        self.state = s
        for _ in range(8):
            self.shuffle()

    def shuffle(self):
        s = self.state
        y = s[3]
        x = (s[0] & 0x7FFFFFFF) ^ s[1] ^ s[2]
        x ^= (x << 1) & M32
        y ^= (y >> 1) ^ x
        s0, s1, s2, s3 = s[1], s[2], x ^ ((y << 10) & M32), y
        if y & 1:
            s1 ^= self.MAT1
            s2 ^= self.MAT2
        self.state = [s0, s1, s2, s3]

    def temper(self):
        s = self.state
        t1 = (s[0] + (s[2] >> 8)) & M32
        t0 = s[3] ^ t1
        return t0 ^ self.TMAT if t1 & 1 else t0

    def next(self):
        self.shuffle()
        return self.temper()

    def advance(self, n):
        for _ in range(n):
            self.shuffle()


class XS128:
    def __init__(self, a, b, c, d):
        self.re_init(a, b, c, d)

    def re_init(self, a, b, c, d):
        self.state = [a & M32, b & M32, c & M32, d & M32]

    def next(self):
        x, y, z, w = self.state
        t = x ^ ((x << 11) & M32)
        n = w ^ (w >> 19) ^ t ^ (t >> 8)
        self.state = [y, z, w, n]
        return n

    def previous(self):
        """undo one step; returns the value whose draw is undone"""
        y, z, w, n = self.state
        t8 = n ^ w ^ (w >> 19)          # t ^ (t >> 8)
        t = t8
        for _ in range(4):
            t = t8 ^ (t >> 8)
        x = t                            # x ^ (x << 11) == t
        for _ in range(3):
            x = t ^ ((x << 11) & M32)
        self.state = [x, y, z, w]
        return n

    def advance(self, n):
        for _ in range(n):
            self.next()


def rotl64(v, k):
    k %= 64
    return ((v << k) | (v >> (64 - k))) & M64 if k else v


class XORO:
    """xoroshiro128+ (24, 16, 37)"""

    def __init__(self, s0, s1=0x82A2B175229D6A5B):
        self.re_init(s0, s1)

    def re_init(self, s0, s1=0x82A2B175229D6A5B):
        self.state = [s0 & M64, s1 & M64]

    def raw(self):
        a, b = self.state
        r = (a + b) & M64
        b ^= a
        self.state = [rotl64(a, 24) ^ b ^ ((b << 16) & M64), rotl64(b, 37)]
        return r

    def next(self):
        return self.raw()

    def raw_previous(self):
        p, q = self.state
        b = rotl64(q, 64 - 37)
        a = rotl64(p ^ b ^ ((b << 16) & M64), 64 - 24)
        b ^= a
        self.state = [a, b]
        return (a + b) & M64

    def previous(self):
        return self.raw_previous()

    def advance(self, n):
        for _ in range(n):
            self.raw()


def splitmix64(x):
    """output of splitmix64 for the (already incremented) state x"""
    x &= M64
    x = ((x ^ (x >> 30)) * 0xBF58476D1CE4E5B9) & M64
    x = ((x ^ (x >> 27)) * 0x94D049BB133111EB) & M64
    return x ^ (x >> 31)


class SMXORO(XORO):
    def __init__(self, seed):
        self.re_init(seed)

    def re_init(self, seed):
        g = 0x9E3779B97F4A7C15
        self.state = [splitmix64(seed + g), splitmix64(seed + 2 * g)]

    def next(self):
        return self.raw() >> 32

    def previous(self):
        return self.raw_previous() >> 32


def linear_jump(model, width, step, n):
    """move a model whose state words are linear over GF(2) by n steps: powers of the
    matrix of one step, its columns being the images of the single bits"""
    words = len(model.state)
    top = (1 << width) - 1
    start = list(model.state)

    def image(bits):
        model.state = [(bits >> (width * i)) & top for i in range(words)]
        step()
        return sum(w << (width * i) for i, w in enumerate(model.state))

    def apply(columns, bits):
        out = 0
        while bits:
            low = bits & -bits
            out ^= columns[low.bit_length() - 1]
            bits ^= low
        return out
    columns = [image(1 << i) for i in range(width * words)]
    bits = sum(w << (width * i) for i, w in enumerate(start))
    while n:
        if n & 1:
            bits = apply(columns, bits)
        n >>= 1
        columns = [apply(columns, c) for c in columns] if n else columns
    model.state = [(bits >> (width * i)) & top for i in range(words)]


# ---- bounded-draw distributions ------------------------------------------
def dist_mod(u, m):
    return u % m


def dist_recip(u16, m):
    return u16 // (0xFFFF // m + 1)


def dist_mulshift(u32, m):
    return (u32 * m) >> 32


def covering_mask(m):
    return (1 << (m - 1).bit_length()) - 1


# ---- built-in LCRNG table (README) ----------------------------------------
LCRNGS = {
    # name: (width, mult, add, reversed, distribution, partner)
    "PokeRNGMod": (32, 0x41C64E6D, 0x6073, False, "mod", "PokeRNGRMod"),
    "PokeRNGDiv": (32, 0x41C64E6D, 0x6073, False, "recip", "PokeRNGRDiv"),
    "PokeRNGRMod": (32, 0x41C64E6D, 0x6073, True, "mod", "PokeRNGMod"),
    "PokeRNGRDiv": (32, 0x41C64E6D, 0x6073, True, "recip", "PokeRNGDiv"),
    "ARNG": (32, 0x6C078965, 0x1, False, "mod", "ARNGR"),
    "ARNGR": (32, 0x6C078965, 0x1, True, "mod", "ARNG"),
    "XDRNG": (32, 0x343FD, 0x269EC3, False, "mod", "XDRNGR"),
    "XDRNGR": (32, 0x343FD, 0x269EC3, True, "mod", "XDRNG"),
    "BWRNG": (64, 0x5D588B656C078965, 0x269EC3, False, "mulshift", "BWRNGR"),
    "BWRNGR": (64, 0x5D588B656C078965, 0x269EC3, True, "mulshift", "BWRNG"),
}


def lcg_model(name, seed=0):
    width, mult, add, rev, _, _ = LCRNGS[name]
    if rev:
        mult, add = LCG.reverse_of(width, mult, add)
    return LCG(width, mult, add, seed)


def self_test():
    """published vectors (raises on a wrong model)"""
    mt = MT(5489)
    assert [mt.next() for _ in range(3)] == [3499211612, 581869302, 3890346734]
    mt = MT(5489)
    mt.advance(9999)
    assert mt.next() == 4123659995          # C++ std::mt19937 10000th value
    sf = SFMT(1234)
    lo = [sf.next() for _ in range(3)]
    words = [w for v in lo for w in (v & M32, v >> 32)]
    assert words[:5] == [3440181298, 1564997079, 1510669302, 2930277156, 1452439940]
    tm = TinyMT(1)
    # reference vector of TinyMT32 is for these parameters with seed 1
    assert [tm.next() for _ in range(5)] == [
        2545341989, 981918433, 3715302833, 2387538352, 3591001365]
    # splitmix64 reference stream from seed 1234567
    g = 0x9E3779B97F4A7C15
    assert [splitmix64(1234567 + (i + 1) * g) for i in range(3)] == [
        6457827717110365317, 3203168211198807973, 9817491932198370423]
    # Marsaglia's xorshift128 default state
    xs = XS128(123456789, 362436069, 521288629, 88675123)
    assert [xs.next() for _ in range(3)] == [3701687786, 458299110, 2500872618]
    # the C library LCG of MSVC shares XDRNG's constants: rand() from seed 1
    xd = LCG(32, 0x343FD, 0x269EC3, 1)
    assert [(xd.next() >> 16) & 0x7FFF for _ in range(4)] == [41, 18467, 6334, 26500]
    pk = lcg_model("PokeRNGMod", 0)
    assert [pk.next() for _ in range(4)] == [0x6073, 0xE97E7B6A, 0x52713895, 0x31B0DDE4]
    assert covering_mask(1) == 0 and covering_mask(2) == 1 and covering_mask(5) == 7


self_test()
