"""Independent executable specifications of every bit generator in randomgen.

Written from the published algorithms (papers / reference implementations named in
the docs); pure Python integers, no code of randomgen is used.  Each model offers

  nat()     the next natural output word (``W`` bits)
  next64(), next32(), double(), raw()   the numpy bit-generator interface views
"""
import struct
import numpy as np

M32 = (1 << 32) - 1
M64 = (1 << 64) - 1
M128 = (1 << 128) - 1


def rotl64(x, k):
    k &= 63
    return ((x << k) | (x >> (64 - k))) & M64


def rotl32(x, k):
    k &= 31
    return ((x << k) | (x >> (32 - k))) & M32


def words(ss, n, bits=64):
    return [int(v) for v in ss.generate_state(n, np.uint64 if bits == 64 else np.uint32)]


class Gen64:
    """64-bit natural words; 32-bit draws consume low half then buffered high half."""
    W = 64
    RAWBITS = 64
    has = 0
    buf = 0

    def next64(self):
        return self.nat()

    def next32(self):
        if self.has:
            self.has = 0
            return self.buf
        v = self.nat()
        self.has = 1
        self.buf = v >> 32
        return v & M32

    def double(self):
        return (self.next64() >> 11) * 2.0 ** -53

    def raw(self):
        return self.nat()


class Gen32:
    """32-bit natural words.  ORDER: 'hl' -> first word is the high half of a 64-bit draw."""
    W = 32
    ORDER = 'hl'
    RAW = 32
    DBL = 53  # two words a>>5, b>>6; 64: from next64

    @property
    def RAWBITS(self):
        return self.RAW

    def next32(self):
        return self.nat()

    def next64(self):
        a = self.nat()
        b = self.nat()
        return (a << 32) | b if self.ORDER == 'hl' else (b << 32) | a

    def double(self):
        if self.DBL == 64:
            return (self.next64() >> 11) * 2.0 ** -53
        a = self.nat() >> 5
        b = self.nat() >> 6
        return (a * 67108864.0 + b) / 9007199254740992.0

    def raw(self):
        return self.nat() if self.RAW == 32 else self.next64()


class NextFromBuffer:
    pass


# ---------------------------------------------------------------- JSF
JSF_DEFAULT = {64: (7, 13, 37), 32: (27, 17, 0)}


def _mk_jsf(base, bits):
    mask = (1 << bits) - 1

    def rot(x, k):
        return ((x << k) | (x >> (bits - k))) & mask

    class JSF(base):
        def __init__(self, seed, p, q, r):
            self.p, self.q, self.r = p, q, r
            self.a = 0xF1EA5EED
            self.b = self.c = self.d = seed[0]
            if len(seed) > 1:
                self.c = seed[1]
            if len(seed) > 2:
                self.d = seed[2]
            for _ in range(20):
                self.nat()

        def nat(self):
            e = (self.a - rot(self.b, self.p)) & mask
            self.a = self.b ^ rot(self.c, self.q)
            if self.r:
                self.b = (self.c + rot(self.d, self.r)) & mask
            else:
                self.b = (self.c + self.d) & mask
            self.c = (self.d + e) & mask
            self.d = (e + self.a) & mask
            return self.d

        def load(self, st):
            s = st['state']
            for k in 'abcdpqr':
                setattr(self, k, int(s[k]))
            return self
    return JSF


JSF64 = _mk_jsf(Gen64, 64)


class JSF32(_mk_jsf(Gen32, 32)):
    DBL = 64


# ---------------------------------------------------------------- SFC64
class SFC64(Gen64):
    def __init__(self, abc, w, k):
        self.a, self.b, self.c = abc
        self.w, self.k = w, k
        for _ in range(12):
            self.nat()

    def nat(self):
        out = (self.a + self.b + self.w) & M64
        self.w = (self.w + self.k) & M64
        self.a = self.b ^ (self.b >> 11)
        self.b = (self.c + (self.c << 3)) & M64
        self.c = (rotl64(self.c, 24) + out) & M64
        return out

    def load(self, st):
        for k in 'abcwk':
            setattr(self, k, int(st['state'][k]))
        return self


# ---------------------------------------------------------------- EFIIX64
class _Arbee:
    def __init__(self, a, b, c, d):
        self.a, self.b, self.c, self.d, self.i = a, b, c, d, 1
        for _ in range(12):
            self()

    def __call__(self):
        e = (self.a + rotl64(self.b, 45)) & M64
        self.a = self.b ^ rotl64(self.c, 13)
        self.b = (self.c + rotl64(self.d, 37)) & M64
        self.c = (e + self.d + self.i) & M64
        self.i += 1
        self.d = (e + self.a) & M64
        return self.d


class EFIIX64(Gen64):
    def __init__(self, s):
        s1, s2, s3, s4 = s
        ar = _Arbee(s1, s2, s3, s4)
        self.ind = [ar() for _ in range(16)]
        self.i = ar()
        self.it = [0] * 32
        for w in range(32):
            self.it[(w + self.i) % 32] = ar()
        self.a = ar()
        self.b = ar()
        self.c = ar()
        for _ in range(64):
            self.nat()
        ar()
        s1 = (s1 + ar()) & M64
        s2 = (s2 + ar()) & M64
        s3 = (s3 + ar()) & M64
        ar = _Arbee(s1 ^ self.a, s2 ^ self.b, s3 ^ self.c, (~s4) & M64)
        for w in range(16):
            self.ind[w] ^= ar()
        for _ in range(48):
            self.nat()

    def nat(self):
        iterated = self.it[self.i % 32]
        k = self.c % 16
        indirect = self.ind[k]
        self.ind[k] = (iterated + self.a) & M64
        self.it[self.i % 32] = indirect
        old = self.a ^ self.b
        self.a = (self.b + self.i) & M64
        self.i = (self.i + 1) & M64
        self.b = (self.c + indirect) & M64
        self.c = (old + rotl64(self.c, 25)) & M64
        return self.b ^ iterated

    def load(self, st):
        s = st['state']
        self.ind = [int(v) for v in s['indirection_table']]
        self.it = [int(v) for v in s['iteration_table']]
        for k in 'iabc':
            setattr(self, k, int(s[k]))
        return self


# ---------------------------------------------------------------- Romu
class Romu(Gen64):
    MUL = 15241094284759029579

    def __init__(self, s, quad):
        self.w, self.x, self.y, self.z = s
        self.quad = quad
        for _ in range(10):
            self.nat()

    def nat(self):
        w, x, y, z = self.w, self.x, self.y, self.z
        self.x_ = x
        if self.quad:
            self.w = (self.MUL * z) & M64
            self.x = (z + rotl64(w, 52)) & M64
            self.y = (y - x) & M64
            self.z = rotl64((y + w) & M64, 19)
        else:
            self.x = (self.MUL * z) & M64
            self.y = rotl64((y - x) & M64, 12)
            self.z = rotl64((z - y) & M64, 44)
        return x

    def load(self, st):
        for k in 'wxyz':
            setattr(self, k, int(st['state'][k]))
        self.quad = st['state']['variant'] == 'quad'
        return self


# ---------------------------------------------------------------- Tyche
class Tyche(Gen32):
    RAW = 64

    def __init__(self, seed, idx, original):
        self.a = seed >> 32
        self.b = seed & M32
        self.c = 2654435769
        self.d = 1367130551 ^ idx
        self.orig = original
        for _ in range(20):
            self.nat()

    def nat(self):
        a, b, c, d = self.a, self.b, self.c, self.d
        if self.orig:
            a = (a + b) & M32
            d = rotl32(d ^ a, 16)
            c = (c + d) & M32
            b = rotl32(b ^ c, 12)
            a = (a + b) & M32
            d = rotl32(d ^ a, 8)
            c = (c + d) & M32
            b = rotl32(b ^ c, 7)
        else:
            b = rotl32(b, 7) ^ c
            c = (c - d) & M32
            d = rotl32(d, 8) ^ a
            a = (a - b) & M32
            b = rotl32(b, 12) ^ c
            c = (c - d) & M32
            d = rotl32(d, 16) ^ a
            a = (a - b) & M32
        self.a, self.b, self.c, self.d = a, b, c, d
        return b if self.orig else a

    def load(self, st):
        for k in 'abcd':
            setattr(self, k, int(st['state'][k]))
        self.orig = bool(st['state']['original'])
        return self


# ---------------------------------------------------------------- F2-linear xorshift family
def _murmur(z):
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
    return z ^ (z >> 31)


def xoshiro256_step(s):
    s0, s1, s2, s3 = s
    t = (s1 << 17) & M64
    s2 ^= s0
    s3 ^= s1
    s1 ^= s2
    s0 ^= s3
    s2 ^= t
    s3 = rotl64(s3, 45)
    return [s0, s1, s2, s3]


def xoshiro512_step(s):
    s = list(s)
    t = (s[1] << 11) & M64
    s[2] ^= s[0]
    s[5] ^= s[1]
    s[1] ^= s[2]
    s[7] ^= s[3]
    s[3] ^= s[4]
    s[4] ^= s[5]
    s[0] ^= s[6]
    s[6] ^= s[7]
    s[6] ^= t
    s[7] = rotl64(s[7], 21)
    return s


def xoroshiro_step(s, plusplus):
    s0, s1 = s
    s1 ^= s0
    if plusplus:
        return [rotl64(s0, 49) ^ s1 ^ ((s1 << 21) & M64), rotl64(s1, 28)]
    return [rotl64(s0, 24) ^ s1 ^ ((s1 << 16) & M64), rotl64(s1, 37)]


class LXM(Gen64):
    MUL = 2862933555777941757

    def __init__(self, x, lcg, b):
        self.s = list(x)
        self.lcg = lcg
        self.b = b | 1

    def nat(self):
        out = _murmur((self.s[0] + self.lcg) & M64)
        self.lcg = (self.lcg * self.MUL + self.b) & M64
        self.s = xoshiro256_step(self.s)
        return out

    def load(self, st):
        s = st['state']
        self.s = [int(v) for v in s['x']]
        self.lcg, self.b = int(s['lcg_state']), int(s['b'])
        return self


class Xoshiro256(Gen64):
    def __init__(self, s):
        self.s = list(s)

    def nat(self):
        out = (rotl64((self.s[1] * 5) & M64, 7) * 9) & M64
        self.s = xoshiro256_step(self.s)
        return out

    def load(self, st):
        self.s = [int(v) for v in st['s']]
        return self


class Xoshiro512(Xoshiro256):
    def nat(self):
        out = (rotl64((self.s[1] * 5) & M64, 7) * 9) & M64
        self.s = xoshiro512_step(self.s)
        return out


class Xoroshiro128(Xoshiro256):
    def __init__(self, s, plusplus):
        self.s = list(s)
        self.pp = plusplus

    def nat(self):
        s0, s1 = self.s
        out = (rotl64((s0 + s1) & M64, 17) + s0) & M64 if self.pp else (s0 + s1) & M64
        self.s = xoroshiro_step(self.s, self.pp)
        return out

    def load(self, st):
        self.s = [int(v) for v in st['s']]
        self.pp = bool(st['plusplus'])
        return self


class Xorshift1024(Gen64):
    def __init__(self, s):
        self.s = list(s)
        self.p = 0

    def nat(self):
        s0 = self.s[self.p]
        self.p = (self.p + 1) & 15
        s1 = self.s[self.p]
        s1 ^= (s1 << 31) & M64
        self.s[self.p] = s1 ^ s0 ^ (s1 >> 11) ^ (s0 >> 30)
        return (self.s[self.p] * 0x9E3779B97F4A7C13) & M64

    def load(self, st):
        self.s = [int(v) for v in st['state']['s']]
        self.p = int(st['state']['p'])
        return self


# ---------------------------------------------------------------- Mersenne twisters
class MT19937(Gen32):
    def __init__(self, key=None, mt=None, pos=624):
        if mt is None:
            mt = [19650218]
            for i in range(1, 624):
                mt.append((1812433253 * (mt[-1] ^ (mt[-1] >> 30)) + i) & M32)
            i, j = 1, 0
            for _ in range(max(624, len(key))):
                mt[i] = ((mt[i] ^ ((mt[i - 1] ^ (mt[i - 1] >> 30)) * 1664525)) + key[j] + j) & M32
                i += 1
                j = (j + 1) % len(key)
                if i >= 624:
                    mt[0] = mt[623]
                    i = 1
            for _ in range(623):
                mt[i] = ((mt[i] ^ ((mt[i - 1] ^ (mt[i - 1] >> 30)) * 1566083941)) - i) & M32
                i += 1
                if i >= 624:
                    mt[0] = mt[623]
                    i = 1
            mt[0] = 0x80000000
        self.mt = mt
        self.pos = pos

    def nat(self):
        if self.pos >= 624:
            mt = self.mt
            for k in range(624):
                y = (mt[k] & 0x80000000) | (mt[(k + 1) % 624] & 0x7FFFFFFF)
                mt[k] = mt[(k + 397) % 624] ^ (y >> 1) ^ (0x9908B0DF if y & 1 else 0)
            self.pos = 0
        y = self.mt[self.pos]
        self.pos += 1
        y ^= y >> 11
        y ^= (y << 7) & 0x9D2C5680
        y ^= (y << 15) & 0xEFC60000
        return y ^ (y >> 18)

    def load(self, st):
        self.mt = [int(v) for v in st['state']['key']]
        self.pos = int(st['state']['pos'])
        return self


class MT64(Gen64):
    def __init__(self, key):
        mt = [19650218]
        for i in range(1, 312):
            mt.append((6364136223846793005 * (mt[-1] ^ (mt[-1] >> 62)) + i) & M64)
        i, j = 1, 0
        for _ in range(max(312, len(key))):
            mt[i] = ((mt[i] ^ ((mt[i - 1] ^ (mt[i - 1] >> 62)) * 3935559000370003845)) + key[j] + j) & M64
            i += 1
            j = (j + 1) % len(key)
            if i >= 312:
                mt[0] = mt[311]
                i = 1
        for _ in range(311):
            mt[i] = ((mt[i] ^ ((mt[i - 1] ^ (mt[i - 1] >> 62)) * 2862933555777941757)) - i) & M64
            i += 1
            if i >= 312:
                mt[0] = mt[311]
                i = 1
        mt[0] = 1 << 63
        self.mt = mt
        self.pos = 312

    def nat(self):
        if self.pos >= 312:
            mt = self.mt
            for k in range(312):
                y = (mt[k] & 0xFFFFFFFF80000000) | (mt[(k + 1) % 312] & 0x7FFFFFFF)
                mt[k] = mt[(k + 156) % 312] ^ (y >> 1) ^ (0xB5026F5AA96619E9 if y & 1 else 0)
            self.pos = 0
        x = self.mt[self.pos]
        self.pos += 1
        x ^= (x >> 29) & 0x5555555555555555
        x ^= (x << 17) & 0x71D67FFFEDA60000
        x ^= (x << 37) & 0xFFF7EEE000000000
        return (x ^ (x >> 43)) & M64

    def load(self, st):
        self.mt = [int(v) for v in st['state']['key']]
        self.pos = int(st['state']['pos'])
        return self


def _tiny_init_by_array(key, size, f1, f2):
    """Initialisation shared by SFMT and dSFMT (period 19937: lag 11)."""
    lag = 11
    mid = (size - lag) // 2
    st = [0x8B8B8B8B] * size
    count = max(len(key) + 1, size)
    r = f1(st[0] ^ st[mid] ^ st[size - 1])
    st[mid] = (st[mid] + r) & M32
    r = (r + len(key)) & M32
    st[mid + lag] = (st[mid + lag] + r) & M32
    st[0] = r
    count -= 1
    i = 1
    for j in range(count):
        r = f1(st[i] ^ st[(i + mid) % size] ^ st[(i + size - 1) % size])
        p = (i + mid) % size
        st[p] = (st[p] + r) & M32
        r = (r + i + (key[j] if j < len(key) else 0)) & M32
        p = (i + mid + lag) % size
        st[p] = (st[p] + r) & M32
        st[i] = r
        i = (i + 1) % size
    for j in range(size):
        r = f2((st[i] + st[(i + mid) % size] + st[(i + size - 1) % size]) & M32)
        st[(i + mid) % size] ^= r
        r = (r - i) & M32
        st[(i + mid + lag) % size] ^= r
        st[i] = r
        i = (i + 1) % size
    return st


def _f1(x):
    return ((x ^ (x >> 27)) * 1664525) & M32


def _f2(x):
    return ((x ^ (x >> 27)) * 1566083941) & M32


class SFMT(Gen64):
    N = 156
    MSK = 0xDFFFFFEF | (0xDDFECB7F << 32) | (0xBFFAFFFF << 64) | (0xBFFFFFF6 << 96)
    L18 = sum(((M32 << 18) & M32) << (32 * i) for i in range(4))
    R11 = sum((M32 >> 11) << (32 * i) for i in range(4))

    def __init__(self, key=None, st=None):
        if st is None:
            w = _tiny_init_by_array(key, 624, _f1, _f2)
            par = (1, 0, 0, 0x13C9E684)
            inner = 0
            for a, b in zip(w, par):
                inner ^= a & b
            if bin(inner).count('1') % 2 == 0:
                w[0] ^= 1
            st = [w[4 * i] | (w[4 * i + 1] << 32) | (w[4 * i + 2] << 64) | (w[4 * i + 3] << 96) for i in range(156)]
        self.st = st
        self.out = []
        self.pos = 0

    def block(self):
        s = self.st
        N = 156
        c, d = s[N - 2], s[N - 1]
        for i in range(N):
            a, b = s[i], s[(i + 122) % N]
            x = (a << 8) & M128
            y = c >> 8
            r = a ^ x ^ ((b >> 11) & self.R11 & self.MSK) ^ y ^ ((d << 18) & self.L18 & M128)
            s[i] = r
            c, d = d, r
        return s

    def nat(self):
        if self.pos >= len(self.out):
            s = self.block()
            self.out = [w for v in s for w in (v & M64, v >> 64)]
            self.pos = 0
        self.pos += 1
        return self.out[self.pos - 1]

    def load(self, st):
        w = [int(v) for v in st['state']['state']]
        self.st = [w[4 * i] | (w[4 * i + 1] << 32) | (w[4 * i + 2] << 64) | (w[4 * i + 3] << 96) for i in range(156)]
        self.out = [int(v) for v in st['buffered_uint64']]
        self.pos = int(st['buffer_loc'])
        return self


class DSFMT:
    """52-bit mantissas; natural word is the IEEE image of a double in [1,2)."""
    W = 64
    RAWBITS = 64
    N = 191

    def __init__(self, key=None, st=None):
        if st is None:
            w = _tiny_init_by_array(key, 192 * 4, _f1, _f2)
            u = [w[2 * i] | (w[2 * i + 1] << 32) for i in range(384)]
            for i in range(382):
                u[i] = (u[i] & 0x000FFFFFFFFFFFFF) | 0x3FF0000000000000
            inner = ((u[382] ^ 0x90014964B32F4329) & 0x3D84E1AC0DC82880) ^ ((u[383] ^ 0x3B8D12AC548A7C7A) & 1)
            if bin(inner).count('1') % 2 == 0:
                u[383] ^= 1
            st = u
        self.u = st
        self.out = []
        self.pos = 0

    def block(self):
        u = self.u
        L0, L1 = u[382], u[383]
        for i in range(191):
            t0, t1 = u[2 * i], u[2 * i + 1]
            b = (i + 117) % 191
            n0 = ((t0 << 19) & M64) ^ (L1 >> 32) ^ ((L1 << 32) & M64) ^ u[2 * b]
            n1 = ((t1 << 19) & M64) ^ (L0 >> 32) ^ ((L0 << 32) & M64) ^ u[2 * b + 1]
            L0, L1 = n0, n1
            u[2 * i] = (L0 >> 12) ^ (L0 & 0x000FFAFFFFFFFB3F) ^ t0
            u[2 * i + 1] = (L1 >> 12) ^ (L1 & 0x000FFDFFFC90FFFD) ^ t1
        u[382], u[383] = L0, L1
        return u

    def nat(self):
        if self.pos >= len(self.out):
            self.block()
            self.out = self.u[:382]
            self.pos = 0
        self.pos += 1
        return self.out[self.pos - 1]

    def next32(self):
        return (self.nat() >> 16) & M32

    def next64(self):
        a = self.next32()
        return (a << 32) | self.next32()

    def double(self):
        return struct.unpack('<d', struct.pack('<Q', self.nat()))[0] - 1.0

    def raw(self):
        return self.nat()

    def load(self, st):
        self.u = [int(v) for v in st['state']['state']]
        self.out = [struct.unpack('<Q', struct.pack('<d', float(v)))[0] for v in st['buffered_uniforms']]
        self.pos = int(st['buffer_loc'])
        return self


# ---------------------------------------------------------------- HC-128
class HC128(Gen32):
    RAW = 64
    DBL = 64
    ORDER = 'lh'

    def __init__(self, key256):
        k = [(key256 >> (32 * i)) & M32 for i in range(8)]

        def rr(x, n):
            return ((x >> n) | (x << (32 - n))) & M32
        W = [0] * 1280
        for i in range(16):
            W[i] = k[i % 4] if i < 8 else k[4 + i % 4]
        for i in range(16, 1280):
            a, b = W[i - 2], W[i - 15]
            f2 = rr(a, 17) ^ rr(a, 19) ^ (a >> 10)
            f1 = rr(b, 7) ^ rr(b, 18) ^ (b >> 3)
            W[i] = (f2 + W[i - 7] + f1 + W[i - 16] + i) & M32
        self.P = W[256:768]
        self.Q = W[768:1280]
        self.i = 0
        self.rr = rr
        for i in range(1024):
            v = self.nat()
            if i < 512:
                self.P[i] = v
            else:
                self.Q[i - 512] = v

    def nat(self):
        rr = self.rr
        i = self.i
        self.i = (i + 1) & 1023
        if i < 512:
            P, Q = self.P, self.Q
            P[i] = (P[i] + (rr(P[(i - 3) & 511], 10) ^ rr(P[(i - 511) & 511], 23)) + rr(P[(i - 10) & 511], 8)) & M32
            x = P[(i - 12) & 511]
            return (((Q[x & 255] + Q[256 + ((x >> 16) & 255)]) & M32) ^ P[i])
        P, Q = self.P, self.Q
        j = i - 512
        rl = rotl32
        Q[j] = (Q[j] + (rl(Q[(j - 3) & 511], 10) ^ rl(Q[(j - 511) & 511], 23)) + rl(Q[(j - 10) & 511], 8)) & M32
        x = Q[(j - 12) & 511]
        return (((P[x & 255] + P[256 + ((x >> 16) & 255)]) & M32) ^ Q[j])


# ---------------------------------------------------------------- ChaCha
class ChaCha(Gen32):
    RAW = 64
    DBL = 64
    ORDER = 'lh'

    def __init__(self, key256, ctr=0, rounds=20):
        self.k = [(key256 >> (32 * i)) & M32 for i in range(8)]
        self.ctr = ctr & M128
        self.rounds = rounds
        self.cache = (None, None)

    def blk(self, n):
        if self.cache[0] == n:
            return self.cache[1]
        s = [0x61707865, 0x3320646E, 0x79622D32, 0x6B206574] + self.k + [(n >> (32 * i)) & M32 for i in range(4)]
        x = list(s)

        def qr(a, b, c, d):
            x[a] = (x[a] + x[b]) & M32
            x[d] = rotl32(x[d] ^ x[a], 16)
            x[c] = (x[c] + x[d]) & M32
            x[b] = rotl32(x[b] ^ x[c], 12)
            x[a] = (x[a] + x[b]) & M32
            x[d] = rotl32(x[d] ^ x[a], 8)
            x[c] = (x[c] + x[d]) & M32
            x[b] = rotl32(x[b] ^ x[c], 7)
        for _ in range(0, self.rounds, 2):
            qr(0, 4, 8, 12)
            qr(1, 5, 9, 13)
            qr(2, 6, 10, 14)
            qr(3, 7, 11, 15)
            qr(0, 5, 10, 15)
            qr(1, 6, 11, 12)
            qr(2, 7, 8, 13)
            qr(3, 4, 9, 14)
        o = [(a + b) & M32 for a, b in zip(x, s)]
        self.cache = (n, o)
        return o

    def nat(self):
        v = self.blk(self.ctr >> 4)[self.ctr & 15]
        self.ctr = (self.ctr + 1) & M128
        return v


# ---------------------------------------------------------------- Squares
class Squares64(Gen64):
    def __init__(self, key, ctr=0):
        self.key, self.ctr = key, ctr

    def core(self):
        x = y = (self.ctr * self.key) & M64
        z = (y + self.key) & M64
        self.ctr = (self.ctr + 1) & M64
        for add in (y, z, y):
            x = (x * x + add) & M64
            x = rotl64(x, 32)
        return x, y, z

    def nat(self):
        x, y, z = self.core()
        t = x = (x * x + z) & M64
        x = rotl64(x, 32)
        return t ^ (((x * x + y) & M64) >> 32)

    def load(self, st):
        self.key, self.ctr = int(st['state']['key']), int(st['state']['counter'])
        return self


class Squares32(Gen32):
    RAW = 64
    ORDER = 'lh'
    __init__ = Squares64.__init__
    core = Squares64.core
    load = Squares64.load

    def nat(self):
        x, y, z = self.core()
        return ((x * x + z) & M64) >> 32


# ---------------------------------------------------------------- AES counter
def _aes_tables():
    p = q = 1
    sbox = [0] * 256
    while True:
        p = p ^ ((p << 1) & 0xFF) ^ (0x1B if p & 0x80 else 0)
        q ^= (q << 1) & 0xFF
        q ^= (q << 2) & 0xFF
        q ^= (q << 4) & 0xFF
        if q & 0x80:
            q ^= 0x09
        x = q
        for s in (1, 2, 3, 4):
            x ^= ((q << s) | (q >> (8 - s))) & 0xFF
        sbox[p] = x ^ 0x63
        if p == 1:
            break
    sbox[0] = 0x63
    return sbox


SBOX = _aes_tables()
X2 = [((b << 1) ^ (0x1B if b & 0x80 else 0)) & 0xFF for b in range(256)]


class AES128:
    def __init__(self, key16):
        w = [list(key16[4 * i:4 * i + 4]) for i in range(4)]
        rc = 1
        for i in range(4, 44):
            t = list(w[i - 1])
            if i % 4 == 0:
                t = [SBOX[b] for b in t[1:] + t[:1]]
                t[0] ^= rc
                rc = X2[rc]
            w.append([a ^ b for a, b in zip(w[i - 4], t)])
        self.rk = [sum(w[4 * r:4 * r + 4], []) for r in range(11)]

    def enc(self, blk):
        rk = self.rk
        s = [a ^ b for a, b in zip(blk, rk[0])]
        for r in range(1, 11):
            s = [SBOX[b] for b in s]
            s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
            if r < 10:
                o = []
                for c in range(4):
                    a, b, d, e = s[4 * c:4 * c + 4]
                    t = a ^ b ^ d ^ e
                    o += [a ^ t ^ X2[a ^ b], b ^ t ^ X2[b ^ d], d ^ t ^ X2[d ^ e], e ^ t ^ X2[e ^ a]]
                s = o
            s = [a ^ b for a, b in zip(s, rk[r])]
        return bytes(s)


class AESCounter(Gen64):
    def __init__(self, key128, ctr=0):
        self.aes = AES128(key128.to_bytes(16, 'little'))
        self.ctr = ctr & M128
        self.q = []

    def nat(self):
        if not self.q:
            b = self.aes.enc(self.ctr.to_bytes(16, 'little'))
            self.ctr = (self.ctr + 1) & M128
            self.q = [int.from_bytes(b[:8], 'little'), int.from_bytes(b[8:], 'little')]
        return self.q.pop(0)

    def skip(self, n):
        """skip n words from a block boundary"""
        self.ctr = (self.ctr + n // 2) & M128
        if n % 2:
            self.nat()


# ---------------------------------------------------------------- SPECK 128/256
class SPECK128(Gen64):
    def __init__(self, key256, ctr=0, rounds=34):
        A, B, C, D = [(key256 >> (64 * i)) & M64 for i in range(4)]
        L = [B, C, D]
        self.rk = [A]
        for i in range(33):
            x, y = self.er(L[i], self.rk[i], i)
            L.append(x)
            self.rk.append(y)
        self.ctr = ctr & M128
        self.rounds = rounds
        self.q = []

    @staticmethod
    def er(x, y, k):
        x = ((rotl64(x, 56) + y) & M64) ^ k
        y = rotl64(y, 3) ^ x
        return x, y

    def nat(self):
        if not self.q:
            y, x = self.ctr & M64, self.ctr >> 64
            self.ctr = (self.ctr + 1) & M128
            for i in range(self.rounds):
                x, y = self.er(x, y, self.rk[i])
            self.q = [y, x]
        return self.q.pop(0)

    skip = AESCounter.skip


# ---------------------------------------------------------------- PCG
class PCG32(Gen32):
    MUL = 6364136223846793005

    def __init__(self, initstate=0, initseq=0):
        self.inc = ((initseq << 1) | 1) & M64
        self.state = (((self.inc + initstate) & M64) * self.MUL + self.inc) & M64

    def nat(self):
        old = self.state
        self.state = (old * self.MUL + self.inc) & M64
        x = (((old >> 18) ^ old) >> 27) & M32
        r = old >> 59
        return ((x >> r) | (x << ((-r) & 31))) & M32

    def load(self, st):
        self.state, self.inc = int(st['state']['state']), int(st['state']['inc'])
        return self


PCG_MULT = 47026247687942121848144207491837523525
PCG_CHEAP = 0xDA942042E4DD58B5


def out_xsl_rr(s, _m=None):
    hi, lo = s >> 64, s & M64
    x = hi ^ lo
    r = hi >> 58
    return ((x >> r) | (x << ((-r) & 63))) & M64


def out_dxsm(s, m=PCG_CHEAP):
    hi, lo = s >> 64, (s & M64) | 1
    hi ^= hi >> 32
    hi = (hi * m) & M64
    hi ^= hi >> 48
    return (hi * lo) & M64


def out_murmur(s, _m=None):
    return _murmur(s >> 64)


def out_upper(s, _m=None):
    return s >> 64


def out_lower(s, _m=None):
    return s & M64


OUTPUTS = {'xsl-rr': out_xsl_rr, 'dxsm': out_dxsm, 'murmur3': out_murmur, 'upper': out_upper, 'lower': out_lower}


class LCG128(Gen64):
    """state -> mult*state + inc; output of the state before (post=False) or after the step."""

    def __init__(self, initstate, initseq, mult=PCG_MULT, out=out_xsl_rr, post=True, dxsm=PCG_CHEAP):
        self.mult, self.out, self.post, self.dxsm = mult, out, post, dxsm
        self.inc = ((initseq << 1) | 1) & M128
        self.state = 0
        self.step()
        self.state = (self.state + initstate) & M128
        self.step()

    def step(self):
        self.state = (self.state * self.mult + self.inc) & M128

    def nat(self):
        if self.post:
            self.step()
            return self.out(self.state, self.dxsm)
        s = self.state
        self.step()
        return self.out(s, self.dxsm)

    def skip(self, n):
        # a^n x + c (a^n-1)/(a-1)
        A, C, a, c = 1, 0, self.mult, self.inc
        n %= 1 << 128
        while n:
            if n & 1:
                A, C = (A * a) & M128, (C * a + c) & M128
            c = (c * (a + 1)) & M128
            a = (a * a) & M128
            n >>= 1
        self.state = (A * self.state + C) & M128


def lcg_skip(state, mult, inc, n, bits):
    mask = (1 << bits) - 1
    A, C, a, c = 1, 0, mult, inc
    n &= mask
    while n:
        if n & 1:
            A, C = (A * a) & mask, (C * a + c) & mask
        c = (c * (a + 1)) & mask
        a = (a * a) & mask
        n >>= 1
    return (A * state + C) & mask


# ---------------------------------------------------------------- Random123
PHILOX_C = {
    (2, 32): ((0xD256D193,), (0x9E3779B9,)),
    (4, 32): ((0xD2511F53, 0xCD9E8D57), (0x9E3779B9, 0xBB67AE85)),
    (2, 64): ((0xD2B74407B1CE6E93,), (0x9E3779B97F4A7C15,)),
    (4, 64): ((0xD2E7470EE14C6C93, 0xCA5A826395121157), (0x9E3779B97F4A7C15, 0xBB67AE8584CAA73B)),
}


def philox_block(ctr, key, w, rounds=10):
    n = len(ctr)
    mul, bump = PHILOX_C[(n, w)]
    mask = (1 << w) - 1
    c, k = list(ctr), list(key)
    for r in range(rounds):
        if r:
            k = [(a + b) & mask for a, b in zip(k, bump)]
        if n == 2:
            p = mul[0] * c[0]
            c = [(p >> w) ^ k[0] ^ c[1], p & mask]
        else:
            p0 = mul[0] * c[0]
            p1 = mul[1] * c[2]
            c = [(p1 >> w) ^ c[1] ^ k[0], p1 & mask, (p0 >> w) ^ c[3] ^ k[1], p0 & mask]
    return c


TF_ROT = {
    (2, 32): [(13,), (15,), (26,), (6,), (17,), (29,), (16,), (24,)],
    (2, 64): [(16,), (42,), (12,), (31,), (16,), (32,), (24,), (21,)],
    (4, 32): [(10, 26), (11, 21), (13, 27), (23, 5), (6, 20), (17, 11), (25, 10), (18, 20)],
    (4, 64): [(14, 16), (52, 57), (23, 40), (5, 37), (25, 33), (46, 12), (58, 22), (32, 32)],
}


def threefry_block(ctr, key, w, rounds=20):
    n = len(ctr)
    mask = (1 << w) - 1
    par = 0x1BD11BDAA9FC1A22 if w == 64 else 0x1BD11BDA
    ks = list(key)
    for k in key:
        par ^= k
    ks.append(par)

    def rot(x, r):
        return ((x << r) | (x >> (w - r))) & mask
    x = [(a + b) & mask for a, b in zip(ctr, key)]
    for r in range(rounds):
        R = TF_ROT[(n, w)][r % 8]
        if n == 2:
            x[0] = (x[0] + x[1]) & mask
            x[1] = rot(x[1], R[0]) ^ x[0]
        else:
            a, b = (1, 3) if r % 2 == 0 else (3, 1)
            x[0] = (x[0] + x[a]) & mask
            x[a] = rot(x[a], R[0]) ^ x[0]
            x[2] = (x[2] + x[b]) & mask
            x[b] = rot(x[b], R[1]) ^ x[2]
        if r % 4 == 3:
            s = r // 4 + 1
            for i in range(n):
                x[i] = (x[i] + ks[(s + i) % (n + 1)]) & mask
            x[n - 1] = (x[n - 1] + s) & mask
    return x


def _mk_r123(block):
    def mk(base, w):
        class R123(base):
            def __init__(self, key, n, ctr=0):
                """key: int (little-endian words)"""
                self.n, self.w = n, w
                mask = (1 << w) - 1
                nk = n // 2 if block is philox_block else n
                self.key = [(key >> (w * i)) & mask for i in range(nk)]
                self.mod = 1 << (n * w)
                self.ctr = ctr % self.mod
                self.q = []

            def words_of(self, c):
                return [(c >> (self.w * i)) & ((1 << self.w) - 1) for i in range(self.n)]

            def nat(self):
                if not self.q:
                    self.ctr = (self.ctr + 1) % self.mod
                    self.q = block(self.words_of(self.ctr), self.key, self.w)
                return self.q.pop(0)

            def skip(self, d):
                """skip d natural words (may be negative)"""
                pos = self.ctr * self.n + (self.n - len(self.q) if self.q else self.n) + d
                # pos = number of words since counter 0's block start; block b covers [b*n, (b+1)*n)
                blk, off = divmod(pos, self.n)
                self.q = []
                if off == 0:
                    self.ctr = (blk - 1) % self.mod
                else:
                    self.ctr = blk % self.mod
                    self.q = block(self.words_of(self.ctr), self.key, self.w)[off:]
                return self
        return R123
    a, b = mk(Gen64, 64), mk(Gen32, 32)
    return {64: a, 32: b}


PHILOX = _mk_r123(philox_block)
THREEFRY = _mk_r123(threefry_block)
