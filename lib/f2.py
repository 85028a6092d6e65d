"""F2-linear algebra on Python integers: minimal polynomials and jump polynomials."""
import json
import os

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data')


def bm(bits):
    """Berlekamp-Massey over GF(2); returns the minimal polynomial as an int
    (bit i = coefficient of x^i) of the recurrence sum_i c_i s[n+i] = 0."""
    C, B, L, m = 1, 1, 0, 1
    rev = 0          # s[n], s[n-1], ... as bits 0,1,...
    for n, s in enumerate(bits):
        rev = (rev << 1) | s
        d = (C & rev).bit_count() & 1
        if d:
            T = C
            C ^= B << m
            if 2 * L <= n:
                L, B, m = n + 1 - L, T, 0
        m += 1
        # keep rev short
        if rev.bit_length() > 2 * L + 64:
            rev &= (1 << (2 * L + 64)) - 1
    # connection polynomial -> characteristic polynomial (reverse)
    return int(format(C, 'b').zfill(L + 1)[::-1], 2) if L else 1


_SQ = [sum(((b >> i) & 1) << (2 * i) for i in range(8)) for b in range(256)]


def square(p):
    by = p.to_bytes((p.bit_length() + 7) // 8 or 1, 'little')
    return int.from_bytes(b''.join(_SQ[b].to_bytes(2, 'little') for b in by), 'little')


def mod(p, phi):
    n = phi.bit_length()
    # table of phi multiples by 8-bit heads, aligned
    d = p.bit_length() - n
    while d >= 0:
        p ^= phi << d
        d = p.bit_length() - n
    return p


def x_pow_pow2(k, phi):
    """x^(2^k) mod phi"""
    p = mod(2, phi)
    for _ in range(k):
        p = mod(square(p), phi)
    return p


def mul(a, b):
    r = 0
    i = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        b >>= 1
    return r


def powmod(base, e, phi):
    r = 1
    while e:
        if e & 1:
            r = mod(mul(r, base), phi)
        base = mod(square(base), phi)
        e >>= 1
    return r


def divmod2(a, b):
    q, n = 0, b.bit_length()
    d = a.bit_length() - n
    while d >= 0:
        q |= 1 << d
        a ^= b << d
        d = a.bit_length() - n
    return q, a


def gcd(a, b):
    while b:
        a, b = b, mod(a, b)
    return a


def lcm(a, b):
    return divmod2(mul(a, b), gcd(a, b))[0]


def load(name):
    with open(os.path.join(DATA, name + '.json')) as f:
        d = json.load(f)
    return {k: int(v, 16) for k, v in d.items()}


def save(name, d):
    os.makedirs(DATA, exist_ok=True)
    with open(os.path.join(DATA, name + '.json'), 'w') as f:
        json.dump({k: hex(v) for k, v in d.items()}, f)
