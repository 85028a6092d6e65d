#!/usr/bin/env python3-vt
"""Derive the jump polynomials x^(2^128) mod phi of the Mersenne-Twister family from the
independent models (never from the implementation) and store them under data/."""
import os, sys, time, random
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'lib'))
import f2
import models as m


def derive(name, gen, n, width):
    R = random.Random(name)
    phi = 1
    for trial in range(14):          # small factors are missed by some functionals
        g = gen(R)
        mask = R.getrandbits(width)
        t0 = time.time()
        p = f2.bm([(g() & mask).bit_count() & 1 for _ in range(n)])
        phi = p if phi == 1 else (phi if f2.mod(phi, p) == 0 else f2.lcm(phi, p))
        print(name, 'trial', trial, 'degree', p.bit_length() - 1, phi.bit_length() - 1, round(time.time() - t0, 1), flush=True)
    t0 = time.time()
    g = f2.x_pow_pow2(128, phi)
    print(name, 'jump', round(time.time() - t0, 1), flush=True)
    f2.save(name, {'phi': phi, 'j128': g})


def mt(R):
    x = m.MT19937(mt=[R.getrandbits(32) for _ in range(624)], pos=624)
    return x.nat


def sfmt(R):
    x = m.SFMT(key=[R.getrandbits(32) for _ in range(9)])
    return lambda: x.nat() | x.nat() << 64


def dsfmt(R):
    x = m.DSFMT(key=[R.getrandbits(32) for _ in range(9)])
    bits = lambda: x.nat() & ((1 << 52) - 1)
    return lambda: bits() | bits() << 52


which = sys.argv[1:] or ['MT19937', 'SFMT', 'DSFMT']
if 'MT19937' in which:
    derive('MT19937', mt, 40100, 32)
if 'SFMT' in which:
    derive('SFMT', sfmt, 40300, 128)
if 'DSFMT' in which:
    derive('DSFMT', dsfmt, 40300, 104)
