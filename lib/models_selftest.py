"""Anchors the models themselves to published test vectors (independent of randomgen)."""
import models as m


def run(t):
    aes = m.AES128(bytes(range(16)))
    t.check(aes.enc(bytes.fromhex('00112233445566778899aabbccddeeff')).hex() == '69c4e0d86a7b0430d8cdb78070b4c55a',
            'model:aes', 'FIPS-197', sig=('fips197',))
    key = int.from_bytes(bytes(range(32)), 'little')
    s = m.SPECK128(key, 0x65736F6874206E49 << 64 | 0x202E72656E6F6F70)
    y, x = s.nat(), s.nat()
    t.check((x, y) == (0x4109010405C0F53E, 0x4EEEB48D9C188F43), 'model:speck', 'Speck128/256 vector', sig=('speck',))
    c = m.ChaCha(0, 0, 20)
    t.check([c.nat() for _ in range(2)] == [0xADE0B876, 0x903DF1A0], 'model:chacha', 'ChaCha20 zero key', sig=('chacha',))
    h = m.HC128(0)
    t.check([h.nat() for _ in range(2)] == [0x73150082, 0x3BFD03A0], 'model:hc128', 'HC-128 zero vector', sig=('hc',))
    t.check(m.philox_block([0] * 4, [0] * 2, 32) == [0x6627E8D5, 0xE169C58D, 0xBC57AC4C, 0x9B00DBD8], 'model:philox4x32', '', sig=('p32',))
    t.check(m.philox_block([0] * 4, [0] * 2, 64)[0] == 0x16554D9ECA36314C, 'model:philox4x64', '', sig=('p64',))
    t.check(m.philox_block([0, 0], [0], 32) == [0xFF1DAE59, 0x6CD10DF2], 'model:philox2x32', '', sig=('p2',))
    t.check(m.threefry_block([0, 0], [0, 0], 32) == [0x6B200159, 0x99BA4EFE], 'model:threefry2x32', '', sig=('t2',))
    t.check(m.threefry_block([0] * 4, [0] * 4, 64)[0] == 0x09218EBDE6C85537, 'model:threefry4x64', '', sig=('t4',))
    mt = m.MT19937([0x123, 0x234, 0x345, 0x456])
    t.check([mt.nat() for _ in range(2)] == [1067595299, 955945823], 'model:mt19937', '', sig=('mt',))
    mt = m.MT64([0x12345, 0x23456, 0x34567, 0x45678])
    t.check([mt.nat() for _ in range(2)] == [7266447313870364031, 4946485549665804864], 'model:mt64', '', sig=('mt64',))
    p = m.PCG32(42, 54)
    t.check([p.nat() for _ in range(3)] == [0xA15C02B7, 0x7B47F409, 0xBA1D3330], 'model:pcg32', '', sig=('pcg32',))
    s = m.SFMT([0x1234, 0x5678, 0x9ABC, 0xDEF0])
    v = s.nat()
    t.check((v & m.M32, v >> 32) == (2920711183, 3885745737), 'model:sfmt', hex(v), sig=('sfmt',))
    t.note('FIPS-197, Speck128/256, ChaCha20, HC-128, Random123 KAT, MT19937, MT64, PCG32, SFMT vectors')
