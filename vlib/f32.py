"""IEEE-754 single precision, exactly: bits <-> Fraction, rounding, and value generators."""
import struct
from fractions import Fraction

INF, NINF, NAN = 0x7f800000, 0xff800000, 0x7fc00000


def is_nan(b):
    return b & 0x7fffffff > INF


def is_inf(b):
    return b & 0x7fffffff == INF


def frac(b):
    """Exact value of finite bits."""
    e, m = b >> 23 & 255, b & 0x7fffff
    v = Fraction(m, 1 << 149) if e == 0 else Fraction(m | 0x800000) * (Fraction(2) ** (e - 150))
    return -v if b >> 31 else v


def to_float(b):
    return struct.unpack("<f", struct.pack("<I", b & 0xffffffff))[0]


def rnd(x, sign=0):
    """Fraction -> bits, round to nearest even. sign: the sign of a zero result."""
    if x == 0:
        return sign << 31
    s = 1 if x < 0 else 0
    x = abs(x)
    n, d = x.numerator, x.denominator
    e = n.bit_length() - d.bit_length()
    if x < Fraction(2) ** e:
        e -= 1
    e = max(e, -126)
    q = x / (Fraction(2) ** (e - 23))
    m = q.numerator // q.denominator
    r = q - m
    if r > Fraction(1, 2) or r == Fraction(1, 2) and m & 1:
        m += 1
    if m >> 24:
        m >>= 1
        e += 1
    if e > 127:
        return s << 31 | INF
    if m >> 23 == 0:
        return s << 31 | m
    return s << 31 | (e + 127) << 23 | (m & 0x7fffff)


def gen(rng):
    r = rng.random()
    if r < 0.3:
        return rng.getrandbits(32)
    if r < 0.45:
        return rng.choice([0, 1, 2, 0x7fffff, 0x800000, 0x800001, 0x3f800000, 0x3f7fffff, 0x3f800001, 0x7f7fffff, INF, NAN, 0x4b000000, 0x4b7fffff, 0x4b800000, 0x4effffff,
                           0x4f000000, 0x4f7fffff, 0x4f800000, 0x3f000000, 0x3effffff, 0x34000000, 0x33800000]) | rng.getrandbits(1) << 31
    if r < 0.6:      # small integers and halves
        return rnd(Fraction(rng.randrange(-4000, 4000), rng.choice([1, 1, 2, 4, 8, 16]))) | (0x80000000 if rng.random() < 0.02 else 0)
    if r < 0.75:     # decimal-looking
        return rnd(Fraction(rng.randrange(-10 ** 7, 10 ** 7)) * Fraction(10) ** rng.randrange(-12, 12))
    if r < 0.88:     # moderate exponents
        return rng.getrandbits(1) << 31 | rng.randrange(100, 155) << 23 | rng.getrandbits(23)
    return rng.getrandbits(1) << 31 | rng.randrange(0, 255) << 23 | rng.choice([0, 1, 0x7fffff, 0x400000, 0x555555, 0x7ffffe])
