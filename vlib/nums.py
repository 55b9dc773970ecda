"""Literals of numbers of all sizes."""
import struct

BIG = ["2147483647", "-2147483647", "2147483648", "-2147483648", "4294967296", "9007199254740991", "9007199254740992", "9007199254740993", "-9007199254740993", "999999999999999999", "1000000007",
       "4611686018427387904", "-4611686018427387904", "4611686018427387903", "3037000499", "3037000500", "-3037000500", "9223372036854775807", "-9223372036854775807", "-9223372036854775808", "9223372036854775806", "123456789012345678",
       "9223372036854774784", "9223372036854774785", "65536", "100000000000000"]
WIDE = ["0.1", "0.2", "0.3", "-0.1", "1e10", "1e21", "1e22", "1e23", "-1e23", "1e100", "-2.5e-100", "1.7976931348623157e308", "2.2250738585072014e-308", "5e-324", "-5e-324", "4.9e-320", "9007199254740992.0", "9007199254740993.0",
        "9223372036854775807.0", "9.223372036854774784e18", "-9.223372036854775808e18", "3.141592653589793", "2.718281828459045", "1e-5", "0.0001", "123456.0", "123456.7", "1234567.0", "999999.5", "0.5e-1", "-0.0", "0.0", "1e15", "1e16", "100000.5",
        "4503599627370496.5", "4503599627370497.5", "2147483648.5", "1.0000000000000002", "0.9999999999999999", "6.02214076e23", "1e6", "8.5e20", "4294967296.25", "2.5e15", "33554431.96875", "0.30000000000000004"]


def flt(x):
    s = repr(x)
    return s if "." in s or "e" in s else s + ".0"


def rnd_int(r):
    k = r.randrange(4)
    if k == 0:
        return r.choice(BIG)
    if k == 1:
        return str(r.choice([1, -1]) * ((1 << r.randrange(28, 63)) + r.choice([-1, 0, 1])))
    return str(max(-(1 << 63), min((1 << 63) - 1, r.choice([1, -1]) * r.randrange(1 << r.choice([8, 16, 31, 33, 48, 54, 62, 63])))))


def rnd_float(r, span=1023):
    """a literal; the exponents are within the span"""
    k = r.randrange(6)
    if k == 0:
        return r.choice(WIDE)
    if k == 1:
        return flt(round(r.uniform(-1000, 1000), r.randrange(1, 8)))
    if k == 2:
        return flt(float(r.randrange(-10 ** 6, 10 ** 6)) * 10.0 ** r.randrange(-12, 13))
    if k == 3:  # half way between
        return flt((2 * r.randrange(1 << 20) + 1) / 2.0 ** r.randrange(1, 30))
    e = r.randrange(max(0, 1023 - span), min(2046, 1023 + span))
    return flt(struct.unpack("<d", struct.pack("<Q", r.randrange(2) << 63 | e << 52 | r.choice([r.getrandbits(52), r.getrandbits(52), 0, (1 << 52) - 1, r.getrandbits(10) << 42])))[0])


def rnd_num(r, span=80):
    return rnd_int(r) if r.random() < .45 else rnd_float(r, span)
