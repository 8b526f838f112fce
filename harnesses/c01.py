"""C01 ML-KEM coefficient codecs."""

from symex.harness import harness

ASSUMPTIONS = ["inputs are lists of 256 ints in the stated range or byte strings of the stated length"]
OUTSIDE = ["polynomials of other lengths"]
FIPS = ("pq_logic.fips.fips203",)
Q = 3329
DS = {f"d{d}": {"d": d} for d in (1, 4, 5, 10, 11, 12)}


def kem(h):
    return h.module("pq_logic.fips.fips203").ML_KEM("ml-kem-768")


@harness("C01", FIPS, DS, bound="all 256 coefficients symbolic in [0, 2^d) (d=12: [0, q))")
def encode_decode(h, d):
    k = kem(h)
    m = Q if d == 12 else 1 << d
    f = [h.int(f"f{i}", 0, m - 1) for i in range(256)]
    b = bytes_(h, k.byte_encode(d, f))
    h.check(len(b) == 32 * d, "encoded length is 32 d")
    g = k.byte_decode(d, b)
    h.check(len(g) == 256, "256 coefficients are decoded")
    for i in range(256):
        h.check(h.eq(f[i], g[i]), "decode(encode(f)) == f")
    # bit i*d+j of the encoding is bit j of coefficient i
    for i in (0, 1, 2, 3, 127, 254, 255):
        for j in range(d):
            p = i * d + j
            h.check(h.eq((b[p // 8] >> (p % 8)) & 1, (f[i] >> j) & 1), "bit order of the encoding")


def bytes_(h, b):
    return b


@harness("C01", FIPS, DS, bound="all 32 d bytes symbolic")
def decode_encode(h, d):
    k = kem(h)
    b = h.bytes("b", 32 * d)
    f = k.byte_decode(d, b)
    m = Q if d == 12 else 1 << d
    for x in f:
        h.check(h.both(x >= 0, x < m), "decoded coefficients are reduced")
    c = k.byte_encode(d, f)
    if d < 12:
        h.check(h.eq(c, b), "encode(decode(b)) == b")
    else:
        for i in range(128):
            v0 = b[3 * i] + 256 * (b[3 * i + 1] % 16)
            v1 = (b[3 * i + 1] // 16) + 16 * b[3 * i + 2]
            h.check(h.implies(h.both(v0 < Q, v1 < Q), h.eq(c[3 * i : 3 * i + 3], b[3 * i : 3 * i + 3])), "canonical 12-bit values survive")


@harness("C01", FIPS, {f"d{d}": {"d": d} for d in (1, 4, 5, 10, 11)}, bound="one coefficient, every value")
def compress(h, d):
    k = kem(h)
    x = h.int("x", 0, Q - 1)
    y = h.int("y", 0, (1 << d) - 1)
    cy = k.decompress(d, [y])[0]
    h.check(h.both(cy >= 0, cy < Q), "decompressed value is reduced")
    h.check(h.eq(k.compress(d, [cy])[0], y), "compress(decompress(y)) == y")
    c = k.compress(d, [x])[0]
    h.check(h.both(c >= 0, c < (1 << d)), "compressed value has d bits")
    # nearest integer to 2^d x / q, and to q y / 2^d (halves up)
    t = 2 * (Q * c - (x << d))
    u = t + 2 * Q * (1 << d)
    h.check(h.either(h.both(t > -Q, t < Q), h.both(u > -Q, u < Q)), "compress rounds to the nearest value")
    t = 2 * ((cy << d) - Q * y)
    h.check(h.both(t > -(1 << d), t <= (1 << d)), "decompress rounds to the nearest value, halves up")
