"""C02 ML-KEM ring arithmetic and sampling."""

from harnesses.stubs import hash_model
from symex.harness import harness

ASSUMPTIONS = ["the XOF output stream of SampleNTT is an arbitrary byte stream (symbolic prefix, fixed continuation)"]
OUTSIDE = ["SampleNTT streams with more than 4 symbolic candidates", "encryption with other keys than the fixed one"]
FIPS = ("pq_logic.fips.fips203", "pq_logic.fips._fips_utils")
Q = 3329


def kem(h, p="ml-kem-768"):
    return h.module("pq_logic.fips.fips203").ML_KEM(p)


@harness("C02", FIPS, bound="all 256 coefficients, every residue")
def ntt_round_trip(h):
    k = kem(h)
    f = h.modvec("f", 256, Q)
    g = k.ntt_inverse(k.ntt(f))
    for i in range(256):
        h.check(h.eq(g[i], f[i]), "ntt_inverse(ntt(f)) == f")
    g = k.ntt(k.ntt_inverse(f))
    for i in range(256):
        h.check(h.eq(g[i], f[i]), "ntt(ntt_inverse(f)) == f")


@harness("C02", FIPS, bound="two polynomials, all 512 coefficients, every residue")
def ring_product(h):
    k = kem(h)
    f, g = h.modvec("f", 256, Q), h.modvec("g", 256, Q)
    p = k.ntt_inverse(k.multiply_ntts(k.ntt(f), k.ntt(g)))
    for t in (0, 1, 2, 3, 127, 128, 254, 255):
        r = 0
        for i in range(256):
            j = (t - i) % 256
            r = r + (f[i] * g[j] if i <= t else -(f[i] * g[j]))
        h.check(h.eq(p[t], r % Q), "product in the NTT domain is the product modulo X^256 + 1")


@harness("C02", FIPS, bound="all coefficients, every residue")
def add_sub(h):
    k = kem(h)
    f, g = h.modvec("f", 256, Q), h.modvec("g", 256, Q)
    a, s = k.poly_add(f, g), k.poly_sub(f, g)
    for i in range(256):
        h.check(h.both(h.eq(a[i], (f[i] + g[i]) % Q), h.eq(s[i], (f[i] - g[i]) % Q)), "polynomial sum and difference")


@harness("C02", FIPS, {"eta2": {"eta": 2}, "eta3": {"eta": 3}}, bound="all 64 eta bytes symbolic")
def cbd(h, eta):
    k = kem(h)
    b = h.bytes("b", 64 * eta)
    f = k.sample_poly_cbd(eta, b)
    h.check(len(f) == 256, "256 coefficients")

    def bit(n):
        return (b[n // 8] >> (n % 8)) & 1

    for i in range(256):
        x, y = 0, 0
        for j in range(eta):
            x = x + bit(2 * i * eta + j)
            y = y + bit(2 * i * eta + eta + j)
        h.check(h.eq(f[i], (x - y) % Q), "centred binomial sample")


@harness("C02", FIPS, {"first": {"at": 0}, "last": {"at": 126 * 3}, "after_rejections": {"at": 0, "rejected": 500}}, bound="6 symbolic stream bytes (4 candidates), others fixed; up to 1000 leading candidates rejected")
def sample_ntt(h, at, rejected=0):
    k = kem(h)
    sym = h.bytes("s", 6)
    const = [(7 * i + 3) % 251 for i in range(1200)]
    for i in range(1, 1200, 3):
        const[i] = (5 * i) % 128 & 0x77
        const[i + 1] = const[i + 1] % 190
    stream = [255] * (3 * rejected) + const[:at] + [sym[i] for i in range(6)] + const[at:]

    def prefix(name, data, n):
        return h.mkbytes(stream[:n])

    hash_model(h, stream=len(stream), prefix=prefix)
    a = k.sample_ntt(b"\x01" * 34)
    want, p = [], 0
    while len(want) < 256:
        c0, c1, c2 = stream[p], stream[p + 1], stream[p + 2]
        d1 = c0 + ((c1 & 15) << 8)
        d2 = (c1 >> 4) + (c2 << 4)
        if d1 < Q:
            want.append(d1)
        if d2 < Q and len(want) < 256:
            want.append(d2)
        p += 3
    h.check(len(a) == 256, "256 coefficients")
    h.check(h.eq(list(a), want), "rejection sampling of 12-bit candidates")
    for x in a:
        h.check(h.both(x >= 0, x < Q), "sampled coefficients are residues")


@harness(
    "C02",
    FIPS,
    {p: {"p": p} for p in ("ml-kem-512", "ml-kem-768", "ml-kem-1024")},
    bound="fixed key and encryption randomness, all 256 message bits symbolic",
)
def decrypt_encrypt(h, p):
    k = kem(h, p)
    ek, dk = k.k_pke_keygen(bytes(range(32)))
    m = h.bytes("m", 32)
    c = k.k_pke_encrypt(ek, m, bytes(range(32, 64)))
    h.check(len(c) == 32 * (k.du * k.k + k.dv), "ciphertext length")
    h.check(h.eq(k.k_pke_decrypt(dk, c), m), "decrypt(encrypt(m)) == m")


@harness("C02", FIPS, {p: {"p": p} for p in ("ml-kem-512", "ml-kem-768", "ml-kem-1024")}, bound="fixed key and vector u, the other ciphertext part (256 coefficients) symbolic")
def decrypt_any(h, p):
    """Every noise value: the decoded bit is the nearer of 0 and q/2."""
    k = kem(h, p)
    ek, dk = k.k_pke_keygen(bytes(range(32)))
    n = 32 * k.du * k.k
    u = bytes((5 * i + i // 7) % 256 for i in range(n))
    # the constant part: -InvNTT(s . NTT(u)) recomputed independently with schoolbook arithmetic
    s = [k.ntt_inverse(k.byte_decode(12, dk[384 * i : 384 * (i + 1)])) for i in range(k.k)]
    w0 = [0] * 256
    for i in range(k.k):
        enc = int.from_bytes(u[32 * k.du * i : 32 * k.du * (i + 1)], "little")
        up = [((Q * ((enc >> (k.du * j)) & ((1 << k.du) - 1))) + (1 << (k.du - 1))) >> k.du for j in range(256)]
        si = [int(x) for x in s[i]]
        for a in range(256):
            if si[a]:
                for b in range(256):
                    w0[(a + b) % 256] += si[a] * up[b] if a + b < 256 else -si[a] * up[b]
    c2 = h.bytes("c2", 32 * k.dv)
    m = k.k_pke_decrypt(dk, h.mkbytes([*u, *[c2[i] for i in range(32 * k.dv)]]))
    h.check(len(m) == 32, "32 byte message")
    for j in range(256):
        code = 0
        for b in range(k.dv):
            pos = k.dv * j + b
            code = code + (((c2[pos // 8] >> (pos % 8)) & 1) << b)
        v = (Q * code + (1 << (k.dv - 1))) >> k.dv
        w = (v - w0[j]) % Q
        bit = (m[j // 8] >> (j % 8)) & 1
        h.check(h.iff(h.eq(bit, 1), h.both(4 * w > Q, 4 * w < 3 * Q)), "the decoded bit is the nearer of 0 and q/2")
