"""C05 ML-DSA arithmetic, rounding, hints and sampling."""

from harnesses.stubs import hash_model
from symex.harness import harness

ASSUMPTIONS = ["XOF output streams are arbitrary bytes (symbolic part, fixed continuation), or the XOF echoes its input (for the derivation of sampler inputs)"]
OUTSIDE = ["sampler streams with more symbolic bytes than stated"]
FIPS = ("pq_logic.fips.fips204", "pq_logic.fips._fips_utils")
Q = 8380417
SETS = {
    "ml-dsa-44": dict(k=4, ell=4, eta=2, gam1=1 << 17, gam2=(Q - 1) // 88, m=44, tau=39, bits=18, lam=128),
    "ml-dsa-65": dict(k=6, ell=5, eta=4, gam1=1 << 19, gam2=(Q - 1) // 32, m=16, tau=49, bits=20, lam=192),
    "ml-dsa-87": dict(k=8, ell=7, eta=2, gam1=1 << 19, gam2=(Q - 1) // 32, m=16, tau=60, bits=20, lam=256),
}
ALL = {p: {"p": p} for p in SETS}
TWO = {p: {"p": p} for p in ("ml-dsa-44", "ml-dsa-65")}


def dsa(h, p="ml-dsa-44"):
    return h.module("pq_logic.fips.fips204").ML_DSA(p)


@harness("C05", FIPS, bound="all 256 coefficients, every residue")
def ntt_round_trip(h):
    d = dsa(h)
    f = h.modvec("f", 256, Q)
    g = d.ntt_inverse(d.ntt(list(f)))
    h.check(h.eq(g, f), "ntt_inverse(ntt(f)) == f")
    g = d.ntt(d.ntt_inverse(list(f)))
    h.check(h.eq(g, f), "ntt(ntt_inverse(f)) == f")


@harness("C05", FIPS, bound="two polynomials, all 512 coefficients, every residue")
def ring_product(h):
    d = dsa(h)
    f, g = h.modvec("f", 256, Q), h.modvec("g", 256, Q)
    p = d.ntt_inverse(d.mul_ntt(d.ntt(list(f)), d.ntt(list(g))))
    for t in (0, 1, 2, 127, 128, 254, 255):
        r = 0
        for i in range(256):
            j = (t - i) % 256
            r = r + (f[i] * g[j] if i <= t else -(f[i] * g[j]))
        h.check(h.eq(p[t], r % Q), "product in the NTT domain is the product modulo X^256 + 1")


@harness("C05", FIPS, ALL, bound="symbolic vectors, a sparse symbolic and otherwise fixed matrix")
def linear(h, p):
    d, s = dsa(h, p), SETS[p]
    f, g = h.modvec("f", 256, Q), h.modvec("g", 256, Q)
    a, b, n = d.add(f, g), d.sub(f, g), d.neg(f)
    for i in range(256):
        h.check(h.both(h.eq(a[i], (f[i] + g[i]) % Q), h.eq(b[i], (f[i] - g[i]) % Q), h.eq(n[i], (-f[i]) % Q)), "sum, difference, negation")
    v = [f, g] + [[(3 * i + j) % Q for i in range(256)] for j in range(s["ell"] - 2)]
    m = [[[(i * i + 7 * r + 31 * c + 1) % Q for i in range(256)] for c in range(s["ell"])] for r in range(s["k"])]
    w = d.matrix_vector_ntt(m, v)
    h.check(len(w) == s["k"], "k rows")
    for r in range(s["k"]):
        for i in (0, 1, 100, 255):
            x = 0
            for c in range(s["ell"]):
                x = x + v[c][i] * m[r][c][i]
            h.check(h.eq(w[r][i], x % Q), "matrix-vector product")


@harness("C05", FIPS, ALL, bound="one coefficient, every residue (and every multiple up to 2q)")
def rounding(h, p):
    d, s = dsa(h, p), SETS[p]
    r = h.int("r", 0, 2 * Q - 1)
    rp = h.ite(r >= Q, r - Q, r)
    hi, lo = d.power2round([[r]])
    hi, lo = hi[0][0], lo[0][0]
    h.check(h.both(lo > -4096, lo <= 4096), "low part of power2round is in (-2^12, 2^12]")
    h.check(h.eq(hi * 8192 + lo, rp), "power2round splits r")
    h.check(h.both(hi >= 0, hi < 1024), "t1 has 10 bits")
    a, m = 2 * s["gam2"], s["m"]
    r1, r0 = d.decompose(r)
    h.check(h.both(r1 >= 0, r1 < m), "high bits in range")
    h.check(h.both(r0 >= -s["gam2"], r0 <= s["gam2"]), "low bits bounded by gamma2")
    h.check(h.either(h.eq(r1 * a + r0, rp), h.eq(r1 * a + r0 + Q, rp)), "decompose splits r modulo q")
    h.check(h.implies(rp == Q - 1, h.both(h.eq(r1, 0), h.eq(r0, -1))), "wrap around at q - 1")
    h.check(h.implies(h.eq(r1 * a + r0 + Q, rp), h.eq(r1, 0)), "wrap around only to zero high bits")
    h.check(h.implies(h.eq(r0, -s["gam2"]), h.eq(r1, 0)), "-gamma2 only after the wrap around")
    hb, lb = d.high_bits([[r]]), d.low_bits([[r]])
    h.check(h.both(h.eq(hb[0][0], r1), h.eq(lb[0][0], r0)), "high_bits and low_bits agree with decompose")


BUCKETS = {
    f"{p}/{a}": {"p": p, "lo": a, "hi": b}
    for p, r in (("ml-dsa-44", ((0, 3), (20, 22), (42, 45))), ("ml-dsa-65", ((0, 3), (14, 17))))
    for a, b in r
}
BUCKETS.update({
    f"{p}/all{a}": {"p": p, "lo": a, "hi": min(a + 6, m + 1), "_tiers": ("thorough",)}
    for p, m in (("ml-dsa-44", 44), ("ml-dsa-65", 16))
    for a in range(0, m + 1, 6)
})


@harness("C05", FIPS, BUCKETS, bound="one coefficient, every residue r in the stated buckets of its high part (quick: first, middle and last; thorough: all) and every |z| <= gamma2", budget={"quick": 90})
def hints(h, p, lo, hi):
    d, s = dsa(h, p), SETS[p]
    g = s["gam2"]
    base = h.choice("bucket", range(lo, hi)) * 2 * g
    r = base if base == Q - 1 else base + h.int("off", 0, 2 * g - 1)
    z = h.int("z", -g, g)
    zz = h.ite(z < 0, z + Q, z)
    hint = d.make_hint([[zz]], [[r]])[0][0]
    w = h.ite(r + z < 0, r + z + Q, h.ite(r + z >= Q, r + z - Q, r + z))
    want = d.high_bits([[w]])[0][0]
    got = d.use_hint([hint] + [0] * 255, [r] + [0] * 255)
    h.check(h.eq(got[0], want), "use_hint(make_hint(z, r), r) == high_bits(r + z)")
    h.check(h.iff(h.eq(hint, 0), h.eq(want, d.high_bits([[r]])[0][0])), "hint set iff the high bits change")
    h.check(h.eq(d.use_hint([0] * 256, [r] + [0] * 255)[0], d.high_bits([[r]])[0][0]), "no hint: high bits unchanged")
    nxt = d.use_hint([1] + [0] * 255, [r] + [0] * 255)[0]
    r1, r0 = d.decompose(r)
    h.check(h.eq(nxt, h.ite(r0 > 0, h.ite(h.eq(r1, s["m"] - 1), 0, r1 + 1), h.ite(h.eq(r1, 0), s["m"] - 1, r1 - 1))), "a set hint moves to the neighbour")


@harness("C05", FIPS, bound="2 symbolic residues in a vector of polynomials, with every combination of signs")
def norm(h):
    d = dsa(h)
    v = []
    for i in range(2):
        x = h.int(f"v{i}", 0, (Q - 1) // 2)
        v.append(Q - 1 - x if h.choice(f"neg{i}", (False, True)) else x)
    v.append(77)
    c = [h.ite(x > (Q - 1) // 2, Q - x, x) for x in v]
    n = d.inf_norm([[v[0], 3, v[1]], [v[2], 5, 0]])
    for x in c:
        h.check(n >= x, "norm bounds every coefficient")
    h.check(n >= 5, "norm bounds every coefficient")
    h.check(h.either(h.eq(n, 5), *[h.eq(n, x) for x in c]), "norm is attained")
    w = d.weight([[v[0] % 2, 0, v[1] % 2], [1, v[2] % 2, 0]])
    h.check(h.eq(w, v[0] % 2 + v[1] % 2 + v[2] % 2 + 1), "hint weight")


@harness("C05", FIPS, {"eta2": {"p": "ml-dsa-44"}, "eta4": {"p": "ml-dsa-65"}}, bound="all bytes")
def coefficients(h, p):
    d, s = dsa(h, p), SETS[p]
    b = h.bytes("b", 3)
    z = d.coeff_from_three_bytes(b[0], b[1], b[2])
    x = b[0] + 256 * b[1] + 65536 * (b[2] & 127)
    h.check(h.iff(x < Q, z is not None), "candidates below q are accepted")
    if z is not None:
        h.check(h.eq(z, x), "23-bit little-endian candidate")
    n = h.int("n", 0, 15)
    c = d.coeff_from_half_byte(n)
    h.check(h.iff(n < (15 if s["eta"] == 2 else 9), c is not None), "half bytes accepted")
    if c is not None:
        h.check(h.eq(c, 2 - n % 5 if s["eta"] == 2 else 4 - n), "coefficient of a half byte")


@harness("C05", FIPS, {"first": {"at": 0}, "last": {"at": 254 * 3}}, bound="6 symbolic stream bytes, others fixed")
def rej_ntt(h, at):
    d = dsa(h)
    sym = h.bytes("s", 6)
    const = [(11 * i + 5) % 251 for i in range(1200)]
    for i in range(2, 1200, 3):
        const[i] = const[i] % 120
    stream = const[:at] + [sym[i] for i in range(6)] + const[at:]
    hash_model(h, prefix=lambda name, data, n: h.mkbytes(stream[:n]))
    a = d.rej_ntt_poly(b"\x01" * 34)
    want, p = [], 0
    while len(want) < 256:
        x = stream[p] + 256 * stream[p + 1] + 65536 * (stream[p + 2] & 127)
        if x < Q:
            want.append(x)
        p += 3
    h.check(len(a) == 256, "256 coefficients")
    h.check(h.eq(list(a), want), "rejection sampling of 23-bit candidates")


@harness(
    "C05",
    FIPS,
    {f"{e}/{n}": {"p": p, "at": at} for e, p in (("eta2", "ml-dsa-44"), ("eta4", "ml-dsa-65")) for n, at in (("first", 0), ("last", 126))},
    bound="2 symbolic stream bytes, others fixed",
)
def rej_bounded(h, p, at):
    d, s = dsa(h, p), SETS[p]
    sym = h.bytes("s", 2)
    const = [(i * 37) % 256 & 0x77 for i in range(400)]
    stream = const[:at] + [sym[0], sym[1]] + const[at:]
    hash_model(h, prefix=lambda name, data, n: h.mkbytes(stream[:n]))
    a = d.rej_bounded_poly(b"\x01" * 66)
    want, i = [], 0
    lim = 15 if s["eta"] == 2 else 9
    while len(want) < 256:
        for n in (stream[i] & 15, stream[i] >> 4):
            if n < lim and len(want) < 256:
                want.append(2 - n % 5 if s["eta"] == 2 else 4 - n)
        i += 1
    h.check(len(a) == 256, "256 coefficients")
    h.check(h.eq(list(a), want), "rejection sampling of half bytes")


@harness("C05", FIPS, ALL, bound="symbolic sign bytes, two symbolic positions among the last tau, others fixed")
def sample_in_ball(h, p):
    d, s = dsa(h, p), SETS[p]
    tau = s["tau"]
    signs = h.bytes("g", 8)
    j0, j1 = h.int("j0", 0, 255), h.int("j1", 244, 251)
    pos = [(i * 29 + 3) % 200 for i in range(300)]
    at = tau - 9
    pos = pos[:at] + [j0, j1] + pos[at:]
    stream = [signs[i] for i in range(8)] + pos
    hash_model(h, prefix=lambda name, data, n: h.mkbytes(stream[:n]))
    c = d.sample_in_ball(b"\x05" * (s["lam"] // 4))
    want, k = [0] * 256, 0
    for i in range(256 - tau, 256):
        while pos[k] > i:
            k += 1
        j = pos[k]
        k += 1
        b = i + tau - 256
        sg = 1 - 2 * ((signs[b // 8] >> (b % 8)) & 1)
        if type(j) is int:
            want[i] = want[j]
            want[j] = sg
        else:
            for m in range(i):
                want[i] = h.ite(h.eq(j, m), want[m], want[i])
            for m in range(i + 1):
                want[m] = h.ite(h.eq(j, m), sg, want[m])
    h.check(h.eq(list(c), want), "challenge polynomial")


@harness("C05", FIPS, ALL, bound="every seed; the XOF echoes its input, so the sampler input is visible in the output")
def expansion(h, p):
    d, s = dsa(h, p), SETS[p]
    rho = h.bytes("rho", 32)

    def echo(name, data, n):
        n = min(n, 900)
        out = []
        for x in list(data)[:68]:
            out += [x, 0, 0] if name == "shake128" else [x & 7, x >> 3 & 7, x >> 6]
        return h.mkbytes((out + [1] * n)[:n])

    hash_model(h, prefix=echo)
    a = d.expand_a(rho)
    h.check(len(a) == s["k"], "k rows")
    for r in range(s["k"]):
        h.check(len(a[r]) == s["ell"], "l columns")
        for c in range(s["ell"]):
            v = a[r][c]
            h.check(h.both(*[h.eq(v[i], rho[i]) for i in range(32)], h.eq(v[32], c), h.eq(v[33], r)), "matrix entry (r, s) is sampled from rho, s, r")
    seed = h.bytes("seed", 64)
    s1, s2 = d.expand_s(seed)
    h.check(h.both(len(s1) == s["ell"], len(s2) == s["k"]), "dimensions of the secret vectors")
    half = lambda x: 2 - x if s["eta"] == 2 else 4 - x
    for n, v in enumerate(list(s1) + list(s2)):
        want = []
        for x in [seed[i] for i in range(64)] + [n, 0]:
            for b in (x & 7, x >> 3 & 7, x >> 6):
                want += [half(b % 5 if s["eta"] == 2 else b), half(0)]
        h.check(h.eq(list(v)[:256], want[:256]), "secret polynomial n is sampled from the seed")
    # the counter follows 64 bytes of seed: beyond 256 half bytes, so use a reversed echo for it
    h.patch(d, "rej_bounded_poly", lambda x: list(x))
    s1, s2 = d.expand_s(seed)
    for n, v in enumerate(list(s1) + list(s2)):
        h.check(h.eq(v, [seed[i] for i in range(64)] + [n, 0]), "secret polynomial n is sampled from seed and n")


@harness("C05", FIPS, ALL, bound="every seed, counters 0 and 300; the XOF output is an uninterpreted function of its input")
def mask(h, p):
    d, s = dsa(h, p), SETS[p]
    H = hash_model(h)
    import cryptography.hazmat.primitives.hashes as hashes

    rho = h.bytes("rho", 64)
    for kappa in (0, 300):
        y = d.expand_mask(rho, kappa)
        h.check(len(y) == s["ell"], "l polynomials")
        for r in range(s["ell"]):
            x = H(hashes.SHAKE256(32 * s["bits"]))
            x.update(rho + (kappa + r).to_bytes(2, "little"))
            v = x.finalize()
            for i in (0, 1, 128, 255):
                acc = 0
                for j in range(s["bits"]):
                    b = i * s["bits"] + j
                    acc = acc + (((v[b // 8] >> (b % 8)) & 1) << j)
                h.check(h.eq(y[r][i], s["gam1"] - acc), "mask polynomial")
