"""C04 ML-DSA encodings."""

from symex.harness import harness

ASSUMPTIONS = ["values are in the ranges FIPS 204 gives for them"]
OUTSIDE = ["hint vectors are symbolic in 4 + 4 positions (full parameter sets) or completely (reduced omega, k)"]
FIPS = ("pq_logic.fips.fips204",)
SETS = {
    "ml-dsa-44": dict(k=4, ell=4, eta=2, gam1=1 << 17, omega=80, lam=128, m=44, pk=1312, sk=2560, sig=2420),
    "ml-dsa-65": dict(k=6, ell=5, eta=4, gam1=1 << 19, omega=55, lam=192, m=16, pk=1952, sk=4032, sig=3309),
    "ml-dsa-87": dict(k=8, ell=7, eta=2, gam1=1 << 19, omega=75, lam=256, m=16, pk=2592, sk=4896, sig=4627),
}
ALL = {p: {"p": p} for p in SETS}
PAIRS = {"eta2": (2, 2), "eta4": (4, 4), "t0": (4095, 4096), "g17": ((1 << 17) - 1, 1 << 17), "g19": ((1 << 19) - 1, 1 << 19)}


SOME = (0, 1, 2, 3, 127, 128, 252, 255)
LEVELS = {**{p: {"p": p} for p in SETS}, **{p + "/all": {"p": p, "pos": tuple(range(256)), "_tiers": ("thorough",)} for p in SETS}}


def poly(h, name, lo, hi, pos):
    """A polynomial with symbolic coefficients at the given positions and fixed ones elsewhere."""
    return [h.int(f"{name}_{j}", lo, hi) if j in pos else lo + (j * 977 + 5) % (hi - lo + 1) for j in range(256)]


def dsa(h, p="ml-dsa-44"):
    return h.module("pq_logic.fips.fips204").ML_DSA(p)


@harness("C04", FIPS, {k: {"a": a, "b": b} for k, (a, b) in PAIRS.items()}, bound="256 coefficients, all values in [-a, b]")
def bit_pack(h, a, b):
    d = dsa(h)
    w = [h.int(f"w{i}", -a, b) for i in range(256)]
    v = d.bit_pack(w, a, b)
    c = (a + b).bit_length()
    h.check(len(v) == 32 * c, "packed length")
    u = d.bit_unpack(v, a, b)
    h.check(h.eq(u, w), "unpack(pack(w)) == w")
    for i in (0, 1, 2, 100, 255):
        for j in range(c):
            p = i * c + j
            h.check(h.eq((v[p // 8] >> (p % 8)) & 1, ((b - w[i]) >> j) & 1), "bit order of the packing")
    s = h.bytes("s", 32 * c)
    u = d.bit_unpack(s, a, b)
    if a + b + 1 == 1 << c:
        h.check(h.eq(d.bit_pack(u, a, b), s), "pack(unpack(v)) == v")


@harness("C04", FIPS, {"t1": {"b": 1023}, "w43": {"b": 43}, "w15": {"b": 15}}, bound="256 coefficients, all values in [0, b]")
def simple_bit_pack(h, b):
    d = dsa(h)
    w = [h.int(f"w{i}", 0, b) for i in range(256)]
    v = d.simple_bit_pack(w, b)
    c = b.bit_length()
    h.check(len(v) == 32 * c, "packed length")
    u = d.simple_bit_unpack(v, b)
    h.check(h.eq(u, w), "unpack(pack(w)) == w")
    for i in (0, 1, 2, 100, 255):
        for j in range(c):
            p = i * c + j
            h.check(h.eq((v[p // 8] >> (p % 8)) & 1, (w[i] >> j) & 1), "bit order of the packing")


@harness("C04", FIPS, ALL, bound="all public key bytes symbolic")
def public_key(h, p):
    d = dsa(h, p)
    s = SETS[p]
    pk = h.bytes("pk", s["pk"])
    rho, t1 = d.pk_decode(pk)
    h.check(len(t1) == s["k"], "k polynomials")
    for v in t1:
        for x in v:
            h.check(h.both(x >= 0, x < 1024), "t1 coefficients have 10 bits")
    h.check(h.eq(d.pk_encode(rho, t1), pk), "encode(decode(pk)) == pk")


@harness("C04", FIPS, LEVELS, bound="8 symbolic coefficients in every polynomial of the key (thorough: all), rho, K, tr symbolic")
def private_key(h, p, pos=SOME):
    d = dsa(h, p)
    s = SETS[p]
    rho, kk, tr = h.bytes("rho", 32), h.bytes("K", 32), h.bytes("tr", 64)
    e = s["eta"]
    s1 = [poly(h, f"a{i}", -e, e, pos) for i in range(s["ell"])]
    s2 = [poly(h, f"b{i}", -e, e, pos) for i in range(s["k"])]
    t0 = [poly(h, f"c{i}", -4095, 4096, pos) for i in range(s["k"])]
    sk = d.sk_encode(rho, kk, tr, s1, s2, t0)
    h.check(len(sk) == s["sk"], "private key length")
    r = d.sk_decode(sk)
    h.check(h.both(h.eq(r[0], rho), h.eq(r[1], kk), h.eq(r[2], tr)), "rho, K and tr survive")
    for x, y, n in ((r[3], s1, "s1"), (r[4], s2, "s2"), (r[5], t0, "t0")):
        h.check(len(x) == len(y), n + " dimension")
        for a, b in zip(x, y):
            h.check(h.eq(a, b), n + " survives")


SIG = {
    **{p: {"p": p, "bits": ((0, 0), (-1, 255))} for p in SETS},
    **{p + "/hint": {"p": p, "pos": (0,), "bits": ((0, 1), (0, 255), (-2, 128), (-1, 254))} for p in SETS},
    **{p + "/all": {"p": p, "pos": tuple(range(256)), "bits": (), "_tiers": ("thorough",)} for p in SETS},
}


@harness("C04", FIPS, SIG, bound="8 symbolic coefficients in every z polynomial (thorough: all), challenge hash symbolic; hint symbolic in up to 4 positions")
def signature(h, p, bits, pos=SOME):
    d = dsa(h, p)
    s = SETS[p]
    ct = h.bytes("ct", s["lam"] // 4)
    g = s["gam1"]
    z = [poly(h, f"z{i}", -g + 1, g, pos) for i in range(s["ell"])]
    hint = [[0] * 256 for _ in range(s["k"])]
    hint[1][200] = 1
    for n, (i, j) in enumerate(bits):
        hint[i][j] = h.int(f"h{n}", 0, 1)
    sig = d.sig_encode(ct, z, [list(x) for x in hint])
    h.check(len(sig) == s["sig"], "signature length")
    c2, z2, h2 = d.sig_decode(sig)
    h.check(h.eq(c2, ct), "challenge hash survives")
    for a, b in zip(z2, z):
        h.check(h.eq(a, b), "z survives")
    h.check(h2 is not None, "an encoded hint decodes")
    for a, b in zip(h2, hint):
        h.check(h.eq(a, b), "the hint survives")


@harness(
    "C04",
    FIPS,
    {
        "omega2k2": {"omega": 2, "k": 2},
        "omega3k1": {"omega": 3, "k": 1},
        "omega3k2": {"omega": 3, "k": 2},
        "omega2k2/high": {"omega": 2, "k": 2, "base": 240},
        "omega4k3": {"omega": 4, "k": 3, "_tiers": ("thorough",)},
        "omega3k2/all": {"omega": 3, "k": 2, "span": 256, "_tiers": ("thorough",)},
    },
    bound="reduced omega and k, every byte of the hint encoding symbolic (positions within a range of 16, or all 256)",
)
def hint_canonical(h, omega, k, base=0, span=16):
    d = dsa(h)
    d.omega, d.k = omega, k
    ys = [h.int(f"p{i}", base, base + span - 1) for i in range(omega)]
    if base:
        ys = [h.ite(h.bool(f"pad{i}"), 0, v) for i, v in enumerate(ys)]
    ys = ys + [h.int(f"c{i}", 0, 255) for i in range(k)]
    y = h.mkbytes(ys)
    r = d.hint_bit_unpack(y)
    if r is None:
        # refused: counts not monotone or above omega, positions not ascending, or padding not zero
        bad = []
        prev = 0
        for i in range(k):
            c = y[omega + i]
            bad.append(h.either(c < prev, c > omega))
            for j in range(omega):
                for j2 in (j + 1,):
                    if j2 < omega:
                        bad.append(h.both(prev <= j, j2 < c, y[j] >= y[j2]))
            prev = c
        for j in range(omega):
            bad.append(h.both(prev <= j, h.no(h.eq(y[j], 0))))
        h.check(h.either(*bad), "only malformed hint encodings are refused")
    else:
        # bit (i, v) is set exactly when v is listed for polynomial i
        prev = 0
        lim = y[omega + k - 1]
        ok = [lim <= omega]
        for i in range(k):
            c = y[omega + i]
            ok.append(prev <= c)
            for j in range(omega - 1):
                ok.append(h.implies(h.both(prev <= j, j + 1 < c), y[j] < y[j + 1]))
            for v in list(range(base, base + span)) + ([0] if base else []):
                listed = h.either(*[h.both(prev <= j, j < c, h.eq(y[j], v)) for j in range(omega)])
                h.check(h.iff(h.eq(r[i][v], 1), listed), "a hint bit is set iff its position is listed")
            prev = c
        for j in range(omega):
            ok.append(h.implies(lim <= j, h.eq(y[j], 0)))
        h.check(h.both(*ok), "only the canonical encoding of a hint is accepted")


@harness("C04", FIPS, ALL, bound="full parameter set, two count bytes and four position bytes symbolic, others fixed")
def hint_real(h, p):
    d = dsa(h, p)
    s = SETS[p]
    om, k = s["omega"], s["k"]
    y = [0] * (om + k)
    for j in range(om - 2):
        y[j] = j + 1
    pos = h.bytes("pos", 2)
    cnt = h.bytes("cnt", 1)
    y[om - 2], y[om - 1] = pos[0], pos[1]
    for i in range(k - 1):
        y[om + i] = 0
    y[om + k - 1] = cnt[0]
    h.assume(cnt[0] >= om - 3)
    r = d.hint_bit_unpack(h.mkbytes(y))
    c = cnt[0]
    ok = h.either(
        h.both(h.eq(c, om - 2), h.eq(pos[0], 0), h.eq(pos[1], 0)),
        h.both(h.eq(c, om - 1), pos[0] > om - 2, h.eq(pos[1], 0)),
        h.both(h.eq(c, om), pos[0] > om - 2, pos[1] > pos[0]),
    )
    h.check(h.iff(ok, r is not None), "full-weight hints are accepted exactly when canonical")


@harness("C04", FIPS, {p: {"p": p} for p in SETS}, bound="k polynomials, one of them symbolic")
def w1_encode(h, p):
    d = dsa(h, p)
    s = SETS[p]
    m = s["m"]
    w = [[h.int(f"w{j}", 0, m - 1) for j in range(256)]] + [[(i * j) % m for j in range(256)] for i in range(1, s["k"])]
    v = d.w1_encode(w)
    c = (m - 1).bit_length()
    h.check(len(v) == 32 * c * s["k"], "w1 encoding length")
    for i in range(s["k"]):
        u = d.simple_bit_unpack(v[32 * c * i : 32 * c * (i + 1)], m - 1)
        h.check(h.eq(u, w[i]), "w1 encoding is injective")
