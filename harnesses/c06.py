"""C06 ML-DSA key generation, signing and verification."""

from harnesses.stubs import hash_model
from symex.harness import harness

ASSUMPTIONS = [
    "SHAKE/SHA outputs are uninterpreted functions of their input",
    "end-to-end signing: the public matrix is the fixed matrix with the identity in row 0, column 0 and zeros elsewhere, the challenge polynomial is fixed",
]
OUTSIDE = ["signing with more than one symbolic mask coefficient"]
FIPS = ("pq_logic.fips.fips204", "pq_logic.fips._fips_utils")
Q = 8380417
SETS = {
    "ml-dsa-44": dict(k=4, ell=4, eta=2, gam1=1 << 17, gam2=(Q - 1) // 88, m=44, tau=39, lam=128, omega=80, beta=78, pk=1312, sk=2560, sig=2420),
    "ml-dsa-65": dict(k=6, ell=5, eta=4, gam1=1 << 19, gam2=(Q - 1) // 32, m=16, tau=49, lam=192, omega=55, beta=196, pk=1952, sk=4032, sig=3309),
    "ml-dsa-87": dict(k=8, ell=7, eta=2, gam1=1 << 19, gam2=(Q - 1) // 32, m=16, tau=60, lam=256, omega=75, beta=120, pk=2592, sk=4896, sig=4627),
}
ALL = {p: {"p": p} for p in SETS}


def dsa(h, p="ml-dsa-44"):
    return h.module("pq_logic.fips.fips204").ML_DSA(p)


def zero_matrix(s):
    return [[[0] * 256 for _ in range(s["ell"])] for _ in range(s["k"])]


OIDS = {
    "SHA-256": bytes.fromhex("0609608648016503040201"),
    "SHA-512": bytes.fromhex("0609608648016503040203"),
    "SHAKE128": bytes.fromhex("060960864801650304020b"),
}


def hash_fn(h, Hash, name, data, n=None):
    import cryptography.hazmat.primitives.hashes as hashes

    alg = {"SHA-256": lambda: hashes.SHA256(), "SHA-512": lambda: hashes.SHA512(), "SHAKE128": lambda: hashes.SHAKE128(32), "SHAKE256": lambda: hashes.SHAKE256(n)}
    x = Hash(alg[name]())
    x.update(data)
    return x.finalize()


CTX = {f"{n}": {"n": n} for n in (0, 1, 32, 254, 255)}


@harness("C06", FIPS, CTX, bound="message, context, key, signature and randomness bytes symbolic; context length as stated, message lengths 0, 1, 5")
def framing(h, n):
    d = dsa(h)
    Hash = hash_model(h)
    seen = []
    h.patch(d, "sign_internal", lambda sk, mp, rnd, *a, **k: seen.append(("s", sk, mp, rnd)) or b"sig")
    h.patch(d, "verify_internal", lambda pk, mp, sig, *a, **k: seen.append(("v", pk, mp, sig)) or True)
    ctx = h.bytes("ctx", n)
    rnd = h.bytes("rnd", 32)
    for ln in (0, 1, 5):
        m = h.bytes(f"m{ln}", ln)
        want = b"\x00" + bytes([n]) + ctx + m
        h.check(h.eq(d.sign(b"K", m, ctx, rnd), b"sig"), "a signature is returned")
        h.check(h.both(h.eq(seen[-1][1], b"K"), h.eq(seen[-1][2], want), h.eq(seen[-1][3], rnd)), "signed message is 0, |ctx|, ctx, M")
        h.check(d.verify(b"P", m, b"S", ctx) is True, "verification result is passed on")
        h.check(h.both(h.eq(seen[-1][1], b"P"), h.eq(seen[-1][2], want), h.eq(seen[-1][3], b"S")), "verified message is 0, |ctx|, ctx, M")
        for ph, oid in OIDS.items():
            want = b"\x01" + bytes([n]) + ctx + oid + hash_fn(h, Hash, ph, m)
            d.hash_ml_dsa_sign(b"K", m, ctx, ph, rnd)
            h.check(h.both(h.eq(seen[-1][1], b"K"), h.eq(seen[-1][2], want), h.eq(seen[-1][3], rnd)), "pre-hash signature covers 1, |ctx|, ctx, OID, PH(M)")
            h.check(d.hash_ml_dsa_verify(b"P", m, b"S", ctx, ph) is True, "verification result is passed on")
            h.check(h.both(h.eq(seen[-1][1], b"P"), h.eq(seen[-1][2], want), h.eq(seen[-1][3], b"S")), "pre-hash verification covers 1, |ctx|, ctx, OID, PH(M)")


@harness("C06", FIPS, {f"{n}": {"n": n} for n in (256, 300)}, bound="context longer than 255 bytes, all bytes symbolic")
def long_context(h, n):
    d = dsa(h)
    hash_model(h)
    seen = []
    h.patch(d, "sign_internal", lambda *a, **k: seen.append(1) or b"sig")
    h.patch(d, "verify_internal", lambda *a, **k: seen.append(1) or True)
    ctx, m = h.bytes("ctx", n), h.bytes("m", 3)
    for f in (
        lambda: d.sign(b"K", m, ctx),
        lambda: d.verify(b"P", m, b"S", ctx),
        lambda: d.hash_ml_dsa_sign(b"K", m, ctx, "SHA-512"),
        lambda: d.hash_ml_dsa_verify(b"P", m, b"S", ctx, "SHA-512"),
    ):
        r = h.attempt(f)
        h.check(not r.ok or r.value is None or r.value is False, "a context above 255 bytes is refused")
    h.check(not seen, "nothing is signed or verified under a long context")


@harness("C06", FIPS, ALL, bound="every seed; every secret coefficient in the ring (linear forms), fixed public matrix")
def keygen(h, p):
    d, s = dsa(h, p), SETS[p]
    hash_model(h)
    calls = []
    s1 = [h.modvec(f"x{i}", 256, Q) if i in (0, s["ell"] - 1) else [(i + j) % 3 for j in range(256)] for i in range(s["ell"])]
    s2 = [h.modvec(f"y{i}", 256, Q) if i == 0 else [(i * j) % 3 for j in range(256)] for i in range(s["k"])]
    m = [[d.ntt([((r + 1) * (c + 2) if j == (r + c) % 7 else 0) for j in range(256)]) for c in range(s["ell"])] for r in range(s["k"])]
    args = {}
    h.patch(d, "expand_a", lambda rho: args.__setitem__("rho", rho) or m)
    h.patch(d, "expand_s", lambda x: args.__setitem__("rhop", x) or (s1, s2))
    got = {}
    t1 = [[(5 * i + j) % 1024 for j in range(256)] for i in range(s["k"])]
    t0 = [[(7 * i + j) % 4096 for j in range(256)] for i in range(s["k"])]
    h.patch(d, "power2round", lambda t: got.__setitem__("t", t) or (t1, t0))
    h.patch(d, "sk_encode", lambda *a: got.__setitem__("sk", a) or b"SK")
    xi = h.bytes("xi", 32)
    pk, sk = d.keygen_internal(xi)
    se = d.h(xi + bytes([s["k"], s["ell"]]), 128)
    h.check(h.both(h.eq(args["rho"], se[:32]), h.eq(args["rhop"], se[32:96])), "seeds are derived from xi, k, l")
    for r in range(s["k"]):
        for j in range(256):
            x = s2[r][j]
            for c in range(s["ell"]):
                sh = (r + c) % 7
                f = (r + 1) * (c + 2)
                x = x + (s1[c][j - sh] * f if j >= sh else -(s1[c][j - sh + 256] * f))
            h.check(h.eq(got["t"][r][j], x % Q), "t = A s1 + s2")
    h.check(h.eq(pk, d.pk_encode(se[:32], t1)), "public key holds rho and t1")
    a = got["sk"]
    h.check(h.both(h.eq(a[0], se[:32]), h.eq(a[1], se[96:128]), h.eq(a[2], d.h(pk, 64))), "private key holds rho, K and the hash of the public key")
    h.check(a[3] is s1 and a[4] is s2 and h.eq(a[5], t0), "private key holds s1, s2, t0")


@harness("C06", FIPS, ALL, bound="every z (linear forms), fixed key, matrix and challenge")
def verify_equation(h, p):
    d, s = dsa(h, p), SETS[p]
    hash_model(h)
    z = [h.modvec(f"z{i}", 256, Q) if i in (0, s["ell"] - 1) else [(i + j) % 5 for j in range(256)] for i in range(s["ell"])]
    m = [[d.ntt([((r + 1) * (c + 2) if j == (r + c) % 7 else 0) for j in range(256)]) for c in range(s["ell"])] for r in range(s["k"])]
    t1 = [[(3 * i + j * j) % 1024 for j in range(256)] for i in range(s["k"])]
    c = [0] * 256
    c[3], c[200] = 1, -1
    hint = [[0] * 256 for _ in range(s["k"])]
    got = {}
    h.patch(d, "expand_a", lambda rho: m)
    h.patch(d, "pk_decode", lambda pk: (b"\x01" * 32, t1))
    h.patch(d, "sig_decode", lambda sig: (b"c" * (s["lam"] // 4), z, hint))
    h.patch(d, "sample_in_ball", lambda x: got.__setitem__("ct", x) or c)

    class Stop(Exception):
        pass

    def use_hint(hh, w):
        got["w"], got["h"] = w, hh
        raise Stop()

    h.patch(d, "use_hint", use_hint)
    h.attempt(lambda: d.verify_internal(b"\x01" * s["pk"], b"m", b"s" * s["sig"]), allowed=(Stop,))
    h.check(h.eq(got["ct"], b"c" * (s["lam"] // 4)) and got["h"] is hint, "challenge is sampled from the commitment hash")
    for r in range(s["k"]):
        for j in range(256):
            x = 0
            for cc in range(s["ell"]):
                sh = (r + cc) % 7
                f = (r + 1) * (cc + 2)
                x = x + (z[cc][j - sh] * f if j >= sh else -(z[cc][j - sh + 256] * f))
            for pos, sg in ((3, 1), (200, -1)):
                v = t1[r][(j - pos) % 256] * 8192 * sg
                x = x - (v if j >= pos else -v)
            h.check(h.eq(got["w"][r][j], x % Q), "w' = A z - c t1 2^d")


@harness(
    "C06",
    FIPS,
    {f"{p}/{n}": {"p": p, "at": at} for p in SETS for n, at in (("first", (0, 0)), ("last", (-1, 255)))},
    bound="message, commitment hash and one z coefficient symbolic, every value; zero matrix, fixed challenge",
)
def verify_accepts(h, p, at):
    d, s = dsa(h, p), SETS[p]
    g = s["gam1"]
    ball = [0] * 8 + [i for i in range(256 - s["tau"], 256)] * 2

    def prefix(name, data, n):
        if n == 4096:
            return h.mkbytes((ball + [0] * n)[:n])

    hash_model(h, prefix=prefix)
    h.patch(d, "expand_a", lambda rho: zero_matrix(s))
    pk = d.pk_encode(b"\x01" * 32, [[(3 * i + j * j) % 1024 for j in range(256)] for i in range(s["k"])])
    z = [[0] * 256 for _ in range(s["ell"])]
    x = h.int("z", -g + 1, g)
    z[at[0]][at[1]] = x
    ct = h.bytes("ct", s["lam"] // 4)
    hint = [[0] * 256 for _ in range(s["k"])]
    hint[1][9] = 1
    sig = d.sig_encode(ct, z, hint)
    m = h.bytes("m", 4)
    got = d.verify_internal(pk, m, sig)
    # w' = -c t1 2^d is fixed; its high bits are hashed
    c = [0] * (256 - s["tau"]) + [1] * s["tau"]
    t1 = d.pk_decode(pk)[1]
    ch = d.ntt(c)
    w = [d.ntt_inverse(d.neg(d.mul_ntt(ch, d.ntt([v << 13 for v in t])))) for t in t1]
    w1 = d.use_hint(hint, w)
    mu = hash_fn(h, d_hash(h), "SHAKE256", hash_fn(h, d_hash(h), "SHAKE256", pk, 64) + m, 64)
    want = hash_fn(h, d_hash(h), "SHAKE256", mu + d.w1_encode(w1), s["lam"] // 4)
    norm = h.both(x < g - s["beta"], x > -(g - s["beta"]))
    h.check(h.iff(got, h.both(norm, h.eq(ct, want))), "accepted iff ||z|| < gamma1 - beta and the commitment hash matches")


def d_hash(h):
    import cryptography.hazmat.primitives.hashes as hashes

    return hashes.Hash


@harness("C06", FIPS, ALL, bound="signature lengths 0, 1, n-1, n+1, n+17; all bytes symbolic where the code reads few of them")
def signature_length(h, p):
    d, s = dsa(h, p), SETS[p]
    hash_model(h)
    h.patch(d, "expand_a", lambda rho: zero_matrix(s))
    c = [1] + [0] * 255
    h.patch(d, "sample_in_ball", lambda x: c)
    t1 = [[0] * 256 for _ in range(s["k"])]
    pk = d.pk_encode(b"\x01" * 32, t1)
    z = [[0] * 256 for _ in range(s["ell"])]
    hint = [[0] * 256 for _ in range(s["k"])]
    m = h.bytes("m", 2)
    mu = hash_fn(h, d_hash(h), "SHAKE256", hash_fn(h, d_hash(h), "SHAKE256", pk, 64) + m, 64)
    w1 = d.w1_encode([[0] * 256 for _ in range(s["k"])])
    ct = hash_fn(h, d_hash(h), "SHAKE256", mu + w1, s["lam"] // 4)
    sig = d.sig_encode(ct, z, hint)
    h.check(d.verify_internal(pk, m, sig), "the crafted signature itself is accepted")
    for n in (0, 1, s["sig"] - 1, s["sig"] + 1, s["sig"] + 17):
        bad = (sig + h.bytes(f"t{n}", max(0, n - s["sig"])))[:n]
        h.check(d.verify_internal(pk, m, bad) is False, "a signature of the wrong length is not valid")


@harness(
    "C06",
    FIPS,
    {f"{p}/{r}": {"p": p, "kind": r} for p in ("ml-dsa-44", "ml-dsa-65") for r in ("z-bound", "low-bits")},
    bound="one mask coefficient symbolic around the acceptance boundaries (width 4 beta), message symbolic, fixed key",
    budget={"quick": 60},
)
def sign_verify(h, p, kind):
    d, s = dsa(h, p), SETS[p]
    tau, g = s["tau"], s["gam1"]
    ball = [0x35] * 8 + [i for i in range(256 - tau, 256)] * 2
    m = zero_matrix(s)
    m[0][0] = [1] * 256
    h.patch(d, "expand_a", lambda rho: m)
    pk, sk = d.keygen_internal(bytes(range(32)))
    base = g - s["beta"] if kind == "z-bound" else s["gam2"] - s["beta"]
    fixed = [[0] * 256 for _ in range(s["ell"])]
    first = [list(v) for v in fixed]
    at = 250
    first[0][at] = h.modvec("y", 1, Q, base - 2 * s["beta"], min(g, base + 2 * s["beta"]))[0]
    rounds = []

    def mask(rho, kappa):
        rounds.append(kappa)
        return first if len(rounds) == 1 else fixed

    h.patch(d, "expand_mask", mask)

    def prefix(name, data, n):
        if n == 4096:
            return h.mkbytes((ball + [0] * n)[:n])
        if n == 64 and len(data) == len(pk):
            return sk[64:128]

    hash_model(h, prefix=prefix)
    # the signature encoding is decided by C04: values go straight from the signer to the verifier
    got = {}
    h.patch(d, "sig_encode", lambda *a: got.__setitem__("sig", a) or bytes(s["sig"]))
    h.patch(d, "sig_decode", lambda sig: got["sig"])
    msg = h.bytes("m", 3)
    sig = d.sign_internal(sk, msg, bytes(32))
    h.check(len(rounds) <= 2, "the trivial mask is accepted")
    if len(rounds) == 2:
        h.check(rounds[1] == s["ell"], "the counter moves on by l")
    ct, z, hint = got["sig"]
    for v in z:
        for x in v:
            h.check(h.both(x < g - s["beta"], x > -(g - s["beta"])), "z is below gamma1 - beta (rejection rule)")
    # row 0 of w - c s2 (the matrix is the identity there)
    s2 = d.sk_decode(sk)[4][0]
    y = (first if len(rounds) == 1 else fixed)[0]
    c = [0] * (256 - tau) + [1 - 2 * ((0x35 >> (i % 8)) & 1) for i in range(tau)]
    for t in (0, at, 255):
        x = y[t]
        for i in range(256):
            j = (t - i) % 256
            x = x - (c[i] * s2[j] if i <= t else -(c[i] * s2[j]))
        r0 = d.decompose(x % Q)[1]
        h.check(h.both(r0 < s["gam2"] - s["beta"], r0 > -(s["gam2"] - s["beta"])), "low bits of w - c s2 are below gamma2 - beta (rejection rule)")
    n = 0
    for v in hint:
        for x in v:
            n = n + x
    h.check(n <= s["omega"], "at most omega hint bits")
    h.check(d.verify_internal(pk, msg, sig), "what was signed verifies")


@harness(
    "C06",
    FIPS,
    {f"{p}/{k}": {"p": p, "kind": k} for p, k in (("ml-dsa-44", "weight"), ("ml-dsa-87", "weight"), ("ml-dsa-44", "t0"))},
    bound="hint of symbolic weight around omega, or one symbolic t0 coefficient around the gamma2 bound",
)
def rejection(h, p, kind):
    d, s = dsa(h, p), SETS[p]
    tau = s["tau"]
    hash_model(h)
    c = [0] * (256 - tau) + [1] * tau
    h.patch(d, "expand_a", lambda rho: zero_matrix(s))
    h.patch(d, "sample_in_ball", lambda x: c)
    zero = lambda n: [[0] * 256 for _ in range(n)]
    t0 = zero(s["k"])
    if kind == "t0":
        # coefficient 255 of c t0 is the sum of t0[0..tau-1]
        for j in range(tau - 1):
            t0[1][j] = s["gam2"] // tau
        t0[1][tau - 1] = h.modvec("t", 1, Q, 0, 4096)[0]
    h.patch(d, "sk_decode", lambda sk: (b"\\x01" * 32, b"\\x02" * 32, b"\\x03" * 64, zero(s["ell"]), zero(s["k"]), t0))
    hint = zero(s["k"])
    if kind == "weight":
        for i in range(s["omega"] - 2):
            hint[i % s["k"]][3 + i // s["k"]] = 1
        for i in range(4):
            hint[i % s["k"]][250 + i] = h.int(f"h{i}", 0, 1)

    class Rejected(Exception):
        pass

    rounds = []

    def mask(rho, kappa):
        rounds.append(kappa)
        if len(rounds) > 1:
            raise Rejected()
        return zero(s["ell"])

    h.patch(d, "expand_mask", mask)
    h.patch(d, "make_hint", lambda z, r: hint)
    got = {}
    h.patch(d, "sig_encode", lambda *a: got.__setitem__("sig", a) or bytes(s["sig"]))
    r = h.attempt(lambda: d.sign_internal(bytes(s["sk"]), h.bytes("m", 2), bytes(32)), allowed=(Rejected,))
    if kind == "weight":
        n = 0
        for v in hint:
            for x in v:
                n = n + x
        h.check(h.iff(r.ok, n <= s["omega"]), "a signature is released iff the hint weight is at most omega")
        if r.ok:
            h.check(h.eq(got["sig"][2], hint), "the hint is released")
    else:
        x = 0
        for j in range(tau):
            x = x + t0[1][j]
        x = x % Q
        h.check(h.iff(r.ok, x < s["gam2"]), "a signature is released iff ||c t0|| < gamma2")
