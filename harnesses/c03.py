"""C03 ML-KEM key generation, encapsulation and decapsulation (Fujisaki-Okamoto transform)."""

from harnesses.stubs import hash_model
from symex.harness import harness

ASSUMPTIONS = [
    "SHA3-256, SHA3-512 and SHAKE are uninterpreted functions",
    "K-PKE encryption and decryption are uninterpreted functions with decrypt(dk, encrypt(ek, m, r)) == m (C02 decides their arithmetic)",
]
OUTSIDE = ["the checks FIPS 203 section 7 places on key import", "the liboqs back end (not installed)"]
MODS = ("pq_logic.fips.fips203", "pq_logic.fips._fips_utils", "pq_logic.keys.kem_keys", "pq_logic.keys.abstract_pq", "pq_logic.keys.abstract_wrapper_keys")
PARAM = {"ml-kem-512": (2, 768), "ml-kem-768": (3, 1088), "ml-kem-1024": (4, 1568)}
ALL = {p: {"p": p} for p in PARAM}


def setup(h, p):
    k, ctlen = PARAM[p]
    m = h.module("pq_logic.fips.fips203")
    Hash = hash_model(h)
    import cryptography.hazmat.primitives.hashes as hashes

    enc, dec = h.xof("ENC", fixed=ctlen), h.xof("DEC", fixed=32)
    h.patch(m.ML_KEM, "k_pke_encrypt", lambda self, ek_pke, m, r: enc(ek_pke, m, r))
    h.patch(m.ML_KEM, "k_pke_decrypt", lambda self, dk_pke, c: dec(dk_pke, c))

    def hsh(alg, data):
        x = Hash(alg)
        x.update(data)
        return x.finalize()

    H = lambda d: hsh(hashes.SHA3_256(), d)
    G = lambda d: hsh(hashes.SHA3_512(), d)
    J = lambda d: hsh(hashes.SHAKE256(32), d)
    return k, ctlen, H, G, J, enc, dec


def private(h, p, dk):
    keys = h.module("pq_logic.keys.kem_keys")
    return keys.MLKEMPrivateKey(alg_name=p, private_bytes=dk)


@harness("C03", MODS, ALL, bound="whole private key and whole ciphertext symbolic, exact length")
def decaps_any(h, p):
    k, ctlen, H, G, J, enc, dec = setup(h, p)
    dk = h.bytes("dk", 768 * k + 96)
    c = h.bytes("c", ctlen)
    key = private(h, p, dk)
    ss = key.decaps(c)
    dkp, ekp = dk[: 384 * k], dk[384 * k : 768 * k + 32]
    hh, zz = dk[768 * k + 32 : 768 * k + 64], dk[768 * k + 64 :]
    mp = dec(dkp, c)
    g = G(mp + hh)
    valid = h.eq(enc(ekp, mp, g[32:]), c)
    h.check(len(ss) == 32, "shared secret length")
    h.check(h.implies(valid, h.eq(ss, g[:32])), "a re-encrypting ciphertext gives K'")
    h.check(h.implies(h.no(valid), h.eq(ss, J(zz + c))), "any other ciphertext gives J(z || c)")


@harness("C03", MODS, {f"{p}/{d:+d}": {"p": p, "d": d} for p in PARAM for d in (-1, 1)} | {"ml-kem-512/empty": {"p": "ml-kem-512", "d": -768}}, bound="ciphertext one byte short / long, or empty")
def decaps_length(h, p, d):
    k, ctlen, H, G, J, enc, dec = setup(h, p)
    dk = h.bytes("dk", 768 * k + 96)
    c = h.bytes("c", ctlen + d)
    key = private(h, p, dk)
    r = h.attempt(key.decaps, c)
    if r.ok:
        h.check(h.eq(r.value, J(dk[768 * k + 64 :] + c)), "a ciphertext of the wrong length never yields K'")
    else:
        h.check(True, "a ciphertext of the wrong length is refused")


@harness("C03", MODS, ALL, bound="whole public key, coins and implicit-rejection secret symbolic")
def encaps_decaps(h, p):
    k, ctlen, H, G, J, enc, dec = setup(h, p)
    keys = h.module("pq_logic.keys.kem_keys")
    ek, dkp, z, m = h.bytes("ek", 384 * k + 32), h.bytes("dkp", 384 * k), h.bytes("z", 32), h.bytes("m", 32)
    h.patch(h.module("os"), "urandom", lambda n: m[:n])
    pub = keys.MLKEMPublicKey.from_public_bytes(ek, p)
    ss, ct = pub.encaps()
    g = G(m + H(ek))
    h.check(h.eq(ss, g[:32]), "encaps returns K first")
    h.check(h.eq(ct, enc(ek, m, g[32:])), "ciphertext is the encryption of m under the derived coins")
    h.assume(h.eq(dec(dkp, ct), m))
    prv = private(h, p, dkp + ek + H(ek) + z)
    h.check(h.eq(prv.decaps(ct), ss), "decaps(encaps) == encapsulated secret")
    h.check(h.eq(prv.public_key().public_bytes_raw(), ek), "public key of the private key")


@harness("C03", MODS, ALL, bound="64-byte seed symbolic")
def keygen(h, p):
    k, ctlen, H, G, J, enc, dec = setup(h, p)
    m = h.module("pq_logic.fips.fips203")
    keys = h.module("pq_logic.keys.kem_keys")
    kg = h.xof("KG", fixed=768 * k + 32)

    def k_pke_keygen(self, d):
        r = kg(d)
        return r[384 * k :], r[: 384 * k]

    h.patch(m.ML_KEM, "k_pke_keygen", k_pke_keygen)
    seed = h.bytes("seed", 64)
    key = keys.MLKEMPrivateKey.from_seed(p, seed)
    r = kg(seed[:32])
    dkp, ek = r[: 384 * k], r[384 * k :]
    h.check(h.eq(key.private_bytes_raw(), dkp + ek + H(ek) + seed[32:]), "expanded private key layout")
    h.check(h.eq(key.public_key().public_bytes_raw(), ek), "public key")
    h.check(h.eq(key.private_numbers(), seed), "seed is kept")
    k2 = keys.MLKEMPrivateKey.from_private_bytes(seed, p)
    h.check(h.eq(k2.private_bytes_raw(), key.private_bytes_raw()), "import of the seed gives the same key")


@harness("C03", MODS, ALL, bound="32-byte seed d symbolic")
def keygen_domain(h, p):
    """The K-PKE key generation seed is bound to the parameter set: G(d || k)."""
    k, ctlen, H, G, J, enc, dec = setup(h, p)
    fips = h.module("pq_logic.fips.fips203")
    d = h.bytes("d", 32)
    seen = []

    def sample(self, b):
        seen.append(b)
        return [0] * 256

    prfs = []

    def prf(self, eta, s, b):
        prfs.append((eta, s, b))
        return bytes(64 * eta)

    h.patch(fips.ML_KEM, "sample_ntt", sample)
    h.patch(fips.ML_KEM, "prf", prf)
    fips.ML_KEM(p).k_pke_keygen(d)
    g = G(d + bytes([k]))
    want = [g[:32] + bytes([col, row]) for row in range(k) for col in range(k)]
    for w in want:
        h.check(h.either(*[h.eq(x, w) for x in seen]), "matrix seeds are rho || j || i")
    for x in seen:
        h.check(h.either(*[h.eq(x, w) for w in want]), "matrix seeds are rho || j || i")
    h.check(sorted(x[2] for x in prfs) == list(range(2 * k)), "each PRF counter is used once")
    for e, s, b in prfs:
        h.check(h.eq(s, g[32:]), "noise seed is the second half of G(d || k)")
