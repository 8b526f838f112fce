"""C17 message protection: protect and verify compute the MAC or signature the protectionAlg names, over header and body."""

from harnesses.cmp import CMP, PY
from harnesses.stubs import bytes_of, hash_model
from symex.harness import harness

ASSUMPTIONS = [
    "HMAC, KMAC, GMAC, PBKDF2, HKDF, the hash functions and the signature schemes are arbitrary functions of all their inputs",
]
OUTSIDE = ["the cryptographic primitives themselves", "secrets longer than 3 bytes, salts longer than 2 bytes, more than 3 iterations of the one-way function"]
MODS = CMP + ("resources.protectionutils", "resources.cryptoutils", "resources.oid_mapping", "resources.prepare_alg_ids", "resources.convertutils", "resources.utils")
HASHES = {"sha1": 20, "sha224": 28, "sha256": 32, "sha384": 48, "sha512": 64, "sha3_224": 28, "sha3_256": 32, "sha3_384": 48, "sha3_512": 64}
SHA2 = ("sha224", "sha256", "sha384", "sha512")
SHA_OID = {"sha1": "1.3.14.3.2.26", "sha224": "2.16.840.1.101.3.4.2.4", "sha256": "2.16.840.1.101.3.4.2.1", "sha384": "2.16.840.1.101.3.4.2.2", "sha512": "2.16.840.1.101.3.4.2.3",
           "sha3_224": "2.16.840.1.101.3.4.2.7", "sha3_256": "2.16.840.1.101.3.4.2.8", "sha3_384": "2.16.840.1.101.3.4.2.9", "sha3_512": "2.16.840.1.101.3.4.2.10"}
HMAC_OID = {"sha1": "1.3.6.1.5.5.8.1.2", "sha224": "1.2.840.113549.2.8", "sha256": "1.2.840.113549.2.9", "sha384": "1.2.840.113549.2.10", "sha512": "1.2.840.113549.2.11",
            "sha3_224": "2.16.840.1.101.3.4.2.13", "sha3_256": "2.16.840.1.101.3.4.2.14", "sha3_384": "2.16.840.1.101.3.4.2.15", "sha3_512": "2.16.840.1.101.3.4.2.16"}
KMAC_OID = {"shake128": "2.16.840.1.101.3.4.2.19", "shake256": "2.16.840.1.101.3.4.2.20"}
GMAC_OID = {16: "2.16.840.1.101.3.4.1.9", 24: "2.16.840.1.101.3.4.1.29", 32: "2.16.840.1.101.3.4.1.49"}
GMAC_NAME = {16: "aes128_gmac", 24: "aes192_gmac", 32: "aes256_gmac"}
PBM, PBMAC1, PBKDF2, DHBM, KEMBM = "1.2.840.113533.7.66.13", "1.2.840.113549.1.5.14", "1.2.840.113549.1.5.12", "1.2.840.113533.7.66.30", "1.2.840.113533.7.66.16"


class Prim:
    """The primitives as arbitrary functions (one per algorithm), for the code and for the specification alike."""

    def __init__(self, h):
        self.h = h
        self.fs = {}
        self.Hash = hash_model(h)
        cu = h.module("resources.cryptoutils")
        prim = self

        class HMAC:
            def __init__(self, key, algorithm, backend=None):
                self.key, self.alg, self.data = bytes_of(key), algorithm.name, b""

            def update(self, d):
                self.data = self.data + bytes_of(d)

            def finalize(self):
                return prim.hmac(self.alg.replace("-", "_"), self.key, self.data)

        class KDF:
            def __init__(self, algorithm, length, salt, iterations, backend=None):
                self.a = (algorithm.name.replace("-", "_"), length, salt, iterations)

            def derive(self, key):
                return prim.pbkdf2(*self.a, key)

        class HK:
            def __init__(self, algorithm, length, salt, info, backend=None):
                self.a = (algorithm.name.replace("-", "_"), length, salt or b"", info)

            def derive(self, key):
                return prim.hkdf(*self.a, key)

        class GCM:
            def __init__(self, alg, mode):
                self.key, self.iv, self.data = alg, mode, b""

            def encryptor(self):
                return self

            def authenticate_additional_data(self, d):
                self.data = self.data + bytes_of(d)

            def finalize(self):
                self.tag = prim.gmac(self.key, self.iv, self.data)
                return b""

        h.patch(cu, "hmac", type("hmac", (), {"HMAC": HMAC}))
        h.patch(cu, "PBKDF2HMAC", KDF)
        h.patch(cu, "HKDF", HK)
        h.patch(cu, "Cipher", GCM)
        h.patch(cu, "algorithms", type("algorithms", (), {"AES": staticmethod(lambda k: bytes_of(k))}))
        h.patch(cu, "modes", type("modes", (), {"GCM": staticmethod(lambda n: bytes_of(n))}))
        import Crypto.Hash.KMAC128 as k1
        import Crypto.Hash.KMAC256 as k2

        for m, n in ((k1, "128"), (k2, "256")):
            h.patch(m, "new", (lambda n: lambda data=None, custom=b"", mac_len=None, key=None: type("K", (), {"digest": lambda s: prim.kmac(n, key, data, mac_len, custom)})())(n))

    def f(self, name):
        if name not in self.fs:
            self.fs[name] = self.h.xof(name)
        return self.fs[name]

    def hash(self, alg, data):
        import cryptography.hazmat.primitives.hashes as hs

        o = self.Hash(getattr(hs, alg.upper())())
        o.update(data)
        return o.finalize()

    def hmac(self, alg, key, data):
        return self.f("HMAC_" + alg)(bytes_of(key), bytes_of(data), n=HASHES[alg])

    def pbkdf2(self, alg, length, salt, iterations, key):
        it = bytes_of(b"") + self.h.mkbytes([iterations]) if not isinstance(iterations, int) else iterations.to_bytes(4, "big")
        return self.f("PBKDF2_" + alg)(bytes_of(key), bytes_of(salt), it, n=int(length))

    def hkdf(self, alg, length, salt, info, key):
        return self.f("HKDF_" + alg)(bytes_of(key), bytes_of(salt), bytes_of(info), n=int(length))

    def gmac(self, key, iv, data):
        return self.f("GMAC%d" % len(key))(bytes_of(key), bytes_of(iv), bytes_of(data), n=16)

    def kmac(self, n, key, data, length, custom=b""):
        return self.f("KMAC" + n)(bytes_of(key), bytes_of(data), bytes_of(custom), n=length)


class Prot:
    """The protection field."""

    isValue = True

    def __init__(self, v):
        self.v = v

    def asOctets(self):
        return self.v


def other_length(h, m):
    """The right protection cut short or with a further byte."""
    v = bytes_of(m.p.v)
    n = h.choice("length", (len(v) - 1, 0, len(v) + 1))
    return Prot(v[:n] if n < len(v) else v + h.bytes("further", 1))


class Msg:
    """A PKIMessage whose protection holds (symbolic) bytes; everything else is the real message."""

    def __init__(self, m):
        self.m = m
        self.p = None

    def __getitem__(self, k):
        return self.p if k == "protection" else self.m[k]

    def __setitem__(self, k, v):
        if k == "protection":
            self.p = v
        else:
            self.m[k] = v


def message(h, nonce, body, tx=b"t" * 16):
    """A certConf message with the given sender nonce and certHash."""
    cmputils = h.module("resources.cmputils")
    m = cmputils.prepare_pki_message(sender="CN=a", recipient="CN=b", exclude_fields="recipNonce,senderKID,messageTime", transaction_id=tx, sender_nonce=b"\x01")
    from pyasn1.type import tag, univ
    from pyasn1_alt_modules import rfc9480

    m["header"]["senderNonce"] = univ.OctetString(nonce).subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 5))
    st = rfc9480.CertStatus()
    st["certHash"] = univ.OctetString(body)
    st["certReqId"] = 0
    m["body"]["certConf"].append(st)
    return m


def der(m):
    """DER of ProtectedPart ::= SEQUENCE { header, body }."""
    from pyasn1.codec.der import encoder

    hd, bd = encoder.encode(m["header"]), encoder.encode(m["body"])
    n = len(hd) + len(bd)
    ln = bytes([n]) if n < 128 else bytes([0x81, n]) if n < 256 else bytes([0x82, n >> 8, n & 255])
    return b"\x30" + ln + bytes_of(hd) + bytes_of(bd)


def spec(p, kind, secret, data, a):
    """The MAC of RFC 9810/9481 for the algorithm parameters a."""
    if kind == "hmac":
        return p.hmac(a["hash"], secret, data)
    if kind == "kmac":
        return p.kmac(a["hash"][5:], secret, data, 32 if a["hash"] == "shake128" else 64)
    if kind == "gmac":
        return p.gmac(secret, a["salt"], data)
    if kind == "pbmac1":
        return p.hmac(a["mac"], p.pbkdf2(a["hash"], a["length"], a["salt"], a["iterations"], secret), data)
    if kind == "pbm":
        k = bytes_of(secret) + bytes_of(a["salt"])
        for _ in range(a["iterations"]):
            k = p.hash(a["hash"], k)
        return p.hmac(a["mac"], k, data)
    raise AssertionError(kind)


PROTECT = {
    "hmac": ("hmac", "hmac"),
    "kmac": ("kmac", "kmac"),
    "gmac": ("gmac", None),
    "pbmac1": ("pbmac1", "pbmac1"),
    "pbm": ("pbm", "password_based_mac"),
}


@harness("C17", MODS, {k: {"kind": k} for k in PROTECT}, bound="every supported hash, KMAC and GMAC variant; 2 bytes of salt and secret (16 to 64 for GMAC/KMAC), 1 to 3 PBM iterations; one symbolic byte of header and of body, one symbolic protection byte, changed or not", budget=120)
def mac(h, kind):
    pu = h.module("resources.protectionutils")
    ex = h.module("resources.exceptions")
    p = Prim(h)
    h.patch(pu, "prepare_pki_protection_field", Prot)
    if kind == "kmac":
        alg = h.choice("hash", ("shake128", "shake256"))
    elif kind == "gmac":
        alg = h.choice("key_size", (16, 24, 32))
    else:
        alg = h.choice("hash", tuple(HASHES))
    ns = {"gmac": alg, "kmac": 32}.get(kind, 2)
    secret = h.bytes("secret", ns)
    nonce, body = h.bytes("nonce", 1), h.bytes("body", 1)
    a = {"hash": alg, "mac": alg}
    deep = alg in ("sha256", "shake256", 32)
    params = {"hash_alg": alg}
    name = PROTECT[kind][1]
    if kind == "gmac":
        name = GMAC_NAME[alg]
        params = {}
    if kind in ("pbm", "pbmac1", "gmac"):
        # 0x.. text would be read as hexadecimal; these are bytes
        a["salt"] = params["salt"] = h.bytes("salt", 12 if kind == "gmac" else 2)
    if kind == "pbm":
        a["iterations"] = params["iterations"] = h.choice("iterations", (1, 2, 3) if deep else (2,))
    if kind == "pbmac1":
        a["iterations"] = params["iterations"] = h.choice("iterations", (1, 100000) if deep else (7,))
        a["length"] = params["length"] = h.choice("length", (16, 32) if deep else (20,))
    m = Msg(message(h, nonce, body))
    r = h.attempt(pu.protect_pkimessage, m, name, password=secret, allowed=(ValueError, ex.CMPTestSuiteError), **params)
    h.check(r.ok, "a message is protected")
    if not r.ok:
        return
    m = r.value
    check_alg(h, m["header"]["protectionAlg"], kind, a)
    want = spec(p, kind, secret, der(m), a)
    h.check(h.eq(bytes_of(m["protection"].asOctets()), want), "the protection is the MAC of header and body")
    # what the receiver sees: any secret, header byte, body byte and protection
    what = h.choice("change", ("secret", "header", "body", "protection", "length", "none") if deep else ("secret", "length"))
    s2 = secret
    if what == "secret":
        s2 = h.bytes("secret2", ns)
    elif what in ("header", "body"):
        m2 = Msg(message(h, h.bytes("nonce2", 1) if what == "header" else nonce, h.bytes("body2", 1) if what == "body" else body))
        m2["header"]["protectionAlg"] = m["header"]["protectionAlg"]
        m2.p = m.p
        m = m2
    elif what == "protection":
        v = bytes_of(m.p.v)
        i = h.choice("position", (0, len(v) - 1))
        m.p = Prot(v[:i] + h.bytes("byte", 1) + v[i + 1 :])
    elif what == "length":
        m.p = other_length(h, m)
    v = h.attempt(pu.verify_pkimessage_protection, m, password=s2, allowed=(ex.BadMacProtection,))
    h.check(h.iff(v.ok, h.eq(bytes_of(m.p.v), spec(p, kind, s2, der(m), a))), "a protection is accepted if and only if it is the MAC under the secret")
    h.reach(what)


def check_alg(h, alg, kind, a):
    """The protectionAlg names the algorithm and its parameters."""
    oid = str(alg["algorithm"])
    par = alg["parameters"]
    if kind == "hmac":
        return h.check(oid == HMAC_OID[a["hash"]], "protectionAlg is the HMAC")
    if kind == "kmac":
        return h.check(oid == KMAC_OID[a["hash"]] and not par.isValue, "protectionAlg is the KMAC")
    if kind == "gmac":
        h.check(oid == GMAC_OID[a["hash"]], "protectionAlg is the GMAC")
        return h.check(h.eq(bytes_of(par["nonce"].asOctets()), a["salt"]), "the nonce is in the parameters")
    if kind == "pbm":
        h.check(oid == PBM and str(par["owf"]["algorithm"]) == SHA_OID[a["hash"]] and str(par["mac"]["algorithm"]) == HMAC_OID[a["mac"]], "protectionAlg names the hash and the MAC")
        return h.check(h.both(h.eq(bytes_of(par["salt"].asOctets()), a["salt"]), int(par["iterationCount"]) == a["iterations"]), "salt and iteration count are in the parameters")
    h.check(oid == PBMAC1 and str(par["keyDerivationFunc"]["algorithm"]) == PBKDF2 and str(par["messageAuthScheme"]["algorithm"]) == HMAC_OID[a["mac"]], "protectionAlg names the KDF and the MAC")
    k = par["keyDerivationFunc"]["parameters"]
    h.check(str(k["prf"]["algorithm"]) == HMAC_OID[a["hash"]], "the PRF is in the parameters")
    h.check(h.both(h.eq(bytes_of(k["salt"]["specified"].asOctets()), a["salt"]), int(k["iterationCount"]) == a["iterations"], int(k["keyLength"]) == a["length"]), "salt, iteration count and key length are in the parameters")


def oid(s):
    from pyasn1.type import univ

    return univ.ObjectIdentifier(s)


def alg_id(o, params=None):
    from pyasn1_alt_modules import rfc9480

    a = rfc9480.AlgorithmIdentifier()
    a["algorithm"] = oid(o)
    if params is not None:
        a["parameters"] = params
    return a


def wire(alg):
    """The AlgorithmIdentifier a receiver decodes."""
    from pyasn1.codec.der import decoder, encoder
    from pyasn1_alt_modules import rfc9480

    return decoder.decode(encoder.encode(alg), asn1Spec=rfc9480.AlgorithmIdentifier())[0]


def set_alg(m, alg):
    from pyasn1.type import tag

    m["header"]["protectionAlg"] = alg.subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1), cloneValueFlag=True)


def pbm_params(owf, mac, salt, iterations):
    from pyasn1.type import constraint, univ
    from pyasn1_alt_modules import rfc9480

    q = rfc9480.PBMParameter()
    q["salt"] = univ.OctetString(salt).subtype(subtypeSpec=constraint.ValueSizeConstraint(0, 128))
    q["iterationCount"] = iterations
    q["owf"] = alg_id(owf, univ.Null(""))
    q["mac"] = alg_id(mac)
    return q


def pbmac1_params(prf, mac, salt, iterations, length, kdf=PBKDF2):
    from pyasn1.type import univ
    from pyasn1_alt_modules import rfc8018

    k = rfc8018.PBKDF2_params()
    k["salt"]["specified"] = univ.OctetString(salt)
    k["iterationCount"] = iterations
    k["keyLength"] = length
    k["prf"] = alg_id(prf)
    q = rfc8018.PBMAC1_params()
    q["keyDerivationFunc"] = alg_id(kdf, k)
    q["messageAuthScheme"] = alg_id(mac)
    return q


def gcm_params(nonce):
    from pyasn1.type import univ
    from pyasn1_alt_modules import rfc9044

    g = rfc9044.GCMParameters()
    g["nonce"] = univ.OctetString(nonce)
    return g


UNKNOWN = "1.2.3.4"


@harness("C17", MODS, {"received/" + k: {"kind": k} for k in ("pbm", "pbmac1")}, bound="every pair of supported hash (or an unknown algorithm) for the two algorithm fields, lightweight profile on or off, decoded and structured parameters; any 2-byte secret, any 64-byte protection", budget=120)
def received(h, kind):
    pu = h.module("resources.protectionutils")
    ex = h.module("resources.exceptions")
    p = Prim(h)
    first = h.choice("first", tuple(HASHES) + ("unknown",))
    mac = h.choice("mac", ("sha1", "sha256", "sha384", "sha3_256", "unknown"))
    lwcmp = h.choice("lwcmp", (True, False))
    secret, prot = h.bytes("secret", 2), None
    a = {"hash": first, "mac": mac, "salt": b"some salt", "iterations": 2, "length": 20}
    mac_oid = HMAC_OID.get(mac, UNKNOWN)
    if kind == "pbm":
        alg = alg_id(PBM, pbm_params(SHA_OID.get(first, UNKNOWN), mac_oid, a["salt"], 2))
    else:
        alg = alg_id(PBMAC1, pbmac1_params(HMAC_OID.get(first, UNKNOWN), mac_oid, a["salt"], 2, 20))
    if first not in ("sha1", "sha256", "unknown") or h.choice("decoded", (True, False)):
        alg = wire(alg)
    m = Msg(message(h, b"\x01", b"\x02"))
    set_alg(m, alg)
    known = "unknown" not in (first, mac)
    prot = h.bytes("protection", HASHES.get(mac, 20))
    m.p = Prot(prot)
    v = h.attempt(pu.verify_pkimessage_protection, m, password=secret, enforce_lwcmp=lwcmp, allowed=(ValueError, ex.CMPTestSuiteError))
    if not known:
        return h.check(not v.ok and not isinstance(v.exc, ex.BadMacProtection), "an unknown algorithm is refused")
    if lwcmp and (first != mac or mac not in SHA2):
        return h.check(isinstance(v.exc, (ex.LwCMPViolation, ex.BadAlg)), "the lightweight profile wants one SHA-2 hash")
    h.check(v.ok or isinstance(v.exc, ex.BadMacProtection), "a supported algorithm is computed")
    h.check(h.iff(v.ok, h.eq(prot, spec(p, kind, secret, der(m), a))), "a protection is accepted if and only if it is the MAC under the secret")


@harness("C17", MODS, {"compute/" + k: {"kind": k} for k in ("hmac", "kmac", "gmac", "pbm", "pbmac1")}, bound="every supported algorithm, decoded and structured parameters; any 2-byte secret and data", budget=120)
def compute(h, kind):
    """compute_mac_from_alg_id (proof of possession) computes the MAC the AlgorithmIdentifier names."""
    pu = h.module("resources.protectionutils")
    ex = h.module("resources.exceptions")
    p = Prim(h)
    a = {"salt": b"salt", "iterations": 2, "length": 20}
    n = 2
    if kind == "hmac":
        a["hash"] = h.choice("hash", tuple(HASHES))
        alg = alg_id(HMAC_OID[a["hash"]])
    elif kind == "kmac":
        a["hash"] = h.choice("hash", ("shake128", "shake256"))
        alg, n = alg_id(KMAC_OID[a["hash"]]), 32
    elif kind == "gmac":
        n = h.choice("key_size", (16, 24, 32))
        alg = alg_id(GMAC_OID[n], gcm_params(a["salt"]))
    else:
        a["hash"] = h.choice("first", tuple(HASHES))
        a["mac"] = h.choice("mac", ("sha1", "sha256", "sha512", "sha3_256"))
        if kind == "pbm":
            alg = alg_id(PBM, pbm_params(SHA_OID[a["hash"]], HMAC_OID[a["mac"]], a["salt"], 2))
        else:
            alg = alg_id(PBMAC1, pbmac1_params(HMAC_OID[a["hash"]], HMAC_OID[a["mac"]], a["salt"], 2, 20))
    if h.choice("decoded", (True, False)):
        alg = wire(alg)
    key, data = h.bytes("key", n), h.bytes("data", 2)
    r = h.attempt(pu.compute_mac_from_alg_id, key=key, alg_id=alg, data=data, allowed=(ValueError, ex.CMPTestSuiteError))
    h.check(r.ok, "a supported algorithm is computed")
    if r.ok:
        h.check(h.eq(bytes_of(r.value), spec(p, kind, key, data, a)), "the MAC is the one the algorithm identifier names")


@harness("C17", MODS, {"dh/" + k: {"kind": k} for k in ("hmac", "gmac", "kmac")}, bound="every hash and every MAC; any 2-byte shared secret", budget=120)
def dh(h, kind):
    """DHBasedMac: the MAC key is made of OWF(shared secret)."""
    pu = h.module("resources.protectionutils")
    ex = h.module("resources.exceptions")
    p = Prim(h)
    h.patch(pu, "prepare_pki_protection_field", Prot)
    owf = h.choice("owf", tuple(HASHES))
    deep = owf in ("sha256", "sha3_512")
    if kind == "hmac":
        sub = h.choice("mac", ("sha1", "sha256", "sha3_512") if deep else ("sha256",))
        name = "hmac-" + sub
    elif kind == "kmac":
        sub = h.choice("mac", ("shake128", "shake256") if deep else ("shake256",))
        name = "kmac-" + sub
    else:
        sub = h.choice("mac", (16, 24, 32) if deep else (32,))
        name = GMAC_NAME[sub]
    ss, nonce = h.bytes("secret", 2), h.bytes("nonce", 1)
    params = {"salt": b"0123456789ab"} if kind == "gmac" else {}
    m = Msg(message(h, nonce, b"\x07"))
    r = h.attempt(pu.protect_pkimessage, m, "dh", shared_secret=ss, hash_alg=owf, mac_alg=name, allowed=(ValueError, ex.CMPTestSuiteError), **params)
    h.check(r.ok, "a message is protected")
    if not r.ok:
        return
    m = r.value

    def mac(ss, data):
        base = p.hash(owf, ss)
        if kind == "hmac":
            return p.hmac(sub, base, data)
        size = 32 if kind == "kmac" else sub
        k, i = base, 1
        while len(k) < size:
            k = k + p.hash(owf, str(i).encode() + base)
            i += 1
        k = k[:size]
        return p.gmac(k, params["salt"], data) if kind == "gmac" else p.kmac(sub[5:], k, data, 32 if sub == "shake128" else 64)

    alg = m["header"]["protectionAlg"]
    par = alg["parameters"]
    h.check(str(alg["algorithm"]) == DHBM and str(par["owf"]["algorithm"]) == SHA_OID[owf], "protectionAlg names the one-way function")
    h.check(str(par["mac"]["algorithm"]) == (HMAC_OID[sub] if kind == "hmac" else KMAC_OID[sub] if kind == "kmac" else GMAC_OID[sub]), "protectionAlg names the MAC")
    h.check(h.eq(bytes_of(m.p.v), mac(ss, der(m))), "the protection is the MAC of header and body")
    if h.choice("decoded", (True, False)):
        set_alg(m, wire(alg_id(DHBM, par)))
    what = h.choice("change", ("secret", "protection", "length", "none")) if sub in ("sha256", 32, "shake256") and deep else "secret"
    s2 = h.bytes("secret2", 2) if what == "secret" else ss
    if what == "protection":
        m.p = Prot(h.bytes("protection", len(m.p.v)))
    elif what == "length":
        m.p = other_length(h, m)
    v = h.attempt(pu.verify_pkimessage_protection, m, shared_secret=s2, allowed=(ex.BadMessageCheck,))
    h.check(h.iff(v.ok, h.eq(bytes_of(m.p.v), mac(s2, der(m)))), "a protection is accepted if and only if it is the MAC under the secret")


KDF_OID = {"kdf2": "1.3.133.16.840.9.44.1.1", "kdf3": "1.3.133.16.840.9.44.1.2"}
HKDF_OID = {"sha256": 28, "sha384": 29, "sha512": 30, "sha3_224": 32, "sha3_256": 33, "sha3_384": 34, "sha3_512": 35}
LENGTHS = {"kdf2": (16, 80), "kdf3": (16, 80), "hkdf": (20,), "pbkdf2": (20,)}


@harness("C17", MODS, {"kem/" + k: {"kdf": k} for k in ("kdf2", "kdf3", "hkdf", "pbkdf2")}, bound="every hash of the KDF, HMAC and KMAC, with and without kemContext, one or two KDF blocks, decoded and structured parameters, any 2-byte shared secret, 1-byte transactionID and context", budget=120)
def kem(h, kdf):
    """KEMBasedMac: MAC key = KDF(shared secret, KemOtherInfo of the transaction)."""
    from pyasn1.type import tag, univ

    pu = h.module("resources.protectionutils")
    ex = h.module("resources.exceptions")
    st = h.module("resources.asn1_structures")
    p = Prim(h)
    hs = h.choice("hash", tuple(HKDF_OID) if kdf == "hkdf" else tuple(HASHES))
    deep = hs in ("sha256", "sha3_256")
    mac = h.choice("mac", ("sha1", "sha256", "sha3_512", "shake128", "shake256") if deep else ("sha256",))
    length = h.choice("length", LENGTHS[kdf] if deep else LENGTHS[kdf][-1:])
    with_ctx = h.choice("context", (True, False)) if deep else True
    ss = h.bytes("secret", 2)
    tx = h.bytes("tx", 1)
    ctx = h.bytes("ctx", 1) if with_ctx and kdf == "kdf3" else b"ctx" if with_ctx else None
    if kdf == "hkdf":
        a = alg_id("1.2.840.113549.1.9.16.3.%d" % HKDF_OID[hs])
    elif kdf == "pbkdf2":
        a = pbmac1_params(HMAC_OID[hs], HMAC_OID["sha1"], b"salt", 7, 24)["keyDerivationFunc"]
    else:
        a = alg_id(KDF_OID[kdf], alg_id(SHA_OID[hs]))
    q = st.KemBMParameterAsn1()
    q["kdf"]["algorithm"] = a["algorithm"]
    if a["parameters"].isValue:
        q["kdf"]["parameters"] = a["parameters"]
    if with_ctx:
        q["kemContext"] = univ.OctetString(ctx).subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0))
    q["len"] = length
    q["mac"]["algorithm"] = oid(HMAC_OID[mac] if mac in HMAC_OID else KMAC_OID[mac])
    alg = alg_id(KEMBM, q)
    concrete = ctx is None or kdf != "kdf3"
    if concrete and (not deep or h.choice("decoded", (True, False))):
        alg = wire(alg)
    m = Msg(message(h, b"\x01", b"\x02", tx=tx))
    set_alg(m, alg)
    # KemOtherInfo ::= SEQUENCE { staticString PKIFreeText, transactionID OCTET STRING, kemContext [0] OCTET STRING OPTIONAL }
    info = b"\x30\x09\x0c\x07CMP-KEM" + b"\x04\x01" + bytes_of(tx)
    if with_ctx:
        info = info + b"\x80" + bytes([len(ctx)]) + bytes_of(ctx)
    info = b"\x30" + bytes([len(info)]) + info
    if kdf == "hkdf":
        key = p.hkdf(hs, length, b"", info, ss)
    elif kdf == "pbkdf2":
        key = p.pbkdf2(hs, 24, b"salt", 7, ss)
    else:
        key, i = b"", 1
        while len(key) < length:
            c = i.to_bytes(4, "big")
            key = key + p.hash(hs, bytes_of(ss) + c + info if kdf == "kdf2" else c + bytes_of(ss) + info)
            i += 1
        key = key[:length]
    want = p.hmac(mac, key, der(m)) if mac in HMAC_OID else p.kmac(mac[5:], key, der(m), 32 if mac == "shake128" else 64)
    prot = h.bytes("protection", len(want))
    m.p = Prot(want)
    if deep and not with_ctx and h.choice("other_length", (False, True)):
        m.p = other_length(h, m)
        prot = m.p.v
    else:
        m.p = Prot(prot)
    v = h.attempt(pu.verify_pkimessage_protection, m, shared_secret=ss, allowed=(ValueError, ex.CMPTestSuiteError))
    h.check(v.ok or isinstance(v.exc, ex.BadMessageCheck), "a supported algorithm is computed")
    h.check(h.iff(v.ok, h.eq(prot, want)), "a protection is accepted if and only if it is the MAC under the shared secret")


def signers(h):
    """Keys whose signatures are arbitrary functions of algorithm and data; the class names are those the code maps."""
    from cryptography.exceptions import InvalidSignature
    from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519, padding, rsa

    fs = {}

    def f(kind, data):
        if kind not in fs:
            fs[kind] = h.xof("SIG_" + kind.replace("-", "_"))
        return fs[kind](bytes_of(data), n=4)

    def kind_of(args, kw):
        pad = [x for x in list(args) + list(kw.values()) if isinstance(x, padding.PSS)]
        alg = [x for x in list(args) + list(kw.values()) if hasattr(x, "digest_size")]
        ecdsa = [x for x in list(args) + list(kw.values()) if isinstance(x, ec.ECDSA)]
        if pad:
            return "pss_%s_%s_%s" % (alg[0].name, pad[0]._mgf._algorithm.name, pad[0]._salt_length)
        return (ecdsa[0].algorithm if ecdsa else alg[0]).name if alg or ecdsa else ""

    def make(base_priv, base_pub, name):
        class Pub(base_pub):
            def verify(self, signature, data, *a, **k):
                if not h.eq(bytes_of(signature), f(name + kind_of(a, k), data)):
                    raise InvalidSignature()

        class Priv(base_priv):
            def sign(self, data, *a, **k):
                return f(name + kind_of(a, k), data)

            def public_key(self):
                return Pub()

        for c, b in ((Pub, base_pub), (Priv, base_priv)):
            c.__abstractmethods__ = frozenset()
            c.__name__ = b.__name__
        return Priv()

    keys = {
        "rsa": make(rsa.RSAPrivateKey, rsa.RSAPublicKey, "rsa"),
        "ecdsa": make(ec.EllipticCurvePrivateKey, ec.EllipticCurvePublicKey, "ecdsa"),
        "ed25519": make(ed25519.Ed25519PrivateKey, ed25519.Ed25519PublicKey, "ed25519"),
        "ed448": make(ed448.Ed448PrivateKey, ed448.Ed448PublicKey, "ed448"),
    }
    sk = h.module("pq_logic.keys.sig_keys")

    def pq(priv, pub, name):
        class Pub(pub):
            def __init__(self):
                self._name = name

            name = property(lambda s: s._name)

            def verify(self, signature, data, hash_alg=None, is_prehashed=False, ctx=b""):
                if not h.eq(bytes_of(signature), f("%s_%s" % (name, hash_alg), data)):
                    raise InvalidSignature()

        class Priv(priv):
            def __init__(self):
                self._name = name

            name = property(lambda s: s._name)

            def sign(self, data, hash_alg=None, ctx=b"", is_prehashed=False):
                return f("%s_%s" % (name, hash_alg), data)

            def public_key(self):
                return Pub()

        for c in (Pub, Priv):
            c.__abstractmethods__ = frozenset()
        return Priv()

    for n in ("ml-dsa-44", "ml-dsa-65"):
        keys[n] = pq(sk.MLDSAPrivateKey, sk.MLDSAPublicKey, n)
    for n in ("slh-dsa-sha2-128s", "slh-dsa-shake-256f"):
        keys[n] = pq(sk.SLHDSAPrivateKey, sk.SLHDSAPublicKey, n)
    return keys, f


RSA_OID = {"sha224": "1.2.840.113549.1.1.14", "sha256": "1.2.840.113549.1.1.11", "sha384": "1.2.840.113549.1.1.12", "sha512": "1.2.840.113549.1.1.13"}
ECDSA_OID = {"sha224": "1.2.840.10045.4.3.1", "sha256": "1.2.840.10045.4.3.2", "sha384": "1.2.840.10045.4.3.3", "sha512": "1.2.840.10045.4.3.4"}
PSS_OID = "1.2.840.113549.1.1.10"
# (key, hash) -> (OID, name of the signature function)
SIG = {("rsa", k): (o, "rsa" + k) for k, o in RSA_OID.items()}
SIG.update({("ecdsa", k): (o, "ecdsa" + k) for k, o in ECDSA_OID.items()})
SIG.update({("ecdsa", "sha3_%d" % n): ("2.16.840.1.101.3.4.3.%d" % i, "ecdsasha3-%d" % n) for n, i in ((224, 9), (256, 10), (384, 11), (512, 12))})
SIG.update({("rsa", "sha3_%d" % n): ("2.16.840.1.101.3.4.3.%d" % i, "rsasha3-%d" % n) for n, i in ((224, 13), (256, 14), (384, 15), (512, 16))})
SIG.update({
    ("ed25519", "sha256"): ("1.3.101.112", "ed25519"),
    ("ed448", "sha256"): ("1.3.101.113", "ed448"),
    ("ml-dsa-44", "sha256"): ("2.16.840.1.101.3.4.3.17", "ml-dsa-44_None"),
    ("ml-dsa-44", "sha512"): ("2.16.840.1.101.3.4.3.32", "ml-dsa-44_sha512"),
    ("ml-dsa-65", "sha256"): ("2.16.840.1.101.3.4.3.18", "ml-dsa-65_None"),
    ("slh-dsa-sha2-128s", "sha512"): ("2.16.840.1.101.3.4.3.20", "slh-dsa-sha2-128s_None"),
    ("slh-dsa-sha2-128s", "sha256"): ("2.16.840.1.101.3.4.3.35", "slh-dsa-sha2-128s_sha256"),
    ("slh-dsa-shake-256f", "shake256"): ("2.16.840.1.101.3.4.3.46", "slh-dsa-shake-256f_shake256"),
})


@harness("C17", MODS, {"sig/" + g: {"group": g} for g in ("rsa", "ecdsa", "other")}, bound="RSA, ECDSA (SHA-2, SHA-3), EdDSA, ML-DSA, SLH-DSA (also pre-hash) keys; the certificate or the public key given; one symbolic byte of header, body and signature, or another algorithm of the table in protectionAlg", budget=120)
def sig(h, group):
    from pyasn1.type import univ

    pu = h.module("resources.protectionutils")
    ex = h.module("resources.exceptions")
    cu = h.module("resources.certutils")
    from cryptography.exceptions import InvalidSignature

    h.patch(pu, "prepare_pki_protection_field", Prot)
    keys, f = signers(h)
    from harnesses.cmp import real_cert

    which = [k for k in SIG if (k[0] if k[0] in ("rsa", "ecdsa") else "other") == group]
    kn, hs = h.choice("key", tuple(which))
    key = keys[kn]
    oid_, fn = SIG[(kn, hs)]
    cert, cert2 = real_cert(1), real_cert(2)
    h.patch(cu, "load_public_key_from_cert", lambda c: key.public_key())
    h.patch(pu.certutils, "load_public_key_from_cert", lambda c: key.public_key())
    nonce, body = h.bytes("nonce", 1), h.bytes("body", 1)
    m = Msg(message(h, nonce, body))
    r = h.attempt(pu.protect_pkimessage, m, "signature", private_key=key, cert=cert, cert_chain=[cert, cert2], hash_alg=hs, allowed=(ValueError, ex.CMPTestSuiteError))
    h.check(r.ok, "a message is protected")
    if not r.ok:
        return
    m = r.value
    alg = m["header"]["protectionAlg"]
    h.check(str(alg["algorithm"]) == oid_, "protectionAlg names the algorithm of the key and the hash")
    h.check(bool(alg["parameters"].isValue) == (kn == "rsa"), "parameters are NULL for RSA and absent otherwise")
    h.check([int(c["tbsCertificate"]["serialNumber"]) for c in m["extraCerts"]] == [1, 2], "extraCerts is the chain, starting with the signer's certificate")
    h.check(m["header"]["sender"]["directoryName"].isValue and str(m["header"]["sender"].prettyPrint()) != "" and m["header"]["senderKID"].isValue, "sender and senderKID are those of the certificate")
    h.check(h.eq(bytes_of(m.p.v), f(fn, der(m))), "the protection is the signature of header and body")
    what = h.choice("change", ("header", "body", "protection", "none", "alg") if hs == "sha256" else ("protection", "alg") if group == "other" else ("protection",))
    if what in ("header", "body"):
        m2 = message(h, h.bytes("nonce2", 1) if what == "header" else nonce, h.bytes("body2", 1) if what == "body" else body)
        m["header"]["senderNonce"] = m2["header"]["senderNonce"]
        m["body"]["certConf"][0]["certHash"] = m2["body"]["certConf"][0]["certHash"]
    elif what == "protection":
        v = bytes_of(m.p.v)
        m.p = Prot(v[:3] + h.bytes("byte", 1))
    ok_alg = True
    if what == "alg":
        o = h.choice("other", tuple(k for k in SIG if k != (kn, hs) and (k[1] in ("sha256", "sha384") or k[0] not in ("rsa", "ecdsa"))))
        set_alg(m, alg_id(SIG[o][0], univ.Null("") if o[0] == "rsa" else None))
        fn = SIG[o][1]
        ok_alg = o[0] == kn
        m.p = Prot(h.bytes("signature", 4))
    given = h.choice("given", (True, False))
    v = h.attempt(pu.verify_pkimessage_protection, m, public_key=key.public_key() if given else None, allowed=(ValueError, InvalidSignature, ex.CMPTestSuiteError))
    if not ok_alg:
        return h.check(not v.ok, "a signature algorithm which is not one of the key is refused")
    h.check(h.iff(v.ok, h.eq(bytes_of(m.p.v), f(fn, der(m)))), "a protection is accepted if and only if it is the signature of header and body")
    h.reach(what)


@harness("C17", MODS, {"pss": {}}, bound="every SHA-2/SHA-3 hash, salt lengths 0 to 64; parameters structured or decoded; any 1-byte body, any 4-byte signature", budget=120)
def pss(h):
    """RSASSA-PSS signs and verifies with the hash, the MGF hash and the salt length of the parameters."""
    from pyasn1.type import tag, univ
    from pyasn1_alt_modules import rfc8017

    pu = h.module("resources.protectionutils")
    ex = h.module("resources.exceptions")
    from cryptography.exceptions import InvalidSignature

    keys, f = signers(h)
    key = keys["rsa"]
    hs = h.choice("hash", tuple(k for k in HASHES if k != "sha1"))
    salt = h.choice("salt_length", (0, 20, HASHES[hs]))
    q = rfc8017.RSASSA_PSS_params()
    q["hashAlgorithm"]["algorithm"] = oid(SHA_OID[hs])
    q["maskGenAlgorithm"]["algorithm"] = rfc8017.id_mgf1
    mgf = h.choice("mgf", (hs, "sha1"))
    q["maskGenAlgorithm"]["parameters"] = alg_id(SHA_OID[mgf])
    q["saltLength"] = salt
    alg = alg_id(PSS_OID, q)
    if h.choice("decoded", (True, False)):
        alg = wire(alg)
    data = h.bytes("data", 1)
    name = hs.replace("_", "-")
    want = f("rsapss_%s_%s_%d" % (name, name, salt), data)
    if mgf == hs:
        r = h.attempt(pu.sign_data_with_alg_id, key=key, alg_id=alg, data=data, allowed=(ValueError, ex.CMPTestSuiteError))
        h.check(r.ok, "data is signed")
        if r.ok:
            h.check(h.eq(bytes_of(r.value), want), "the signature is that of the parameters")
    s = h.bytes("signature", 4)
    v = h.attempt(pu.verify_signature_with_alg_id, key.public_key(), alg, data, s, allowed=(ValueError, InvalidSignature, ex.CMPTestSuiteError))
    if mgf != hs:
        return h.check(not v.ok and not isinstance(v.exc, InvalidSignature), "a different hash of the mask generation function is refused")
    h.check(v.ok or isinstance(v.exc, InvalidSignature), "a supported algorithm is verified")
    h.check(h.iff(v.ok, h.eq(s, want)), "a signature is accepted if and only if it is that of the parameters")


@harness("C17", MODS, {"match/" + k: {"kind": k} for k in ("pbm", "pbmac1", "plain")}, bound="every combination of equal or different algorithm, hash, MAC, iteration count, key length and salt, NULL or absent parameters, for request, response and pkiconf, same_salt, allow_null, strict or not", budget=120)
def match(h, kind):
    """mac_protection_algorithms_must_match accepts exactly the responses protected with the algorithm of the request."""
    from pyasn1.type import univ

    pu = h.module("resources.protectionutils")
    same_salt, allow_null = h.choice("same_salt", (False, True)), h.choice("allow_null", (True, False))

    def alg(who, differ):
        a = {"first": "sha256", "mac": "sha256", "salt": b"salt", "it": 5, "len": 20}
        null = False
        if differ in a:
            a[differ] = {"first": "sha512", "mac": "sha384", "salt": b"pepper", "it": 6, "len": None if who == "response2" else 24}[differ]
        if who != "request" and differ != "salt" and not same_salt:
            a["salt"] = b"other" if who == "response" else b"third"
        null = differ == "null"
        if differ == "alg":
            return alg_id(HMAC_OID["sha256"], univ.Null(""))
        if kind == "pbm":
            q = pbm_params(SHA_OID[a["first"]], HMAC_OID[a["mac"]], a["salt"], a["it"])
            if not null:
                q["owf"] = alg_id(SHA_OID[a["first"]])
            return alg_id(PBM, q)
        q = pbmac1_params(HMAC_OID[a["first"]], HMAC_OID[a["mac"]], a["salt"], a["it"], a["len"])
        if null:
            q["messageAuthScheme"] = alg_id(HMAC_OID[a["mac"]], univ.Null(""))
        return alg_id(PBMAC1, q)

    fields = ("none", "first", "mac", "salt", "it", "null", "alg") + (("len",) if kind == "pbmac1" else ())
    if kind == "plain":
        fields = ("none", "alg")

        def alg(who, differ):
            return alg_id(HMAC_OID["sha256" if differ == "none" else "sha512"], univ.Null(""))

    lwcmp = h.choice("lwcmp", (True, False))
    d1 = h.choice("response", fields)
    d2 = h.choice("pkiconf", ("absent",) + fields) if d1 in ("none", "it") else "absent"
    strict = h.choice("strict", (True, False))
    req, resp = Msg(message(h, b"\x01", b"\x02")), Msg(message(h, b"\x01", b"\x02"))
    set_alg(req, alg("request", "none"))
    set_alg(resp, wire(alg("response", d1)))
    conf = None
    if d2 != "absent":
        conf = Msg(message(h, b"\x01", b"\x02"))
        set_alg(conf, wire(alg("pkiconf", d2)))
    ex = h.module("resources.exceptions")
    r = h.attempt(pu.mac_protection_algorithms_must_match, req, resp, conf, same_salt=same_salt, allow_null=allow_null, strict=strict, enforce_lwcmp=lwcmp, allowed=(ValueError, ex.BadAlg))
    if not strict:
        # only the kind of protection counts
        allowed = not lwcmp or (kind != "plain" and "alg" not in (d1, d2))
        return h.check(r.ok == allowed, "without strict, MAC protection of the allowed kind suffices")

    def good(d, conf=False):
        if d == "absent":
            return True
        if d == "null":
            # with same_salt the pkiconf has to be identical to the response
            return allow_null and not (conf and same_salt)
        if d == "salt":
            return not same_salt
        return d == "none"

    want = good(d1) and good(d2, True) and not (lwcmp and kind == "plain")
    h.check(r.ok == want, "the responses accepted are those protected like the request")


LW = ("1.2.840.113533.7.66.13", "1.2.840.113549.1.5.14")
MSG_SIG = tuple(RSA_OID.values()) + tuple(ECDSA_OID.values()) + (PSS_OID, "1.3.6.1.5.5.7.6.30", "1.3.6.1.5.5.7.6.31", "1.3.6.1.5.5.7.6.32", "1.3.6.1.5.5.7.6.33", "1.3.101.112", "1.3.101.113")


@harness("C17", MODS, {"lwcmp": {}}, bound="every algorithm of the tables, with and without the lightweight profile, DH and KEM allowed or not")
def lwcmp(h):
    """The kind of protection of each algorithm, and those the lightweight profile (RFC 9481) admits."""
    pu = h.module("resources.protectionutils")
    ex = h.module("resources.exceptions")
    table = {o: "mac" for o in list(HMAC_OID.values()) + list(KMAC_OID.values()) + list(GMAC_OID.values()) + [PBM, PBMAC1]}
    table.update({o: "sig" for o in list(RSA_OID.values()) + list(ECDSA_OID.values()) + list(MSG_SIG)})
    table.update({o: "sig" for (k, s), (o, _) in SIG.items() if k in ("rsa", "ecdsa")})
    table.update({o: "pq-sig" for (k, s), (o, _) in SIG.items() if "dsa-" in k})
    table.update({"1.3.6.1.5.5.7.6.34": "pq-hash-stateful-sig", "1.2.840.113549.1.9.16.3.17": "pq-hash-stateful-sig", DHBM: "dh_based_mac", KEMBM: "kem_based_mac", UNKNOWN: None})
    o = h.choice("oid", tuple(table))
    lw, dh, kem = h.choice("lwcmp", (True, False)), h.choice("allow_dh", (True, False)), h.choice("allow_kem", (True, False))
    m = Msg(message(h, b"\x01", b"\x02"))
    set_alg(m, alg_id(o))
    r = h.attempt(pu.get_protection_type_from_pkimessage, m, enforce_lwcmp=lw, allow_dh=dh, allow_kem=kem, allowed=(ex.BadAlg, ex.UnknownOID))
    t = table[o]
    want = t is not None
    if lw and t not in ("dh_based_mac", "kem_based_mac"):
        want = want and (o in LW or o in MSG_SIG)
    if t == "dh_based_mac":
        want = dh
    if t == "kem_based_mac":
        want = kem
    h.check(r.ok == want, "the algorithms admitted are those of the profile")
    h.check(not r.ok or r.value == t, "the kind of protection is that of the algorithm")
