"""C19 EnvelopedData and centrally generated keys: content reaches the addressed recipient only, and a received key is used only if all of it is in order."""

from harnesses.c17 import Prim
from harnesses.c18 import kem_key, raw
from harnesses.cmp import CMP, PY, real_cert
from harnesses.stubs import bytes_of
from symex.harness import harness

ASSUMPTIONS = [
    "AES key wrap, AES-CBC and RSA decryption recover what was encrypted with the same key (and padding, IV) and fail otherwise",
    "PBKDF2, HKDF and the hash functions are arbitrary functions of all their inputs, the KEM returns an arbitrary secret to the holder of the key",
    "verification of the signature and of the certificate chain of the KGA are arbitrary (accept or refuse)",
]
OUTSIDE = ["the cryptographic primitives", "the EnvelopedData version, originatorInfo and unprotectedAttrs", "recipient infos of other kinds (kekri)"]
MODS = CMP + ("resources.protectionutils", "resources.cryptoutils", "resources.envdatautils", "resources.ca_kga_logic", "resources.certextractutils", "resources.compareutils", "resources.prepare_alg_ids", "resources.oid_mapping",
              "resources.convertutils", "resources.utils", "resources.certbuildutils", "resources.asn1utils")
WRAP = {16: "2.16.840.1.101.3.4.1.5", 24: "2.16.840.1.101.3.4.1.25", 32: "2.16.840.1.101.3.4.1.45"}
CBC = {16: "2.16.840.1.101.3.4.1.2", 24: "2.16.840.1.101.3.4.1.22", 32: "2.16.840.1.101.3.4.1.42"}
SIGNED, DATA = "1.2.840.113549.1.7.2", "1.2.840.113549.1.7.1"
SKI = bytes.fromhex("7e6ed37e8dce841a64831a02e0a283ce94d413c2")


class Refused(Exception):
    """Decryption failed."""


class Vault:
    """AES key wrap, AES-CBC and decoding of symbolic DER."""

    def __init__(self, h, prim=True):
        self.h = h
        self.p = Prim(h) if prim else None
        self.wraps, self.texts, self.known, self.n = [], [], [], 0
        kg, ev, cu = (h.module("resources." + n) for n in ("ca_kga_logic", "envdatautils", "cryptoutils"))
        k = type("keywrap", (), {"aes_key_wrap": staticmethod(self.wrap), "aes_key_unwrap": staticmethod(self.unwrap), "InvalidUnwrap": Refused})
        h.patch(kg, "keywrap", k)
        h.patch(ev, "keywrap", k)
        h.patch(cu, "compute_aes_cbc", self.cbc)
        h.patch(ev, "os", type("os", (), {"urandom": staticmethod(self.random)}))
        dec = h.module("pyasn1.codec.der.decoder")
        self.plain = dec.decode
        h.patch(dec, "decode", self.decode)

    def random(self, n):
        self.n += 1
        v = self.h.bytes(f"random{self.n}", n)
        if n == 16:
            from pyasn1.type import univ

            self.known.append(univ.OctetString(v))
        return v

    def decode(self, data, asn1Spec=None, **k):
        from pyasn1.codec.der import encoder
        from pyasn1.error import PyAsn1Error

        v = data.asOctets() if hasattr(data, "asOctets") else data
        if type(bytes_of(v)) is bytes:
            return self.plain(data, asn1Spec=asn1Spec, **k)
        for x in self.known:
            e = encoder.encode(x)
            if len(e) == len(v) and self.h.eq(bytes_of(e), bytes_of(v)):
                return x, b""
        raise PyAsn1Error("unknown data")

    def wrap(self, wrapping_key, key_to_wrap, backend=None):
        if len(wrapping_key) not in (16, 24, 32) or len(key_to_wrap) < 16 or len(key_to_wrap) % 8:
            raise ValueError("size")
        t = b"%08d" % len(self.wraps) + b"w" * len(key_to_wrap)
        self.wraps.append((bytes_of(wrapping_key), bytes_of(key_to_wrap), t))
        return t

    def unwrap(self, wrapping_key, wrapped_key, backend=None):
        for k, v, t in self.wraps:
            if t == bytes(wrapped_key) and len(k) == len(wrapping_key) and self.h.eq(k, bytes_of(wrapping_key)):
                return v
        raise Refused()

    def cbc(self, key, iv, data, decrypt=True):
        if not decrypt:
            t = b"text%04d" % len(self.texts)
            self.texts.append((bytes_of(key), bytes_of(iv), bytes_of(data), t))
            return t
        for k, i, v, t in self.texts:
            if t == bytes(data) and len(k) == len(key) and self.h.both(self.h.eq(k, bytes_of(key)), self.h.eq(i, bytes_of(iv))):
                return v
        raise Refused()

    def rsa(self, i):
        """An RSA key pair."""
        from cryptography.hazmat.primitives.asymmetric import padding, rsa

        vault = self

        def pad(x):
            if isinstance(x, padding.OAEP):
                return ("oaep", x._algorithm.name, x._mgf._algorithm.name, x._label or b"")
            return ("pkcs1" if isinstance(x, padding.PKCS1v15) else "?",)

        class Pub(rsa.RSAPublicKey):
            def encrypt(self, plaintext, padding):
                t = b"rsa%04d" % len(vault.texts)
                vault.texts.append((i, pad(padding), bytes_of(plaintext), t))
                return t

            def __eq__(self, o):
                return self is o

        class Priv(rsa.RSAPrivateKey):
            def decrypt(self, ciphertext, padding):
                for k, p, v, t in vault.texts:
                    if t == bytes(ciphertext) and k == i and p == pad(padding):
                        return v
                raise Refused()

            def public_key(self):
                return pub

        for c in (Pub, Priv):
            c.__abstractmethods__ = frozenset()
        pub = Pub()
        return Priv(), pub


def cert(h, key=None, ski=True, serial=7):
    """A CMP protection certificate with (or without) a key identifier, for the given public key."""
    c = real_cert(serial)
    if not ski:
        ext = [e for e in c["tbsCertificate"]["extensions"] if str(e["extnID"]) != "2.5.29.14"]
        c["tbsCertificate"]["extensions"].clear()
        c["tbsCertificate"]["extensions"].extend(ext)
    if key is not None:
        c["tbsCertificate"]["subjectPublicKeyInfo"] = h.module("resources.convertutils").subject_public_key_info_from_pubkey(key)
    return c


def ecc(i, curve="secp256r1"):
    from cryptography.hazmat.primitives.asymmetric import ec, x448, x25519

    if curve == "x25519":
        return x25519.X25519PrivateKey.from_private_bytes(bytes([i + 1] * 32))
    if curve == "x448":
        return x448.X448PrivateKey.from_private_bytes(bytes([i + 1] * 56))
    return ec.derive_private_key(1000 + i, {"secp256r1": ec.SECP256R1, "secp384r1": ec.SECP384R1, "secp521r1": ec.SECP521R1}[curve]())


def tlv(t, v):
    n = len(v)
    return bytes([t]) + (bytes([n]) if n < 128 else bytes([0x81, n])) + v


def oid_der(o):
    from pyasn1.codec.der import encoder
    from pyasn1.type import univ

    return encoder.encode(univ.ObjectIdentifier(o))


def x963(p, alg, z, info, n, v3=False):
    """ANSI X9.63 key derivation (KDF2; KDF3 with the counter first)."""
    out, i = b"", 1
    while len(out) < n:
        c = i.to_bytes(4, "big")
        out = out + bytes_of(p.hash(alg, (c + z if v3 else z + c) + info))
        i += 1
    return out[:n]


def shared_info(size, ukm):
    """ECC-CMS-SharedInfo of RFC 5753."""
    u = tlv(0xA0, tlv(4, ukm)) if ukm is not None else b""
    return tlv(0x30, tlv(0x30, oid_der(WRAP[size])) + u + tlv(0xA2, tlv(4, (size * 8).to_bytes(4, "big"))))


def other_info(size, ukm):
    """CMSORIforKEMOtherInfo of RFC 9629."""
    u = tlv(0xA0, tlv(4, ukm)) if ukm is not None else b""
    return tlv(0x30, tlv(0x30, oid_der(WRAP[size])) + tlv(2, bytes([size])) + u)


def mqv(priv, peer, eph):
    k = (priv.private_numbers().private_value, peer.public_numbers().x, eph.public_numbers().x, priv.curve.name)
    if k not in _mqv:
        _mqv[k] = _mqv_of(priv, peer, eph)
    return _mqv[k]


_mqv = {}


def _mqv_of(priv, peer, eph):
    """One-pass ECMQV of SEC 1, for the recipient."""
    from tinyec import registry

    c = registry.get_curve(priv.curve.name)
    n, half = c.field.n, (c.field.n.bit_length() + 1) // 2

    def point(k):
        m = k.public_numbers()
        return h_point(c, m.x, m.y)

    from tinyec.ec import Point as h_point

    def avf(pt):
        return pt.x % 2**half + 2**half

    d = priv.private_numbers().private_value
    s = (d + avf(point(priv.public_key())) * d) % n
    r = (c.field.h * s) * (point(eph) + avf(point(eph)) * point(peer))
    return r.x.to_bytes((c.field.p.bit_length() + 7) // 8, "big")


SENDERS = {
    "kari": [("stdDH", "sha256", 32), ("stdDH", "sha224", 16), ("stdDH", "sha384", 24), ("stdDH", "sha512", 32), ("cofactorDH", "sha256", 32), ("cofactorDH", "sha512", 16)],
    "mqv": [("mqv", a, n) for a, n in (("sha224", 16), ("sha256", 32), ("sha384", 24), ("sha512", 32))],
    "x": [("x25519", "sha256", 32), ("x448", "sha256", 16)],
}
KA = {"stdDH": {"sha224": "1.3.132.1.11.0", "sha256": "1.3.132.1.11.1", "sha384": "1.3.132.1.11.2", "sha512": "1.3.132.1.11.3"},
      "cofactorDH": {"sha256": "1.3.132.1.14.1", "sha512": "1.3.132.1.14.3"},
      "mqv": {"sha224": "1.3.132.1.15.0", "sha256": "1.3.132.1.15.1", "sha384": "1.3.132.1.15.2", "sha512": "1.3.132.1.15.3"},
      "x25519": {"sha256": "1.3.101.110"}, "x448": {"sha256": "1.3.101.111"}}


def outcome(h, f, *a, **k):
    from pyasn1.error import PyAsn1Error

    return h.attempt(f, *a, allowed=(ValueError, PyAsn1Error, Refused, h.module("resources.exceptions").CMPTestSuiteError), **k)


def content(h, kek_size=32):
    return h.bytes("key", h.choice("key_size", (16, 24, 32))), h.bytes("content", 3)


@harness("C19", MODS, {k: {"kind": k} for k in SENDERS}, bound="content keys of 16, 24 and 32 bytes, 3 bytes of content, ukm of 2 bytes; fixed EC and X keys; every key agreement scheme", budget=150)
def agreement(h, kind):
    """A key agreed as RFC 5753 defines carries the content key to the recipient, and only to it."""
    ev, kg = h.module("resources.envdatautils"), h.module("resources.ca_kga_logic")
    v = Vault(h)
    scheme, alg, size = h.choice("scheme", SENDERS[kind])
    curve = scheme if kind == "x" else h.choice("curve", ("secp256r1", "secp384r1", "secp521r1"))
    ca, ee, other, eph = (ecc(i, curve) for i in range(4))
    deep = curve != "secp384r1" and curve != "secp521r1" and scheme != "mqv"
    key, data = content(h) if deep else (h.bytes("key", 24), h.bytes("content", 3))
    ukm = h.bytes("ukm", 2)
    c = cert(h, ca.public_key())
    if scheme == "mqv":
        v.known.append(ev.prepare_mqv_user_keying_material(eph, added_ukm=ukm))
    kari = ev.prepare_kari(public_key=ee.public_key(), sender_private_key=ca, cek=key, cmp_protection_cert=c, hash_alg=alg, ukm=ukm, use_cofactor=scheme == "cofactorDH", use_mvq=scheme == "mqv", wrap_alg="aes%d_wrap" % (size * 8),
                           ephemeral_key=eph if scheme == "mqv" else None)
    z = mqv(ee, ca.public_key(), eph.public_key()) if scheme == "mqv" else dh(ee, ca.public_key())
    want = x963(v.p, alg, z, shared_info(size, ukm), size)
    h.check(len(v.wraps) == 1 and len(v.wraps[0][0]) == size and h.eq(v.wraps[0][0], want), "the sender derives the key as RFC 5753 defines")
    h.check(h.eq(v.wraps[0][1], key), "the content key is wrapped")
    h.check(str(kari["keyEncryptionAlgorithm"]["algorithm"]) == KA[scheme][alg], "the key agreement algorithm is named")
    env = ev.prepare_enveloped_data([kari], cek=key, data_to_protect=data)
    check_content(h, v, env, key, data)
    who = h.choice("recipient", ("holder", "other"))
    form = h.choice("form", ("validate", "by_type", "kari")) if deep else "validate"
    k = {"ee_key": ee if who == "holder" else other, "cmp_protection_cert": c}
    if form == "kari":
        r = outcome(h, kg.validate_kari_env_data, env, k["ee_key"], c)
    else:
        r = outcome(h, kg.validate_enveloped_data, env, kari_cert=c, expected_type="kari" if form == "by_type" else None, **k)
    h.check(h.implies(who == "holder", r.ok), "the recipient can decrypt")
    if r.ok:
        h.check(h.eq(bytes_of(r.value), data), "the content is recovered")
        z2 = mqv(k["ee_key"], ca.public_key(), eph.public_key()) if scheme == "mqv" else dh(k["ee_key"], ca.public_key())
        h.check(h.eq(x963(v.p, alg, z2, shared_info(size, ukm), size), want), "only the recipient can decrypt")


def dh(a, b):
    from cryptography.hazmat.primitives.asymmetric import ec

    return a.exchange(ec.ECDH(), b) if hasattr(a, "curve") else a.exchange(b)


def check_content(h, v, env, key, data):
    """The content is encrypted under the content key with the algorithm and IV named."""
    info = env["encryptedContentInfo"]
    e = [t for t in v.texts if t[3] == bytes(info["encryptedContent"].asOctets())]
    h.check(len(e) == 1 and h.both(len(e[0][0]) == len(key), h.eq(e[0][0], key), h.eq(e[0][2], data)), "the content is encrypted under the content key")
    a = info["contentEncryptionAlgorithm"]
    h.check(str(a["algorithm"]) == CBC[len(key)], "the content encryption algorithm fits the content key")
    h.check(h.eq(bytes_of(a["parameters"].asOctets()), tlv(4, e[0][1])), "the IV is given")
    h.check(str(info["contentType"]) == SIGNED, "the content type")


@harness("C19", MODS, {"transport": {}}, bound="content keys of 16, 24 and 32 bytes, 3 bytes of content; 2 paddings", budget=150)
def transport(h):
    """RSA key transport."""
    ev, kg = h.module("resources.envdatautils"), h.module("resources.ca_kga_logic")
    v = Vault(h)
    (ee, pub), (other, _) = v.rsa(1), v.rsa(2)
    key, data = content(h)
    oaep = h.choice("oaep", (True, False))
    c = cert(h, ski=h.choice("ski", (True, False)))
    env = ev.build_env_data_for_exchange(pub, data, cert_sender=c, cek=key, use_rsa_oaep=oaep)
    h.check(len(v.texts) == 2 and h.eq(v.texts[0][2], key) and v.texts[0][1][0] == ("oaep" if oaep else "pkcs1"), "the content key is encrypted")
    check_content(h, v, env, key, data)
    who = h.choice("recipient", ("holder", "other"))
    r = outcome(h, kg.validate_enveloped_data, env, ee_key=ee if who == "holder" else other, cmp_protection_cert=c, expected_type=h.choice("expected_type", (None, "ktri")))
    h.check(r.ok == (who == "holder"), "only the recipient can decrypt")
    if r.ok:
        h.check(h.eq(bytes_of(r.value), data), "the content is recovered")


@harness("C19", MODS, {"password": {}}, bound="passwords of 2 characters, salts of 2 bytes, 1 and 70000 iterations, 3 hash functions", budget=150)
def password(h):
    """Password-based key management."""
    ev, kg = h.module("resources.envdatautils"), h.module("resources.ca_kga_logic")
    v = Vault(h)
    key, data = content(h)
    pw, pw2 = h.bytes("password", 2), h.bytes("password2", 2)
    salt, msg_salt = h.bytes("salt", 2), h.bytes("message_salt", 2)
    it, alg = h.choice("iterations", (1, 70000)), h.choice("hash", ("sha1", "sha256", "sha512"))
    pwri = ev.prepare_password_recipient_info(password=pw, cek=key, salt=salt, iterations=it, hash_alg=alg)
    want = v.p.pbkdf2(alg, 32, salt, it, pw)
    h.check(len(v.wraps) == 1 and h.eq(v.wraps[0][0], want), "the sender derives the key as RFC 8018 defines")
    h.check(h.eq(v.wraps[0][1], key), "the content key is wrapped")
    from pyasn1_alt_modules import rfc8018

    par = pwri["keyDerivationAlgorithm"]["parameters"]
    v.known.append(par if isinstance(par, rfc8018.PBKDF2_params) else v.plain(par, asn1Spec=rfc8018.PBKDF2_params())[0])
    env = ev.prepare_enveloped_data([pwri], cek=key, data_to_protect=data)
    check_content(h, v, env, key, data)
    form = h.choice("form", ("validate", "pwri"))
    same = h.bool("message_protected_with_password")
    asked = []

    def verify(pki_message, password=None, **k):
        asked.append(bytes_of(password))
        if h.no(same):
            raise ValueError("protection")

    h.patch(h.module("resources.protectionutils"), "verify_pkimessage_protection", verify)
    r = outcome(h, kg.validate_enveloped_data, env, pki_message="message" if form == "pwri" else None, password=pw2, cmp_protection_salt=msg_salt, expected_type="pwri" if form == "pwri" else None)
    good = h.both(h.eq(pw, pw2), h.no(h.eq(salt, msg_salt)), h.either(form != "pwri", same))
    h.check(h.implies(good, r.ok), "the holder of the password can decrypt")
    if r.ok:
        h.check(h.no(h.eq(salt, msg_salt)), "the salt is not the one of the message protection")
        h.check(h.either(form != "pwri", same), "the message is protected with the password")
        h.check(h.eq(bytes_of(r.value), data), "the content is recovered")
        k2 = v.p.pbkdf2(alg, 32, salt, it, pw2)
        h.check(h.eq(k2, want), "only the holder of the password can decrypt")
        h.check(h.either(form != "pwri", h.both(len(asked) == 1, *(h.eq(a, pw2) for a in asked))), "the password is checked against the message")


@harness("C19", MODS, {"kem_" + k: {"kdf": k} for k in ("hkdf", "kdf2", "kdf3")}, bound="ukm absent or 2 bytes, arbitrary shared secrets of 32 bytes, 3 key wraps, HKDF with 3 hash functions, KDF2 and KDF3 with 2", budget=150)
def kem(h, kdf):
    """Key encapsulation (RFC 9629)."""
    ev, kg = h.module("resources.envdatautils"), h.module("resources.ca_kga_logic")
    v = Vault(h)
    key, data = content(h)
    size = h.choice("kek_size", (16, 24, 32))
    alg = h.choice("hash", ("sha256", "sha384", "sha512") if kdf == "hkdf" else ("sha256", "sha512"))
    ukm = h.bytes("ukm", 2) if h.choice("with_ukm", (True, False)) else None
    km = h.module("pq_logic.keys.kem_keys")
    pub = kem_key(h, 1)
    ss, other = h.bytes("secret", 32), h.bytes("other_secret", 32)
    ct = b"c" * 768
    h.patch(km.MLKEMPublicKey, "encaps", lambda s: (ss, ct))
    ours = km.MLKEMPrivateKey("ml-kem-512", private_bytes=b"\x01" * 1632, public_key=pub.public_bytes_raw())
    their = km.MLKEMPrivateKey("ml-kem-512", private_bytes=b"\x02" * 1632, public_key=kem_key(h, 2).public_bytes_raw())
    h.patch(km.MLKEMPrivateKey, "decaps", lambda s, c: ss if s is ours and bytes(c) == ct else other)
    c = cert(h)
    info = ev.prepare_kem_recip_info(public_key_recip=pub, recip_cert=c, kdf_name=kdf, hash_alg=alg, ukm=ukm, cek=key, wrap_name="aes%d_wrap" % (size * 8))

    def kek(secret):
        if kdf == "hkdf":
            return v.p.hkdf(alg, size, b"", other_info(size, ukm), secret)
        return x963(v.p, alg, secret, other_info(size, ukm), size, kdf == "kdf3")

    h.check(len(v.wraps) == 1 and len(v.wraps[0][0]) == size and h.eq(v.wraps[0][0], kek(ss)), "the sender derives the key as RFC 9629 defines")
    h.check(h.eq(v.wraps[0][1], key), "the content key is wrapped")
    from pyasn1.codec.der import encoder
    from pyasn1.type import univ

    v.known.append(info)
    env = ev.prepare_enveloped_data([info], cek=key, data_to_protect=data)
    check_content(h, v, env, key, data)
    ori = env["recipientInfos"][0]["ori"]
    h.check(str(ori["oriType"]) == "1.2.840.113549.1.9.16.13.3" and h.eq(bytes_of(encoder.encode(ori["oriValue"])), bytes_of(encoder.encode(info))), "the recipient info is carried")
    ori["oriValue"] = univ.Any(encoder.encode(info))
    who = h.choice("recipient", ("holder", "other"))
    r = outcome(h, kg.validate_enveloped_data, env, ee_key=ours if who == "holder" else their, cmp_protection_cert=c, expected_type=h.choice("expected_type", (None, "kemri")))
    h.check(h.implies(who == "holder", r.ok), "the recipient can decrypt")
    if r.ok:
        h.check(h.eq(bytes_of(r.value), data), "the content is recovered")
        h.check(h.either(who == "holder", h.eq(kek(ss), kek(other))), "only the recipient can decrypt")


def rename(c, h):
    """The same certificate of another issuer."""
    from resources.prepareutils import prepare_name

    c["tbsCertificate"]["issuer"] = prepare_name("CN=b")
    return c


WHAT = {
    "ktri": ("version", "rid", "count", "padding", "content", "cipher"),
    "kari": ("version", "rid", "originator", "count", "keys", "scheme", "ukm"),
    "pwri": ("version", "count", "kdf", "length", "wrap", "wrap_params", "salt"),
    "kemri": ("version", "rid", "count", "kem", "kdf", "length", "wrap"),
}


def enveloped(h, v, kind, size=32):
    """A correct EnvelopedData, what its recipient uses to open it, the recipient info, its parts and the content."""
    ev = h.module("resources.envdatautils")
    key, data = h.bytes("key", size), h.bytes("content", 3)
    c = cert(h, ski=h.choice("ski", (True, False)))
    k = {"cmp_protection_cert": c}
    if kind == "ktri":
        k["ee_key"], pub = v.rsa(1)
        info = part = ev.prepare_ktri(pub, c, key)["ktri"]
    elif kind == "kari":
        ca, k["ee_key"] = ecc(0), ecc(1)
        c["tbsCertificate"]["subjectPublicKeyInfo"] = h.module("resources.convertutils").subject_public_key_info_from_pubkey(ca.public_key())
        info = part = ev.prepare_kari(public_key=k["ee_key"].public_key(), sender_private_key=ca, cek=key, cmp_protection_cert=c, ukm=b"um")
    elif kind == "pwri":
        k["password"], k["cmp_protection_salt"] = b"pw", b"message-salt"
        info = part = ev.prepare_password_recipient_info(password=b"pw", cek=key, salt=b"salt", iterations=3, hash_alg="sha256")
    else:
        km = h.module("pq_logic.keys.kem_keys")
        pub = kem_key(h, 1)
        h.patch(km.MLKEMPublicKey, "encaps", lambda s: (b"s" * 32, b"c" * 768))
        h.patch(km.MLKEMPrivateKey, "decaps", lambda s, c: b"s" * 32)
        k["ee_key"] = km.MLKEMPrivateKey("ml-kem-512", private_bytes=b"\x01" * 1632, public_key=pub.public_bytes_raw())
        info = part = ev.prepare_kem_recip_info(public_key_recip=pub, recip_cert=c, kdf_name="hkdf", cek=key)
    return ev, c, k, info, part, key, data


def identifier(h, structure, c, key_id, plain):
    """Replace an identifier by an arbitrary one (of the given alternatives) and tell whether it names the certificate."""
    from pyasn1_alt_modules import rfc5652

    has = any(str(e["extnID"]) == "2.5.29.14" for e in c["tbsCertificate"]["extensions"])
    if h.choice("identifier", ("ski", "issuer")) == "ski":
        s = h.bytes("id", h.choice("id_len", (19, 20)))
        key_id(structure, s)
        return has and len(s) == 20 and h.eq(s, SKI)
    n = h.int("serial", 0, 300)
    issuer = h.choice("issuer", ("a", "b"))
    plain(structure, rfc5652, issuer, n)
    return h.both(not has, issuer == "a", h.eq(n, 7))


def name(cn):
    from resources.prepareutils import prepare_name

    return prepare_name("CN=" + cn)


def set_serial(x, issuer, n):
    x["issuer"] = name(issuer)
    x["serialNumber"] = n


def kek(v, k, alg, ukm):
    """The key encryption key of the key agreement recipient."""
    return x963(v.p, alg, dh(k["ee_key"], ecc(0).public_key()), shared_info(32, ukm), 32)


@harness("C19", MODS, {"accept_" + k: {"kind": k} for k in WHAT}, bound="one field at a time; key identifiers of 19 and 20 bytes, versions -1..5, serial numbers below 301, up to 2 recipient infos", budget=150)
def accept(h, kind):
    """An EnvelopedData is opened only if its fields are as RFC 9483 prescribes."""
    from pyasn1.codec.der import encoder
    from pyasn1.type import tag, univ
    from pyasn1_alt_modules import rfc4055, rfc5652

    v = Vault(h)
    kg = h.module("resources.ca_kga_logic")
    what = h.choice("what", WHAT[kind])
    key_size = h.choice("key_size", (16, 24, 32)) if what == "cipher" else 32
    ev, c, k, info, part, key, data = enveloped(h, v, kind, key_size)
    good, size, index, count = True, 1, 0, 1

    def ctx(x, n=0):
        return x.subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, n))

    if what == "version":
        n = h.int("version", -1, 5)
        info["version"] = n
        good = h.eq(n, {"ktri": 2, "kari": 3, "pwri": 3, "kemri": 0}[kind])
    elif what == "rid" and kind in ("ktri", "kemri"):

        def key_id(i, s):
            i["rid"] = rfc5652.RecipientIdentifier()
            i["rid"]["subjectKeyIdentifier"] = ctx(rfc5652.SubjectKeyIdentifier(s))

        def plain(i, m, issuer, n):
            i["rid"] = m.RecipientIdentifier()
            set_serial(i["rid"]["issuerAndSerialNumber"], issuer, n)

        good = identifier(h, info, c, key_id, plain)
    elif what == "rid":

        def key_id(i, s):
            r = rfc5652.KeyAgreeRecipientIdentifier()
            r["rKeyId"]["subjectKeyIdentifier"] = s
            i["recipientEncryptedKeys"][0]["rid"] = r

        def plain(i, m, issuer, n):
            r = m.KeyAgreeRecipientIdentifier()
            set_serial(r["issuerAndSerialNumber"], issuer, n)
            i["recipientEncryptedKeys"][0]["rid"] = r

        good = identifier(h, info, c, key_id, plain)
    elif what == "originator":

        def key_id(i, s):
            i["originator"].clear()
            i["originator"]["subjectKeyIdentifier"] = ctx(rfc5652.SubjectKeyIdentifier(s))

        def plain(i, m, issuer, n):
            i["originator"].clear()
            set_serial(i["originator"]["issuerAndSerialNumber"], issuer, n)

        good = identifier(h, info, c, key_id, plain)
    elif what == "count":
        size, index, count = h.int("expected", 0, 3), h.choice("index", (0, 1, 2)), h.choice("count", (1, 2))
        good = h.both(h.eq(size, count), index < count)
    elif what == "padding":
        alg = h.choice("alg", ("1.2.840.113549.1.1.1", "1.2.840.113549.1.1.7", "1.2.840.113549.1.1.9", "1.2.840.113549.1.1.10"))
        params = h.choice("params", ("own", "absent", "null"))
        info["keyEncryptionAlgorithm"]["algorithm"] = univ.ObjectIdentifier(alg)
        if params != "own":
            info["keyEncryptionAlgorithm"]["parameters"] = univ.Any(b"\x05\x00") if params == "null" else univ.Any()
        good = alg.endswith(".7") and params == "own"
    elif what == "keys":
        n = h.choice("keys", (0, 1, 2))
        ks = [info["recipientEncryptedKeys"][0]] * n
        info["recipientEncryptedKeys"].clear()
        info["recipientEncryptedKeys"].extend(ks)
        good = n == 1
    elif what == "scheme":
        alg = h.choice("alg", [KA["stdDH"][a] for a in KA["stdDH"]] + list(KA["mqv"].values()) + ["1.3.132.1.11.4", "1.2.840.10045.2.1"])
        info["keyEncryptionAlgorithm"]["algorithm"] = univ.ObjectIdentifier(alg)
        names = {o: a for a, o in KA["stdDH"].items()}
        good = alg in names and h.eq(kek(v, k, names[alg], b"um"), kek(v, k, "sha256", b"um"))
    elif what == "ukm":
        if h.choice("with_ukm", (True, False)):
            u = info["ukm"] = h.bytes("ukm", 2)
        else:
            u = None
            info._componentValues[info.componentType.getPositionByName("ukm")] = univ.noValue
        good = h.eq(kek(v, k, "sha256", u), kek(v, k, "sha256", b"um"))
    elif what == "kdf":
        alg = h.choice("alg", ("1.2.840.113549.1.5.12", "1.2.840.113549.1.9.16.3.28", "1.2.840.113549.1.9.16.3.29", "1.2.840.113549.1.9.16.3.99"))
        info["keyDerivationAlgorithm" if kind == "pwri" else "kdf"]["algorithm"] = univ.ObjectIdentifier(alg)
        good = alg.endswith(".5.12" if kind == "pwri" else ".28")
        if kind == "kemri" and alg.endswith(".29"):
            good = h.eq(*(v.p.hkdf(a, 32, b"", other_info(32, None), b"s" * 32) for a in ("sha384", "sha256")))
    elif what == "length":
        n = h.int("length", 1, 40)
        if kind == "kemri":
            info["kekLength"] = n
        else:
            from pyasn1_alt_modules import rfc8018

            p = info["keyDerivationAlgorithm"]["parameters"]
            p = p if isinstance(p, rfc8018.PBKDF2_params) else v.plain(p, asn1Spec=rfc8018.PBKDF2_params())[0]
            p["keyLength"] = n
            v.known.append(p)
            info["keyDerivationAlgorithm"]["parameters"] = univ.Any(encoder.encode(p))
            if h.choice("wrapped_with_it", (False, True)):
                n = int(n)
                if n in (16, 24, 32):
                    info["encryptedKey"] = v.wrap(v.p.pbkdf2("sha256", n, b"salt", 3, b"pw"), key)
        good = h.eq(n, 32)
    elif what == "wrap":
        alg = h.choice("alg", list(WRAP.values()) + ["2.16.840.1.101.3.4.1.99", CBC[32]])
        info["keyEncryptionAlgorithm" if kind == "pwri" else "wrap"]["algorithm"] = univ.ObjectIdentifier(alg)
        good = alg == WRAP[32]
    elif what == "wrap_params":
        info["keyEncryptionAlgorithm"]["parameters"] = univ.Any(b"\x05\x00")
        good = False
    elif what == "salt":
        k["cmp_protection_salt"] = h.bytes("message_salt", h.choice("salt_len", (3, 4)))
        good = h.no(h.eq(k["cmp_protection_salt"], b"salt")) if len(k["cmp_protection_salt"]) == 4 else True
    elif what == "kem":
        alg = h.choice("alg", ("2.16.840.1.101.3.4.4.1", "2.16.840.1.101.3.4.4.2", "2.16.840.1.101.3.4.4.9"))
        info["kem"]["algorithm"] = univ.ObjectIdentifier(alg)
        good = alg.endswith(".1")
    if kind == "kemri":
        v.known.append(info)
    infos = [info] * count
    if count == 2:
        other, pub = v.rsa(9)
        infos = [ev.prepare_ktri(pub, c, key), info]
        good = h.both(good, index == 1)
    env = ev.prepare_enveloped_data(infos, cek=key, data_to_protect=data)
    if kind == "kemri":
        env["recipientInfos"][count - 1]["ori"]["oriValue"] = univ.Any(encoder.encode(info))
    if what in ("content", "cipher"):
        e = env["encryptedContentInfo"]
        kind_of = h.choice("field", ("type", "params", "iv")) if what == "content" else "alg"
        if kind_of == "type":
            o = h.choice("content_type", (SIGNED, DATA, "1.2.840.113549.1.7.3"))
            k["expected_raw_data"] = h.choice("raw", (True, False))
            e["contentType"] = univ.ObjectIdentifier(o)
            good = o == (DATA if k["expected_raw_data"] else SIGNED)
        elif kind_of == "alg":
            o = h.choice("content_alg", list(CBC.values()) + ["2.16.840.1.101.3.4.1.46", WRAP[32]])
            e["contentEncryptionAlgorithm"]["algorithm"] = univ.ObjectIdentifier(o)
            good = o == CBC[key_size]
        elif kind_of == "params":
            e["contentEncryptionAlgorithm"]["parameters"] = h.choice("iv_params", (univ.Any(), univ.Any(b"\x05\x00"), univ.Any(tlv(4, b"i" * 16) + b"\x00")))
            good = False
        else:
            iv = h.bytes("iv", 16)
            v.known.append(univ.OctetString(iv))
            e["contentEncryptionAlgorithm"]["parameters"] = univ.Any(tlv(4, iv))
            good = h.eq(iv, v.texts[-1][1])
    by_type = h.choice("expected_type", (None, {"kemri": "kemri"}.get(kind, kind), "pwri" if kind != "pwri" else "ktri"))
    if by_type == "pwri":
        k.setdefault("password", b"pw")
        k["pki_message"] = "message"
        h.patch(h.module("resources.protectionutils"), "verify_pkimessage_protection", lambda **a: None)
        k.setdefault("cmp_protection_salt", b"m")
    good = h.both(good, by_type is None or by_type == kind)
    r = outcome(h, kg.validate_enveloped_data, env, expected_type=by_type, expected_size=size, recip_info_index=index, **k)
    h.check(h.implies(r.ok, good), "an EnvelopedData with a wrong field is refused")
    h.check(h.implies(good, r.ok), "a correct EnvelopedData is accepted")
    if r.ok:
        h.check(h.eq(bytes_of(r.value), data), "the content is recovered")


def signed_world(h):
    """A KGA certificate under a root, and stubs for the verification of signatures and chains."""
    from cryptography.exceptions import InvalidSignature
    from pyasn1.codec.der import encoder
    from pyasn1.type import univ
    from pyasn1_alt_modules import rfc5280

    cu, ct = h.module("resources.cryptoutils"), h.module("resources.certutils")
    spki = h.module("resources.convertutils").subject_public_key_info_from_pubkey
    root = cert(h, ecc(10).public_key())
    kga = cert(h, ecc(0).public_key(), serial=8)
    kga["tbsCertificate"]["subject"] = name("kga")
    for e in kga["tbsCertificate"]["extensions"]:
        if str(e["extnID"]) == "2.5.29.14":
            e["extnValue"] = univ.OctetString(tlv(4, b"kga-key-identifier--"))
    stray = rename(cert(h, ecc(11).public_key(), serial=9), h)
    stray["tbsCertificate"]["subject"] = name("b")
    oids = h.choice("eku", (["1.3.6.1.5.5.7.3.32"], ["1.3.6.1.5.5.7.3.27", "1.3.6.1.5.5.7.3.32"], ["1.3.6.1.5.5.7.3.27", "1.3.6.1.5.5.7.3.28"], None))
    if oids:
        x = rfc5280.Extension()
        x["extnID"] = rfc5280.id_ce_extKeyUsage
        x["extnValue"] = univ.OctetString(tlv(0x30, b"".join(oid_der(o) for o in oids)))
        kga["tbsCertificate"]["extensions"].append(x)
    w = type("World", (), {})()
    w.kga, w.root, w.stray, w.eku = kga, root, stray, bool(oids) and "1.3.6.1.5.5.7.3.32" in oids
    w.sig_ok, w.chain_ok, w.trusted = h.bool("signature_valid"), h.bool("chain_valid"), h.bool("trusted")
    w.seen, w.anchors, w.chains = [], [], []
    tbs = {encoder.encode(c["tbsCertificate"]): encoder.encode(spki(ecc(i).public_key())) for c, i in ((root, 10), (kga, 10), (stray, 11))}

    def verify(public_key, signature, data, hash_alg=None, **a):
        k = encoder.encode(spki(public_key))
        if bytes(data) in tbs:
            if tbs[bytes(data)] != k:
                raise InvalidSignature()
            return
        w.seen.append((k, bytes(data), bytes_of(signature), hash_alg))
        if k != encoder.encode(kga["tbsCertificate"]["subjectPublicKeyInfo"]) or h.no(w.sig_ok):
            raise InvalidSignature()

    def anchors(certs, **a):
        w.anchors.append([encoder.encode(c) for c in certs])
        if h.no(w.trusted):
            raise ValueError("trust anchor")

    def chain(cert_chain, **a):
        w.chains.append([encoder.encode(c) for c in cert_chain])
        if h.no(w.chain_ok):
            raise ValueError("chain")

    h.patch(cu, "verify_signature", verify)
    h.patch(cu, "sign_data", lambda **a: b"signature")
    h.patch(ct, "certificates_are_trustanchors", anchors)
    h.patch(ct, "verify_cert_chain_openssl", chain)
    return w


ECDSA = {"sha256": "1.2.840.10045.4.3.2", "sha384": "1.2.840.10045.4.3.3", "sha512": "1.2.840.10045.4.3.4"}
SHA = {"sha256": "2.16.840.1.101.3.4.2.1", "sha384": "2.16.840.1.101.3.4.2.2", "sha512": "2.16.840.1.101.3.4.2.3"}
FIELDS = {"verdict": ("verdict", "certs"), "versions": ("version", "signer_version", "sid", "signature"), "digest": ("digest", "algs", "attrs"), "keys": ("package_version", "package_count", "public_key", "counts", "content_type")}


@harness("C19", MODS, {"signed_" + k: {"group": k} for k in FIELDS}, bound="one field at a time; key identifiers of 19 and 20 bytes, versions -1..5, digests of 32 bytes, EC keys", budget=150)
def signed(h, group):
    """A centrally generated key is used only if its SignedData and KGA certificate are in order."""
    import hashlib

    from cryptography.exceptions import InvalidSignature
    from pyasn1.codec.der import encoder
    from pyasn1.type import tag, univ
    from pyasn1_alt_modules import rfc5652, rfc5958

    v = Vault(h, prim=False)
    w = signed_world(h)
    ev, kg = h.module("resources.envdatautils"), h.module("resources.ca_kga_logic")
    keys = [ecc(20), ecc(21)]
    what = h.choice("what", FIELDS[group])
    package = ev.prepare_asymmetric_key_package(keys[:1])
    good = True
    if what == "package_version":
        n = h.choice("key_version", (0, 1, 2))
        package[0]["version"] = n
        good = n == 1
    elif what == "package_count":
        n = h.choice("keys", (1, 2))
        package = ev.prepare_asymmetric_key_package(keys[:n])
        good = n == 1
    elif what == "public_key":
        form = h.choice("public_key", ("other", "absent"))
        other = ev.prepare_asymmetric_key_package(keys[1:])[0]
        if form == "other":
            package[0]["publicKey"] = other["publicKey"]
        else:
            package[0]._componentValues[package[0].componentType.getPositionByName("publicKey")] = univ.noValue
        good = False
    e_content = encoder.encode(package)
    alg = h.choice("hash", ("sha256", "sha384")) if what == "verdict" else "sha256"
    sd = ev.prepare_signed_data(signing_key=ecc(0), cert=w.kga, sig_hash_name=alg, e_content=e_content, cert_chain=[w.kga, w.root])
    info = sd["signerInfos"][0]
    h.check(hashlib.new(alg, e_content).digest() in encoder.encode(info["signedAttrs"]), "the digest of the key package is signed")
    h.check(bytes(encoder.encode(info["sid"])) == tlv(0x80, b"kga-key-identifier--"), "the signer is identified by its key identifier")
    if what == "certs":
        form = h.choice("certs", ("reverse", "extra", "single", "none"))
        cs = {"reverse": [w.root, w.kga], "extra": [w.kga, w.root, w.stray], "single": [w.kga], "none": []}[form]
        sd["certificates"] = ev.prepare_certificate_set(cs)
        good = form not in ("extra", "none")
        if form == "none":
            return
    elif what == "version":
        n = sd["version"] = h.int("version", -1, 5)
        good = h.eq(n, 3)
    elif what == "signer_version":
        n = info["version"] = h.int("signer_version", -1, 5)
        good = h.eq(n, 3)
    elif what == "sid":
        s = h.bytes("sid", h.choice("sid_len", (19, 20)))
        info["sid"] = rfc5652.SignerIdentifier()
        if h.choice("sid_kind", ("ski", "issuer")) == "ski":
            info["sid"]["subjectKeyIdentifier"] = rfc5652.SubjectKeyIdentifier(s).subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0))
            good = len(s) == 20 and h.eq(s, b"kga-key-identifier--")
        else:
            set_serial(info["sid"]["issuerAndSerialNumber"], "a", 8)
            good = False
    elif what == "signature":
        if h.choice("signature", ("value", "absent")) == "value":
            info["signature"] = univ.OctetString(h.bytes("signature", 2))
        else:
            info._componentValues[info.componentType.getPositionByName("signature")] = univ.noValue
            good = False
    elif what == "digest":
        d = h.bytes("digest", 32)
        v.known.append(univ.OctetString(d))
        for a in info["signedAttrs"]:
            if str(a["attrType"]) == "1.2.840.113549.1.9.4":
                a["attrValues"][0] = rfc5652.AttributeValue(tlv(4, d))
        good = h.eq(d, hashlib.sha256(e_content).digest())
    elif what == "attrs":
        form = h.choice("attrs", ("no_type", "no_digest", "other_type", "two_digests", "extra"))
        at = info["signedAttrs"]
        byt = {str(a["attrType"]): a for a in at}
        t, d = byt["1.2.840.113549.1.9.3"], byt["1.2.840.113549.1.9.4"]
        good = form == "extra"
        if form == "other_type":
            t["attrValues"][0] = rfc5652.AttributeValue(oid_der(DATA))
        elif form == "two_digests":
            d["attrValues"].append(rfc5652.AttributeValue(tlv(4, b"x" * 32)))
        else:
            x = rfc5652.Attribute()
            x["attrType"] = univ.ObjectIdentifier("1.2.840.113549.1.9.5")
            x["attrValues"].append(rfc5652.AttributeValue(tlv(4, b"x")))
            at.clear()
            at.extend({"no_type": [d, x], "no_digest": [t, x], "extra": [t, d, x]}[form])
    elif what == "algs":
        one, two, three = h.choice("digest_alg", list(SHA)), h.choice("signer_digest_alg", list(SHA)), h.choice("signature_alg", list(ECDSA) + ["rsa", "unknown"])
        sd["digestAlgorithms"][0]["algorithm"] = univ.ObjectIdentifier(SHA[one])
        info["digestAlgorithm"]["algorithm"] = univ.ObjectIdentifier(SHA[two])
        info["signatureAlgorithm"]["algorithm"] = univ.ObjectIdentifier(ECDSA.get(three, "1.2.840.113549.1.1.11" if three == "rsa" else "1.2.840.10045.4.3.99"))
        for a in info["signedAttrs"]:
            if str(a["attrType"]) == "1.2.840.113549.1.9.4":
                a["attrValues"][0] = rfc5652.AttributeValue(tlv(4, hashlib.new(three if three in SHA else "sha256", e_content).digest()))
        alg, good = three, one == two == three
    elif what == "counts":
        f = h.choice("field", ("digests", "signers"))
        n = h.choice("number", (0, 1, 2))
        if f == "digests":
            algs = [rfc5652.DigestAlgorithmIdentifier() for _ in range(n)]
            for a, o in zip(algs, (SHA["sha256"], SHA["sha384"])):
                a["algorithm"] = univ.ObjectIdentifier(o)
            sd["digestAlgorithms"].clear()
            sd["digestAlgorithms"].extend(algs)
        else:
            sd["signerInfos"].clear()
            sd["signerInfos"].extend([info] * n)
        good = n == 1
    elif what == "content_type":
        o = h.choice("e_content_type", ("2.16.840.1.101.2.1.2.78.5", DATA))
        sd["encapContentInfo"]["eContentType"] = univ.ObjectIdentifier(o)
        good = o != DATA
    a = h.attempt(kg.validate_signed_data_structure, sd, allowed=(ValueError, InvalidSignature, Refused, h.module("resources.exceptions").CMPTestSuiteError, h.module("pyasn1.error").PyAsn1Error))
    good = h.both(good, w.sig_ok, w.chain_ok, w.trusted, w.eku)
    h.check(h.implies(a.ok, good), "a key is used only if everything is in order")
    h.check(h.implies(good, a.ok), "a correct key is accepted")
    if a.ok:
        h.check(a.value.private_numbers() == keys[0].private_numbers(), "the key of the package is returned")
        want = (encoder.encode(w.kga["tbsCertificate"]["subjectPublicKeyInfo"]), encoder.encode(sd["encapContentInfo"]))
        h.check(len(w.seen) > 0 and w.seen[0][:2] == want and w.seen[0][3] == alg, "the signature is verified over the content with the key of the KGA")
        h.check(h.both(*(h.eq(s[2], bytes_of(info["signature"].asOctets())) for s in w.seen)), "the signature of the signer is verified")
        chain = [encoder.encode(w.kga)] + ([encoder.encode(w.root)] if len(sd["certificates"]) > 1 else [])
        h.check(w.chains == [chain] and w.anchors == [chain[-1:]], "the chain of the KGA is verified up to a trust anchor")


@harness("C19", MODS, {"local": {}}, bound="pvno 0..4; EC keys", budget=150)
def local(h):
    """A key from a response is used only if it belongs to the certificate issued."""
    kg = h.module("resources.ca_kga_logic")
    from pyasn1_alt_modules import rfc9480
    from pyasn1.type import univ

    m = h.module("resources.cmputils").prepare_pki_message(sender="CN=a", recipient="CN=b", transaction_id=b"\x00" * 16, sender_nonce=b"\x01" * 16, recip_nonce=b"\x02" * 16, sender_kid=b"k")
    n = m["header"]["pvno"] = h.int("pvno", 0, 4)
    body = h.choice("body", ("ip", "cp", "kup"))
    issued = cert(h, ecc(h.choice("issued_key", (0, 1))).public_key())
    ski = h.choice("key_usage", ("absent", "agreement", "signature"))
    prot = cert(h, ecc(5).public_key())
    if ski != "absent":
        from pyasn1_alt_modules import rfc5280

        x = rfc5280.Extension()
        x["extnID"] = rfc5280.id_ce_keyUsage
        x["extnValue"] = univ.OctetString(bytes.fromhex("03020308" if ski == "agreement" else "03020780"))
        prot["tbsCertificate"]["extensions"].append(x)
    m["extraCerts"].append(prot)
    kind = h.choice("kind", ("ktri", "kari", "pwri", "ori"))
    form = h.choice("form", ("envelopedData", "encryptedValue"))
    ckp = rfc9480.CertifiedKeyPair()
    ckp["certOrEncCert"]["certificate"]["tbsCertificate"] = issued["tbsCertificate"]
    env = type("Env", (), {"__getitem__": lambda s, k: [type("Info", (), {"getName": lambda s: kind})()]})()

    class Private:
        isValue = True

        def getName(self):
            return form

        def __getitem__(self, k):
            return env if k == form else None

    pair = type("Pair", (), {"__getitem__": lambda s, k: Private() if k == "privateKey" else ckp[k]})()
    h.patch(h.module("resources.asn1utils"), "get_asn1_value", lambda x, query: pair if query == f"body.{body}.response/0.certifiedKeyPair" else None)
    h.patch(h.module("resources.cmputils"), "get_cert_from_pkimessage", lambda *a, **k: issued)
    used = []

    def opened(**k):
        used.append(k)
        return b"\x30\x00"

    h.patch(kg, "validate_enveloped_data", opened)
    h.patch(kg, "decoder", type("decoder", (), {"decode": staticmethod(lambda d, s: ("signed data", b""))}))
    h.patch(kg, "validate_signed_data_structure", lambda *a, **k: ecc(0))
    same = h.bool("message_protected_with_password")

    def verify(pki_message, password=None, **k):
        if h.no(same) or password != "pw":
            raise ValueError("protection")

    h.patch(h.module("resources.protectionutils"), "verify_pkimessage_protection", verify)
    pw = h.choice("password", ("pw", None))
    # a Message gives the body its name
    from harnesses.cmp import Message

    r = outcome(h, kg.validate_not_local_key_gen, Message(m, body, None), password=pw, ee_key="key")
    belongs = h.eq(bytes_of(bytes(str(issued["tbsCertificate"]["subjectPublicKeyInfo"]["subjectPublicKey"]), "ascii")), bytes_of(bytes(str(cert(h, ecc(0).public_key())["tbsCertificate"]["subjectPublicKeyInfo"]["subjectPublicKey"]), "ascii")))
    good = h.both(h.eq(n, 3), form == "envelopedData", belongs, kind != "kari" or ski == "agreement", h.either(kind != "pwri", h.both(same, pw == "pw")))
    h.check(h.iff(r.ok, good), "the key belongs to the issued certificate and was sent as prescribed")
    if r.ok:
        h.check(len(used) == 1 and used[0]["env_data"] is env and used[0]["cmp_protection_cert"] is m["extraCerts"][0] and used[0]["expected_size"] == 1 and used[0]["recip_info_index"] == 0, "the EnvelopedData of the response is opened")


@harness("C19", MODS, {"oaep": {}}, bound="5 hash functions, labels of up to 2 bytes, every field absent or present", budget=100)
def oaep(h):
    """RSAES-OAEP parameters mean what RFC 4055 says."""
    from pyasn1.type import univ
    from pyasn1_alt_modules import rfc4055

    v = Vault(h, prim=False)
    hashes = {"sha1": "1.3.14.3.2.26", "sha224": "2.16.840.1.101.3.4.2.4", "sha512": "2.16.840.1.101.3.4.2.3", **{k: SHA[k] for k in ("sha256", "sha384")}}
    p = rfc4055.RSAES_OAEP_params()
    good, want = True, ["sha1", "sha1", b""]
    if h.choice("with_hash", (True, False)):
        want[0] = h.choice("hash", list(hashes))
        p["hashFunc"]["algorithm"] = univ.ObjectIdentifier(hashes[want[0]])
    if h.choice("with_mgf", (True, False)):
        want[1] = h.choice("mgf_hash", list(hashes)) if want[0] == "sha256" else "sha384"
        mgf = h.choice("mgf", ("1.2.840.113549.1.1.8", "1.2.840.113549.1.1.99"))
        good = mgf.endswith(".8")
        p["maskGenFunc"]["algorithm"] = univ.ObjectIdentifier(mgf)
        o = oid_der(hashes[want[1]])
        p["maskGenFunc"]["parameters"] = univ.Any(h.choice("mgf_params", (tlv(0x30, o + b"\x05\x00"), tlv(0x30, o), o)))
    if h.choice("with_label", (True, False)):
        want[2] = h.bytes("label", h.choice("label_len", (0, 2)))
        v.known.append(univ.OctetString(want[2]))
        src = h.choice("source", ("1.2.840.113549.1.1.9", "1.2.840.113549.1.1.99"))
        good = good and src.endswith(".9")
        p["pSourceFunc"]["algorithm"] = univ.ObjectIdentifier(src)
        p["pSourceFunc"]["parameters"] = univ.Any(tlv(4, want[2]))
    pu = h.module("resources.protectionutils")

    class OAEP:
        def __init__(self, mgf, algorithm, label):
            self.a = (algorithm.name, mgf._algorithm.name, label)

    h.patch(pu, "padding", type("padding", (), {"OAEP": OAEP, "MGF1": pu.padding.MGF1}))
    r = outcome(h, pu.get_rsa_oaep_padding, p)
    h.check(r.ok == good, "only MGF1 and specified labels are accepted")
    if r.ok:
        a = r.value.a
        h.check([x.replace("-", "") for x in a[:2]] == want[:2], "the hash functions are the ones named or SHA-1")
        label = bytes_of(a[2]) if a[2] is not None else b""
        h.check(len(label) == len(want[2]) and h.eq(label, want[2]), "the label is the one given or empty")


@harness("C19", MODS, {"point_" + c: {"curve": c} for c in ("secp256r1", "secp384r1", "secp521r1")}, bound="arbitrary x coordinates of the shared point, x coordinates at the boundaries of the associate value for the others", budget=100)
def mqv_math(h, curve):
    """One-pass ECMQV of SEC 1 6.2 for points with other coordinates than those of real keys."""
    from tinyec import registry

    cu = h.module("resources.cryptoutils")
    f = registry.get_curve(curve).field
    size, half = (f.p.bit_length() + 7) // 8, (f.n.bit_length() + 1) // 2

    class Field:
        p, n = f.p, f.n

    Field.h = 3

    class C:
        field = Field
        name = curve

    class Point:
        """A formal sum of multiples of named points."""

        curve = C
        y = 1

        def __init__(self, terms, x=None):
            self.terms, self._x = terms, x

        @property
        def x(self):
            if self._x is None:
                self._x = h.int("z", 0, f.p - 1)
                made.append(self)
            return self._x

        def __add__(self, o):
            return Point(self.terms + o.terms)

        def __rmul__(self, k):
            return Point([(k * a, n) for a, n in self.terms])

        __mul__ = __rmul__

    def key(n):
        k = type("Key", (), {})()
        k.name = n
        k.public_key = lambda: k
        return k

    made, keys = [], {n: key(n) for n in ("static", "ephemeral", "recipient")}
    xs = {n: h.choice("x_" + n, (1, 2**half - 1, 2**half, 2**half + 5, f.p - 1)) for n in keys}
    pts = {n: Point([(1, n)], xs[n]) for n in keys}
    priv = {"static": 12345, "ephemeral": f.n - 99, "recipient": f.n // 3}
    h.patch(cu, "convert_private_key_to_tinyec", lambda k: (priv[k.name], pts[k.name]))
    h.patch(cu, "convert_public_key_to_tinyec", lambda k: pts[k.name])

    def avf(n):
        return xs[n] % 2**half + 2**half

    if h.choice("side", ("sender", "recipient")) == "sender":
        z = cu.compute_sender_ecdh_mqv_one_pass_exchange(static_private_key=keys["static"], ephemeral_key=keys["ephemeral"], recip_public_key=keys["recipient"])
        s = 3 * ((priv["ephemeral"] + avf("ephemeral") * priv["static"]) % f.n)
        want = {"recipient": s * (1 + avf("recipient"))}
    else:
        z = cu.compute_recipient_ecdh_mqv_one_pass_exchange(recip_key=keys["recipient"], static_public_key=keys["static"], ephemeral_pub_key=keys["ephemeral"])
        s = 3 * ((priv["recipient"] + avf("recipient") * priv["recipient"]) % f.n)
        want = {"ephemeral": s, "static": s * avf("ephemeral")}
    h.check(len(made) == 1 and all((sum(k for k, m in made[0].terms if m == n) - want.get(n, 0)) % f.n == 0 for n in pts), "the shared point")
    h.check(len(z) == size and h.eq(bytes_of(z), bytes_of(made[0].x.to_bytes(size, "big"))), "the shared secret has the length of the field")
