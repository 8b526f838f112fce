"""C20 Hybrid keys: composite signatures need both components over the bound message, hybrid KEMs bind both secrets."""

from harnesses.cmp import PY
from harnesses.stubs import bytes_of, hash_model
from symex.harness import harness

ASSUMPTIONS = [
    "the component signature algorithms accept or refuse any signature (arbitrary verdict per call), signatures and signing are arbitrary functions of key, message and mode",
    "ML-KEM and the other post-quantum KEMs return arbitrary secrets and refuse ciphertexts of the wrong length; Diffie-Hellman is commutative; RSA-OAEP decryption recovers what was encrypted",
    "hash functions, HMAC and HKDF are arbitrary functions of all their inputs",
]
OUTSIDE = ["the component algorithms", "the key derivation used by the composite KEM when it is asked for use in CMS (only agreement of both sides and the inputs are checked)", "composite keys with RSA moduli of other sizes than 2048, 3072 and 4096 bit"]
MODS = PY + ("pq_logic.keys.composite_sig", "pq_logic.keys.composite_kem", "pq_logic.keys.xwing", "pq_logic.keys.chempat_key", "pq_logic.keys.trad_kem_keys", "pq_logic.kem_mechanism", "pq_logic.keys.abstract_wrapper_keys",
             "pq_logic.keys.abstract_pq", "resources.oid_mapping", "resources.protectionutils", "resources.cryptoutils", "resources.keyutils")
EC = {"secp256r1": (32, "SECP256R1"), "secp384r1": (48, "SECP384R1"), "secp521r1": (66, "SECP521R1"), "brainpoolP256r1": (32, "BrainpoolP256R1"), "brainpoolP384r1": (48, "BrainpoolP384R1"), "brainpoolP512r1": (64, "BrainpoolP512R1")}
SIG_SIZE = {"ml-dsa-44": 2420, "ml-dsa-65": 3309, "ml-dsa-87": 4627}

# label, ML-DSA, traditional algorithm, its mode and hash (draft-ietf-lamps-pq-composite-sigs-14, section 6)
SIGS = [
    ("COMPSIG-MLDSA44-RSA2048-PSS-SHA256", 37, "ml-dsa-44", "rsa2048", "pss", "SHA256"),
    ("COMPSIG-MLDSA44-RSA2048-PKCS15-SHA256", 38, "ml-dsa-44", "rsa2048", "v15", "SHA256"),
    ("COMPSIG-MLDSA44-Ed25519-SHA512", 39, "ml-dsa-44", "ed25519", "pure", None),
    ("COMPSIG-MLDSA44-ECDSA-P256-SHA256", 40, "ml-dsa-44", "secp256r1", "ecdsa", "SHA256"),
    ("COMPSIG-MLDSA65-RSA3072-PSS-SHA512", 41, "ml-dsa-65", "rsa3072", "pss", "SHA256"),
    ("COMPSIG-MLDSA65-RSA3072-PKCS15-SHA512", 42, "ml-dsa-65", "rsa3072", "v15", "SHA256"),
    ("COMPSIG-MLDSA65-RSA4096-PSS-SHA512", 43, "ml-dsa-65", "rsa4096", "pss", "SHA384"),
    ("COMPSIG-MLDSA65-RSA4096-PKCS15-SHA512", 44, "ml-dsa-65", "rsa4096", "v15", "SHA384"),
    ("COMPSIG-MLDSA65-ECDSA-P256-SHA512", 45, "ml-dsa-65", "secp256r1", "ecdsa", "SHA256"),
    ("COMPSIG-MLDSA65-ECDSA-P384-SHA512", 46, "ml-dsa-65", "secp384r1", "ecdsa", "SHA384"),
    ("COMPSIG-MLDSA65-ECDSA-BP256-SHA512", 47, "ml-dsa-65", "brainpoolP256r1", "ecdsa", "SHA256"),
    ("COMPSIG-MLDSA65-Ed25519-SHA512", 48, "ml-dsa-65", "ed25519", "pure", None),
    ("COMPSIG-MLDSA87-ECDSA-P384-SHA512", 49, "ml-dsa-87", "secp384r1", "ecdsa", "SHA384"),
    ("COMPSIG-MLDSA87-ECDSA-BP384-SHA512", 50, "ml-dsa-87", "brainpoolP384r1", "ecdsa", "SHA384"),
    ("COMPSIG-MLDSA87-Ed448-SHAKE256", 51, "ml-dsa-87", "ed448", "pure", None),
    ("COMPSIG-MLDSA87-RSA3072-PSS-SHA512", 52, "ml-dsa-87", "rsa3072", "pss", "SHA256"),
    ("COMPSIG-MLDSA87-RSA4096-PSS-SHA512", 53, "ml-dsa-87", "rsa4096", "pss", "SHA384"),
    ("COMPSIG-MLDSA87-ECDSA-P521-SHA512", 54, "ml-dsa-87", "secp521r1", "ecdsa", "SHA512"),
]


class Refused(ValueError):
    """A component refused."""


def mode_of(args, kw):
    """The mode of a traditional signature call, after its data (and signature)."""
    from cryptography.hazmat.primitives.asymmetric import ec, padding

    a = [x for x in list(args) + list(kw.values()) if x is not None]
    if not a:
        return ("pure", None)
    if len(a) == 1 and isinstance(a[0], ec.ECDSA):
        return ("ecdsa", a[0].algorithm.name)
    pad = next(x for x in a if isinstance(x, (padding.PSS, padding.PKCS1v15)))
    alg = next(x for x in a if x is not pad)
    if isinstance(pad, padding.PKCS1v15):
        return ("v15", alg.name)
    salt = pad._salt_length
    if salt is padding.PSS.DIGEST_LENGTH or salt == alg.digest_size:
        salt = "digest"
    return ("pss", alg.name, pad._mgf._algorithm.name, salt)


def want_mode(mode, hash_name):
    n = {"SHA256": "sha256", "SHA384": "sha384", "SHA512": "sha512", None: None}[hash_name]
    return (mode, n, n, "digest") if mode == "pss" else (mode, n)


class Signers:
    """Component signature keys."""

    def __init__(self, h):
        self.h, self.calls = h, []
        self.fs = {}

    def f(self, name):
        if name not in self.fs:
            self.fs[name] = self.h.xof(name)
        return self.fs[name]

    def pq(self, name):
        s = self

        class Pub:
            sig_size = SIG_SIZE[name]

            def verify(self, signature, data, ctx=b"", **k):
                s.verify("pq", bytes_of(data), bytes_of(signature), ("ctx", bytes_of(ctx)) + tuple(sorted((a, b) for a, b in k.items() if b)))

        class Priv:
            sig_size = SIG_SIZE[name]

            def sign(self, data, ctx=b"", **k):
                return s.sign("pq", bytes_of(data), ("ctx", bytes_of(ctx)) + tuple(sorted((a, b) for a, b in k.items() if b)), SIG_SIZE[name])

            def public_key(self):
                return pub

        for c in (Pub, Priv):
            c.name = name
        pub = Pub()
        return Priv(), pub

    def trad(self, name):
        from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519, rsa

        s = self
        size = int(name[3:]) if name.startswith("rsa") else 256
        bases = (rsa.RSAPrivateKey, rsa.RSAPublicKey) if name.startswith("rsa") else {"ed25519": (ed25519.Ed25519PrivateKey, ed25519.Ed25519PublicKey), "ed448": (ed448.Ed448PrivateKey, ed448.Ed448PublicKey)}.get(name, (ec.EllipticCurvePrivateKey, ec.EllipticCurvePublicKey))
        at = {"key_size": size} if name.startswith("rsa") else {}
        if name in EC:
            at["curve"] = getattr(ec, EC[name][1])()

        class Pub(bases[1]):
            locals().update(at)

            def verify(self, signature, data, *a, **k):
                s.verify("trad", bytes_of(data), bytes_of(signature), mode_of(a, k))

            def __eq__(self, o):
                return self is o

            __hash__ = None

            def __copy__(self):
                return self

            def __deepcopy__(self, memo):
                return self

        class Priv(bases[0]):
            locals().update(at)

            def sign(self, data, *a, **k):
                return s.sign("trad", bytes_of(data), mode_of(a, k), 48)

            def public_key(self):
                return pub

            def __copy__(self):
                return self

            def __deepcopy__(self, memo):
                return self

        for c in (Pub, Priv):
            c.__abstractmethods__ = frozenset()
        pub = Pub()
        return Priv(), pub

    def verify(self, who, data, signature, mode):
        from cryptography.exceptions import InvalidSignature

        ok = self.h.bool(f"ok{len(self.calls)}_{who}")
        self.calls.append((who, data, signature, mode, ok))
        if not ok:
            raise InvalidSignature()

    def sign(self, who, data, mode, n):
        return self.f(who + repr(mode[0] if mode[0] == "ctx" else mode))(data, *(mode[1:2] if mode[0] == "ctx" else ()), n=n)

    def said(self, who):
        return [c for c in self.calls if c[0] == who]


def same_mode(h, a, b):
    if a[0] != "ctx" or b[0] != "ctx":
        return a == b
    return a[2:] == b[2:] and h.eq(a[1], b[1])


def m_prime(h, H, row, data, ctx):
    import cryptography.hazmat.primitives.hashes as hs

    pre = row[0].rsplit("-", 1)[1]
    o = H(hs.SHAKE256(64) if pre == "SHAKE256" else getattr(hs, pre)())
    o.update(data)
    return b"CompositeAlgorithmSignatures2025" + row[0].encode() + h.mkbytes([len(ctx)]) + ctx + bytes_of(o.finalize())


def oid_of(row):
    from pyasn1.type import univ

    return univ.ObjectIdentifier(f"1.3.6.1.5.5.7.6.{row[1]}")


def composite_sig(h, part):
    """Composite signatures of every registered combination."""
    cs = h.module("pq_logic.keys.composite_sig")
    row = h.choice("algorithm", SIGS[part * 6:part * 6 + 6])
    H, s = hash_model(h), Signers(h)
    (pqk, pqp), (tk, tp) = s.pq(row[2]), s.trad(row[3])
    n = SIG_SIZE[row[2]]
    # lengths of context and data, signature, value of the flag that has a meaning for RSA only
    c, d, l, flag = h.choice("sizes", ((0, 5, n + 48, False), (0, 5, n + 48, True), (1, 5, n + 48, False), (3, 0, n, True), (255, 5, n + 50, False), (256, 5, n + 48, False), (0, 5, n - 1, False), (2, 1, 0, False)))
    use_pss = row[4] == "pss" or (not row[3].startswith("rsa") and flag)
    ctx, data = h.bytes("ctx", c), h.bytes("data", d)
    label = row[0].encode()
    what = h.choice("what", ("sign", "verify"))
    if what == "sign":
        key = cs.CompositeSigPrivateKey(pqk, tk)
        h.check(str(key.get_oid(use_pss=use_pss)) == str(oid_of(row)), "the algorithm of the private key has the identifier of its combination")
        a = h.attempt(key.sign, data=data, ctx=ctx, use_pss=use_pss, allowed=(Exception,))
        h.check(a.ok == (len(ctx) <= 255), "a message is signed unless its context is longer than 255 bytes")
        if a.ok:
            m = m_prime(h, H, row, data, ctx)
            want = s.sign("pq", m, ("ctx", label), SIG_SIZE[row[2]]) + s.sign("trad", m, want_mode(row[4], row[5]), 48)
            h.check(h.eq(bytes_of(a.value), want), "a composite signature is the ML-DSA signature and the traditional signature over the bound message")
        return
    key = cs.CompositeSigPublicKey(pqp, tp)
    h.check(str(key.get_oid(use_pss=use_pss)) == str(oid_of(row)), "the algorithm of the public key has the identifier of its combination")
    sig = h.bytes("sig", l)
    a = h.attempt(key.verify, data=data, signature=sig, ctx=ctx, use_pss=use_pss, allowed=(Exception,))
    accepted(h, s, H, row, a, data, sig, ctx, True)


def accepted(h, s, H, row, a, data, sig, ctx, due):
    n = SIG_SIZE[row[2]]
    pq, trad = s.said("pq"), s.said("trad")
    m = m_prime(h, H, row, data, ctx) if len(ctx) <= 255 else None
    if a.ok:
        h.check(due and m is not None, "a composite signature is accepted with the named algorithm and a context of at most 255 bytes only")
        h.check(len(pq) >= 1 and len(trad) >= 1, "a composite signature is accepted only if both components were verified")
        for who, c, part, mode in (("pq", pq, sig[:n], ("ctx", row[0].encode())), ("trad", trad, sig[n:], want_mode(row[4], row[5]))):
            for x in c:
                h.check(h.both(x[4], h.eq(x[1], m), len(x[2]) == len(part) and h.eq(x[2], part), same_mode(h, x[3], mode)),
                        "each component is verified over the bound message with its own part of the signature, key and parameters")
    elif due and m is not None:
        h.check(h.either(*[h.no(c[4]) for c in s.calls]), "a composite signature is refused only if a component refuses it")


def composite_alg(h, part):
    """Verification and signing by the algorithm identifier."""
    pu = h.module("resources.protectionutils")
    cs = h.module("pq_logic.keys.composite_sig")
    row = h.choice("algorithm", SIGS[part * 6:part * 6 + 6])
    named = h.choice("named", SIGS)
    H, s = hash_model(h), Signers(h)
    (pqk, pqp), (tk, tp) = s.pq(row[2]), s.trad(row[3])
    from pyasn1_alt_modules import rfc9480

    alg = rfc9480.AlgorithmIdentifier()
    alg["algorithm"] = oid_of(named)
    data = h.bytes("data", 5)
    # an RSA key is a key of both paddings
    due = named[2] == row[2] and named[3] == row[3]
    used = named if due else row
    if due and h.choice("what", ("verify", "sign")) == "sign":
        a = h.attempt(pu.sign_data_with_alg_id, cs.CompositeSigPrivateKey(pqk, tk), alg, data, allowed=(Exception,))
        h.check(a.ok, "a message can be signed with the algorithm of the key")
        if a.ok:
            m = m_prime(h, H, used, data, b"")
            want = s.sign("pq", m, ("ctx", used[0].encode()), SIG_SIZE[used[2]]) + s.sign("trad", m, want_mode(used[4], used[5]), 48)
            h.check(h.eq(bytes_of(a.value), want), "a message is signed with the named composite algorithm")
        return
    sig = h.bytes("sig", SIG_SIZE[row[2]] + 48)
    a = h.attempt(pu.verify_signature_with_alg_id, cs.CompositeSigPublicKey(pqp, tp), alg, data, sig, allowed=(Exception,))
    accepted(h, s, H, used, a, data, sig, b"", due)


for _i in range(3):
    harness("C20", MODS, {f"composite_sig[{_i}]": {"part": _i}}, bound="6 of the 18 combinations; context of 0, 1, 3, 255 and 256 bytes, data of 0 and 5 bytes; signature with both, one and no component; component verdicts arbitrary")(composite_sig)
    harness("C20", MODS, {f"composite_alg[{_i}]": {"part": _i}}, bound="keys of 6 of the 18 combinations with each of the 18 algorithm identifiers; data of 5 bytes; component verdicts arbitrary")(composite_alg)


class Agree:
    """Component KEM and Diffie-Hellman keys."""

    def __init__(self, h):
        from cryptography.hazmat.primitives.asymmetric import ec, x448, x25519

        self.h, self.H = h, hash_model(h)
        self.fs, self.pairs, self.pubs = {}, {}, []
        self.fresh = 100
        agree = self
        h.patch(ec.EllipticCurvePublicKey, "from_encoded_point", classmethod(lambda c, curve, data: agree.load(curve.name, data)))
        h.patch(x25519.X25519PublicKey, "from_public_bytes", classmethod(lambda c, data: agree.load("x25519", data)))
        h.patch(x448.X448PublicKey, "from_public_bytes", classmethod(lambda c, data: agree.load("x448", data)))
        h.patch(x25519.X25519PrivateKey, "generate", classmethod(lambda c: agree.new("x25519")))
        h.patch(x448.X448PrivateKey, "generate", classmethod(lambda c: agree.new("x448")))
        h.patch(ec, "generate_private_key", lambda curve, backend=None: agree.new(curve.name))

        class MAC:
            def __init__(self, key, algorithm, backend=None):
                self.key, self.alg, self.data = bytes_of(key), algorithm.name, b""

            def update(self, d):
                self.data = self.data + bytes_of(d)

            def finalize(self):
                return agree.hmac(self.alg, self.key, self.data)

        class HK:
            def __init__(self, algorithm, length, salt, info, backend=None):
                self.a = (algorithm.name, length, salt or b"", info or b"")

            def derive(self, key):
                return agree.hkdf(*self.a, key)

        ck, km = h.module("pq_logic.keys.composite_kem"), h.module("pq_logic.kem_mechanism")
        h.patch(ck, "HMAC", MAC)
        h.patch(ck, "HKDF", HK)
        h.patch(km, "HKDF", HK)
        self.randoms = []
        h.patch(km, "os", type("os", (), {"urandom": staticmethod(self.urandom)}))

    def urandom(self, n):
        v = self.h.bytes(f"urandom{len(self.randoms)}", n)
        self.randoms.append(v)
        return v

    def f(self, name):
        if name not in self.fs:
            self.fs[name] = self.h.xof(name)
        return self.fs[name]

    def hash(self, alg, data):
        import cryptography.hazmat.primitives.hashes as hs

        o = self.H(alg if not isinstance(alg, str) else getattr(hs, alg)())
        o.update(data)
        return bytes_of(o.finalize())

    def hmac(self, alg, key, data):
        return bytes_of(self.f("HMAC_" + alg)(key, bytes_of(data), n={"sha256": 32, "sha384": 48, "sha512": 64}[alg]))

    def hkdf(self, alg, length, salt, info, key):
        return bytes_of(self.f("HKDF_" + alg)(bytes_of(key), bytes_of(salt), bytes_of(info), n=int(length)))

    # Diffie-Hellman
    def new(self, kind):
        self.fresh += 1
        return self.dh(self.fresh, kind)[0]

    def size(self, kind):
        return {"x25519": 32, "x448": 56}.get(kind) or EC[kind][0]

    def load(self, kind, data):
        """A public key from its encoding."""
        v, n = bytes_of(data), self.size(kind)
        if kind in EC:
            if len(v) == 2 * n + 1:
                good = v[0] == 4
            elif len(v) == n + 1:
                good = self.h.either(v[0] == 2, v[0] == 3)
            else:
                good = False
            if not good:
                raise ValueError("not an encoded point")
        elif len(v) != n:
            raise ValueError("length")
        for p in self.pubs:
            if p.kind == kind and len(p.enc) == len(v) and self.h.eq(p.enc, v):
                return p
        if kind in EC and not self.h.bool(f"point{len(self.pubs)}"):
            raise ValueError("not a point on the curve")
        return self.pub(kind, v, None)

    def pub(self, kind, enc, i):
        from cryptography.hazmat.primitives.asymmetric import ec, x448, x25519
        from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat

        class Pub({"x25519": x25519.X25519PublicKey, "x448": x448.X448PublicKey}.get(kind, ec.EllipticCurvePublicKey)):
            if kind in EC:
                curve = getattr(ec, EC[kind][1])()

            def public_bytes_raw(self):
                if kind in EC:
                    raise AttributeError("public_bytes_raw")
                return self.enc

            def public_bytes(self, encoding, format):
                if kind in EC and (encoding, format) != (Encoding.X962, PublicFormat.UncompressedPoint):
                    raise ValueError("format")
                return self.enc

            def __eq__(self, o):
                return self is o

            __hash__ = None

        Pub.__abstractmethods__ = frozenset()
        p = Pub()
        p.kind, p.enc, p.i = kind, enc, i
        if i is not None:
            self.pubs.append(p)
        return p

    def secret(self, i, p):
        n = self.size(p.kind)
        if p.i is not None:
            k = tuple(sorted((i, p.i)))
            if k not in self.pairs:
                self.pairs[k] = self.h.bytes(f"dh{k[0]}_{k[1]}", n)
            return self.pairs[k]
        return bytes_of(self.f(f"dh{i}")(p.enc, n=n))

    def dh(self, i, kind):
        from cryptography.hazmat.primitives.asymmetric import ec, x448, x25519

        agree, n = self, self.size(kind)
        enc = self.h.bytes(f"pub{i}", n) if kind not in EC else b"\x04" + self.h.bytes(f"pub{i}", 2 * n)
        for q in self.pubs:
            if q.kind == kind:
                self.h.assume(self.h.no(self.h.eq(q.enc, enc)))
        pub = self.pub(kind, enc, i)

        class Priv({"x25519": x25519.X25519PrivateKey, "x448": x448.X448PrivateKey}.get(kind, ec.EllipticCurvePrivateKey)):
            if kind in EC:
                curve = getattr(ec, EC[kind][1])()

            def public_key(self):
                return pub

            def exchange(self, *a):
                if (kind in EC) != (len(a) == 2) or a[-1].kind != kind:
                    raise TypeError("exchange")
                return agree.secret(i, a[-1])

        Priv.__abstractmethods__ = frozenset()
        return Priv(), pub

    def pq(self, name, ct_len=None):
        """A post-quantum KEM key pair."""
        kk, agree = self.h.module("pq_logic.keys.kem_keys"), self
        kind = {"ml": "MLKEM", "fr": "FrodoKEM", "mc": "McEliece", "sn": "Sntrup761"}[name[:2]]
        raw = self.h.bytes("pq_pub", 8)
        n = ct_len or 11

        class Pub(getattr(kk, kind + "PublicKey")):
            ct_length = n
            key_size = 8

            def encaps(self, *a, **k):
                ct = agree.h.bytes("pq_ct", n)
                agree.sent = ct
                return bytes_of(agree.f("pq_ss")(ct, n=32)), ct

            def public_bytes_raw(self):
                return raw

        class Priv(getattr(kk, kind + "PrivateKey")):
            ct_length = n
            key_size = 24

            def decaps(self, ct):
                if len(ct) != n:
                    raise Refused("length")
                return bytes_of(agree.f("pq_ss")(bytes_of(ct), n=32))

            def public_key(self):
                return pub

        for c in (Pub, Priv):
            c.__abstractmethods__ = frozenset()
            c.name = name
        pub, priv = Pub.__new__(Pub), Priv.__new__(Priv)
        for k in (pub, priv):
            k._name, k._public_key_bytes = name, raw
        return priv, pub, raw

    def pq_ss(self, ct):
        return bytes_of(self.f("pq_ss")(ct, n=32))

    def rsa(self, bits):
        from cryptography.hazmat.primitives.asymmetric import padding, rsa

        agree, texts = self, []
        raw = self.h.bytes("rsa_pub", 9)

        def mode(p):
            assert isinstance(p, padding.OAEP), p
            return (p._algorithm.name, p._mgf._algorithm.name, p._label or b"")

        class Pub(rsa.RSAPublicKey):
            key_size = bits

            def encrypt(self, plaintext, padding):
                ct = agree.h.bytes(f"rsa_ct{len(texts)}", 12)
                texts.append((ct, mode(padding), plaintext))
                return ct

            def public_bytes(self, encoding, format):
                assert (encoding.name, format.name) == ("DER", "PKCS1")
                return raw

            def __eq__(self, o):
                return self is o

            __hash__ = None

        class Priv(rsa.RSAPrivateKey):
            key_size = bits

            def decrypt(self, ciphertext, padding):
                c = bytes_of(ciphertext)
                if len(c) != 12:
                    raise Refused("length")
                for t, m, v in texts:
                    if m == mode(padding) and agree.h.eq(t, c):
                        return v
                if not agree.h.bool("oaep"):
                    raise Refused("padding")
                return bytes_of(agree.f("oaep" + repr(mode(padding)))(c, n=32))

            def public_key(self):
                return pub

        for c in (Pub, Priv):
            c.__abstractmethods__ = frozenset()
        pub = Pub()
        return Priv(), pub, raw


LABEL = b"\\.//^\\"


@harness("C20", MODS, {"xwing": {}}, bound="arbitrary keys, secrets and ciphertexts; ciphertexts of 0, 1088, 1119, 1120, 1121 and 1152 bytes")
def xwing(h):
    """X-Wing: SHA3-256 over both secrets, the X25519 ciphertext and key."""
    xw = h.module("pq_logic.keys.xwing")
    g = Agree(h)
    (pqk, pqp, _), (tk, tp) = g.pq("ml-kem-768", 1088), g.dh(1, "x25519")
    key, pub = xw.XWingPrivateKey(pqk, tk), xw.XWingPublicKey(pqp, tp)
    what = h.choice("what", ("decaps", "encaps", "encaps with key", "encaps by key"))
    if what == "decaps":
        ct = h.bytes("ct", h.choice("length", (0, 1088, 1119, 1120, 1121, 1152)))
        a = h.attempt(key.decaps, ct, allowed=(Exception,))
        h.check(a.ok == (len(ct) == 1120), "exactly the ciphertexts of 1120 bytes are decapsulated")
        if a.ok:
            x = ct[1088:1120]
            h.check(h.eq(bytes_of(a.value), g.hash("SHA3_256", g.pq_ss(ct[:1088]) + g.secret(1, g.load("x25519", x)) + x + tp.enc + LABEL)), "X-Wing decapsulation combines both secrets, the X25519 ciphertext and key, and the label")
        return
    if what == "encaps":
        a = h.attempt(pub.encaps, allowed=())
    else:
        eph = g.dh(2, "x25519")[0]
        a = h.attempt(pub.encaps, eph, allowed=()) if what == "encaps with key" else h.attempt(xw.XWingPrivateKey(g.pq("ml-kem-768", 1088)[0], eph).encaps, pub, allowed=())
    ss, ct = a.value
    sender = g.pubs[-1]
    h.check(len(ct) == 1120 and h.eq(bytes_of(ct), g.sent + sender.enc), "the X-Wing ciphertext is the ML-KEM ciphertext and the ephemeral key")
    h.check(h.eq(bytes_of(ss), g.hash("SHA3_256", g.pq_ss(g.sent) + g.secret(1, sender) + sender.enc + tp.enc + LABEL)), "X-Wing encapsulation combines both secrets, the X25519 ciphertext and key, and the label")
    h.check(h.eq(bytes_of(key.decaps(bytes_of(ct))), bytes_of(ss)), "the recipient obtains the secret of the sender")


def kem_id(kind):
    """KEM identifier and hash of RFC 9180 (brainpool curves as the NIST curve of their size)."""
    return {"x25519": (0x20, "sha256", 32), "x448": (0x21, "sha512", 64), 32: (0x10, "sha256", 32), 48: (0x11, "sha384", 48), 64: (0x12, "sha512", 64), 66: (0x12, "sha512", 64)}[kind if kind[0] == "x" else EC[kind][0]]


def dhkem_ss(g, kind, secret, enc, pk):
    i, alg, n = kem_id(kind)
    suite = b"KEM" + i.to_bytes(2, "big")
    return g.hkdf(alg, n, b"", n.to_bytes(2, "big") + b"HPKE-v1" + suite + b"shared_secret" + enc + pk, b"HPKE-v1" + suite + b"eae_prk" + secret)


def trad_ss(g, kind, secret, enc, pk, rfc9180):
    return dhkem_ss(g, kind, secret, enc, pk) if rfc9180 else secret


def lengths(kind):
    """Ciphertext lengths of a curve: proper ones first."""
    n = {"x25519": 32, "x448": 56}.get(kind)
    if n:
        return (n,), (0, n - 1, n + 1)
    n = EC[kind][0]
    return (2 * n + 1, n + 1), (0, n, 2 * n, 2 * n + 2)


KINDS = ("x25519", "x448") + tuple(EC)


def point(h, name, kind, n):
    """Arbitrary bytes as an encoded public key."""
    if kind in EC and n > 1:
        return h.mkbytes([h.choice(name + " form", (2, 3, 4))]) + h.bytes(name, n - 1)
    return h.bytes(name, n)


@harness("C20", MODS, {"dhkem": {}}, bound="every curve; ciphertexts of the compressed and uncompressed form and of wrong length; DHKEM of RFC 9180 and plain ECDH")
def dhkem(h):
    """The traditional Diffie-Hellman KEMs."""
    tk = h.module("pq_logic.keys.trad_kem_keys")
    g = Agree(h)
    kind, rfc = h.choice("curve", KINDS), h.choice("rfc9180", (True, False))
    priv, pub = g.dh(1, kind)
    key, enc = tk.DHKEMPrivateKey(priv, use_rfc9180=rfc), tk.DHKEMPublicKey(pub, use_rfc9180=rfc)
    if h.choice("what", ("encaps", "decaps")) == "encaps":
        e = h.choice("ephemeral", (None, "raw", "wrapped"))
        p = None if e is None else g.dh(2, kind)[0] if e == "raw" else tk.DHKEMPrivateKey(g.dh(2, kind)[0], use_rfc9180=h.bool("other"))
        ss, ct = enc.encaps(p)
        s = g.pubs[-1]
        h.check(h.eq(bytes_of(ct), s.enc), "the ciphertext is the ephemeral public key")
        h.check(h.eq(bytes_of(ss), trad_ss(g, kind, g.secret(1, s), s.enc, pub.enc, rfc)), "the secret is derived from the Diffie-Hellman secret and both public keys")
        a = h.attempt(key.decaps, bytes_of(ct), allowed=(ValueError,))
        h.check(a.ok, "the ciphertext of the sender is decapsulated")
        if a.ok:
            h.check(h.eq(bytes_of(a.value), bytes_of(ss)), "the recipient obtains the secret of the sender")
        return
    good, bad = lengths(kind)
    n = h.choice("length", good + bad)
    ct = point(h, "ct", kind, n)
    a = h.attempt(key.decaps, ct, allowed=(Exception,))
    b = h.attempt(g.load, kind, ct, allowed=(Exception,)) if n in good else None
    if a.ok:
        h.check(b is not None, "a ciphertext of the wrong length is refused")
        p = next((q for q in g.pubs if len(q.enc) == len(ct) and h.eq(q.enc, ct)), None) or g.pub(kind, ct, None)
        h.check(h.eq(bytes_of(a.value), trad_ss(g, kind, g.secret(1, p), ct, pub.enc, rfc)), "the secret is derived from the Diffie-Hellman secret and both public keys")


def kem_rows():
    """Composite KEM combinations: class prefix, post-quantum KEM, traditional algorithm, last arc."""
    base, test = "2.16.840.1.114027.80.5.2", "1.3.6.1.4.1.4128.1.8.1.5"
    r = [("composite-kem", "ml-kem-768", t) for t in ("rsa2048", "rsa3072", "rsa4096", "x25519", "secp256r1", "secp384r1", "brainpoolP256r1")]
    r += [("composite-kem", "ml-kem-1024", t) for t in ("secp384r1", "brainpoolP384r1", "x448", "secp521r1", "rsa3072")]
    for v in ("aes", "shake"):
        r += [("composite-kem", "frodokem-976-" + v, t) for t in ("rsa2048", "rsa3072", "rsa4096", "x25519", "secp384r1", "brainpoolP256r1")]
        r += [("composite-kem", "frodokem-1344-" + v, t) for t in ("secp384r1", "brainpoolP384r1", "x448")]
    for p in ("ml-kem-768", "frodokem-976-aes", "frodokem-976-shake"):
        r += [("composite-dhkem", p, t) for t in ("x25519", "secp384r1", "brainpoolP256r1")]
    for p in ("ml-kem-1024", "frodokem-1344-aes", "frodokem-1344-shake"):
        r += [("composite-dhkem", p, t) for t in ("secp384r1", "brainpoolP384r1", "x448")]
    return r


KEMS = kem_rows()
# the draft's identifiers
KEM_ARC = {("ml-kem-768", "rsa2048"): 50, ("ml-kem-768", "rsa3072"): 51, ("ml-kem-768", "rsa4096"): 52, ("ml-kem-768", "x25519"): 53, ("ml-kem-768", "secp256r1"): 54, ("ml-kem-768", "secp384r1"): 55, ("ml-kem-768", "brainpoolP256r1"): 56,
           ("ml-kem-1024", "secp384r1"): 57, ("ml-kem-1024", "brainpoolP384r1"): 58, ("ml-kem-1024", "x448"): 59, ("ml-kem-1024", "secp521r1"): 60, ("ml-kem-1024", "rsa3072"): 61}


def kem_kdf(g, pq, trad, data):
    """The KDF of the combiner (draft-ietf-lamps-pq-composite-kem-07)."""
    if trad in ("x25519", "x448"):
        return g.hash("SHA3_256", data)
    if pq in ("ml-kem-768", "frodokem-976-aes", "frodokem-976-shake"):
        return g.hmac("sha256", bytes(32), data)
    return g.hmac("sha512", bytes(64), data)[:32]


def composite_kem(h, part, of):
    """Composite KEM: both secrets, the traditional ciphertext and key and the algorithm are combined."""
    from pyasn1.codec.der import encoder

    ck = h.module("pq_logic.keys.composite_kem")
    name, pq, trad = h.choice("algorithm", KEMS[part::of])
    g = Agree(h)
    pqk, pqp, raw = g.pq(pq)
    rsa = trad.startswith("rsa")
    if rsa:
        tk, tp, tpk = g.rsa(int(trad[3:]))
    else:
        tk, tp = g.dh(1, trad)
        tpk = tp.enc
    dh = "DHKEMRFC9180" if name == "composite-dhkem" else "KEM"
    rfc = name == "composite-dhkem"
    key, pub = getattr(ck, f"Composite{dh}PrivateKey")(pqk, tk), getattr(ck, f"Composite{dh}PublicKey")(pqp, tp)
    oid = pub.get_oid()
    h.check(str(oid) == str(key.get_oid()), "both keys of a pair name the same algorithm")
    if name == "composite-kem" and (pq, trad) in KEM_ARC:
        h.check(str(oid) == f"2.16.840.1.114027.80.5.2.{KEM_ARC[pq, trad]}", "the algorithm has the identifier of its combination")
    der = bytes_of(encoder.encode(oid))
    what, cms, given = h.choice("what", (("encaps", False, False), ("encaps", True, not rsa), ("decaps", False, None), ("decaps", True, None)))

    def spec(ct, ss):
        """The combined secret for a ciphertext, given the traditional secret."""
        x = g.pq_ss(ct[:11]) + ss + ct[11:] + tpk + der
        return [kem_kdf(g, pq, trad, x)] if not cms else [g.hash("SHA3_256", x), kem_kdf(g, pq, trad, x), g.hmac("sha256", bytes(32), x), g.hkdf("sha256", 32, b"", b"", x), g.hkdf("sha512", 32, b"", b"", x)]

    def one(a, bs):
        return h.either(*[h.eq(bytes_of(a), b) for b in bs])

    if what == "encaps":
        eph = g.dh(2, trad)[0] if given else None
        ss, ct = pub.encaps(eph, use_in_cms=cms)
        if rsa:
            s = g.randoms[0]
            h.check(len(g.randoms) == 1 and len(ct) == 23 and h.eq(bytes_of(ct)[:11], g.sent), "the ciphertext is the one of the post-quantum KEM followed by the traditional one")
        else:
            p = g.pubs[-1]
            s = trad_ss(g, trad, g.secret(1, p), p.enc, tpk, rfc)
            h.check(h.eq(bytes_of(ct), g.sent + p.enc), "the ciphertext is the one of the post-quantum KEM followed by the traditional one")
        h.check(one(ss, spec(bytes_of(ct), s)), "the secret combines both secrets, the traditional ciphertext and key and the algorithm")
        a = h.attempt(key.decaps, bytes_of(ct), use_in_cms=cms, allowed=(ValueError,))
        h.check(a.ok, "the ciphertext of the sender is decapsulated")
        if a.ok:
            h.check(h.eq(bytes_of(a.value), bytes_of(ss)), "the recipient obtains the secret of the sender")
        return
    good, bad = ((12,), (0, 11, 13)) if rsa else lengths(trad)
    n = h.choice("length", good[:1] if cms else good + bad[1:])
    short = not cms and n == good[0] and h.choice("short", (False, True))
    if short:
        ct = h.bytes("ct", 10)
    else:
        tct = h.bytes("tct", n) if rsa else point(h, "tct", trad, n)
        ct = h.bytes("ct", 11) + tct
    a = h.attempt(key.decaps, ct, use_in_cms=cms, allowed=(Exception,))
    if a.ok:
        h.check(n in good and not short, "a ciphertext of the wrong length is refused")
        if rsa:
            s = bytes_of(g.f("oaep" + repr(("sha256", "sha256", b"")))(tct, n=32))
        else:
            p = next((q for q in g.pubs if len(q.enc) == len(tct) and h.eq(q.enc, tct)), None) or g.pub(trad, tct, None)
            s = trad_ss(g, trad, g.secret(1, p), tct, tpk, rfc)
        h.check(one(a.value, spec(ct, s)), "the secret combines both secrets, the traditional ciphertext and key and the algorithm")
    elif n in good and not short and trad[0] == "x":
        h.check(False, "a ciphertext of the right length is decapsulated")


for _i in range(5):
    harness("C20", MODS, {f"composite_kem[{_i}]": {"part": _i, "of": 5}}, bound="every fifth of the 48 combinations; arbitrary keys and secrets; encapsulation with given and fresh ephemeral key; traditional ciphertexts of right form and of wrong lengths, ciphertext shorter than the post-quantum part")(composite_kem)

CHEMPAT = [("sntrup761", "x25519", 1, "Chempat-X25519-sntrup761")]
for _j, _t in enumerate(("x25519", "x448")):
    for _i, _n in enumerate(("348864", "460896", "6688128", "6960119", "8192128")):
        CHEMPAT.append(("mceliece-" + _n, _t, 2 + 5 * _j + _i, f"Chempat-{_t.upper()}-mceliece{_n}"))
CHEMPAT += [("ml-kem-768", "x25519", 12, "Chempat-X25519-ML-KEM-768"), ("ml-kem-1024", "x448", 13, "Chempat-X448-ML-KEM-1024"), ("ml-kem-768", "secp256r1", 14, "Chempat-P256-ML-KEM-768"), ("ml-kem-1024", "secp384r1", 15, "Chempat-P384-ML-KEM-1024"),
            ("ml-kem-768", "brainpoolP256r1", 16, "Chempat-brainpoolP256-ML-KEM-768"), ("ml-kem-1024", "brainpoolP384r1", 17, "Chempat-brainpoolP384-ML-KEM-1024")]
for _k, (_n, _t, _c) in enumerate((("976", "x25519", "X25519"), ("640", "brainpoolP256r1", "brainpoolP256"), ("976", "brainpoolP384r1", "brainpoolP384"), ("1344", "brainpoolP512r1", "brainpoolP512"), ("1344", "x448", "X448"))):
    for _j, _v in enumerate(("aes", "shake")):
        CHEMPAT.append((f"frodokem-{_n}-{_v}", _t, 18 + 2 * _k + _j, f"Chempat-{_c}-FrodoKEM-{_n}"))


def chempat(h, part):
    """Chempat: SHA3-256 over both secrets, the hashes of ciphertexts and keys, and the context."""
    cp = h.module("pq_logic.keys.chempat_key")
    pq, trad, arc, context = h.choice("algorithm", CHEMPAT[part::3])
    g = Agree(h)
    (pqk, pqp, raw), (tk, tp) = g.pq(pq, 70), g.dh(1, trad)
    kind = {"ml": "MLKEM", "fr": "FrodoKEM", "mc": "McEliece", "sn": "Sntrup761"}[pq[:2]]
    key, pub = cp.ChempatPrivateKey.parse_keys(pqk, tk), getattr(cp, f"Chempat{kind}PublicKey")(pqp, tp)
    h.check(str(pub.get_oid()) == str(key.get_oid()) and str(pub.get_oid()).endswith(f".{arc}"), "both keys name the algorithm of their combination")

    def spec(tct, ct, p):
        s = dhkem_ss(g, trad, g.secret(1, p), tct, tp.enc)
        return [g.hash("SHA3_256", s + g.pq_ss(ct) + g.hash("SHA3_256", tct + ct) + g.hash("SHA3_256", k) + context.encode()) for k in (raw + tp.enc, tp.enc + raw)]

    if h.choice("what", ("encaps", "decaps")) == "encaps":
        eph = g.dh(2, trad)[0] if h.choice("ephemeral", (True, False)) else None
        ss, ct = pub.encaps(eph)
        p = g.pubs[-1]
        h.check(h.eq(bytes_of(ct), p.enc + g.sent), "the ciphertext is the ephemeral key followed by the post-quantum ciphertext")
        h.check(h.either(*[h.eq(bytes_of(ss), b) for b in spec(p.enc, g.sent, p)]), "the secret combines both secrets, ciphertexts and keys and the context")
        a = h.attempt(key.decaps, bytes_of(ct), allowed=(ValueError,))
        h.check(a.ok, "the ciphertext of the sender is decapsulated")
        if a.ok:
            h.check(h.eq(bytes_of(a.value), bytes_of(ss)), "the recipient obtains the secret of the sender")
        return
    good, bad = lengths(trad)
    n = h.choice("length", good + bad)
    extra = h.choice("post-quantum part", (70, 69, 71) if n == good[0] else (70,))
    tct = point(h, "tct", trad, n)
    ct = h.bytes("ct", extra)
    a = h.attempt(key.decaps, tct + ct, allowed=(Exception,))
    right = n in good and extra == 70
    if a.ok:
        h.check(right, "a ciphertext of the wrong length is refused")
        p = next((q for q in g.pubs if len(q.enc) == len(tct) and h.eq(q.enc, tct)), None) or g.pub(trad, tct, None)
        h.check(h.either(*[h.eq(bytes_of(a.value), b) for b in spec(tct, ct, p)]), "the secret combines both secrets, ciphertexts and keys and the context")
    elif right and trad[0] == "x":
        h.check(False, "a ciphertext of the right length is decapsulated")


for _i in range(3):
    harness("C20", MODS, {f"chempat[{_i}]": {"part": _i}}, bound="every third of the 27 combinations; arbitrary keys and secrets, a post-quantum ciphertext of 70 bytes; ephemeral keys in compressed, uncompressed and wrong form")(chempat)


def kdf3(g, z, n):
    out, i = b"", 1
    while len(out) < n:
        out = out + g.hash("SHA256", i.to_bytes(4, "big") + z)
        i += 1
    return out[:n]


@harness("C20", MODS, {"rsakem": {}}, bound="RSA-KEM with the moduli 323 and 33 (every message and ciphertext; round trip for 33), derived secrets of 0 to 70 bytes; RSA-OAEP with SHA-1/256/384/512 and secrets of 16 and 32 bytes")
def rsakem(h):
    """RSA-KEM of RFC 9690 and RSA-OAEP as a KEM."""
    tkk = h.module("pq_logic.keys.trad_kem_keys")
    km = h.module("pq_logic.kem_mechanism")
    g = Agree(h)
    if h.choice("kem", ("rsa-kem", "oaep")) == "oaep":
        k, p, _ = g.rsa(2048)
        alg, n = h.choice("hash", ("sha256", "sha384", "sha512", "sha1")), h.choice("secret", (None, 16, 32))
        ss, ct = tkk.RSAEncapKey(p).encaps(use_oaep=True, hash_alg=alg, ss_length=n)
        h.check(len(g.randoms) == 1 and len(bytes_of(ss)) == (n or 32) and h.eq(bytes_of(ss), g.randoms[0]), "the secret of RSA-OAEP is random and has the wanted length")
        a = h.attempt(tkk.RSADecapKey(k).decaps, bytes_of(ct), use_oaep=True, hash_alg=alg, allowed=())
        h.check(h.eq(bytes_of(a.value), bytes_of(ss)), "the recipient obtains the secret of the sender")
        return
    n, e, d = h.choice("modulus", ((323, 5, 173), (33, 3, 7)))
    size = (n.bit_length() + 7) // 8
    import secrets
    import random
    from cryptography.hazmat.primitives.asymmetric import rsa

    class Numbers:
        pass

    pn, sn = Numbers(), Numbers()
    pn.n, pn.e, sn.d, sn.public_numbers = n, e, d, pn

    class Pub(rsa.RSAPublicKey):
        key_size = n.bit_length()

        def public_numbers(self):
            return pn

    class Priv(rsa.RSAPrivateKey):
        key_size = n.bit_length()

        def private_numbers(self):
            return sn

        def public_key(self):
            return pub

    for c in (Pub, Priv):
        c.__abstractmethods__ = frozenset()
    pub, priv = Pub(), Priv()
    length = h.choice("length", (None, 0, 1, 32, 33, 70))

    def wanted(z):
        return z if length is None else kdf3(g, z, length)

    if h.choice("what", ("encaps", "decaps")) == "encaps":
        asked = []

        def draw(lo, hi):
            asked.append(h.int("z%d" % len(asked), lo, hi))
            return asked[-1]

        h.patch(random, "randint", draw)
        h.patch(secrets, "randbelow", lambda m: draw(0, m - 1))
        if h.choice("given", (False, True)):
            z = draw(1, n - 1)
            ss, ct = km.RSAKem(length).encaps(pub, rand=z)
        else:
            ss, ct = tkk.RSAEncapKey(pub).encaps(use_oaep=False, ss_length=length)
        z = asked[0]
        h.check(len(asked) == 1 and h.eq(bytes_of(ct), pow(z, e, n).to_bytes(size, "big")), "the ciphertext is the encrypted random value, in the length of the modulus")
        h.check(h.eq(bytes_of(ss), wanted(z.to_bytes(size, "big"))), "the secret is derived from the random value in the length of the modulus")
        if n == 33:
            a = h.attempt(tkk.RSADecapKey(priv).decaps, bytes_of(ct), use_oaep=False, ss_length=length, allowed=())
            h.check(h.eq(bytes_of(a.value), bytes_of(ss)), "the recipient obtains the secret of the sender")
        return
    ct = h.bytes("ct", h.choice("ciphertext", (size, size - 1, size + 1)))
    a = h.attempt(tkk.RSADecapKey(priv).decaps, ct, use_oaep=False, ss_length=length, allowed=(Exception,))
    c = 0
    for b in ct:
        c = c * 256 + b
    if len(ct) != size or not c < n:
        h.check(not a.ok, "a ciphertext of the wrong length or not below the modulus is refused")
        return
    z = pow(c, d, n)
    h.check(a.ok and h.eq(bytes_of(a.value), wanted(z.to_bytes(size, "big"))), "the secret is derived from the decrypted value of the length of the modulus")
