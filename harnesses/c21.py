"""C21 Hybrid signatures: messages, CRLs and certificates need the signatures of both keys."""

from harnesses.c17 import alg_id, der, message
from harnesses.c19 import cert, ecc, name
from harnesses.cmp import PY
from harnesses.stubs import bytes_of
from symex.harness import harness

ASSUMPTIONS = [
    "a single or composite signature verification is an arbitrary verdict, the same for the same key, data and signature; signing gives a signature which verifies for the same key and data only",
    "public keys are fixed EC and ML-DSA-44 keys, hashes of certificates are computed",
]
OUTSIDE = ["RSA keys and RSASSA-PSS parameters (C17, C20)", "the content of composite signatures (C20)", "certificates with several alternative keys"]
MODS = PY + ("pq_logic.pq_verify_logic", "pq_logic.hybrid_sig.catalyst_logic", "pq_logic.hybrid_sig.cert_binding_for_multi_auth", "pq_logic.hybrid_sig.certdiscovery", "pq_logic.hybrid_sig.sun_lamps_hybrid_scheme_00", "pq_logic.hybrid_sig.chameleon_logic",
             "resources.protectionutils", "resources.certutils", "resources.certextractutils", "resources.cryptoutils")
COMP = "1.3.6.1.5.5.7.6.40"
ECDSA, MLDSA = "1.2.840.10045.4.3.2", "2.16.840.1.101.3.4.3.17"
ALT_ALG, ALT_SIG, ALT_KEY = "2.5.29.73", "2.5.29.74", "2.5.29.72"
URL = "https://example.org/other.cer"


def tlv(t, v):
    n = len(v)
    return bytes([t]) + (bytes([n]) if n < 128 else bytes([0x81, n]) if n < 256 else bytes([0x82, n >> 8, n & 255])) + v


class World:
    """Keys, verification and signing."""

    def __init__(self, h, ideal=False):
        self.h, self.calls, self.made, self.ideal = h, [], [], ideal
        self.spki = h.module("resources.convertutils").subject_public_key_info_from_pubkey
        cu, cs = h.module("resources.cryptoutils"), h.module("pq_logic.keys.composite_sig")
        h.patch(cu, "verify_signature", self.verify)
        h.patch(cu, "sign_data", self.sign)
        w = self

        def composite(self, data, signature, ctx=b"", use_pss=False, **k):
            w.judge(w.id(self.pq_key) + w.id(self.trad_key), data, signature, None)

        h.patch(cs.CompositeSigPublicKey, "verify", composite)
        self.Composite = cs.CompositeSigPublicKey
        self.sk = h.module("pq_logic.keys.sig_keys")

    def id(self, key):
        from pyasn1.codec.der import encoder

        return encoder.encode(self.spki(key))

    def trad(self, i):
        return ecc(i).public_key()

    def pq(self, i):
        return self.sk.MLDSAPublicKey("ml-dsa-44", public_key=bytes([i + 1]) * 1312)

    def verify(self, public_key, signature, data, hash_alg=None, **k):
        self.judge(self.id(public_key), data, signature, hash_alg)

    def sign(self, data, key, hash_alg=None, use_rsa_pss=False, **k):
        t = b"signature%04d" % len(self.made)
        key = key.public_key()
        # ML-DSA has a pre-hash form with SHA-512 only
        self.made.append((self.id(key), bytes_of(data), t, hash_alg if not hasattr(key, "ml_class") or hash_alg == "sha512" else None))
        return t

    def same(self, a, b):
        return len(a) == len(b) and (a is b or bool(self.h.eq(a, b)))

    def judge(self, key, data, signature, hash_alg):
        from cryptography.exceptions import InvalidSignature

        data, signature = bytes_of(data), bytes_of(signature)
        if self.ideal:
            ok = any(k == key and signature == t and g == hash_alg and self.same(d, data) for k, d, t, g in self.made)
        else:
            ok = None
            for c in self.calls:
                if c[0] == key and c[2] == signature and c[3] == hash_alg and self.same(c[1], data):
                    ok = c[4]
            if ok is None:
                ok = bool(self.h.bool(f"verdict{len(self.calls)}"))
        self.calls.append((key, data, signature, hash_alg, ok))
        if not ok:
            raise InvalidSignature()

    def outcome(self, a, need, what):
        """a succeeded iff all the needed signatures were accepted (need None: it must fail)."""
        h = self.h
        if need is None:
            return h.check(not a.ok, f"{what} without the needed keys, signatures or algorithms is refused")
        got = [[c for c in self.calls if c[0] == k and c[2] == s and c[3] == g and self.same(c[1], d)] for k, d, s, g in need]
        if a.ok:
            for g in got:
                h.check(any(c[4] for c in g), f"{what} is accepted only if every one of its signatures was verified with its key over its data")
        else:
            h.check(any(not c[4] for g in got for c in g), f"{what} is refused only if one of its signatures is wrong")


def extension(oid, value, critical=False):
    from pyasn1.type import univ
    from pyasn1_alt_modules import rfc5280

    x = rfc5280.Extension()
    x["extnID"] = univ.ObjectIdentifier(oid)
    x["critical"] = critical
    x["extnValue"] = univ.OctetString(value)
    return x


def holder(h, w, source, other):
    """A certificate for a traditional key which names another key in the given way; certificates to find it, the other key."""
    from pyasn1.codec.der import encoder

    c = cert(h, w.trad(0), serial=11)
    ext = c["tbsCertificate"]["extensions"]
    more = []
    if source == "catalyst":
        ext.append(extension(ALT_KEY, encoder.encode(w.spki(other))))
    elif source in ("related", "related_second", "related_missing", "related_wrong"):
        o = cert(h, other, serial=12)
        ext.append(h.module("pq_logic.hybrid_sig.cert_binding_for_multi_auth").prepare_related_cert_extension(o, hash_alg="sha256"))
        stray = cert(h, w.pq(7), serial=13)
        more = {"related": [o], "related_second": [stray, o], "related_missing": [], "related_wrong": [stray]}[source]
    elif source == "chameleon":
        o = cert(h, other, serial=12)
        d = h.module("pq_logic.hybrid_sig.chameleon_logic").prepare_dcd_extension_from_delta(o, c)
        ext.append(extension("2.16.840.1.114027.80.6.1", encoder.encode(d)))
    elif source == "sun":
        ext.append(h.module("pq_logic.hybrid_sig.sun_lamps_hybrid_scheme_00").prepare_sun_hybrid_alt_sub_pub_key_ext(other, by_val=True, hash_alg="sha256"))
    elif source in ("discovery", "discovery_algs", "discovery_wrong"):
        o = cert(h, other, serial=12)
        u = h.module("resources.utils")

        def load(uri, **k):
            if str(uri) != URL:
                raise ValueError("location")
            return [o, cert(h, w.pq(8), serial=14)]

        h.patch(u, "load_certificate_from_uri", load)
        kw = {} if source == "discovery" else {"other_cert": o if source == "discovery_algs" else cert(h, w.trad(3), serial=12)}
        ext.append(h.module("pq_logic.hybrid_sig.certdiscovery").prepare_subject_info_access_syntax_extension(url=URL, **kw))
    return c, more, None if source in ("none", "related_missing", "related_wrong", "discovery_wrong") else other


SOURCES = ("none", "catalyst", "related", "related_second", "related_missing", "related_wrong", "chameleon", "sun", "discovery", "discovery_algs", "discovery_wrong")


def build(h, w, alg, nonce, body, infos, certs):
    """A certConf protected by a signature."""
    from pyasn1.type import tag, univ
    from pyasn1_alt_modules import rfc9480

    m = message(h, nonce, body)
    pa = alg_id(alg).subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1), cloneValueFlag=True)
    m["header"]["protectionAlg"] = pa
    for t, v in infos:
        i = rfc9480.InfoTypeAndValue()
        i["infoType"] = univ.ObjectIdentifier(t)
        i["infoValue"] = univ.Any(v)
        m["header"]["generalInfo"].append(i)
    m["protection"] = h.module("resources.protectionutils").prepare_pki_protection_field(b"protection")
    for c in certs:
        m["extraCerts"].append(c)
    return m


def verified(h, w, m, what, need, **k):
    """The outcome is as needed, twice, and the message is left alone."""
    from pyasn1.codec.der import encoder

    f = h.module("pq_logic.pq_verify_logic").verify_hybrid_pkimessage_protection
    before = encoder.encode(m)
    a = h.attempt(f, m, allowed=(Exception,), **k)
    w.outcome(a, need, what)
    after = encoder.encode(m)
    h.check(len(before) == len(after) and h.eq(bytes_of(before), bytes_of(after)), "the verification of a message does not change it")
    b = h.attempt(f, m, allowed=(Exception,), **k)
    h.check(a.ok == b.ok, "a message verified again gives the same result")


@harness("C21", MODS, {"composite_message/" + g: {"group": g} for g in ("one", "two")}, bound="certificates naming the other key in each way; an ML-DSA or EC other key; the key given or not; any 1-byte nonce and body", budget=120)
def composite_message(h, group):
    """Messages with a composite signature."""
    w = World(h)
    nonce, body = h.bytes("nonce", 1), h.bytes("body", 1)
    if group == "two":
        source = h.choice("source", SOURCES)
        other = h.choice("other", (w.pq(1), w.trad(2))) if source in ("catalyst", "related", "chameleon") else w.pq(1)
        c, more, key = holder(h, w, source, other)
        m = build(h, w, COMP, nonce, body, [], [c] + more)
        ok = key is not None and key is not w.trad(2) and hasattr(key, "ml_class")
        need = [(w.id(key) + w.id(w.trad(0)), der(m), b"protection", None)] if ok else None
        return verified(h, w, m, "a message with the composite signature of two certificates", need)
    kind = h.choice("kind", ("key", "cert", "key_and_cert", "pq", "plain_alg", "none", "plain_key", "no_alg", "no_protection"))
    comp, comp2 = w.Composite(w.pq(1), w.trad(0)), w.Composite(w.pq(2), w.trad(1))
    certs = {"cert": [cert(h, comp)], "key_and_cert": [cert(h, comp2)], "pq": [cert(h, w.pq(1))], "plain_alg": [cert(h, comp)], "no_alg": [cert(h, comp)], "no_protection": [cert(h, comp)]}.get(kind, [])
    m = build(h, w, ECDSA if kind == "plain_alg" else COMP, nonce, body, [], certs)
    d = der(m)
    if kind in ("no_alg", "no_protection"):
        unset(m["header"] if kind == "no_alg" else m, "protectionAlg" if kind == "no_alg" else "protection")
    need = [(w.id(w.pq(1)) + w.id(w.trad(0)), d, b"protection", None)] if kind in ("key", "cert", "key_and_cert") else None
    pk = comp if kind in ("key", "key_and_cert") else w.trad(0) if kind == "plain_key" else None
    verified(h, w, m, "a message with a composite signature", need, public_key=pk)


def unset(x, n):
    from pyasn1.type import univ

    x._componentValues[x.componentType.getPositionByName(n)] = univ.noValue


@harness("C21", MODS, {"catalyst_message/" + g: {"group": g} for g in ("parts", "key", "given")}, bound="each part of the alternative signature present or absent, at any place among the general information; the alternative key in the message or in the certificate in each way; any 1-byte nonce and body", budget=120)
def catalyst_message(h, group):
    """Messages with one signature and possibly an alternative one."""
    from pyasn1.codec.der import encoder

    w = World(h)
    nonce, body = h.bytes("nonce", 1), h.bytes("body", 1)
    must, source, given = False, "none", None
    parts = ("alg", "key", "sig")
    alg, akey = MLDSA, w.pq(1)
    if group == "parts":
        parts = h.choice("parts", ((), ("alg",), ("sig",), ("key",), ("alg", "sig"), ("alg", "key"), ("key", "sig"), ("alg", "key", "sig"), ("sig", "alg", "key"), ("key", "alg", "sig", "other"), ("other", "sig", "key", "alg"), ("other",)))
        must = h.choice("must_be_signed_twice", (False, True))
    elif group == "key":
        source = h.choice("source", SOURCES)
        parts = h.choice("parts", (("alg", "sig"), ("alg", "key", "sig")))
        alg = h.choice("alg", (MLDSA, ECDSA))
    else:
        given = h.choice("given", (w.trad(0), w.trad(1)))
        parts = h.choice("parts", ((), ("alg", "key", "sig")))
    c, more, key = holder(h, w, source, w.pq(3))
    value = {"alg": (ALT_ALG, encoder.encode(alg_id(alg))), "key": (ALT_KEY, encoder.encode(w.spki(akey))), "sig": (ALT_SIG, tlv(3, b"\x00alternative")), "other": ("1.3.6.1.5.5.7.4.13", b"\x05\x00")}
    infos = [value[p] for p in parts]
    certs = [c] + more
    if given is not None and h.choice("without_certs", (False, True)):
        certs = []
    m = build(h, w, ECDSA, nonce, body, infos, certs)
    alt = build(h, w, ECDSA, nonce, body, [value[p] for p in parts if p != "sig"], certs)
    need = [(w.id(given or w.trad(0)), der(m), b"protection", "sha256")]
    both = "alg" in parts and "sig" in parts
    key = akey if "key" in parts else key
    if both and key is not None and alg == MLDSA:
        need.append((w.id(key), der(alt), b"alternative", None))
    elif both or "alg" in parts or "sig" in parts or must:
        need = None
    # a wrong primary signature may be reported first
    verified(h, w, m, "a message with an alternative signature" if parts else "a message with one signature", need, public_key=given, must_be_catalyst_signed=must)


def crl(h, exts, number):
    """A certificate list."""
    from pyasn1.type import tag, univ, useful
    from pyasn1_alt_modules import rfc5280

    x = rfc5280.CertificateList()
    t = x["tbsCertList"]
    t["version"] = 1
    t["signature"]["algorithm"] = univ.ObjectIdentifier(ECDSA)
    t["issuer"] = name("a")
    for f in ("thisUpdate", "nextUpdate"):
        t[f]["utcTime"] = useful.UTCTime("260101000000Z")
    e = t["revokedCertificates"]
    r = rfc5280.TBSCertList().componentType.getTypeByPosition(5).componentType.clone()
    r["userCertificate"] = number
    r["revocationDate"]["utcTime"] = useful.UTCTime("260101000000Z")
    e.append(r)
    for y in exts:
        t["crlExtensions"].append(y)
    x["signatureAlgorithm"]["algorithm"] = univ.ObjectIdentifier(ECDSA)
    x["signature"] = univ.BitString.fromOctetString(b"protection")
    return x


@harness("C21", MODS, {"crl": {}}, bound="each part of the alternative signature present or absent, among other extensions; the alternative key given or in the list; any serial number of one byte", budget=120)
def crl_verify(h):
    """Verification of certificate lists."""
    from pyasn1.codec.der import encoder

    f = h.module("pq_logic.pq_verify_logic").verify_crl_signature
    w = World(h)
    serial = h.int("serial", 1, 100)
    parts = h.choice("parts", ((), ("number",), ("alg",), ("sig",), ("key",), ("alg", "sig"), ("key", "sig"), ("number", "alg", "sig"), ("alg", "key", "sig"), ("sig", "key", "alg", "number"), ("number", "key")))
    must = h.choice("must_be_signed_twice", (False, True))
    given = h.choice("given", (None, w.pq(2)))
    alg = h.choice("alg", (MLDSA, ECDSA)) if parts == ("alg", "key", "sig") else MLDSA
    v = {"alg": (ALT_ALG, encoder.encode(alg_id(alg))), "key": (ALT_KEY, encoder.encode(w.spki(w.pq(1)))), "sig": (ALT_SIG, tlv(3, b"\x00alternative")), "number": ("2.5.29.20", b"\x02\x01\x05")}
    x = crl(h, [extension(*v[p]) for p in parts], serial)
    y = crl(h, [extension(*v[p]) for p in parts if p != "sig"], serial)
    need = [(w.id(w.trad(0)), bytes_of(encoder.encode(x["tbsCertList"])), b"protection", "sha256")]
    key = given if given is not None else w.pq(1) if "key" in parts else None
    if "alg" in parts and "sig" in parts and key is not None and alg == MLDSA:
        need.append((w.id(key), bytes_of(encoder.encode(y["tbsCertList"])) + encoder.encode(x["signatureAlgorithm"]), b"alternative", None))
    elif "alg" in parts or "sig" in parts or must:
        need = None
    ca = cert(h, w.trad(0))
    before = encoder.encode(x)
    a = h.attempt(f, x, ca, alt_public_key=given, must_be_catalyst_signed=must, allowed=(Exception,))
    w.outcome(a, need, "a certificate list with an alternative signature" if parts else "a certificate list")
    after = encoder.encode(x)
    h.check(len(before) == len(after) and h.eq(bytes_of(before), bytes_of(after)), "the verification of a certificate list does not change it")


@harness("C21", MODS, {"crl_signed": {}}, bound="with and without alternative key, public key included or not, another extension or none; the serial number of the entry, the order of the extensions or either signature changed", budget=120)
def crl_signed(h):
    """Lists signed with two keys verify, and no change of them does."""
    from pyasn1.type import univ

    pv, cl = h.module("pq_logic.pq_verify_logic"), h.module("pq_logic.hybrid_sig.catalyst_logic")
    w = World(h, ideal=True)
    two, include = h.choice("keys", ((False, False), (True, False), (True, True)))
    number = h.choice("number", (False, True))
    serial = h.int("serial", 1, 100)
    x = crl(h, [extension("2.5.29.20", b"\x02\x01\x05")] if number else [], serial)
    trad, pq = ecc(0), Priv(w)
    a = h.attempt(cl.sign_crl_catalyst, x, trad, alt_private_key=pq if two else None, include_alt_public_key=include, allowed=(Exception,))
    h.check(a.ok, "a certificate list is signed")
    if not a.ok:
        return
    x = a.value
    change = h.choice("change", ("none", "serial", "resigned", "issuer", "next_update", "extra", "signature", "other_key"))
    good = True
    if change in ("serial", "resigned", "issuer", "next_update", "extra"):
        t = x["tbsCertList"]
        if change in ("serial", "resigned"):
            s2 = h.int("serial2", 1, 100)
            t["revokedCertificates"][0]["userCertificate"] = s2
            good = h.eq(s2, serial)
        else:
            good = False
            if change == "issuer":
                t["issuer"] = name("b")
            elif change == "next_update":
                t["nextUpdate"]["utcTime"] = "270101000000Z"
            else:
                t["crlExtensions"].append(extension("1.2.3.5", b"\x05\x00"))
        if change != "serial":
            # the holder of the traditional key alone signs the changed list
            from pyasn1.codec.der import encoder

            x["signature"] = univ.BitString.fromOctetString(w.sign(encoder.encode(x["tbsCertList"]), trad, "sha256"))
            if not two:
                good = True
    elif change == "signature":
        x["signature"] = univ.BitString.fromOctetString(b"signature0009")
        good = False
    elif change == "other_key":
        good = not two
    given = w.pq(2) if change == "other_key" else w.pq(1) if two and not include else None
    v = h.attempt(pv.verify_crl_signature, x, cert(h, w.trad(0)), alt_public_key=given, must_be_catalyst_signed=two, allowed=(Exception,))
    h.check(h.iff(v.ok, good), "a certificate list signed with two keys is accepted if and only if it is the one both keys signed")


def Priv(w, i=1):
    class P(w.sk.MLDSAPrivateKey):
        def __init__(self):
            self._name = "ml-dsa-44"

        name = property(lambda s: "ml-dsa-44")

        def public_key(self):
            return w.pq(i)

    P.__abstractmethods__ = frozenset()
    return P()


def unique_id(t, n, v):
    t[n] = t.componentType[t.componentType.getPositionByName(n)].asn1Object.clone(hexValue=f"{v:02x}")


@harness("C21", MODS, {"catalyst_cert": {}}, bound="one change of a certificate with or without unique identifiers, signed again by the holder of the traditional key; serial number and extension value symbolic; each of the three extensions left out; the algorithm required or not", budget=120)
def catalyst_cert(h):
    """Certificates signed with two keys."""
    from pyasn1.codec.der import encoder
    from pyasn1.type import univ

    cl = h.module("pq_logic.hybrid_sig.catalyst_logic")
    w = World(h, ideal=True)
    trad, pq = ecc(0), Priv(w)
    serial, b = h.int("serial", 1, 100), h.bytes("value", 1)
    c = cert(h, w.trad(4), serial=7)
    t = c["tbsCertificate"]
    t["serialNumber"] = serial
    change = h.choice("change", ("none", "serial", "value", "critical", "issuer", "subject", "validity", "key", "version", "issuer_id", "subject_id", "extra", "fewer", "drop_alg", "drop_key", "drop_sig", "drop_all", "alt_key", "traditional", "alt_sig"))
    ids = h.choice("unique_ids", ((), ("issuer",), ("subject",), ("issuer", "subject"))) if change in ("none", "issuer_id", "subject_id") else ()
    critical = change in ("none", "value", "critical", "fewer") and h.choice("critical", (False, True))
    t["extensions"].append(extension("1.2.3.4", b"\x04\x01" + b, critical))
    for n in ids:
        unique_id(t, n + "UniqueID", 5)
    a = h.attempt(cl.sign_cert_catalyst, c, pq_key=pq, trad_key=trad, allowed=(Exception,))
    h.check(a.ok, "a certificate is signed")
    if not a.ok:
        return
    c = a.value
    t = c["tbsCertificate"]
    exts = t["extensions"]
    h.check([str(e["extnID"]) for e in exts][-3:] == [ALT_ALG, ALT_KEY, ALT_SIG], "the certificate carries algorithm, alternative key and alternative signature")
    good = change == "none"
    i = next(n for n, e in enumerate(exts) if str(e["extnID"]) == "1.2.3.4")
    if change == "serial":
        s2 = h.int("serial2", 1, 100)
        t["serialNumber"] = s2
        good = h.eq(s2, serial)
    elif change == "value":
        b2 = h.bytes("value2", 1)
        exts[i]["extnValue"] = univ.OctetString(b"\x04\x01" + b2)
        good = h.eq(b2, b)
    elif change == "critical":
        exts[i]["critical"] = not critical
    elif change in ("issuer", "subject"):
        t[change] = name("other")
    elif change == "validity":
        t["validity"]["notAfter"]["utcTime"] = "490101000000Z"
    elif change == "version":
        t["version"] = 0
    elif change in ("issuer_id", "subject_id"):
        n = change[:-3]
        if n in ids and h.choice("drop", (False, True)):
            unset(t, n + "UniqueID")
        else:
            unique_id(t, n + "UniqueID", 9)
    elif change == "key":
        t["subjectPublicKeyInfo"] = w.spki(w.trad(5))
    elif change == "extra":
        exts.append(extension("1.2.3.5", b"\x05\x00"))
    elif change in ("fewer", "drop_alg", "drop_key", "drop_sig", "drop_all"):
        out = {"fewer": ["1.2.3.4"], "drop_alg": [ALT_ALG], "drop_key": [ALT_KEY], "drop_sig": [ALT_SIG], "drop_all": [ALT_ALG, ALT_KEY, ALT_SIG]}[change]
        keep = [e for e in exts if str(e["extnID"]) not in out]
        exts.clear()
        exts.extend(keep)
    elif change == "alt_key":
        e = next(e for e in exts if str(e["extnID"]) == ALT_KEY)
        e["extnValue"] = univ.OctetString(encoder.encode(w.spki(w.pq(2))))
    elif change == "alt_sig":
        e = next(e for e in exts if str(e["extnID"]) == ALT_SIG)
        e["extnValue"] = univ.OctetString(tlv(3, b"\x00signature0099"))
    if change not in ("none", "traditional"):
        c["signature"] = univ.BitString.fromOctetString(w.sign(encoder.encode(t), trad, "sha256"))
    elif change == "traditional":
        c["signature"] = univ.BitString.fromOctetString(b"signature0099")
    how = h.choice("issuer_given", ("key", "cert", "other"))
    k = {"key": {"issuer_pub_key": w.trad(0)}, "cert": {"issuer_cert": cert(h, w.trad(0))}, "other": {"issuer_cert": cert(h, w.trad(1)), "issuer_pub_key": w.trad(0)}}[how]
    if change == "none":
        need = h.choice("required", (None, "ml-dsa-44", "ml-dsa-65", MLDSA, ECDSA))
        k["sig_alg_must_be"] = need
        good = need in (None, "ml-dsa-44", MLDSA)
    if how == "other":
        good = False
    v = h.attempt(cl.verify_catalyst_signature, c, allowed=(Exception,), **k)
    h.check(h.iff(v.ok, good), "a certificate signed with two keys is accepted if and only if it is the one both keys signed")


@harness("C21", MODS, {"alt_key": {}}, bound="a certificate naming its other key in each way, or two of them, or holding a composite key", budget=60)
def alt_key(h):
    """The alternative key is the one the certificate names."""
    pv = h.module("pq_logic.pq_verify_logic")
    w = World(h)
    source = h.choice("source", SOURCES + ("composite",))
    if source == "composite":
        c, more, key = cert(h, w.Composite(w.pq(1), w.trad(0))), [], w.pq(1)
    else:
        c, more, key = holder(h, w, source, w.pq(1))
    a = h.attempt(pv.may_extract_alt_key_from_cert, c, other_certs=more, allowed=(Exception,))
    if source in ("related_missing", "related_wrong", "discovery_wrong"):
        return h.check(not a.ok, "no key is taken from a certificate which is not the named one")
    h.check(a.ok, "the alternative key is found")
    if a.ok:
        h.check((a.value is None) == (key is None) and (key is None or w.id(a.value) == w.id(key)), "the alternative key is the one the certificate names")
    h.reach(source)
