"""C18 proof of possession: a certificate is issued only to the holder of its private key, request by request."""

from harnesses.cmp import CMP, PY, real_cert
from harnesses.stubs import bytes_of, hash_model
from symex.harness import harness

ASSUMPTIONS = [
    "verification of a signature, of a MAC and of a certificate chain are arbitrary functions (accept or refuse at every call)",
    "building the certificate from a template succeeds",
]
OUTSIDE = ["the signature schemes, the KEMs and the key agreement", "the EnvelopedData around encrypted private keys", "batches of more than 3 requests"]
MODS = CMP + ("resources.protectionutils", "resources.certutils", "resources.keyutils", "resources.convertutils", "resources.compareutils", "resources.certbuildutils", "resources.utils", "resources.extra_issuing_logic")
ECDSA_SHA256 = "1.2.840.10045.4.3.2"


def ec_key(i):
    from cryptography.hazmat.primitives.asymmetric import ec

    return ec.derive_private_key(1000 + i, ec.SECP256R1())


def x_key(i):
    from cryptography.hazmat.primitives.asymmetric import x25519

    return x25519.X25519PrivateKey.from_private_bytes(bytes([i + 1] * 32))


def kem_key(h, i):
    return h.module("pq_logic.keys.kem_keys").MLKEMPublicKey.from_public_bytes(b"\x00" * 768 + bytes([i] * 32), "ml-kem-512")


def raw(key):
    """DER of a public key."""
    from cryptography.hazmat.primitives import serialization as s

    if hasattr(key, "public_bytes_raw") and type(key).__name__.startswith("MLKEM"):
        return key.public_bytes_raw()
    try:
        return key.public_bytes(s.Encoding.DER, s.PublicFormat.SubjectPublicKeyInfo)
    except Exception:  # noqa: BLE001
        return key.public_bytes()


SIG, RA, KGA, NOPOP, ENCR, AGREE, ENCK, ENCA = "signature", "raVerified", "kga", "missing", "encrCert", "agreeMAC", "encryptedKey", "encryptedKey2"


def public(h, kind, i):
    if kind in (ENCR, ENCK):
        return kem_key(h, i)
    if kind in (AGREE, ENCA):
        return x_key(i).public_key()
    return ec_key(i).public_key()


def popo(kind, i):
    from pyasn1.type import tag, univ
    from pyasn1_alt_modules import rfc4211

    p = rfc4211.ProofOfPossession()
    con, sim = tag.tagFormatConstructed, tag.tagFormatSimple
    if kind == RA:
        p["raVerified"] = univ.Null("").subtype(implicitTag=tag.Tag(tag.tagClassContext, sim, 0))
    elif kind == SIG:
        s = rfc4211.POPOSigningKey().subtype(implicitTag=tag.Tag(tag.tagClassContext, con, 1))
        s["algorithmIdentifier"]["algorithm"] = ECDSA_SHA256
        s["signature"] = univ.BitString.fromOctetString(bytes([0x30, i]))
        p["signature"] = s
    elif kind in (ENCR, AGREE, ENCK, ENCA):
        name, n = ("keyEncipherment", 2) if kind in (ENCR, ENCK) else ("keyAgreement", 3)
        k = rfc4211.POPOPrivKey().subtype(implicitTag=tag.Tag(tag.tagClassContext, con, n))
        if kind == ENCR:
            k["subsequentMessage"] = rfc4211.SubsequentMessage("encrCert").subtype(implicitTag=tag.Tag(tag.tagClassContext, sim, 1))
        elif kind == AGREE:
            v = rfc4211.PKMACValue().subtype(implicitTag=tag.Tag(tag.tagClassContext, con, 3))
            v["algId"]["algorithm"] = "1.2.840.113549.2.9"
            v["value"] = univ.BitString.fromOctetString(bytes([0xA0, i]))
            k["agreeMAC"] = v
        else:
            env = k["encryptedKey"]
            env["version"] = 2
            env["recipientInfos"].clear()
            env["encryptedContentInfo"]["contentType"] = "1.2.840.113549.1.7.1"
            env["encryptedContentInfo"]["contentEncryptionAlgorithm"]["algorithm"] = "2.16.840.1.101.3.4.1.42"
        p[name] = k
    else:
        return None
    return p


def request(h, kind, i, req_id=None, subject=None, controls=None):
    """The i-th certificate request."""
    from pyasn1_alt_modules import rfc4211

    cmputils = h.module("resources.cmputils")
    m = rfc4211.CertReqMsg()
    m["certReq"] = cmputils.prepare_cert_request(key=public(h, kind, i), common_name=subject or f"CN=subject {i}", for_kga=kind == KGA, controls=controls)
    m["certReq"]["certReqId"] = i if req_id is None else req_id
    p = popo(kind, i)
    if p is not None:
        m["popo"] = p
    return m


def message(h, body, reqs, prot=None, certs=()):
    cmputils = h.module("resources.cmputils")
    m = cmputils.prepare_pki_message(sender="CN=a", recipient="CN=b", exclude_fields="senderKID,recipNonce,messageTime", transaction_id=b"t" * 16, sender_nonce=b"n" * 16)
    for r in reqs:
        m["body"][body].append(r)
    if not reqs:
        m["body"][body].clear()
    if prot is not None:
        m["header"]["protectionAlg"]["algorithm"] = prot
    for c in certs:
        m["extraCerts"].append(c)
    return m


class World:
    """The checks and the issuing around the proof of possession."""

    def __init__(self, h):
        self.h = h
        h.patch(h.module("resources.ca_ra_utils"), "_perform_encaps_with_keys", self.encaps)
        pu, bu, cu, ca = (h.module("resources." + n) for n in ("protectionutils", "certbuildutils", "cryptoutils", "ca_ra_utils"))
        self.sigs, self.built, self.macs, self.keys, self.encs, self.n, self.ra = [], [], [], [], [], 0, []
        h.patch(pu, "verify_signature_with_alg_id", self.verify)
        h.patch(bu, "build_cert_from_cert_template", self.build)
        h.patch(cu, "perform_ecdh", lambda a, b: b"ss:" + raw(a.public_key()) + raw(b))
        h.patch(pu, "compute_mac_from_alg_id", self.mac)
        h.patch(ca, "_verify_ra_verified", self.ra_verified)
        h.patch(ca, "prepare_cert_and_private_key_for_kga", self.kga)
        ev = h.module("resources.envdatautils")
        h.patch(ev, "prepare_kem_recip_info", self.recip_info)
        h.patch(ev, "parse_recip_info", lambda r: r)
        h.patch(ev, "prepare_enveloped_data", self.enveloped)

    def verify(self, public_key, alg_id, data, signature, **k):
        ok = self.h.bool("signature_valid")
        self.sigs.append((raw(public_key), str(alg_id["algorithm"]), bytes_of(data), bytes(signature), ok))
        if self.h.no(ok):
            raise self.h.module("cryptography.exceptions").InvalidSignature()

    def cert(self):
        self.n += 1
        return real_cert(100 + self.n)

    def build(self, cert_template, ca_key=None, ca_cert=None, **k):
        c = self.cert()
        self.built.append((c, cert_template))
        # the certificate carries the public key of the template
        c["tbsCertificate"]["subjectPublicKeyInfo"]["algorithm"] = cert_template["publicKey"]["algorithm"]
        c["tbsCertificate"]["subjectPublicKeyInfo"]["subjectPublicKey"] = cert_template["publicKey"]["subjectPublicKey"]
        return c

    def mac(self, key, alg_id, data, **k):
        v = self.h.bytes("mac", 2)
        self.macs.append((bytes_of(key), str(alg_id["algorithm"]), bytes_of(data), v))
        return v

    def ra_verified(self, pki_message, **k):
        if not k.get("verify_ra_verified", True):
            return
        ok = self.h.bool("ra_trusted")
        self.ra.append(ok)
        if self.h.no(ok):
            raise self.h.module("resources.exceptions").NotAuthorized("ra")

    def kga(self, cert_template, ca_cert, ca_key, **k):
        c = self.cert()
        self.keys.append((c, cert_template))
        return c, self.envelope("kga")

    def envelope(self, what):
        from pyasn1.type import tag
        from pyasn1_alt_modules import rfc5652

        e = rfc5652.EnvelopedData().subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))
        e["version"] = 2
        e["recipientInfos"].clear()
        e["encryptedContentInfo"]["contentType"] = "1.2.840.113549.1.7.1"
        e["encryptedContentInfo"]["contentEncryptionAlgorithm"]["algorithm"] = "2.16.840.1.101.3.4.1.42"
        e["encryptedContentInfo"]["encryptedContent"] = what.encode()
        return e

    def encaps(self, public_key, hybrid_kem_key=None):
        from pyasn1.type import univ

        return b"ss:" + raw(public_key), b"ct", univ.ObjectIdentifier("1.2.3")

    def recip_info(self, **k):
        return ("kem", k["shared_secret"], k["cek"])

    def enveloped(self, recipient_infos, cek, target, data_to_protect, **k):
        self.encs.append((recipient_infos, cek, data_to_protect))
        return self.envelope("encrypted %d" % (len(self.encs) - 1))

    def sig_ok(self, req, sent=None):
        """Some call accepted the signature over this request under its own key."""
        from pyasn1.codec.der import encoder

        s = req["popo"]["signature"]
        want = sent or encoder.encode(req["certReq"])
        out = []
        for key, alg, data, sig, ok in self.sigs:
            if key == self.key_of(req) and alg == str(s["algorithmIdentifier"]["algorithm"]) and sig == s["signature"].asOctets():
                out.append(self.h.both(ok, self.h.eq(data, bytes_of(want))))
        return self.h.either(*out) if out else False

    def key_of(self, req):
        ku = self.h.module("resources.keyutils")
        return raw(ku.load_public_key_from_cert_template(req["certReq"]["certTemplate"], must_be_present=True))

    def mac_ok(self, req, server):
        from pyasn1.codec.der import encoder

        v = req["popo"]["keyAgreement"]["agreeMAC"]
        want = encoder.encode(req["certReq"])
        out = [self.h.both(self.h.eq(m, v["value"].asOctets()), self.h.eq(data, bytes_of(want))) for key, alg, data, m in self.macs if key == b"ss:" + raw(server.public_key()) + self.key_of(req) and alg == str(v["algId"]["algorithm"])]
        return self.h.either(*out) if out else False


KINDS = (SIG, RA, KGA, NOPOP, ENCR, AGREE)


def judge(h, w, reqs, kinds, r, certs, responses, server, check_ra=True):
    """Every issued certificate had its proof of possession."""
    from pyasn1.codec.der import encoder

    ex = h.module("resources.exceptions")
    if not r.ok:
        good = []
        for q, k in zip(reqs, kinds):
            good.append({SIG: lambda: w.sig_ok(q), RA: lambda: True if not check_ra else (w.ra[-1] if w.ra else False), KGA: lambda: True, NOPOP: lambda: False, ENCR: lambda: True, AGREE: lambda: w.mac_ok(q, server)}[k]())
        h.check(h.no(h.both(*good)) if len(good) > 1 else h.no(good[0]), "a request with a valid proof of possession is answered")
        return h.check(isinstance(r.exc, (ex.BadPOP, ex.NotAuthorized, ex.BadCertTemplate)), "a missing proof of possession is refused with badPOP")
    h.check(len(certs) == len(reqs) and len(responses) == len(reqs), "one answer per request")
    ra = list(w.ra)
    for i, (q, k) in enumerate(zip(reqs, kinds)):
        h.check(h.eq(responses[i]["certReqId"].__int__(), q["certReq"]["certReqId"].__int__()), "the answer has the identifier of the request")
        pair = responses[i]["certifiedKeyPair"]
        what = pair["certOrEncCert"].getName()
        if k == SIG:
            h.check(w.sig_ok(q), "the signature over this request was verified with its own key")
        elif k == RA:
            h.check(ra.pop(0) if ra else not check_ra, "raVerified was accepted only from a trusted RA")
        elif k == NOPOP:
            h.check(False, "a key without proof of possession gets no certificate")
        elif k == AGREE:
            h.check(w.mac_ok(q, server), "the MAC over this request was verified with the agreed key")
        if k == KGA:
            c, t = next((c, t) for c, t in w.keys if c is certs[i])
            h.check(t is q["certReq"]["certTemplate"] or str(t["subject"]) == str(q["certReq"]["certTemplate"]["subject"]), "the generated key belongs to this request")
            h.check(pair["privateKey"].isValue, "the generated key is delivered")
        else:
            t = [t for c, t in w.built if c is certs[i]]
            h.check(len(t) == 1 and encoder.encode(t[0]) == encoder.encode(q["certReq"]["certTemplate"]), "the certificate is the one of this request")
            h.check(not pair["privateKey"].isValue, "no private key is delivered")
        if k == ENCR:
            h.check(what == "encryptedCert", "the certificate is sent encrypted only")
            if what == "encryptedCert":
                env = bytes(pair["certOrEncCert"]["encryptedCert"]["envelopedData"]["encryptedContentInfo"]["encryptedContent"])
                infos, cek, data = w.encs[int(env.split()[1])]
                from pyasn1.codec.der import encoder

                h.check(len(infos) == 1 and infos[0][1] == b"ss:" + w.key_of(q) and infos[0][2] == cek, "the key of the encrypted certificate is encapsulated for the requested key only")
                h.check(data == encoder.encode(certs[i]), "the certificate of this request is encrypted")
        else:
            h.check(what == "certificate", "the certificate is sent")
            if what == "certificate":
                h.check(int(pair["certOrEncCert"]["certificate"]["tbsCertificate"]["serialNumber"]) == int(certs[i]["tbsCertificate"]["serialNumber"]), "the certificate of this request is sent")


@harness("C18", MODS, {f"batch/{k}": {"first": k} for k in KINDS}, bound="2 requests of every kind, any outcome of each verification, any first certReqId", budget=100)
def batch(h, first):
    """Every request of a batch proves possession of its own key."""
    ca = h.module("resources.ca_ra_utils")
    ex = h.module("resources.exceptions")
    w = World(h)
    kinds = (first, h.choice("second", KINDS))
    reqs = [request(h, k, i) for i, k in enumerate(kinds)]
    reqs[0]["certReq"]["certReqId"] = h.int("certReqId", 0, 100)
    m = message(h, "cr", reqs)
    server = x_key(77)
    trust = h.choice("check_ra", (True, False)) if RA in kinds else True
    r = h.attempt(ca._process_cert_requests, ca_key="ca", ca_cert="cert", request=m, eku_strict=True, x25519_key=server, verify_ra_verified=trust, allowed=(ex.CMPTestSuiteError,))
    certs, responses = (r.value[1], r.value[0]) if r.ok else ([], [])
    judge(h, w, m["body"]["cr"], kinds, r, certs, responses, server, trust)


ENTRIES = {"ip": ("ir", (SIG, RA, KGA, NOPOP, ENCR, AGREE)), "cp": ("cr", (SIG, RA, KGA, NOPOP, ENCR, AGREE)), "cp1": ("cr", (SIG, RA, NOPOP, ENCR, AGREE)), "kup": ("kur", (SIG, RA, NOPOP, ENCR, AGREE)), "ccp": ("ccr", (SIG, RA, KGA, NOPOP, ENCR, AGREE))}


@harness("C18", MODS, {f"entry/{k}": {"entry": k} for k in ENTRIES}, bound="one request of every kind, any outcome of each verification", budget=100)
def entry(h, entry):
    """ir, cr, kur and ccr: no way to a certificate around the proof of possession."""
    from pyasn1.codec.der import encoder

    ca = h.module("resources.ca_ra_utils")
    ex = h.module("resources.exceptions")
    w = World(h)
    body, kinds = ENTRIES[entry]
    kind = h.choice("kind", kinds)
    q = request(h, kind, 0)
    if entry == "ccp":
        t = q["certReq"]["certTemplate"]
        if h.choice("complete", (True, False)):
            complete_ca_template(t)
    m = message(h, body, [q], prot=ECDSA_SHA256, certs=(real_cert(5),))
    q = m["body"][body][0]
    sent = encoder.encode(q["certReq"])
    server = x_key(77)
    common = {"ca_key": "ca", "ca_cert": real_cert(9), "x25519_key": server, "sender": "CN=ca"}
    allowed = (ex.CMPTestSuiteError, NotImplementedError)
    if entry == "ip":
        r = h.attempt(ca.build_ip_cmp_message, request=m, allowed=allowed, **common)
    elif entry == "cp":
        r = h.attempt(ca.build_cp_cmp_message, request=m, allowed=allowed, **common)
    elif entry == "cp1":
        r = h.attempt(ca.build_cp_cmp_message, request=m, cert_index=0, allowed=allowed, **common)
    elif entry == "kup":
        r = h.attempt(ca.build_kup_from_kur, request=m, allowed=allowed, **common)
    else:
        r = h.attempt(ca.build_ccp_from_ccr, request=m, allowed=allowed, **common)
    if r.ok:
        msg, certs = r.value
        name = {"cp1": "cp"}.get(entry, entry)
        h.check(msg["body"].getName() == name, "the answer belongs to the request")
        responses = msg["body"][name]["response"]
        certs = certs if isinstance(certs, list) else [certs]
        if entry == "ccp" and w.built:
            h.check(w.built[0][1]["subject"] == q["certReq"]["certTemplate"]["subject"], "the certificate is the one of this request")
            h.check(kind == SIG, "a cross certificate needs a signature")
            h.check(w.sig_ok(q, sent), "the signature over this request was verified with its own key")
            return
        if entry == "kup":
            h.check(kind == SIG, "a key update needs a signature")
        judge(h, w, [q], [kind], r, certs, responses, server)
    elif entry == "kup" and kind not in (SIG, NOPOP):
        h.reach("refused")
    elif entry == "ccp":
        if kind == SIG and q["certReq"]["certTemplate"]["version"].isValue:
            h.check(h.no(w.sig_ok(q, sent)), "a request with a valid proof of possession is answered")
    elif entry == "kup" and kind == NOPOP:
        h.check(isinstance(r.exc, (ex.BadRequest, ex.BadPOP, ex.BadCertTemplate)), "a missing proof of possession is refused")
    else:
        judge(h, w, [q], [kind], r, [], [], server)


def complete_ca_template(t):
    """Everything a cross-certification request must contain."""
    from pyasn1.type import tag, useful
    from pyasn1_alt_modules import rfc5280, rfc9480

    full = real_cert()["tbsCertificate"]
    t["version"] = rfc5280.Version("v3").subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0))
    t["issuer"]["rdnSequence"] = full["issuer"]["rdnSequence"]
    for f, n in (("notBefore", 0), ("notAfter", 1)):
        t["validity"][f]["utcTime"] = useful.UTCTime("260101000000Z")
    t["signingAlg"]["algorithm"] = ECDSA_SHA256


@harness("C18", MODS, {"p10cr/" + k: {"entry": k} for k in ("cp", "ip", "verify")}, bound="one PKCS#10 request, either outcome of the signature verification", budget=60)
def p10cr(h, entry):
    """A PKCS#10 request is answered only if its own signature is valid."""
    from pyasn1.codec.der import encoder
    from pyasn1.type import univ
    from pyasn1_alt_modules import rfc6402

    ca = h.module("resources.ca_ra_utils")
    ex = h.module("resources.exceptions")
    cv = h.module("resources.convertutils")
    bu = h.module("resources.certbuildutils")
    w = World(h)
    built = []
    h.patch(bu, "build_cert_from_csr", lambda csr, **k: (built.append(csr), real_cert(3))[1])
    h.patch(cv, "ensure_is_sign_key", lambda k: k)
    csr = rfc6402.CertificationRequest()
    info = csr["certificationRequestInfo"]
    info["version"] = h.choice("version", (0, 1))
    info["subject"]["rdnSequence"] = real_cert()["tbsCertificate"]["subject"]["rdnSequence"]
    key = ec_key(h.choice("key", (1, 2))).public_key()
    info["subjectPublicKeyInfo"] = cv.subject_public_key_info_from_pubkey(key)
    info["attributes"].clear()
    csr["signatureAlgorithm"]["algorithm"] = ECDSA_SHA256
    csr["signature"] = univ.BitString.fromOctetString(b"sig")
    m = message(h, "cr", [])
    m2 = type(m)()
    m2["header"] = m["header"]
    for f in ("certificationRequestInfo", "signatureAlgorithm", "signature"):
        m2["body"]["p10cr"][f] = csr[f]
    info = m2["body"]["p10cr"]["certificationRequestInfo"]
    args = {"request": m2, "ca_key": "ca", "ca_cert": real_cert(9), "sender": "CN=ca"}
    if entry == "verify":
        r = h.attempt(ca.verify_sig_pop_for_pki_request, m2, allowed=(ex.CMPTestSuiteError,))
    else:
        r = h.attempt({"cp": ca.build_cp_from_p10cr, "ip": ca.build_ip_cmp_message}[entry], allowed=(ex.CMPTestSuiteError,), **args)
    ok = [h.both(s[4], h.eq(s[2], bytes_of(encoder.encode(info)))) for s in w.sigs if s[0] == raw(key) and s[3] == b"sig" and s[1] == ECDSA_SHA256]
    ok = h.either(*ok) if ok else False
    h.check(h.iff(r.ok, ok), "a PKCS#10 request is answered if and only if its signature is valid under the key it requests")
    if not r.ok:
        return h.check(isinstance(r.exc, ex.BadPOP), "an invalid signature is refused with badPOP")
    if entry != "verify":
        h.check(len(built) == 1, "one certificate")
        resp = r.value[0]["body"][entry]["response"]
        h.check(len(resp) == 1 and int(resp[0]["certReqId"]) == -1, "the answer to p10cr has certReqId -1")


@harness("C18", MODS, {"ra": {}}, bound="every combination of outcomes of the checks of the RA certificate, every kind of protection", budget=60)
def ra(h):
    """raVerified: only a message signed by a trusted RA may vouch for the possession."""
    ca = h.module("resources.ca_ra_utils")
    cu = h.module("resources.certutils")
    ex = h.module("resources.exceptions")
    prot = h.choice("protection", ("sig", "mac", "kem", "dh", "none"))
    certs = h.choice("certs", (0, 1, 2))
    m = message(h, "ir", [request(h, RA, 0)], prot={"sig": ECDSA_SHA256, "mac": "1.2.840.113549.1.5.14", "kem": "1.2.840.113533.7.66.16", "dh": "1.2.840.113533.7.66.30", "none": None}[prot], certs=[real_cert(i + 1) for i in range(certs)])
    trusted, eku, ku, chain_ok, self_signed = (h.bool(n) for n in ("trusted", "eku", "ku", "chain", "self_signed"))
    single = h.choice("chain_length", (1, 2)) == 1
    seen = {}

    def first(c):
        return int(c["tbsCertificate"]["serialNumber"]) == 1

    def check(name, ok, exc):
        def f(cert, *a, **k):
            h.check(first(cert), "the certificate of the signer is checked")
            seen[name] = k
            if h.no(ok):
                raise exc

        return f

    def in_list(c, certs_):
        h.check(first(c), "the certificate of the signer is checked")
        return h.both(trusted, True)

    h.patch(cu, "load_certificates_from_dir", lambda d: ["ra"])
    h.patch(cu, "cert_in_list", in_list)
    h.patch(cu, "validate_cmp_extended_key_usage", check("eku", eku, ValueError("eku")))
    h.patch(cu, "validate_key_usage", check("ku", ku, ValueError("ku")))
    h.patch(cu, "build_cmp_chain_from_pkimessage", lambda msg, ee_cert, **k: [ee_cert] if single else [ee_cert, real_cert(50)])
    h.patch(cu, "check_is_cert_signer", lambda a, b: h.both(self_signed, True))

    def verify(cert_chain, **k):
        seen["chain"] = k
        h.check(first(cert_chain[0]), "the chain of the signer is checked")
        if h.no(chain_ok):
            raise ex.SignerNotTrusted("chain")

    h.patch(cu, "verify_cert_chain_openssl", verify)
    strict = h.choice("strict_eku", (True, False))
    checked = h.choice("verify", (True, False))
    r = h.attempt(ca.verify_popo_for_cert_request, m, must_have_ra_eku_set=strict, verify_ra_verified=checked, allowed=(ex.CMPTestSuiteError,))
    if not checked:
        return h.check(r.ok, "checking the RA can be switched off")
    want = h.both(prot == "sig", certs > 0, trusted, eku, ku, h.either(not single, self_signed), chain_ok)
    h.check(h.iff(r.ok, want), "raVerified is accepted if and only if a trusted RA certificate with the right usages signed the message")
    if not r.ok:
        return h.check(isinstance(r.exc, ex.NotAuthorized), "the refusal is notAuthorized")
    h.check(seen["eku"].get("ext_key_usages") == "cmcRA" and seen["eku"].get("strictness") == ("STRICT" if strict else "LAX"), "the RA key usage is checked as strictly as configured")
    h.check(seen["ku"].get("key_usages") == "digitalSignature" and seen["ku"].get("strictness") == "STRICT", "the key usage is checked")


@harness("C18", MODS, {f"encrypted_key/{k}": {"kind": k} for k in (ENCK, ENCA)}, bound="every recipient type; decrypted key the requested one or not; identifier of either form equal to the subject or not", budget=100)
def encrypted_key(h, kind):
    """encryptedKey: the decrypted private key must be the one of the requested public key, sent by the requester."""
    from pyasn1.codec.der import encoder

    ca = h.module("resources.ca_ra_utils")
    kga = h.module("resources.ca_kga_logic")
    ev = h.module("resources.envdatautils")
    ex = h.module("resources.exceptions")
    w = World(h)
    rtype = h.choice("recipient", ("pwri", "kemri", "ktri", "kari"))
    same = h.choice("same_key", (True, False))
    ident = h.choice("identifier", ("string", "generalName", "none"))
    name_ok = h.choice("same_name", (True, False))
    trailing = h.choice("trailing", (b"", b"\x05\x00")) if same and name_ok else b""
    if kind == ENCA:
        priv = x_key(0 if same else 1)
    else:
        kem = h.module("pq_logic.keys.kem_keys")
        priv = kem.MLKEMPrivateKey.from_private_bytes(bytes(64), "ml-kem-512")
    key = h.module("resources.extra_issuing_logic").prepare_enc_key_with_id(private_key=priv, sender="CN=subject 0" if name_ok else "CN=other", use_string=ident == "string")
    if ident == "none":
        from pyasn1_alt_modules import rfc4211

        k2 = rfc4211.EncKeyWithID()
        k2["privateKey"] = key["privateKey"]
        key = k2
    data = encoder.encode(key) + trailing
    calls = []
    h.patch(ca, "_get_encrypted_key_recipient_type", lambda e: rtype)

    def opened(how):
        def f(**k):
            calls.append((how, k))
            return data

        return f

    h.patch(kga, "validate_enveloped_data", opened("data"))
    h.patch(kga, "validate_kemri_env_data_for_ca", opened("kemri"))
    q = request(h, kind, 0)
    if kind == ENCK and same:
        cv = h.module("resources.convertutils")
        spki = cv.subject_public_key_info_from_pubkey(priv.public_key())
        q["certReq"]["certTemplate"]["publicKey"]["subjectPublicKey"] = spki["subjectPublicKey"]
    cert = real_cert(5)
    m = message(h, "ir", [q], prot=ECDSA_SHA256, certs=(cert,))
    rsa = h.module("cryptography.hazmat.primitives.asymmetric.rsa")

    class RSA(rsa.RSAPrivateKey):
        pass

    RSA.__abstractmethods__ = frozenset()
    RSA.__init__ = lambda s: None
    kemk = h.module("resources.typingutils").__dict__.get("KEMPrivateKey") or h.module("pq_logic.keys.abstract_wrapper_keys").KEMPrivateKey
    K = type("K", (kemk,), {"__init__": lambda s: None})
    K.__abstractmethods__ = frozenset()
    extra = {"encr_rsa_key": RSA(), "kem_key": K(), "kem_cert": "kem", "ecc_key": ec_key(8), "ecc_cert": real_cert(6), "x25519_key": x_key(8)}
    r = h.attempt(ca._process_one_cert_request, ca_key="ca", ca_cert="cert", request=m, cert_index=0, eku_strict=True, password="secret", allowed=(ex.CMPTestSuiteError,), **extra)
    good = same and name_ok and ident != "none" and not trailing
    h.check(h.iff(r.ok, good), "a certificate is issued if and only if the decrypted private key and identifier belong to the request")
    h.check(len(calls) == 1, "the private key is decrypted once")
    how, k = calls[0]
    h.check(k["env_data"] is m["body"]["ir"][0]["popo"]["keyEncipherment" if kind == ENCK else "keyAgreement"]["encryptedKey"], "the encrypted key of this request is decrypted")
    h.check(how == ("kemri" if rtype == "kemri" else "data"), "the recipient type selects the decryption")
    if rtype == "pwri":
        h.check(k["password"] == "secret", "the shared secret decrypts")
    elif rtype == "kemri":
        h.check(k["kem_key"] is extra["kem_key"] and k["for_pop"] is False, "the CA's KEM key decrypts")
    elif rtype == "ktri":
        h.check(k["ee_key"] is extra["encr_rsa_key"] and k["cmp_protection_cert"] is m["extraCerts"][0], "the CA's RSA key decrypts")
    else:
        h.check(k["cmp_protection_cert"] is m["extraCerts"][0] and raw(k["ee_key"].public_key()) == raw(ec_key(8).public_key()), "the CA's key of the sender's curve decrypts")


@harness("C18", MODS, {"ids": {}}, bound="1 to 3 requests with any identifiers from -2 to 3", budget=60)
def ids(h):
    """certReqIds: exactly 0 to n-1, each once."""
    ca = h.module("resources.ca_ra_utils")
    ex = h.module("resources.exceptions")
    n = h.choice("n", (0, 1, 2, 3))
    reqs = [request(h, KGA, i) for i in range(n)]
    v = [h.int(f"id{i}", -2, 3) for i in range(n)]
    for r, x in zip(reqs, v):
        r["certReq"]["certReqId"] = x
    body = h.choice("body", ("ir", "cr", "kur"))
    m = message(h, body, reqs)
    r = h.attempt(ca.validate_cert_req_id_nums, m, allowed=(ex.BadRequest,))
    want = h.both(n > 0, *[h.either(*[h.eq(x, i) for x in v]) for i in range(n)])
    h.check(h.iff(r.ok, want), "certReqIds are accepted if and only if they are 0 to n-1")


@harness("C18", MODS, {"kur": {}}, bound="0 to 2 controls, serial numbers any, issuer the CA or not", budget=60)
def kur(h):
    """oldCertID names the certificate to be updated."""
    from pyasn1.codec.der import decoder, encoder
    from pyasn1_alt_modules import rfc4211

    ca = h.module("resources.ca_ra_utils")
    ex = h.module("resources.exceptions")
    cmputils = h.module("resources.cmputils")
    n = h.choice("controls", (0, 1, 2))
    must = h.choice("must_be_present", (True, False))
    issuer_ok = h.choice("issuer", (True, False)) if n else True
    old = h.choice("old_first", (True, False)) if n == 2 else True
    s1, s2 = h.int("certificate_serial", 0, 2**160 - 1), h.int("control_serial", 0, 2**160 - 1)
    q = request(h, SIG, 0)
    if n:
        ctrl = cmputils.prepare_controls_structure(serial_number=7, issuer="CN=a" if issuer_ok else "CN=x")
        if n == 2:
            tok = rfc4211.AttributeTypeAndValue()
            tok["type"] = rfc4211.id_regCtrl_authenticator
            tok["value"] = b"\x0c\x01a"
            other = rfc4211.AttributeTypeAndValue()
            other["type"], other["value"] = ctrl[0]["type"], encoder.encode(ctrl[0]["value"])
            for c in [other, tok] if old else [tok, other]:
                q["certReq"]["controls"].append(c)
        else:
            for c in decoder.decode(encoder.encode(ctrl), asn1Spec=rfc4211.Controls())[0]:
                q["certReq"]["controls"].append(c)
    real = ca.try_decode_pyasn1

    def decode(data, spec, *a, **k):
        o, rest = real(data, spec, *a, **k)
        o["serialNumber"] = s2
        return o, rest

    h.patch(ca, "try_decode_pyasn1", decode)
    c = real_cert(1)
    c["tbsCertificate"]["serialNumber"] = s1
    m = message(h, "kur", [q], certs=(c, real_cert(2)))
    given = h.choice("ca_given", (True, False))
    r = h.attempt(ca.validate_kur_controls, m, ca_cert=real_cert(2) if given else None, must_be_present=must, allowed=(ex.CMPTestSuiteError,))
    if n == 0:
        return h.check(r.ok == (not must), "controls may be absent unless they are required")
    h.check(h.iff(r.ok, h.both(issuer_ok, h.eq(s1, s2))), "a key update is accepted if and only if oldCertID names the certificate of the signer")
    if not r.ok:
        h.check(isinstance(r.exc, ex.BadCertId), "a wrong oldCertID is refused with badCertId")


KEYS = ("x25519", "ec", "kem")


@harness("C18", MODS, {f"challenge/{k}/v{v}": {"kind": k, "version": v} for k in KEYS for v in (2, 3)}, bound="a request (certReqId 0 to 3), any 32-bit number, witness or not; one challenge", budget=100)
def challenge(h, kind, version):
    """The number is encrypted for the requested key only, and its holder answers with it."""
    import hashlib

    from pyasn1.codec.der import encoder
    from pyasn1_alt_modules import rfc9480

    ca = h.module("resources.ca_ra_utils")
    eil = h.module("resources.extra_issuing_logic")
    cu = h.module("resources.cryptoutils")
    pu = h.module("resources.protectionutils")
    ev = h.module("resources.envdatautils")
    ex = h.module("resources.exceptions")
    cmputils = h.module("resources.cmputils")
    kem = h.module("pq_logic.keys.kem_keys")
    hashes = h.xof("sha256")
    sent = []

    def aes(key, data, iv, decrypt):
        if not decrypt:
            sent.append((bytes_of(key), bytes_of(data), bytes_of(iv)))
            return b"enc %d" % (len(sent) - 1)
        k, d, i = sent[int(bytes_of(data).split()[1])]
        return d if h.both(h.eq(k, bytes_of(key)), h.eq(i, bytes_of(iv))) else b"\x05\x00"

    h.patch(ca, "compute_hash", lambda alg, data: hashes(bytes_of(data), n=32) if alg == "sha256" else None)
    for m in (cu, eil):
        h.patch(m, "compute_aes_cbc", aes)
        h.patch(m, "perform_ecdh", lambda a, b: hashlib.sha256(b"".join(sorted((raw(a.public_key()), raw(b))))).digest())
    if kind == "kem":
        priv, other = (kem.MLKEMPrivateKey.from_private_bytes(bytes([i]) + bytes(63), "ml-kem-512") for i in (1, 2))
        h.patch(kem.MLKEMPublicKey, "encaps", lambda s: (b"ss:" + s.public_bytes_raw()[-29:], b"ct:" + s.public_bytes_raw()[-29:]))
        h.patch(kem.MLKEMPrivateKey, "decaps", lambda s, ct: b"ss:" + ct[3:] if ct == b"ct:" + s.public_key().public_bytes_raw()[-29:] else bytes(32))
    else:
        priv, other = (x_key(i) if kind == "x25519" else ec_key(i) for i in (1, 2))
    server = x_key(77) if kind == "x25519" else ec_key(77)
    num = h.int("number", 0, 2**32 - 1)
    rid = h.int("certReqId", 0, 3)
    witness = h.choice("witness", (None, "sha256"))
    q = request(h, RA, 0)
    spki = h.module("resources.convertutils").subject_public_key_info_from_pubkey(priv.public_key())
    for f in ("algorithm", "subjectPublicKey"):
        q["certReq"]["certTemplate"]["publicKey"][f] = spki[f]
    q["certReq"]["certReqId"] = rid
    m = message(h, "ir", [q], prot=ECDSA_SHA256)
    m["header"]["pvno"] = version
    built = []

    def env(public_key_recip, data, target, **k):
        built.append((raw(public_key_recip), bytes_of(data), k))
        out = target
        out["version"] = 2
        out["recipientInfos"].clear()
        out["encryptedContentInfo"]["contentType"] = "1.2.840.113549.1.7.1"
        out["encryptedContentInfo"]["contentEncryptionAlgorithm"]["algorithm"] = "2.16.840.1.101.3.4.1.42"
        out["encryptedContentInfo"]["encryptedContent"] = b"enc"
        return out

    h.patch(ev, "build_env_data_for_exchange", env)
    answer, got = ca.build_popdecc_from_request(request=m, ca_key=server, rand_int=num, hash_alg=witness, sender="CN=ca", rand_sender="CN=ca", cmp_protection_cert=None)
    if num == 0:
        # zero stands for "choose"
        h.check(h.both(got >= 1, got <= 1000), "a number is chosen")
    else:
        h.check(h.eq(got, num), "the number to be answered is the one given")
    challenge_ = answer["body"]["popdecc"]
    h.check(len(challenge_) == 1, "one challenge")
    c = challenge_[0]
    h.check(int(answer["header"]["pvno"]) == version, "the version of the challenge")
    rand = rfc9480.Rand()
    rand["int"] = got
    rand["sender"] = h.module("resources.prepareutils").prepare_general_name("directoryName", "CN=ca")
    want = encoder.encode(rand)
    if witness:
        h.check(h.eq(bytes_of(c["witness"].asOctets()), hashes(h.mkbytes([(got >> s) & 255 for s in (24, 16, 8, 0)]), n=32)), "the witness is the hash of the number")
        h.check(str(c["owf"]["algorithm"]) == "2.16.840.1.101.3.4.2.1", "the hash of the witness is named")
    else:
        h.check(not c["owf"].isValue and c["witness"].asOctets() == b"", "no witness")
    if version == 3:
        h.check(len(built) == 1 and built[0][0] == raw(priv.public_key()), "the number is encrypted for the requested key")
        h.check(h.eq(built[0][1], bytes_of(want)), "the number is encrypted")
        i = built[0][2]["issuer_and_ser"]
        h.check(h.eq(i["serialNumber"].__int__(), rid), "the recipient identifier names the request")
        h.check(len(i["issuer"]["rdnSequence"]) == 0, "the recipient identifier has no issuer")
        h.check(c["encryptedRand"].isValue and c["challenge"].asOctets() == b"", "only encryptedRand is used")
        return
    h.check(not c["encryptedRand"].isValue, "only challenge is used")
    h.check(len(sent) == 1 and h.eq(sent[0][1], bytes_of(want)), "the number is encrypted")
    h.check(len(sent[0][0]) in (16, 24, 32), "the key fits AES")
    dec = h.module("pyasn1.codec.der.decoder")
    plain = dec.decode

    def decode(data, asn1Spec=None, **k):
        if asn1Spec is not None and type(asn1Spec) is rfc9480.Rand:
            if h.eq(bytes_of(data), bytes_of(want)):
                return rand, b""
            return plain(b"\x05", asn1Spec=asn1Spec)
        return plain(data, asn1Spec=asn1Spec, **k)

    h.patch(dec, "decode", decode)
    who = h.choice("answering", ("holder", "other"))
    cert = real_cert(3)
    s2 = h.module("resources.convertutils").subject_public_key_info_from_pubkey(server.public_key())
    cert["tbsCertificate"]["subjectPublicKeyInfo"] = s2
    name = h.choice("expected_sender", (None, "CN=ca", "CN=else"))
    r = h.attempt(eil.process_pkimessage_with_popdecc, answer, ee_key=priv if who == "holder" else other, kari_cert=cert, expected_sender=name, sender="CN=a", recipient="CN=ca", allowed=(ValueError, h.module("pyasn1.error").PyAsn1Error, ex.CMPTestSuiteError))
    h.check(r.ok == (who == "holder" and name != "CN=else"), "only the holder of the requested key can answer, and only the expected sender is answered")
    if r.ok:
        h.check(len(r.value["body"]["popdecr"]) == 1 and h.eq(r.value["body"]["popdecr"][0].__int__(), got), "the answer is the number")
        h.check(r.value["header"]["transactionID"].asOctets() == m["header"]["transactionID"].asOctets(), "the answer belongs to the transaction")


@harness("C18", MODS, {"alternative": {}}, bound="one request with the request of an RA in regInfo: same, other or no key, same or other certReqId, twice or followed by other data", budget=60)
def alternative(h):
    """The request an RA puts into regInfo changes the certificate, but not its key."""
    from pyasn1.codec.der import encoder
    from pyasn1_alt_modules import rfc4211

    ca = h.module("resources.ca_ra_utils")
    ex = h.module("resources.exceptions")
    w = World(h)
    kind = h.choice("kind", (SIG, RA, KGA, NOPOP))
    key = h.choice("key", ("same", "other", "none"))
    ids = (h.int("certReqId", 0, 100), h.int("alternative_certReqId", 0, 100))
    twice = h.choice("twice", (False, True)) if key == "same" else False
    q = request(h, kind, 0)
    alt = request(h, KGA if key == "none" else SIG, 0 if key == "same" else 5, subject="CN=other subject")["certReq"]
    # both identifiers are the same byte or not
    same_id = h.eq(*ids)
    q["certReq"]["certReqId"] = 1
    alt["certReqId"] = 1 if same_id else 2
    for _ in range(2 if twice else 1):
        a = rfc4211.AttributeTypeAndValue()
        a["type"] = rfc4211.id_regInfo_certReq
        a["value"] = encoder.encode(alt) + h.choice("trailing", (b"", b"\x05\x00") if not twice else (b"",))
        q["regInfo"].append(a)
        trailing = len(a["value"].asOctets()) != len(encoder.encode(alt))
    m = message(h, "ir", [q], prot=ECDSA_SHA256, certs=(real_cert(5),))
    r = h.attempt(ca._process_one_cert_request, ca_key="ca", ca_cert="cert", request=m, cert_index=0, eku_strict=True, allowed=(ex.CMPTestSuiteError,))
    q = m["body"]["ir"][0]
    if r.ok:
        h.check(not trailing and not twice, "one well-formed request of the RA")
        h.check(same_id, "the request of the RA names the request")
        if kind == SIG:
            h.check(w.sig_ok(q), "the proof of possession is the one of the request")
        elif kind == RA:
            h.check(h.both(len(w.ra) == 1, *w.ra), "raVerified was accepted only from a trusted RA")
        if kind in (SIG, RA):
            h.check(key == "same", "the key stays the requested one")
            c = [t for c, t in w.built if c is r.value[0]]
            h.check(len(c) == 1 and encoder.encode(c[0]) == encoder.encode(alt["certTemplate"]), "the certificate is the one the RA asked for")
        else:
            h.check(kind == KGA and key == "none", "without proof of possession only a key the CA generates")
    elif kind == SIG:
        h.check(h.no(h.both(w.sig_ok(q), same_id, key == "same", not twice, not trailing)), "a proper request is answered")
