"""C12 revocation requests: only an authentic rr changes state, and only that of the certificate it names."""

from harnesses.c08 import message
from harnesses.c09 import CONFIRMED, NOT_CONFIRMED, PENDING, REVIVED, REVOKED, UPDATED, _E
from harnesses.cmp import PY, SymEnum, Tags, real_cert, value_of
from symex.harness import harness

ASSUMPTIONS = [
    "certificates have arbitrary distinct encodings and the certificate digest is injective; the MAC and signature primitives are arbitrary predicates",
    "template comparison is reduced to serial number and issuer here (C22 decides it)",
]
OUTSIDE = ["authorisation policy (which signer may revoke whose certificate): the mock CA accepts every trusted signer", "requests naming more than one certificate (refused in the lightweight profile)"]
MODS = PY + ("mock_ca.mock_fun", "mock_ca.rev_handler", "resources.ca_ra_utils", "resources.cmputils", "resources.asn1_structures")
REASONS = ("unspecified", "keyCompromise", "removeFromCRL", "superseded")


@harness("C12", MODS, {r: {"reason": r} for r in REASONS}, bound="3 certificates (any serial numbers, any state), request signed by any of them or an unknown one, naming any issuer and serial number", budget=120)
def revoke(h, reason):
    from pyasn1_alt_modules import rfc5280, rfc9480

    mock, rev = h.module("mock_ca.mock_fun"), h.module("mock_ca.rev_handler")
    ra = h.module("resources.ca_ra_utils")
    tags = Tags(h)
    h.patch(mock, "compute_hash", lambda alg, data: alg.encode() + data)
    for m in (mock, ra.certutils):
        h.patch(m, "encoder", tags.encoder(m.encoder))
    h.patch(mock, "copy_asn1_certificate", lambda c, *a: c)
    db = mock.CertificateDB()
    n = 2
    certs, sns, states = [], [], []
    for i in range(n + 1):
        c = real_cert()
        sn = h.int(f"serial{i}", 1, 9)
        for s in sns:
            h.assume(h.no(h.eq(s, sn)))
        c["tbsCertificate"]["serialNumber"] = sn
        tags.put(c, bytes([i]))
        certs.append(c)
        sns.append(sn)
        if i < n:
            db.add_cert(c, mock.CertStateEnum.CONFIRMED)
            s = SymEnum(h, h.int(f"state{i}", 0, 5))
            db._certs[i].cert_state = s
            h.assume(h.no(h.both(h.eq(s.v, _E(NOT_CONFIRMED).value))))
            states.append(s)
    hd = rev.RevocationHandler(db)
    m = message(h, "rr", b"t" * 16, b"n" * 16)
    q, issuer_ok = h.int("named_serial", 1, 9), h.bool("issuer_matches")
    entry = rfc9480.RevDetails()
    entry["certDetails"]["serialNumber"] = q
    from resources.prepareutils import prepare_name

    named = prepare_name("CN=x")
    has_issuer = h.choice("issuer_present", (True, False))
    if has_issuer:
        entry["certDetails"]["issuer"]["rdnSequence"] = named["rdnSequence"]
    ext = rfc5280.Extension()
    ext["extnID"] = rfc5280.id_ce_cRLReasons
    from pyasn1.codec.der import encoder

    ext["extnValue"] = encoder.encode(rfc5280.CRLReason(reason))
    entry["crlEntryDetails"].append(ext)
    m["body"]["rr"].append(entry)
    who = h.choice("signer", (0, n))
    m["extraCerts"].append(certs[who])

    def compare(t, c, include_fields=None, strict_subject_validation=False, **k):
        return h.both(issuer_ok, h.eq(t["serialNumber"].__int__(), c["tbsCertificate"]["serialNumber"].__int__()))

    h.patch(ra.compareutils, "compare_cert_template_and_cert", compare)
    step = {}
    for name in ("validate_request_message_nonces_and_tx_id", "validate_senderkid_for_cmp_protection", "check_sender_cmp_protection"):
        ok = h.bool(name)
        step[name] = ok

        def f(*a, ok=ok, **k):
            if not ok:
                raise rev.BadRequest("x")

        h.patch(rev, name, f)
    auth = h.bool("protection_valid")

    def verify(pki_message=None, **k):
        if not auth:
            raise rev.InvalidSignature()

    h.patch(rev, "verify_hybrid_pkimessage_protection", verify)
    h.patch(rev.ProtectedType, "get_protection_type", staticmethod(lambda m: rev.ProtectedType.TRAD_SIGNATURE))
    before = [(e.cert_state, e.revoked_entry, e.update_cert_digest) for e in db._certs]
    in_window = h.bool("update_window_refuses")

    def window(self, cert=None, body_name=None, allow_timeout=None):
        if in_window:
            raise rev.CertRevoked("updated")

    h.patch(mock.UpdateCertDB, "validate_is_updated", window)
    r = h.attempt(hd.process_revocation_request, m, db.issued_certs, allowed=(Exception,))
    h.check(r.ok, "every request is answered")
    if not r.ok:
        return
    out = r.value[0]
    st = out["body"]["rp"]["status"]
    h.check(len(st) == 1, "one status")
    accepted = str(st[0]["status"]) == "accepted"
    h.check(accepted or str(st[0]["status"]) == "rejection", "accepted or rejected")
    clean = h.both(auth, *step.values())
    revive = reason == "removeFromCRL"
    signer_revoked = h.both(who < n, h.eq(states[who].v, _E(REVOKED).value)) if who < n else False
    changed_any = False
    ok_any = False
    issued = [h.either(*[h.eq(s.v, _E(x).value) for x in (CONFIRMED, REVIVED, REVOKED, UPDATED)]) for s in states]
    for i, e in enumerate(db._certs):
        s0 = states[i].v
        same = h.both(h.eq(value_of(e.cert_state), s0), e.revoked_entry is before[i][1])
        target = h.both(issuer_ok, h.eq(q, sns[i]), issued[i])
        legal = h.eq(s0, _E(REVOKED).value) if revive else h.either(*[h.eq(s0, _E(x).value) for x in (CONFIRMED, REVIVED)])
        done = h.both(accepted, target)
        want = REVIVED if revive else REVOKED
        h.check(h.implies(h.no(done), same), "only the certificate named by an accepted request changes")
        h.check(h.implies(done, h.both(clean, has_issuer, legal)), "accepted only if authentic, complete and possible")
        h.check(h.implies(done, h.eq(value_of(e.cert_state), _E(want).value)), "the named certificate is revoked or revived as asked")
        h.check(h.implies(h.both(done, signer_revoked), h.both(revive, i == who)), "a revoked signer may at most revive its own certificate")
        if e.revoked_entry is not None and not revive:
            h.check(h.implies(done, str(e.revoked_entry.reason) == reason), "with the reason given")
        h.check(e.update_cert_digest is before[i][2], "no update is recorded")
        changed_any = h.either(changed_any, done)
        ok_any = h.either(ok_any, h.both(target, legal))
    h.check(h.implies(accepted, changed_any), "accepted exactly if something was done")
    own = True if not revive or who >= n else h.either(h.no(signer_revoked), h.eq(q, sns[who]))
    possible = h.both(clean, has_issuer, h.no(in_window), ok_any, h.either(revive, h.no(signer_revoked)), own)
    h.check(h.implies(possible, accepted), "a correct request is carried out")


@harness("C12", MODS, bound="every protection kind, key type of the signer and configured CA key; MAC and signature validity symbolic")
def protection(h):
    rev = h.module("mock_ca.rev_handler")
    T = rev.ProtectedType
    kind = h.choice("kind", [T.MAC, T.KEM, T.DH, T.TRAD_SIGNATURE, T.PQ_SIG, T.COMPOSITE_SIG])
    sig_ok, mac_ok = h.bool("signature_valid"), h.bool("mac_valid")
    h.patch(T, "get_protection_type", staticmethod(lambda m: kind))
    m = message(h, "rr", b"t" * 16, b"n" * 16)
    protected, alg = h.choice("protection_present", (True, False)), h.choice("alg_present", (True, False))
    certs = h.choice("extraCerts", (True, False))
    if certs:
        m["extraCerts"].append(real_cert(5))

    class V:
        def __init__(self, v):
            self.isValue = v

    class Msg:
        def __getitem__(self, k):
            if k == "protection":
                return V(protected)
            if k == "header":
                return {"protectionAlg": V(alg)}
            return m[k]

    from cryptography.hazmat.primitives.asymmetric import ec, x448, x25519

    K = {"x25519": x25519.X25519PrivateKey.generate(), "x448": x448.X448PrivateKey.generate(), "ec": ec.generate_private_key(ec.SECP256R1())}
    mine = h.choice("own_keys", ("x25519", "x448", "ec", "all"))
    theirs = h.choice("signer_key", ("x25519", "x448", "ec")) if kind is T.DH else "ec"
    own = {n: (K[n] if mine in (n, "all") else None) for n in K}
    peer = K[theirs].public_key()
    hd = rev.RevocationHandler(None, x25519_key=own["x25519"], x448_key=own["x448"], ec_key=own["ec"])
    h.patch(rev, "load_public_key_from_cert", lambda c: peer)
    used = []

    def ecdh(k, p):
        used.append((k, p))
        return b"ss"

    h.patch(rev, "perform_ecdh", ecdh)

    def mac(pki_message=None, shared_secret=None, **k):
        h.check(shared_secret == (b"ss" if kind is T.DH else secret), "the MAC is checked under the right secret")
        if not mac_ok:
            raise rev.BadMessageCheck("mac")

    h.patch(rev, "verify_pkimessage_protection", mac)
    h.patch(rev, "verify_kem_based_mac_protection", mac)

    def sig(pki_message=None, **k):
        if not sig_ok:
            raise rev.InvalidSignature()

    h.patch(rev, "verify_hybrid_pkimessage_protection", sig)
    secret = h.choice("kem_secret", (None, b"kem")) if kind is T.KEM else None
    r = h.attempt(hd.verify_protection, Msg(), secret, allowed=(Exception,))
    base = protected and alg
    if not certs and kind is T.DH:
        return
    if kind is T.MAC:
        ok = False
    elif kind is T.KEM:
        ok = h.both(mac_ok, secret is not None, certs)
    elif kind is T.DH:
        ok = h.both(mac_ok, own[theirs] is not None)
    else:
        ok = sig_ok
    h.check(h.iff(r.ok, h.both(base, ok)), "accepted exactly with valid protection of an allowed kind")
    if r.ok and kind is T.DH:
        h.check(used == [(own[theirs], peer)], "the shared secret of both keys")
