"""C08 certificate confirmation (certConf) processing of the mock CA."""

from harnesses.cmp import CMP, Tags, real_cert
from symex.harness import harness

ASSUMPTIONS = [
    "certificates are opaque objects whose DER encodings are arbitrary; certificate hashes are an injective uninterpreted function of algorithm and encoding",
    "message protection itself has been verified before (C12)",
]
OUTSIDE = ["stateful-signature bookkeeping on confirmation", "more than one CertStatus (rejected in the lightweight profile, which the handler always enforces)"]
PBMAC1 = "1.2.840.113549.1.5.14"
SIG = "1.2.840.113549.1.1.11"


def message(h, body, tx, sender_nonce, recip_nonce=None, prot=PBMAC1, **kw):
    from pyasn1_alt_modules import rfc5280

    cmputils = h.module("resources.cmputils")
    m = cmputils.prepare_pki_message(sender="CN=a", recipient="CN=b", sender_kid=b"CN=a", for_mac=True, transaction_id=b"\x00" * 16, sender_nonce=b"\x01" * 16, **kw)
    m["header"]["transactionID"] = tx
    m["header"]["senderNonce"] = sender_nonce
    if recip_nonce is not None:
        m["header"]["recipNonce"] = recip_nonce
    if prot is not None:
        m["header"]["protectionAlg"]["algorithm"] = type(m["header"]["protectionAlg"]["algorithm"])(prot)
        m["protection"] = (0,) * 8
    return m


def new_handler(h, tags):
    conf = h.module("mock_ca.cert_conf_handler")
    mock = h.module("mock_ca.mock_fun")
    ra = h.module("resources.ca_ra_utils")
    digest = h.xof("digest", injective=True, fixed=20)

    def compute_hash(alg_name=None, data=None):
        return digest(alg_name.encode(), data)

    for m in (mock, ra):
        h.patch(m, "compute_hash", compute_hash)
    for m in (mock, ra, conf):
        h.patch(m, "encoder", tags.encoder(m.encoder))
    h.patch(mock, "copy_asn1_certificate", lambda c, *a: c)
    return conf, mock, ra, compute_hash


@harness(
    "C08",
    CMP,
    {f"{b}/{s}": {"body": b, "status": s} for b in ("ip", "kup", "ccp") for s in (None, "accepted", "rejection")} | {f"ip/{s}": {"body": "ip", "status": s} for s in ("waiting", "accepted+failInfo")},
    bound="one pending transaction and one earlier one, all identifiers, nonces, hash values and certificate states symbolic",
)
def confirm(h, body, status):
    from pyasn1_alt_modules import rfc9480

    tags = Tags(h)
    conf, mock, ra, compute_hash = new_handler(h, tags)
    t1, told, tq = h.bytes("tx", 16), h.bytes("tx_old", 16), h.bytes("tx_conf", 16)
    n_req, n_ca, n_conf, r_conf = (h.bytes(n, 16) for n in ("nonce_req", "nonce_ca", "nonce_conf", "recip_conf"))
    cert, old = rfc9480.CMPCertificate(), rfc9480.CMPCertificate()
    cert["tbsCertificate"]["signature"]["algorithm"] = "1.2.840.113549.1.1.11"
    e_new, e_old = h.bytes("new_der", 3), h.bytes("old_der", 3)
    h.assume(h.no(h.eq(e_new, e_old)))
    h.assume(h.no(h.eq(t1, told)))
    tags.put(cert, e_new)
    tags.put(old, e_old)
    h.patch(ra.keyutils, "get_digest_alg_for_cmp", lambda *a, **k: "sha256")
    state = mock.MockCAState()
    db = state.certificate_db
    db.add_cert(cert, mock.CertStateEnum.NOT_CONFIRMED)
    db.add_cert(old, mock.CertStateEnum.CONFIRMED)
    if body == "kup":
        db._certs[1].cert_state = mock.CertStateEnum.UPDATED_BUT_NOT_CONFIRMED
        db._certs[1].update_cert_digest = b"x"
    fresh = h.choice("fresh", (True, False))
    hd = conf.CertConfHandler(state, conf.CertConfConfigVars(must_be_fresh_nonce=fresh))
    hd.conf_state.already_confirmed_certs.append(told)
    req = message(h, "ir", t1, n_req)
    resp = message(h, body, t1, n_ca, n_req)
    h.patch(conf, "get_cmp_message_type", lambda m: body if m is resp else "ir")
    h.patch(hd, "_may_add_stfl_confirmed_cert", lambda *a, **k: None)
    if body == "kup":
        req["extraCerts"].append(old)
    hd.add_request(req)
    hd.add_response(resp, [cert])
    m = message(h, "certConf", tq, n_conf, r_conf)
    given = h.bytes("cert_hash", 20)
    rid = h.int("cert_req_id", 0, 3)
    entry = rfc9480.CertStatus()
    entry["certHash"] = given
    entry["certReqId"] = rid
    if status is not None:
        st = {"waiting": "waiting", "rejection": "rejection"}.get(status, "accepted")
        entry["statusInfo"]["status"] = st
        if "failInfo" in status:
            entry["statusInfo"]["failInfo"] = "badRequest"
    m["body"]["certConf"].append(entry)
    r = h.attempt(hd.process_cert_conf, m, allowed=(Exception,))
    good_hash = h.eq(given, compute_hash("sha256", e_new))
    rejected = status == "rejection"
    legal = status in (None, "accepted", "rejection")
    nonce_ok = h.both(h.eq(r_conf, n_ca), h.no(h.eq(n_conf, n_req)) if fresh else h.eq(n_conf, n_req))
    ok = h.both(h.eq(tq, t1), nonce_ok, h.eq(rid, 0), h.either(good_hash, rejected), legal)
    st_new, st_old = db._certs[0].cert_state, db._certs[1].cert_state
    E = mock.CertStateEnum
    if r.ok:
        h.check(ok, "accepted only for the pending transaction, with matching nonces and the issued certificate's hash")
        h.check(st_new is (E.NOT_CONFIRMED if rejected else E.CONFIRMED), "confirmed exactly if the client accepted the certificate")
        h.check(st_old is (E.CONFIRMED if body != "kup" else E.UPDATED_BUT_NOT_CONFIRMED if rejected else E.UPDATED), "the replaced certificate is updated exactly if the new one was accepted")
        out, ccp = r.value
        h.check(ccp is (cert if body == "ccp" and not rejected else None), "cross certificates recorded exactly if accepted")
        h.check(out["body"].getName() == "pkiconf", "answered with pkiConf")
        h.check(h.both(h.eq(out["header"]["transactionID"].asOctets(), t1), h.eq(out["header"]["recipNonce"].asOctets(), n_conf)), "answer belongs to the transaction")
        h.check(not hd.is_not_confirmed(cert), "nothing is pending any more")
        again = h.attempt(hd.process_cert_conf, m, allowed=(Exception,))
        h.check(not again.ok, "a transaction is confirmed once")
    else:
        h.check(h.no(ok), "a correct confirmation is accepted")
        h.check(h.either(isinstance(r.exc, (conf.BadRequest, conf.CertConfirmed, conf.BadSenderNonce, conf.BadRecipientNonce, ra.BadCertId))), "refused with a CMP error")
        h.check(st_new is E.NOT_CONFIRMED, "a refused confirmation confirms nothing")
        h.check(st_old is (E.UPDATED_BUT_NOT_CONFIRMED if body == "kup" else E.CONFIRMED), "a refused confirmation leaves the replaced certificate")
        h.check(hd.is_not_confirmed(cert), "the certificate is still pending")


ALGS = {None: None, "1.2.840.113549.1.5.14": "mac", "1.2.840.113533.7.66.13": "mac", SIG: "sig", "1.3.101.112": "sig", "2.16.840.1.101.3.4.3.17": "pq", "1.2.840.113533.7.66.30": "dh", "1.2.840.113533.7.66.16": "kem"}


@harness("C08", CMP, bound="every pair of 7 representative protection algorithms (or none), certificates with symbolic encodings, present or absent")
def same_protection(h):
    tags = Tags(h)
    conf, mock, ra, _ = new_handler(h, tags)
    a, b = h.choice("alg_request", list(ALGS)), h.choice("alg_conf", list(ALGS))
    need, same_alg = h.choice("must_be_protected", (True, False)), h.choice("enforce_same_alg", (True, False))
    hd = conf.CertConfHandler(mock.MockCAState(), conf.CertConfConfigVars(enforce_same_alg=same_alg, must_be_protected=need))
    req, m = message(h, "ir", b"t" * 16, b"n" * 16, prot=a), message(h, "certConf", b"t" * 16, b"n" * 16, prot=b)
    h.patch(conf, "get_cmp_message_type", lambda m: "ir")
    certs = []
    for i, x in enumerate((req, m)):
        if ALGS[a] != ALGS[b] or ALGS[a] not in ("sig", "pq", "dh") or h.choice(f"has_cert{i}", (True, False)):
            cert = tags.put(real_cert(), h.bytes(f"der{i}", 3))
            x["extraCerts"].append(cert)
        else:
            cert = None
        certs.append(cert)
    hd.add_request(req)
    r = h.attempt(hd._verify_protection, m, allowed=(Exception,))
    ta, tb = ALGS[a], ALGS[b]
    if ta is None and tb is None and not need:
        h.check(r.ok, "no protection needed")
    elif ta is None or tb is None:
        h.check(not r.ok, "protection present in one message only, or required")
    elif ta != tb:
        h.check(not r.ok, "the kind of protection must not change")
    elif ta in ("sig", "pq", "dh"):
        same = certs[0] is None and certs[1] is None or None not in certs and h.eq(tags.of(certs[0]), tags.of(certs[1]))
        h.check(h.iff(r.ok, same), "signed with the same certificate as the request")
    elif ta == "mac":
        h.check(r.ok if a == b or not same_alg else not r.ok, "the same MAC algorithm")
    else:
        h.check(r.ok, "same protection")
