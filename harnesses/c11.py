"""C11 one-time values: transaction IDs, KEM shared secrets, decryption challenges, stateful signature indexes."""

from harnesses.c08 import message
from harnesses.cmp import CMP, Tags, real_cert
from symex.harness import harness

ASSUMPTIONS = [
    "message decoding, MAC and decryption primitives are replaced by arbitrary predicates; certificates have arbitrary encodings and an injective digest",
]
OUTSIDE = ["longer histories than stated (each step is checked from an arbitrary state, so the step results compose)", "popdecr answers to challenges issued for cr bodies (not implemented by the mock CA)"]
MODS = CMP + ("mock_ca.challenge_handler", "mock_ca.stfl_validator", "mock_ca.operation_dbs", "mock_ca.cert_req_handler")
KEM_MAC = "1.2.840.113533.7.66.16"


@harness("C11", MODS, bound="two transaction IDs already in use, a request with any transaction ID stored twice")
def transaction_id(h):
    mock = h.module("mock_ca.mock_fun")
    st = mock.MockCAState()
    used = [h.bytes(f"used{i}", 4) for i in range(2)]
    h.assume(h.no(h.eq(used[0], used[1])))
    st.add_tx_id(used[0])
    st.store_transaction_certificate(message(h, "ir", used[1], b"n" * 16), ["first"])
    tx = h.bytes("tx", 4)
    m = message(h, "ir", tx, b"n" * 16)
    seen = h.either(h.eq(tx, used[0]), h.eq(tx, used[1]))
    how = h.choice("how", ("store", "add"))
    f = (lambda: st.store_transaction_certificate(m, ["new"])) if how == "store" else (lambda: st.add_tx_id(tx))
    r = h.attempt(f, allowed=(mock.TransactionIdInUse,))
    h.check(h.iff(r.ok, h.no(seen)), "accepted exactly if the transaction ID is new")
    if r.ok:
        again = h.attempt(f, allowed=(mock.TransactionIdInUse,))
        h.check(not again.ok, "not accepted a second time")
        if how == "store":
            h.check(st.get_issued_certs(m) == ["new"], "certificates are found under their transaction")
    h.check(st.get_issued_certs(message(h, "ir", used[1], b"n" * 16)) == ["first"], "earlier transactions keep their certificates")
    other = h.attempt(st.add_tx_id, used[0], allowed=(mock.TransactionIdInUse,))
    h.check(not other.ok, "an earlier ID stays in use")


@harness("C11", MODS, {f"{b}/{c}": {"body": b, "confirm": c} for b in ("ip", "cp", "ccp", "kup") for c in (False, True)}, bound="one earlier transaction and certificate; any transaction ID for the new one")
def issue(h, body, confirm):
    from pyasn1_alt_modules import rfc9480

    tags = Tags(h)
    mock, crh, conf = (h.module("mock_ca." + n) for n in ("mock_fun", "cert_req_handler", "cert_conf_handler"))
    h.patch(mock, "compute_hash", lambda alg, data: alg.encode() + data)
    h.patch(mock, "copy_asn1_certificate", lambda c, *a: c)
    for m in (mock, conf):
        h.patch(m, "encoder", tags.encoder(m.encoder))
    st = mock.MockCAState()
    old, new = rfc9480.CMPCertificate(), rfc9480.CMPCertificate()
    ders = [h.bytes(n, 2) for n in ("old_der", "new_der")]
    h.assume(h.no(h.eq(*ders)))
    for c, d in zip((old, new), ders):
        tags.put(c, d)
    E = mock.CertStateEnum
    st.certificate_db.add_cert(old, E.CONFIRMED)
    t0, tx = h.bytes("tx_old", 4), h.bytes("tx", 4)
    st.add_tx_id(t0)
    x = crh.CertReqHandler.__new__(crh.CertReqHandler)
    x.state, x.cross_signed_certs, x.pq_stateful_sig_state = st, [], None
    calls = []

    class Stfl:
        def process_stfl_after_request(self, **k):
            calls.append(k["certs"])

    x.stfl_validator = Stfl()
    x.cert_conf_handler = conf.CertConfHandler(st)
    req, resp = message(h, "ir", tx, b"n" * 16), message(h, body, tx, b"m" * 16)
    if body == "kup":
        req["extraCerts"].append(old)
    h.patch(crh, "get_cmp_message_type", lambda m: body if m is resp else "ir")
    h.patch(conf, "get_cmp_message_type", lambda m: body if m is resp else "ir")
    status = h.choice("status", ("accepted", "grantedWithMods", "rejection"))

    class Status:
        def prettyPrint(self):
            return status

    h.patch(crh, "get_pkistatusinfo", lambda m: {"status": Status()})
    h.patch(crh.CertReqHandler, "check_if_used", staticmethod(lambda request, response: confirm))
    h.patch(crh, "patch_generalinfo", lambda msg_to_patch, implicit_confirm: msg_to_patch)
    r = h.attempt(x.process_after_request, req, resp, [new], allowed=(Exception,))
    entries = st.certificate_db._certs
    if status == "rejection":
        h.check(r.ok and len(entries) == 1 and h.eq(len(st.currently_used_ids), 1), "a rejection issues nothing")
        return
    h.check(h.iff(r.ok, h.no(h.eq(tx, t0))), "refused exactly if the transaction ID is in use")
    if not r.ok:
        h.check(isinstance(r.exc, mock.TransactionIdInUse), "refused as transactionIdInUse")
        h.check(len(entries) == 1 and entries[0].cert_state is E.CONFIRMED, "nothing is issued or superseded")
        h.check(not x.cert_conf_handler.is_not_confirmed(new), "nothing waits for confirmation")
        h.check(not calls and not x.cross_signed_certs, "no cross certificate")
        return
    h.check(len(entries) == 2, "the new certificate is stored once")
    e = [y for y in entries if y.cert is new]
    h.check(len(e) == 1 and e[0].cert_state is (E.CONFIRMED if confirm else E.NOT_CONFIRMED), "confirmed exactly if implicitly confirmed")
    o = [y for y in entries if y.cert is old]
    want = E.CONFIRMED if body != "kup" else E.UPDATED if confirm else E.UPDATED_BUT_NOT_CONFIRMED
    h.check(len(o) == 1 and o[0].cert_state is want, "the old certificate is superseded only by a key update, and only once confirmed")
    h.check(x.cert_conf_handler.is_not_confirmed(new) == (not confirm), "waits for confirmation exactly if not implicitly confirmed")
    h.check(x.cross_signed_certs == ([new] if body == "ccp" and confirm else []), "cross certificates recorded once confirmed")
    h.check(calls == ([[new]] if confirm else []), "stateful signature index recorded once confirmed")
    h.check(st.get_issued_certs(req) == [new], "found under the transaction")
    again = h.attempt(x.process_after_request, req, resp, [new], allowed=(Exception,))
    h.check(not again.ok and isinstance(again.exc, mock.TransactionIdInUse) and len(entries) == 2, "the transaction ID is used up")


@harness("C11", MODS, {b: {"body": b} for b in ("ir", "kur", "rr", "certConf")}, bound="up to three established secrets (any transaction IDs, used or not), a request with any transaction ID and MAC, then a second one")
def kem_secret(h, body):
    mock = h.module("mock_ca.mock_fun")
    lst = mock.KEMSharedSecretList()
    n = h.choice("n", (0, 1, 3))
    txs, used, secrets = [], [], []
    for i in range(n):
        t, s = h.bytes(f"tx{i}", 2), h.bytes(f"secret{i}", 2)
        for t2 in txs:
            h.assume(h.no(h.eq(t, t2)))
        lst.add_shared_secret(message(h, "genm", t, b"n" * 16), s)
        u = h.bool(f"used{i}")
        lst.shared_secrets[i].was_used_for_issuing = u
        txs.append(t)
        used.append(u)
        secrets.append(s)
    tx, key = h.bytes("tx", 2), h.bytes("mac_key", 2)
    m = message(h, body, tx, b"n" * 16)
    m["header"]["protectionAlg"]["algorithm"] = type(m["header"]["protectionAlg"]["algorithm"])(KEM_MAC)
    h.patch(mock, "get_cmp_message_type", lambda x: body)

    def verify(pki_message=None, shared_secret=None, **k):
        if shared_secret is None or not h.eq(shared_secret, key):
            raise mock.BadMessageCheck("mac")

    h.patch(mock, "verify_kem_based_mac_protection", verify)
    r = h.attempt(lst.verify_pkimessage_protection, m, allowed=(mock.BadMessageCheck,))
    conf = body == "certConf"
    good = h.either(False, *[h.both(h.eq(t, tx), h.eq(s, key), h.either(conf, h.no(u))) for t, s, u in zip(txs, secrets, used)])
    h.check(h.iff(r.ok, good), "accepted exactly with the MAC of the transaction's secret, unused unless confirming")
    for i in range(n):
        h.check(h.iff(lst[i].was_used_for_issuing, used[i]), "verification uses nothing up")
    if not r.ok:
        return
    lst.may_update_state(m)
    for i in range(n):
        h.check(h.iff(lst[i].was_used_for_issuing, h.either(used[i], h.eq(txs[i], tx))), "exactly the transaction's secret is used up")
        h.check(h.eq(lst[i].shared_secret, secrets[i]), "secrets stay with their transactions")
    r2 = h.attempt(lst.verify_pkimessage_protection, m, allowed=(mock.BadMessageCheck,))
    h.check(r2.ok == conf, "a used secret protects the confirmation only")


@harness("C11", MODS, bound="two outstanding challenges with any random numbers and transaction IDs (bodies ir), an answer with one or two entries carrying any numbers and any transaction ID, then the same answer again")
def challenge(h):
    chh = h.module("mock_ca.challenge_handler")
    ra = h.module("resources.ca_ra_utils")
    sent = []

    def enc(rand_int=None, **k):
        sent.append(rand_int)
        return "challenge"

    h.patch(ra, "prepare_challenge_enc_rand", enc)
    h.patch(ra, "get_public_key_from_cert_req_msg", lambda **k: "key")

    class Body(dict):
        def __init__(self, name, v):
            self.name = name
            dict.__init__(self, {name: v})

        def getName(self):
            return self.name

    class Lst(list):
        pass

    class Msg(dict):
        pass

    class Octets:
        def __init__(self, b):
            self.b = b

        def asOctets(self):
            return self.b

    class Out(dict):
        pass

    class FakeMsg:
        def __init__(self):
            self.d = {"header": None, "body": {"popdecc": []}}

        def __getitem__(self, k):
            return self.d[k]

        def __setitem__(self, k, v):
            self.d[k] = v

    h.patch(ra, "PKIMessageTMP", FakeMsg)
    h.patch(ra.cmputils, "prepare_pki_message", lambda **k: {"header": "h"})
    h.patch(ra, "set_ca_header_fields", lambda request, kwargs: kwargs)
    x = chh.ChallengeHandler.__new__(chh.ChallengeHandler)
    x.challenge, x.sender, x.ca_key, x.ca_cert, x.extensions, x.cmp_protection_cert = {}, "CN=x", "k", "c", None, "p"
    x.challenge = type(h.module("mock_ca.mock_fun").MockCAState().to_be_confirmed_certs)()
    x._get_ca_key = lambda request: None
    h.patch(chh, "get_protection_type_from_pkimessage", lambda request: "sig")
    h.patch(chh, "build_cert_from_cert_template", lambda cert_template=None, **k: ("cert", cert_template))
    h.patch(chh, "prepare_cert_response", lambda cert=None: cert)
    h.patch(chh, "build_ip_cmp_message", lambda request=None, responses=None: ("ip", responses))
    rnd = []

    def urandom(n):
        b = h.bytes(f"rand{len(rnd)}", n)
        rnd.append(b)
        return b

    h.patch(chh.os, "urandom", urandom)
    txs = [h.bytes(f"tx{i}", 2) for i in range(2)]
    h.patch(ra.random, "randint", lambda a, b: 77)

    def req(name, tx, body):
        return Msg(header={"transactionID": Octets(tx), "pvno": 3}, body=Body(name, body))

    for i in range(2):
        x.handle_challenge(req("ir", txs[i], [{"certReq": {"certTemplate": f"template{i}", "certReqId": 0}}]))
    h.check(len(sent) == 2, "a challenge for each request")
    same = h.both(h.eq(sent[0], sent[1]), h.eq(txs[0], txs[1]))
    h.assume(h.no(same))
    k = h.choice("entries", (1, 2))
    nums = [h.int(f"answer{i}", 0, 2**32 - 1) for i in range(k)]
    tx = h.bytes("tx_answer", 2)
    m = req("popdecr", tx, nums)
    hit = [[h.both(h.eq(nums[j], sent[i]), h.eq(tx, txs[i])) for i in range(2)] for j in range(k)]
    r = h.attempt(x.handle_challenge, m, allowed=(chh.BadRequest,))
    ok = h.both(*[h.either(*row) for row in hit])
    if k == 2:
        ok = h.both(ok, h.no(h.eq(nums[0], nums[1])))
    h.check(h.iff(r.ok, ok), "answered exactly for the numbers sent in the challenges of this transaction, each once")
    if r.ok:
        certs = r.value[1]
        h.check(len(certs) == k, "one certificate per challenge")
        for j in range(k):
            for i in range(2):
                h.check(h.implies(hit[j][i], certs[j][1] == f"template{i}"), "for the template the challenge was about")
    r2 = h.attempt(x.handle_challenge, m, allowed=(chh.BadRequest,))
    h.check(h.implies(ok, not r2.ok), "a challenge is answered once")


@harness("C11", MODS, bound="two certificates with stateful keys and one earlier index each (any), a message signed by either or by an unknown certificate, any index, then a second message")
def stateful_index(h):
    from pyasn1_alt_modules import rfc9480

    val, ops, mock = (h.module("mock_ca." + n) for n in ("stfl_validator", "operation_dbs", "mock_fun"))
    tags = Tags(h)
    h.patch(ops, "compute_hash", lambda alg, data: alg.encode() + data)
    h.patch(ops, "encode_to_der", lambda c: tags.of(c))
    certs = [rfc9480.CMPCertificate() for _ in range(3)]
    ders = [h.bytes(f"der{i}", 1) for i in range(3)]
    for c, d in zip(certs, ders):
        tags.put(c, d)
    h.assume(h.no(h.eq(ders[0], ders[1])))

    class Key(val.PQHashStatefulSigPublicKey):
        __abstractmethods__ = frozenset()

        def __init__(self):
            pass

        name = "xmss-x"

    Key.__abstractmethods__ = frozenset()
    h.patch(val, "load_public_key_from_cert", lambda c: Key())
    h.patch(val, "load_public_key_from_spki", lambda c: Key())
    h.patch(val, "get_pq_stateful_sig_index_from_sig", lambda s, k: s)
    state = ops.StatefulSigState()
    old = [h.int(f"used{i}", 0, 2**20) for i in range(2)]
    # certificate 0: the index of its proof of possession is used up when it is confirmed
    body = h.choice("body", ("ir", "p10cr"))

    class Sig:
        def __init__(self, v):
            self.v = v

        def asOctets(self):
            return self.v

    class Popo(dict):
        isValue = True

        def getName(self):
            return "signature"

    v = val.STFLPKIMessageValidator(state, mock.PQStatefulSigKeyConfig(allow_stfl_ccr=h.choice("ccr_allowed", (True, False)), saved_bad_message_check_stfl_key=h.choice("count_failed", (True, False))))
    from resources.oidutils import PQ_STATEFUL_HASH_SIG_OID_2_NAME

    oid = next(iter(PQ_STATEFUL_HASH_SIG_OID_2_NAME))
    certs[0]["tbsCertificate"]["subjectPublicKeyInfo"]["algorithm"]["algorithm"] = oid

    class Body(dict):
        def getName(self):
            return body

    h.patch(val, "get_popo_from_pkimessage", lambda r, i: Popo(signature={"signature": Sig(old[0])}))
    h.patch(val, "get_cert_template_from_pkimessage", lambda r, i: {"publicKey": "k"})
    v.process_stfl_after_request({"body": Body({"p10cr": {"signature": Sig(old[0]), "certificationRequestInfo": {"subjectPublicKeyInfo": "k"}}})}, [certs[0]], confirmed=True)
    state.add_state(certs[1], ops.StatefulSigKeyState(used_indices=[old[1]]))
    dup = h.attempt(state.add_state, certs[0], allowed=(Exception,))
    h.check(not dup.ok, "the state of a certificate is not replaced")
    who = h.choice("signer", (0, 1, 2))
    i1, i2 = h.int("index", 0, 2**20), h.int("index2", 0, 2**20)
    kind = h.choice("kind", ("ir", "ccr"))
    h.patch(val, "get_cmp_message_type", lambda m: kind)

    class Value(list):
        isValue = True

    class Alg(dict):
        isValue = True

    h.patch(val.ProtectedType, "get_protection_type", staticmethod(lambda m: val.ProtectedType.PQ_HASH_STATEFUL_SIG))

    def msg(c, i):
        return {"header": {"protectionAlg": Alg()}, "extraCerts": Value([c]), "protection": Sig(i)}

    def accept(c, i, processed=True):
        m = msg(c, i)
        r = h.attempt(v.validate_pq_stateful_pki_message, m, allowed=(val.BadMessageCheck, val.BadRequest))
        if r.ok and processed:
            v.add_pq_stateful_pki_message(m)
        return r.ok

    cfg = v.pq_stateful_cfg
    kind_ok = kind == "ir" or cfg.allow_stfl_ccr
    used = [h.both(h.eq(ders[who], ders[j]), h.eq(i1, old[j])) for j in range(2)]
    known = [h.eq(ders[who], ders[j]) for j in range(2)]
    verified = h.choice("signature_verifies", (True, False))
    a = accept(certs[who], i1, verified)
    h.check(h.iff(a, h.both(kind_ok, h.either(*known), h.no(h.either(*used)))), "accepted exactly for a registered key and an index not used before")
    b = accept(certs[who], i2)
    spent = h.both(a, verified or cfg.saved_bad_message_check_stfl_key, h.eq(i1, i2))
    used2 = [h.both(h.eq(ders[who], ders[j]), h.eq(i2, old[j])) for j in range(2)]
    h.check(h.iff(b, h.both(kind_ok, h.either(*known), h.no(h.either(*used2)), h.no(spent))), "an accepted index is used up")
    c = accept(certs[1], i1)
    mine = h.either(h.eq(ders[who], ders[1]), False)
    taken = h.either(h.eq(i1, old[1]), h.both(mine, a, verified or cfg.saved_bad_message_check_stfl_key), h.both(mine, b, h.eq(i1, i2)))
    h.check(h.iff(c, h.both(kind_ok, h.no(taken))), "indexes of different keys are independent")
