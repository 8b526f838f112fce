"""C13 request admission: the mock CA acts on a message only after every required check accepted it, and always answers."""

from harnesses.c08 import message
from harnesses.cmp import CMP, PY, SymEnum, real_cert
from symex.harness import harness

ASSUMPTIONS = [
    "each check and each handler called is an arbitrary function (accepts, refuses with a CMP error, fails with another exception); which certificates are revoked or unconfirmed is arbitrary",
    "building and protecting the answer succeeds",
]
OUTSIDE = ["the checks themselves (other properties)", "chameleon, sun-hybrid and catalyst entry points", "the answer's text"]
MODS = PY + ("mock_ca.ca_handler", "mock_ca.mock_fun", "mock_ca.cert_req_handler", "mock_ca.rev_handler", "resources.checkutils", "resources.suiteenums", "resources.exceptions", "resources.cmputils", "resources.ca_ra_utils")
KEM_MAC = "1.2.840.113533.7.66.16"
ECDSA = "1.2.840.10045.4.3.2"
PBMAC1 = "1.2.840.113549.1.5.14"
CERT_REQ = ("ir", "cr", "p10cr", "kur", "ccr")
BODIES = CERT_REQ + ("challenge", "popdecr", "nested", "rr", "certConf", "genm", "kem_ct", "error", "pkiconf")


class Log:
    def __init__(self, h, mod):
        self.h, self.mod, self.events, self.bad = h, mod, [], False

    def step(self, name, value=None, acting=False):
        """A stub: called, then accepts / refuses / fails."""

        def f(*a, **k):
            o = self.h.int(name, 0, 2)
            self.events.append((name, acting))
            if o == 1:
                self.bad = True
                raise self.mod.BadMessageCheck(name)
            if o == 2:
                self.bad = True
                raise ValueError(name)
            return value

        return f

    def done(self, name):
        return any(n == name for n, _ in self.events)

    def acted(self):
        return [n for n, a in self.events if a]


class Plain:
    pass


@harness("C13", MODS, {f"{b}/{p}": {"body": b, "prot": p} for b in BODIES for p in ("sig", "mac", "kem", "none", "unknown")}, bound="one message with up to 2 extra certificates, every combination of outcomes of the checks", budget=100)
def admission(h, body, prot):
    ca = h.module("mock_ca.ca_handler")
    log = Log(h, ca)
    alg = {"sig": ECDSA, "mac": PBMAC1, "kem": KEM_MAC, "none": None, "unknown": "1.2.3.4"}[prot]
    real_body = {"challenge": "ir", "kem_ct": "genm"}.get(body, body)
    m = message(h, real_body, b"t" * 16, b"n" * 16, prot=alg)
    if real_body == "genm":
        from pyasn1_alt_modules import rfc9480

        it = rfc9480.InfoTypeAndValue()
        it["infoType"] = ca.id_it_KemCiphertextInfo if body == "kem_ct" else "1.3.6.1.5.5.7.4.99"
        m["body"]["genm"].append(it)
    elif real_body == "pkiconf":
        m["body"]["pkiconf"] = ""
    elif real_body == "error":
        m["body"]["error"]["pKIStatusInfo"]["status"] = 2
    else:
        m["body"][real_body]  # noqa: B018 (selects the body)
    n_certs = h.choice("extraCerts", (0, 2))
    for i in range(n_certs):
        m["extraCerts"].append(real_cert(i + 1))
    h.patch(ca, "get_cmp_message_type", lambda x: real_body)

    class Body:
        def getName(self):
            return real_body

        def __getitem__(self, k):
            return m["body"][k]

    class Msg:
        def __getitem__(self, k):
            return Body() if k == "body" else m[k]

    msg = Msg()
    kind = {"sig": ca.ProtectedType.TRAD_SIGNATURE, "mac": ca.ProtectedType.MAC, "kem": ca.ProtectedType.KEM}.get(prot)

    def get_protection_type(x):
        if kind is None:
            raise (ca.UnknownOID("1.2.3.4") if prot == "unknown" else ValueError("not set"))
        return kind

    h.patch(ca.ProtectedType, "get_protection_type", staticmethod(get_protection_type))
    h.patch(ca, "_contains_challenge", lambda x: body == "challenge")
    x = ca.CAHandler.__new__(ca.CAHandler)
    x.alg_profile = {ECDSA: "e", PBMAC1: "p", KEM_MAC: "k"}
    x.alg_profile = {type(m["header"]["protectionAlg"]["algorithm"])(k): v for k, v in x.alg_profile.items()}
    x.cert_chain, x.pq_stateful_sig_state = [], None
    x.rev_handler, x.protection_handler, x.stfl_validator, x.cert_conf_handler = Plain(), Plain(), Plain(), Plain()
    x.challenge_handler, x.cert_req_handler, x.nested_handler, x.genm_handler = Plain(), Plain(), Plain(), Plain()
    x.state, x.operation_state = Plain(), Plain()
    x.state.kem_mac_based, x.state.cert_state_db = Plain(), Plain()
    x.state.issued_certs = ["issued"]
    x.rev_handler.is_not_allowed_to_request = log.step("may_request")
    x.protection_handler.validate_protection = log.step("protection")
    x.state.kem_mac_based.verify_pkimessage_protection = log.step("kem_protection")
    x.stfl_validator.validate_pq_stateful_pki_message = log.step("index_fresh")
    x.stfl_validator.add_pq_stateful_pki_message = log.step("index_used")
    bad_key = h.bool("compromised_key")
    comp = log.step("key_checked")
    x.state.cert_state_db.check_request_for_compromised_key = lambda r: (comp(), bad_key)[1]
    waiting = [h.bool(f"unconfirmed{i}") for i in range(2)]

    def is_not_confirmed(cert):
        log.events.append(("confirmed_checked", False))
        return waiting[int(cert["tbsCertificate"]["serialNumber"]) - 1]

    x.cert_conf_handler.is_not_confirmed = is_not_confirmed
    x.cert_req_handler.get_cross_signed_certs = lambda: crosses
    crosses = ["cross"]
    x.cert_req_handler.validate_header = log.step("header")
    ans = Plain()
    x.cert_req_handler.process_cert_request = log.step("issue", ans, True)
    x.rev_handler.process_revocation_request = log.step("revoke", (ans, []), True)
    x.state.get_kem_mac_shared_secret = lambda pki_message: "ss"
    ccp = h.choice("cross_certificate", (None, "new")) if body == "certConf" else None
    x.cert_conf_handler.process_cert_conf = log.step("confirm", (ans, ccp), True)
    x.challenge_handler.handle_challenge = log.step("challenge", (ans, "key"), True)
    x.operation_state.get_ecc_cert = lambda k: "ecc"
    added = []
    x.state.add_certs = lambda certs: added.append(certs)
    x.nested_handler.process_nested_request = log.step("nested", ans, True)
    x.genm_handler.process_general_msg = log.step("genm", ans, True)
    x.genm_handler.patch_genp_message_for_extra_certs = lambda pki_message: ans
    h.patch(ca, "build_genp_kem_ct_info_from_genm", lambda genm: ("ss", ans))
    secrets, used = [], []
    x.state.add_kem_mac_shared_secret = lambda pki_message, shared_secret: (log.events.append(("secret", True)), secrets.append(shared_secret))
    x.state.kem_mac_based.may_update_state = lambda request: used.append(request)
    err = Plain()
    fails = []
    h.patch(ca.CAHandler, "build_error_from_exception", lambda self, e, request_msg=None: (fails.append((e, request_msg)), err)[1])
    x.cert_req_handler.build_cert_resp_error_response = lambda e, r: (fails.append((e, r)), err)[1]
    x.rev_handler.build_rp_error_response = lambda request=None, exception=None, *a: (fails.append((exception, request)), err)[1]
    x.protection_handler.protect_pkimessage = lambda response, request: err
    signed = []

    def sign_response(self, response, request_msg, secondary_cert=None):
        signed.append((response, secondary_cert))
        return response

    h.patch(ca.CAHandler, "sign_response", sign_response)
    r = h.attempt(x.process_normal_request, msg, allowed=(Exception,))
    h.check(r.ok, "every message is answered")
    if not r.ok:
        return
    out = r.value
    acts = log.acted()
    sig_bound = n_certs > 0 and prot in ("sig", "kem")
    unconfirmed = h.both(sig_bound, h.either(*waiting))
    if acts:
        h.check(len(acts) == 1, "one action per message")
        expect = {"challenge": "challenge", "popdecr": "challenge", "nested": "nested", "rr": "revoke", "certConf": "confirm", "genm": "genm", "kem_ct": "secret"}.get(body, "issue")
        h.check(acts[0] == expect, "the action the message asks for")
        if n_certs:
            h.check(log.done("may_request"), "acts only if the certificates used may make requests")
        if body not in ("rr", "genm", "kem_ct"):
            h.check(prot in ("sig", "mac", "kem"), "acts only on protected messages with a known algorithm")
            h.check(log.done("kem_protection") if prot == "kem" else log.done("protection"), "acts only on verified protection")
            h.check(log.done("index_fresh"), "acts only on an unused signature index")
        if body in ("rr", "genm"):
            h.check(log.done("header"), "acts only on a valid header")
        if body in ("genm",) and prot != "none":
            h.check(log.done("protection"), "a protected general message is verified")
        if body == "kem_ct":
            h.check(prot == "none" and n_certs > 0, "a KEM ciphertext is requested without protection, for a certificate")
        if body in CERT_REQ or body == "challenge":
            h.check(h.both(log.done("key_checked"), h.no(bad_key)), "no compromised key is certified")
        if body not in ("certConf", "error"):
            h.check(h.no(unconfirmed), "no action for unconfirmed certificates")
        if body in CERT_REQ:
            h.check(log.done("index_used"), "the signature index is recorded as used")
        before = [n for n, a in log.events]
        h.check(before[-1] == acts[0], "nothing is checked only after acting")
    ok = out is ans
    h.check(ok or out is err, "the answer is the handler's or an error")
    if ok:
        h.check(bool(acts) and not log.bad and not fails, "a positive answer only if every check passed")
    if acts and not log.bad:
        h.check(ok, "the handler's answer is returned")
        if body == "popdecr":
            h.check(added == ["key"], "certificates issued after a challenge are recorded")
        if body == "certConf":
            h.check(crosses == ["cross"] + (["new"] if ccp else []), "confirmed cross certificate recorded")
        if body in CERT_REQ + ("rr", "popdecr", "certConf"):
            h.check(len(used) == 1 and used[0] is msg, "a used KEM secret is recorded once")
            h.check(len(signed) == 1, "the answer is protected")
        if body == "challenge":
            h.check(signed == [(ans, "ecc")], "the challenge is sent with the key agreement certificate")
        if body == "genm":
            h.check(len(signed) == 1, "the answer is protected")
        if body == "kem_ct":
            h.check(not signed and secrets == ["ss"], "the secret is kept and the answer not protected")
    else:
        h.check((not used or body == "rr") and not added and crosses == ["cross"], "a refused message changes nothing")
        h.check(not secrets, "no secret is kept")
        h.check(len(fails) == 1 and fails[0][1] is msg, "one error for this message")
        if len(fails) == 1:
            h.check(isinstance(fails[0][0], ca.CMPTestSuiteError) and isinstance(fails[0][0].get_failinfo(), str), "the error states a reason")
    if not log.bad and not acts:
        why = h.either(
            unconfirmed,
            body in ("error", "pkiconf"),
            h.both(bad_key, body in CERT_REQ + ("challenge", "rr")),
            prot == "unknown",
            prot == "none" and body not in ("rr", "genm", "kem_ct"),
            body == "kem_ct" and (prot != "none" or n_certs == 0),
        )
        h.check(why, "refused only for a reason")


class Key:
    """A public key known only by an identity."""

    def __init__(self, h, v):
        self.h, self.v = h, v

    def __eq__(self, o):
        return type(o) is Key and self.h.eq(self.v, o.v)

    __hash__ = None


class Hybrid:
    def __init__(self, h, a, b):
        self.h, self.trad_key, self.pq_key = h, a, b

    def __eq__(self, o):
        return type(o) is Hybrid and self.h.both(self.trad_key == o.trad_key, self.pq_key == o.pq_key)

    __hash__ = None


def any_key(h, name):
    """A key: simple, or hybrid of a traditional (0..9) and a post-quantum (10..19) part; and its parts."""
    kind = h.choice(name + "_kind", ("trad", "pq", "hybrid"))
    a, b = Key(h, h.int(name + "_trad", 0, 9)), Key(h, h.int(name + "_pq", 10, 19))
    k = {"trad": a, "pq": b, "hybrid": Hybrid(h, a, b)}[kind]
    return k, {"trad": [a], "pq": [b], "hybrid": [a, b]}[kind]


@harness("C13", MODS, bound="one recorded certificate in each list, any key kinds and names")
def key_in_use(h):
    mock = h.module("mock_ca.mock_fun")
    key, parts = any_key(h, "new")
    where = h.choice("recorded_as", ("issued", "revoked", "updated", "nowhere"))
    old, old_parts = any_key(h, "old")
    same_name = h.bool("same_subject")
    h.patch(mock, "HybridPublicKey", Hybrid)
    h.patch(mock, "load_public_key_from_cert", lambda c: old)
    h.patch(mock, "compare_pyasn1_names", lambda a, b, mode="without_tag": same_name)
    lists = {"issued": [], "revoked": [], "updated": []}
    if where != "nowhere":
        lists[where] = [real_cert()]
    c = mock.KeySecurityChecker(**{k + "_certs": v for k, v in lists.items()})
    shared = h.either(*[p == q for p in parts for q in old_parts])
    want = h.both(where != "nowhere", same_name, shared)
    r = h.attempt(c.contains_pub_key, key, "name", allowed=(Exception,))
    h.check(r.ok, "answers")
    if r.ok:
        h.check(h.iff(r.value, want), "in use exactly if a recorded certificate of that subject shares the key or a part of it")
    s = h.attempt(c.check_cert_status, key, "name", allowed=(Exception,))
    h.check(s.ok, "states")
    if s.ok:
        name = {"issued": "in_use", "revoked": "revoked", "updated": "updated", "nowhere": "good"}[where]
        h.check(h.iff(s.value == name, h.either(want, where == "nowhere")), "status of the recorded certificate")
        h.check(s.value in (name, "good"), "or good")


@harness("C13", MODS, {b: {"body": b} for b in ("ir", "cr", "kur", "ccr", "p10cr", "rr", "genm")}, bound="up to 2 certificate requests, 2 compromised keys")
def compromised(h, body):
    mock = h.module("mock_ca.mock_fun")
    m = message(h, body, b"t" * 16, b"n" * 16)
    bad = [Key(h, h.int(f"bad{i}", 0, 9)) for i in range(2)]
    keys = [Key(h, h.int(f"key{i}", 0, 9)) for i in range(2)]
    present = [h.bool(f"key_given{i}") for i in range(2)]
    n = h.choice("requests", (1, 2)) if body != "p10cr" else 1
    db = mock.CertRevStateDB()
    h.patch(mock.RevokedEntryList, "contains_key", lambda self, k: h.either(*[k == b for b in bad]))
    index = {}
    if body in ("ir", "cr", "kur", "ccr"):
        from pyasn1_alt_modules import rfc4211

        for i in range(n):
            m["body"][body].append(rfc4211.CertReqMsg())
            index[id(m["body"][body][i])] = i
    seen = []

    def from_req(entry, must_be_present=True):
        for i in range(n):
            if entry is m["body"][body][i]:
                seen.append(i)
                if present[i]:
                    return keys[i]
                h.check(not must_be_present, "a request without a key is allowed here")
                return None
        raise KeyError

    h.patch(mock.ca_ra_utils, "get_public_key_from_cert_req_msg", from_req)
    h.patch(mock.keyutils, "load_public_key_from_spki", lambda s: keys[0])

    class Msg:
        def __getitem__(self, k):
            return self if k == "body" else m["body"][k]

        def getName(self):
            return body

    r = h.attempt(db.check_request_for_compromised_key, Msg(), allowed=(Exception,))
    h.check(r.ok, "answers")
    hit = [h.either(*[keys[i] == b for b in bad]) for i in range(2)]
    if body in ("ir", "cr", "kur", "ccr"):
        want = h.either(*[h.both(present[i], hit[i]) for i in range(n)])
    else:
        want = hit[0] if body == "p10cr" else False
    if r.ok:
        h.check(h.iff(r.value, want), "found exactly if some request names a compromised key")


@harness("C13", MODS, {b: {"body": b} for b in ("ir", "cr", "kur", "ccr", "p10cr", "genm")}, bound="one request, every combination of outcomes of the checks", budget=60)
def cert_request(h, body):
    crh = h.module("mock_ca.cert_req_handler")
    log = Log(h, crh)
    m = message(h, body, b"t" * 16, b"n" * 16)
    n = h.choice("extraCerts", (0, 1))
    for i in range(n):
        m["extraCerts"].append(real_cert(i + 1))

    class Body:
        def getName(self):
            return body

        def __getitem__(self, k):
            return m["body"][k]

    class Msg:
        def __getitem__(self, k):
            return Body() if k == "body" else m[k]

    msg = Msg()
    h.patch(crh, "get_cmp_message_type", lambda x: body)
    x = crh.CertReqHandler.__new__(crh.CertReqHandler)
    x.sender = "CN=a"
    x.cert_db = Plain()
    x.cert_db.update_state = Plain()
    window = []
    upd = log.step("window")

    def validate_is_updated(cert=None, body_name=None, allow_timeout=None):
        window.append((cert, body_name))
        upd()

    x.cert_db.update_state.validate_is_updated = validate_is_updated
    ans, err, txerr = Plain(), Plain(), Plain()
    h.patch(crh.CertReqHandler, "validate_header", lambda self, pki_message, must_be_protected=None, for_nested=False: log.step("header")())
    h.patch(crh, "validate_wrong_integrity", log.step("integrity"))
    h.patch(crh.CertReqHandler, "check_same_key_cert_request", lambda self, pki_message: log.step("same_key")())
    h.patch(crh, "validate_orig_pkimessage", log.step("orig"))
    h.patch(crh, "validate_cert_req_id_nums", log.step("ids"))
    tx = h.bool("transaction_in_use")
    for b, f in (("ir", "process_ir"), ("cr", "process_cr"), ("p10cr", "process_p10cr"), ("kur", "process_kur"), ("ccr", "handle_cross_cert_req")):
        def act(self, pki_message, verify_ra_verified=True, b=b):
            log.step("issue:" + b, None, True)()
            if tx:
                log.bad = True
                raise crh.TransactionIdInUse("x")
            return ans

        h.patch(crh.CertReqHandler, f, act)
    x.pre_shared_secret = b"s"
    fails = []
    h.patch(crh.CertReqHandler, "build_cert_resp_error_response", lambda self, e, request: (fails.append(e), err)[1])
    h.patch(crh.CertReqHandler, "error_body", lambda self, e, request: (fails.append(e), txerr)[1])
    r = h.attempt(x.process_cert_request, msg, allowed=(Exception,))
    acts = log.acted()
    if acts:
        h.check(acts == ["issue:" + body], "the request is handled as its kind")
        for c in ("header", "integrity", "same_key", "orig", "ids"):
            h.check(log.done(c), "acts only after all checks")
        if n:
            h.check(len(window) == 1 and window[0][0] is m["extraCerts"][0] and window[0][1] == body, "the update window of the signer's certificate is checked")
    if not log.bad:
        h.check(h.either(body == "genm", r.ok), "a valid request is answered")
        if r.ok:
            h.check(r.value is ans and not fails and len(acts) == 1, "with the handler's answer")
    else:
        h.check(not r.ok or r.value is err or r.value is txerr, "a refused request never gets the handler's answer")
        if r.ok:
            h.check(len(fails) == 1 and isinstance(fails[0], crh.CMPTestSuiteError), "refused for a CMP error")
            h.check((r.value is txerr) == isinstance(fails[0], crh.TransactionIdInUse), "a used transaction is answered by an error message, others by a certificate response")


@harness("C13", MODS, {b: {"body": b} for b in ("ir", "cr", "kur", "ccr", "p10cr", "rr", "genm", "certConf")}, bound="one message signed with a certificate of any state")
def may_request(h, body):
    mock, rev = h.module("mock_ca.mock_fun"), h.module("mock_ca.rev_handler")
    m = message(h, body, b"t" * 16, b"n" * 16)
    m["extraCerts"].append(real_cert(3))
    h.patch(rev.cmputils, "get_cmp_message_type", lambda x: body)
    db = mock.CertificateDB()
    h.patch(mock, "compute_hash", lambda alg, data: alg.encode() + data)
    listed = h.choice("issued", (True, False))
    s = SymEnum(h, h.int("state", 0, 5))
    if listed:
        db.add_cert(m["extraCerts"][0], mock.CertStateEnum.CONFIRMED)
        db._certs[0].cert_state = s
    hd = rev.RevocationHandler(db)
    refuse = h.bool("window_refuses")
    asked = []

    def window(self, cert=None, body_name=None, allow_timeout=None):
        asked.append(body_name)
        if refuse:
            raise rev.CertRevoked("updated")

    h.patch(mock.UpdateCertDB, "validate_is_updated", window)
    r = h.attempt(hd.is_not_allowed_to_request, m, db.issued_certs, allowed=(rev.CMPTestSuiteError,) if hasattr(rev, "CMPTestSuiteError") else (Exception,))
    E = mock.CertStateEnum
    revoked = h.both(listed, h.eq(s.v, E.REVOKED.value))
    if body == "rr":
        h.check(h.iff(r.ok, h.no(h.both(listed, h.eq(s.v, E.UPDATED_BUT_NOT_CONFIRMED.value)))), "a revocation may be requested unless an update is pending")
    else:
        h.check(h.iff(r.ok, h.no(h.either(revoked, refuse))), "refused exactly for revoked certificates and outside the update window")
        h.check(all(a == body for a in asked), "the window is checked for this message")


@harness("C13", MODS, {"1": {"n": 1}, "2": {"n": 2}, "3": {"n": 3}, "0": {"n": 0}, "p10cr": {"n": -1}}, bound="up to 3 certificate requests with any certReqId in [-3, 4]")
def cert_req_ids(h, n):
    ra = h.module("resources.ca_ra_utils")
    from pyasn1_alt_modules import rfc4211

    m = message(h, "ir", b"t" * 16, b"n" * 16)
    if n < 0:
        v = h.int("version", -1, 2)

        class Fake:
            def __init__(self, d):
                self.d = d

            def __getitem__(self, k):
                return self.d[k]

            def getName(self):
                return "p10cr"

        f = Fake({"body": Fake({"p10cr": {"certificationRequestInfo": {"version": v}}})})
        r = h.attempt(ra.validate_cert_req_id_nums, f, allowed=(ra.CMPTestSuiteError,) if hasattr(ra, "CMPTestSuiteError") else (Exception,))
        h.check(h.iff(r.ok, h.eq(v, 0)), "a PKCS#10 request has version 0")
        return
    m["body"]["ir"]  # noqa: B018
    ids = [h.int(f"id{i}", -3, 4) for i in range(n)]
    for i in ids:
        e = rfc4211.CertReqMsg()
        e["certReq"]["certReqId"] = i
        m["body"]["ir"].append(e)

    class Msg:
        def __getitem__(self, k):
            return self if k == "body" else m["body"]["ir"] if k == "ir" else m[k]

        def getName(self):
            return "ir"

    r = h.attempt(ra.validate_cert_req_id_nums, Msg(), allowed=(ra.BadRequest, ra.BadCertTemplate))
    want = h.both(n > 0, *[h.either(*[h.eq(i, k) for i in ids]) for k in range(n)])
    h.check(h.iff(r.ok, want), "accepted exactly if the ids are 0..n-1, each once")


@harness("C13", MODS, {b: {"body": b} for b in ("ir", "cr", "kur", "ccr", "p10cr", "genm")}, bound="implicit confirmation requested or not among up to 2 general info entries")
def implicit_confirm(h, body):
    crh = h.module("mock_ca.cert_req_handler")
    m = message(h, body, b"t" * 16, b"n" * 16)
    from pyasn1_alt_modules import rfc9480

    n = h.choice("entries", (0, 1, 2))
    last = [h.int(f"arc{i}", 12, 14) for i in range(n)]
    for i in range(n):
        e = rfc9480.InfoTypeAndValue()
        e["infoType"] = type(e["infoType"])((1, 3, 6, 1, 5, 5, 7, 4, last[i]))
        m["header"]["generalInfo"].append(e)
    enc = h.bool("encrypted_certificate")
    h.patch(crh, "check_if_response_contains_encrypted_cert", lambda r: enc)

    class Msg:
        def __getitem__(self, k):
            return self if k == "body" else m[k]

        def getName(self):
            return body

    r = h.attempt(crh.CertReqHandler.check_if_used, Msg(), "response", allowed=(Exception,))
    h.check(r.ok, "answers")
    asked = h.either(*[h.eq(x, 13) for x in last])
    want = h.both(asked, body != "genm", h.either(body in ("ccr", "p10cr"), h.no(enc)))
    if r.ok:
        h.check(h.iff(r.value, want), "implicitly confirmed exactly if asked for and the certificate is not encrypted")
