"""C16 protection of messages at the mock CA: verified by the mechanism the message names, answered in kind."""

from harnesses.cmp import CMP, Message, Tags, header, real_cert
from symex.harness import harness

ASSUMPTIONS = [
    "MAC, signature, certificate-chain and trust-anchor verification are arbitrary functions (accept, or any of their documented refusals)",
    "certificates have arbitrary distinct encodings and the certificate digest is injective",
]
OUTSIDE = ["the cryptographic primitives themselves", "the contents of an embedded original PKIMessage (its verification is one of the arbitrary functions)"]
MODS = CMP + ("mock_ca.prot_handler", "mock_ca.operation_dbs", "mock_ca.db_config_vars")
KINDS = {
    "mac": "1.2.840.113533.7.66.13",
    "pbmac1": "1.2.840.113549.1.5.14",
    "hmac": "1.2.840.113549.2.9",
    "dh": "1.2.840.113533.7.66.30",
    "kem": "1.2.840.113533.7.66.16",
    "sig": "1.2.840.10045.4.3.2",
    "pq": "2.16.840.1.101.3.4.3.17",
    "stateful": "1.2.840.113549.1.9.16.3.17",
}
BODIES = ("ir", "cr", "p10cr", "kur", "ccr", "rr", "genm", "certConf", "nested")
SECRET = b"the shared secret"


class Env:
    """A handler whose verification steps are arbitrary functions; `log` has every call, `failed` the refusing ones."""

    def __init__(self, h, openssl=True, lwcmp=False, stfl_ccr=False, save_bad=True):
        self.h = h
        self.ph = h.module("mock_ca.prot_handler")
        cfg = h.module("mock_ca.db_config_vars")
        mock = h.module("mock_ca.mock_fun")
        self.ex = h.module("resources.exceptions")
        self.log = []
        self.failed = []
        dbs = h.module("mock_ca.operation_dbs")
        self.tags = Tags(h)
        h.patch(dbs, "encode_to_der", lambda c: self.tags.of(c))
        h.patch(dbs, "compute_hash", lambda alg, data: alg.encode() + data)
        self.cert = self.tags.put(real_cert(1), b"signer")
        self.own = self.tags.put(real_cert(2), b"own")
        self.state = dbs.StatefulSigState()
        self.dbs = dbs
        P = self.ph.ProtectedType
        real = P.get_protection_type
        h.patch(P, "get_protection_type", staticmethod(lambda v: real(v.m if isinstance(v, Message) else v)))
        p = object.__new__(self.ph.ProtectionHandler)
        p.prot_cert, p.prot_key, p.cmp_cert_chain, p.sender = self.own, "own key", [self.own, self.tags.put(real_cert(3), b"root")], "CN=Mock CA"
        p.kari_data = {f"{k}_{x}": self.kari(k, x) for k in ("x25519", "x448", "ecc") for x in ("cert", "key")}
        p._prot_config = cfg.ProtectionHandlerConfig(
            pre_shared_secret=SECRET, use_openssl=openssl, enforce_lwcmp=lwcmp, prot_alt_key="alt key",
            trusted_config=cfg.TrustConfig(mock_ca_trusted_dir="ANCHORS", trusted_ras_dir="RAS", trusted_cas_dir="CAS"),
        )
        p.pq_stateful_cfg = mock.PQStatefulSigKeyConfig(allow_stfl_ccr=stfl_ccr, saved_bad_message_check_stfl_key=save_bad)
        p.pq_stateful_sig_state = self.state
        p.kem_shared_secret = mock.KEMSharedSecretList()
        self.p = p

    def kari(self, kind, what):
        if what == "cert":
            return self.tags.put(real_cert(10), kind.encode())
        return self.key(kind, "Private")

    def key(self, kind, side):
        from cryptography.hazmat.primitives.asymmetric import ec, x448, x25519

        base = {
            "x25519": {"Private": x25519.X25519PrivateKey, "Public": x25519.X25519PublicKey},
            "x448": {"Private": x448.X448PrivateKey, "Public": x448.X448PublicKey},
            "ecc": {"Private": ec.EllipticCurvePrivateKey, "Public": ec.EllipticCurvePublicKey},
        }[kind][side]
        k = type("Key", (base,), {n: None for n in base.__abstractmethods__})()
        k.kind = kind
        return k

    def step(self, name, *excs, value=None):
        """A function that accepts or raises one of excs; what it does is one symbolic choice per call."""

        def f(*a, **k):
            self.log.append((name, a, k))
            i = self.h.int(f"{name}{len(self.log)}", 0, len(excs))
            for j, e in enumerate(excs):
                if i == j + 1:
                    self.failed.append(name)
                    raise e(name)
            return value

        return f

    def calls(self, name):
        return [(a, k) for n, a, k in self.log if n == name]

    def call(self, name, n=0):
        c = self.calls(name)
        self.h.check(bool(c), name + " is done")
        return c[n] if c else ((None,), {})

    def message(self, kind, body, certs=True, value=None):
        m = header(self.h, b"t" * 16, b"n" * 16, prot=KINDS[kind] if kind else None)
        if kind:
            m["protection"] = m["protection"].clone("'00'B")
        w = Message(m, body, value)
        if certs:
            m["extraCerts"].append(self.cert)
            # pyasn1 keeps the very object
            self.tags.put(m["extraCerts"][0], b"signer")
        return w


def handles(h, env, r, expected):
    """A refusal is an error of the suite with the expected failInfo."""
    ok = isinstance(r.exc, env.ex.CMPTestSuiteError)
    h.check(ok, "refused with a CMP error")
    if ok:
        h.check(r.exc.get_failinfo() in expected, "refused with the failInfo of the reason")


@harness("C16", MODS, {k: {"kind": k} for k in KINDS}, bound="every request body, extraCerts present or not, every outcome of every verification step, use of OpenSSL and of the lightweight profile on or off", budget=120)
def dispatch(h, kind):
    from cryptography.exceptions import InvalidSignature

    env = Env(h, openssl=h.choice("openssl", (True, False)), lwcmp=h.choice("lwcmp", (True, False)))
    ph, p, ex = env.ph, env.p, env.ex
    body = h.choice("body", BODIES)
    # stateful keys: see stateful_index
    certs = kind in ("kem", "mac", "pbmac1", "hmac", "dh") or h.choice("extraCerts", (True, False))
    m = env.message(kind, body, certs)
    issued = h.choice("signer_cross_certified", (True, False)) if body == "ccr" else False
    h.patch(ph, "verify_pkimessage_protection", env.step("verify", ValueError, ex.BadMacProtection, *((ex.LwCMPViolation,) if kind in ("mac", "pbmac1", "hmac") else () if kind == "dh" else (InvalidSignature, ex.BadSigAlgID))))
    h.patch(ph, "verify_hybrid_pkimessage_protection", env.step("hybrid", ValueError, InvalidSignature, ph.InvalidAltSignature, ex.BadSigAlgID))
    h.patch(p, "kem_shared_secret", type("K", (), {"verify_pkimessage_protection": staticmethod(env.step("kem", ex.BadMessageCheck))}))
    h.patch(ph, "build_cmp_chain_from_pkimessage", lambda m, **k: [env.cert, "root"])
    h.patch(ph, "certificates_must_be_trusted", env.step("chain", ex.SignerNotTrusted, ValueError))
    h.patch(ph, "certificates_are_trustanchors", env.step("anchor", ex.SignerNotTrusted))
    h.patch(ph, "cert_in_list", lambda c, l: issued)
    curve = h.choice("curve", ("x25519", "x448", "ecc", "other")) if kind == "dh" else None
    if kind == "stateful":
        h.patch(p, "validate_stfl_signature_protection", env.step("index", ex.BadMessageCheck))
    else:
        h.patch(ph, "load_public_key_from_cert", lambda c: object() if curve == "other" else env.key(curve, "Public"))
    h.patch(ph, "perform_ecdh", lambda priv, pub: ("secret of", priv.kind, pub.kind))
    r = h.attempt(p.validate_protection, m, cc_certs=["cc"], allowed=(Exception,))
    mac = kind in ("mac", "pbmac1", "hmac")
    allowed = not (mac and body in ("kur", "ccr", "rr", "nested") or kind in ("dh", "kem") and body == "ccr")
    signed = not mac and kind not in ("dh", "kem")
    good = allowed and not env.failed and certs and curve != "other"
    h.check(h.iff(r.ok, good), "accepted exactly if the body allows the kind of protection and every step accepts")
    if r.ok:
        names = [n for n, a, k in env.log]
        for a, k in env.calls("verify") + env.calls("hybrid") + env.calls("kem"):
            h.check(k.get("pki_message", k.get("request", a[0] if a else None)) is m, "the message itself is verified")
        if mac:
            h.check(names == ["verify"] and bytes(env.call("verify")[1].get("password") or b"") == SECRET, "a MAC is verified with the shared secret")
        elif kind == "kem":
            h.check(names == ["kem"], "a KEM based MAC is verified with the established secret")
        elif kind == "dh":
            h.check(names.count("verify") == 1 and env.call("verify")[1].get("shared_secret") == ("secret of", curve, curve), "a DH based MAC is verified with the secret agreed with the sender's key")
        else:
            h.check("verify" in names if kind == "sig" else "hybrid" in names, "a signature is verified")
        if signed or kind == "dh":
            h.check("chain" in names or "anchor" in names, "the signer is verified")
            strong = p._prot_config.use_openssl and kind in ("sig", "dh")
            if strong:
                k = env.call("chain")[1]
                h.check(k.get("trustanchors") == "ANCHORS" and k.get("key_usages") == ("keyAgreement" if kind == "dh" else "digitalSignature"), "with the key usage of the mechanism")
            else:
                a, k = env.call("anchor", -1)
                h.check(a[0] == "root" and "ANCHORS" in (list(a) + list(k.values())), "against the trust anchors of the CA")
        if body == "ccr" and not issued:
            a, k = env.call("anchor")
            h.check("CAS" in (list(a) + list(k.values())), "a cross certification comes from a trusted CA")
        if mac or kind == "sig":
            h.check(env.call("verify")[1].get("enforce_lwcmp") == p._prot_config.enforce_lwcmp, "with the configured profile")
    else:
        want = {"badMessageCheck"}
        if not allowed:
            want = {"wrongIntegrity"}
        if "anchor" in env.failed or "chain" in env.failed:
            want = {"signerNotTrusted", "notAuthorized"}
        handles(h, env, r, want)


@harness("C16", MODS, {f"{a}-{b}": {"save_bad": a == "save", "exclude": b == "exclude"} for a in ("save", "keep") for b in ("include", "exclude")}, bound="two messages signed by either of two stateful keys with any indices below 8, at any recorded state of one index per key, signature valid or not", budget=100)
def stateful_index(h, save_bad, exclude):
    from cryptography.exceptions import InvalidSignature

    env = Env(h, save_bad=save_bad)
    ph, p, ex = env.ph, env.p, env.ex
    body = "ir"
    known = h.choice("registered", (True, False))
    old = h.int("old_index", 0, 7)
    other = env.tags.put(real_cert(5), b"other")
    stock = {}
    if known:
        env.state.add_state(env.cert, env.dbs.StatefulSigKeyState(used_indices=[old]))
    env.state.add_state(other, env.dbs.StatefulSigKeyState(used_indices=[0]))
    from pq_logic.keys.abstract_stateful_hash_sig import PQHashStatefulSigPublicKey

    K = type("K", (PQHashStatefulSigPublicKey,), {n: None for n in PQHashStatefulSigPublicKey.__abstractmethods__})
    h.patch(ph, "load_public_key_from_cert", lambda c: object.__new__(K))
    h.patch(ph, "verify_hybrid_pkimessage_protection", env.step("hybrid", InvalidSignature))
    h.patch(ph, "verify_pkimessage_protection", env.step("verify", InvalidSignature))
    h.patch(ph, "build_cmp_chain_from_pkimessage", lambda m, **k: [env.cert, "root"])
    h.patch(ph, "certificates_must_be_trusted", env.step("chain"))
    h.patch(ph, "certificates_are_trustanchors", env.step("anchor"))
    now = {}
    h.patch(ph, "get_pq_stateful_sig_index_from_sig", lambda sig, key: now["i"])
    used = {b"signer": [old] if known else None, b"other": [0]}
    for n in range(2):
        who = h.choice(f"key{n}", (b"signer", b"other"))
        i = now["i"] = h.int(f"index{n}", 0, 7)
        m = env.message("stateful", body, certs=False)
        c = real_cert(6 + n)
        m.m["extraCerts"].append(c)
        env.tags.put(m.m["extraCerts"][0], who)
        env.failed.clear()
        r = h.attempt(p.validate_protection, m, cc_certs=[], exclude_stateful_sig_check=exclude, allowed=(Exception,))
        before = used[who]
        seen = h.either(*[h.eq(i, x) for x in before]) if before is not None else True
        if not exclude:
            h.check(h.implies(r.ok, h.no(seen)), "an index is not accepted again")
            h.check(h.iff(r.ok, h.both(h.no(seen), not env.failed)), "an unused index of a registered key with a valid signature is accepted")
        if not r.ok:
            handles(h, env, r, {"badMessageCheck", "badRequest"})
        after = env.state.get_state(m["extraCerts"][0])
        if before is None:
            h.check(after is None, "no key is registered by a message")
            continue
        if r.ok and not exclude:
            h.check(h.either(*[h.eq(i, x) for x in after.used_indices]), "the index is recorded")
        for x in before:
            h.check(h.either(*[h.eq(x, y) for y in after.used_indices]), "no index is forgotten")
        for y in after.used_indices:
            h.check(h.either(h.eq(i, y), *[h.eq(x, y) for x in before]), "no other index is recorded")
        if not save_bad and not r.ok:
            h.check(len(after.used_indices) == len(before), "a refused message records nothing if so configured")
        used[who] = list(after.used_indices)
        o = b"other" if who == b"signer" else b"signer"
        if used[o] is not None:
            s = env.state.get_state(other if o == b"other" else env.cert)
            h.check(len(s.used_indices) == len(used[o]), "the other key is untouched")


@harness("C16", MODS, bound="stateful signer with a key of another kind, an unreadable key, no certificate, for every body")
def stateful_signer(h):
    env = Env(h, stfl_ccr=h.choice("ccr_allowed", (True, False)))
    ph, p, ex = env.ph, env.p, env.ex
    body = h.choice("body", BODIES)
    key = h.choice("key", ("stateful", "other", "broken"))
    certs = h.choice("extraCerts", (True, False))
    from pq_logic.keys.abstract_stateful_hash_sig import PQHashStatefulSigPublicKey

    K = type("K", (PQHashStatefulSigPublicKey,), {n: None for n in PQHashStatefulSigPublicKey.__abstractmethods__})

    def load(c):
        if key == "broken":
            raise ex.InvalidKeyData("broken")
        return object.__new__(K) if key == "stateful" else object()

    h.patch(ph, "load_public_key_from_cert", load)
    h.patch(ph, "get_pq_stateful_sig_index_from_sig", lambda sig, key: 5)
    env.state.add_state(env.cert)
    m = env.message("stateful", body, certs)
    r = h.attempt(p.validate_stfl_signature_protection, m, env.state, allowed=(Exception,))
    h.check(r.ok == (certs and key == "stateful" and (body != "ccr" or p.pq_stateful_cfg.allow_stfl_ccr)), "accepted exactly with a stateful key that may sign this body")
    if not r.ok:
        handles(h, env, r, {"badMessageCheck", "badRequest"})


@harness("C16", MODS, {x: {"what": x} for x in ("batch", "added")}, bound="every body and kind of protection of the inner message (or none), inner protection demanded or not")
def inner(h, what):
    env = Env(h)
    ph, p, ex = env.ph, env.p, env.ex
    body = h.choice("body", BODIES[:-1])
    kind = h.choice("kind", (None,) + tuple(KINDS))
    must = h.choice("must_be_protected", (True, False))
    m = env.message(kind, body)
    h.patch(p, "validate_protection", env.step("protection", ex.BadMessageCheck, ex.NotAuthorized))
    h.patch(ph, "validate_orig_pkimessage", env.step("orig", ex.BadMessageCheck))
    if what == "batch":
        r = h.attempt(p.verify_inner_batch_pkimessage, m, cc_certs=["cc"], index=3, must_be_protected=must, pq_stateful_state=env.state, allowed=(Exception,))
    else:
        out = env.message("sig", "nested", value=[m])
        r = h.attempt(p.verify_added_protection, out, cc_certs=["cc"], must_be_protected=must, pq_stateful_state=env.state, allowed=(Exception,))
    special = body in ("rr", "kur", "ccr")
    mac = kind in ("mac", "pbmac1", "hmac")
    need = must or special
    good = not (kind is None and need) and not (mac and special) and not env.failed
    h.check(r.ok == good, "accepted exactly with a protection of an allowed kind that verifies")
    if r.ok:
        if kind is not None:
            c = env.calls("protection")
            h.check(len(c) == 1 and (c[0][1].get("pki_message") is m or c[0][0][:1] == (m,)) and c[0][1]["cc_certs"] == ["cc"] and c[0][1].get("pq_stateful_state") is env.state, "the inner message's own protection is verified")
        if what == "added":
            h.check(len(env.calls("orig")) == 1, "an embedded original message is verified")
    else:
        handles(h, env, r, {"wrongIntegrity"} if mac and special else {"badMessageCheck", "notAuthorized"})


@harness("C16", MODS, {k: {"kind": k} for k in KINDS}, bound="outer message with or without certificates and inner messages, every outcome of every step")
def nested(h, kind):
    env = Env(h)
    ph, p, ex = env.ph, env.p, env.ex
    n = h.choice("inner", (0, 1, 2))
    certs = h.choice("extraCerts", (True, False))
    m = env.message(kind, "nested", certs, value=[None] * n)
    h.patch(ph, "certificates_are_trustanchors", env.step("anchor", ex.SignerNotTrusted))
    h.patch(p, "validate_signature_protection", env.step("signature", ex.BadMessageCheck))
    r = h.attempt(p.verify_nested_protection, m, cc_certs=["cc"], pq_stateful_state=env.state, allowed=(Exception,))
    mac = kind in ("mac", "pbmac1", "hmac")
    h.check(r.ok == (not mac and certs and n > 0 and not env.failed), "accepted exactly from a trusted RA with a valid signature")
    if r.ok:
        a, k = env.call("anchor")
        h.check("RAS" in (list(a) + list(k.values())) and a[0] is not None and env.tags.of(a[0]) == b"signer", "the signer is compared with the trusted RAs")
        a, k = env.call("signature")
        h.check((a[0] if a else k.get("pki_message")) is m and k.get("pq_stateful_state") is env.state, "the nested message's signature is verified")
    else:
        want = {"badMessageCheck", "badRequest"}
        if mac:
            want = {"wrongIntegrity"}
        elif env.failed == ["anchor"]:
            want = {"notAuthorized"}
        handles(h, env, r, want)


@harness("C16", MODS, {str(k): {"kind": k} for k in (None,) + tuple(KINDS)}, bound="every kind of request protection, answers with and without private keys, encrypted certificates and secondary certificates")
def answer(h, kind):
    env = Env(h)
    ph, p, ex = env.ph, env.p, env.ex
    h.patch(ph, "build_cert_chain_from_dir", lambda ee_cert, **k: [ee_cert, "chain"])
    h.patch(ph, "may_return_oid_to_name", lambda o: "x")
    made = []

    def protect(how):
        def f(pki_message=None, **k):
            made.append((how, k))
            out = dict(pki=pki_message, extraCerts=[])
            return out

        return f

    h.patch(ph, "protect_pkimessage", protect("plain"))
    h.patch(ph, "protect_hybrid_pkimessage", protect("hybrid"))
    h.patch(ph, "protect_pkimessage_kem_based_mac", protect("kem"))
    body = h.choice("body", ("ip", "cp", "kup", "pkiconf", "error"))
    issue = body in ("ip", "cp", "kup")
    kga = h.choice("private_key", (None, 1)) if issue else None
    enc = h.choice("encrypted_cert", (True, False)) if issue else False
    secondary, more, bad = h.choice("extra", ((None, False, False), ("second", True, False), ("second", False, True), (None, True, True)))
    curve = h.choice("curve", ("x25519", "x448", "ecc", "other")) if kind == "dh" or kga is not None or enc else "other"
    h.patch(ph, "load_public_key_from_cert", lambda c: object() if curve == "other" else env.key(curve, "Public"))
    h.patch(ph, "perform_ecdh", lambda priv, pub: ("secret of", priv.kind, pub.kind))
    h.patch(ph, "check_if_response_contains_private_key", lambda m, i: i == kga)
    h.patch(ph, "check_if_response_contains_encrypted_cert", lambda m: enc)
    h.patch(ph, "get_public_key_from_cert_req_msg", lambda m: object() if curve == "other" else env.key(curve, "Public"))
    patched = []
    h.patch(ph, "patch_sender", lambda m, sender_name: (patched.append(("sender", sender_name)), m)[1])
    h.patch(ph, "patch_senderkid", lambda m, kid: (patched.append(("kid", kid)), m)[1])
    req = env.message(kind, "ir", value=[None])
    resp = Message(header(h, b"t" * 16, b"m" * 16), body, {"response": [1, 2]})
    has = h.choice("kem_secret_known", (True, False)) if kind == "kem" else False
    h.patch(p, "kem_shared_secret", type("K", (), {"get_shared_secret_object": staticmethod(lambda request: type("S", (), {"shared_secret": "kem secret"}) if has else None)}))
    r = h.attempt(p.protect_pkimessage, resp, req, secondary_cert=secondary, add_certs=["more"] if more else None, bad_message_check=bad, allowed=(Exception,))
    if kind == "dh" and curve == "other":
        h.check(not r.ok and not made, "no answer is protected for a key that cannot agree on a secret")
        return
    h.check(r.ok and len(made) == 1 and r.value["pki"] is resp, "the answer is protected once")
    if not r.ok or len(made) != 1:
        return
    how, k = made[0]
    certs = r.value["extraCerts"]
    mine = [c for c in certs if c == secondary or c == "more"]
    h.check(mine == ([secondary] if secondary else []) + (["more"] if more else []), "the additional certificates are included")
    mac = {"mac": "password_based_mac", "pbmac1": "pbmac1", "hmac": "password_based_mac"}.get(kind)
    h.check(k.get("bad_message_check", False) == bad, "the protection is spoiled exactly on demand")
    agree = ("sender", "CN=Mock CA") in patched and ("kid", b"CN=Mock CA") in patched
    if mac:
        h.check(how == "plain" and k["protection"] == mac and k["password"] == SECRET and agree, "a MAC protected request gets an answer with the same MAC and secret")
    elif kind == "dh":
        h.check(how == "plain" and k["protection"] == "dh" and k["shared_secret"] == ("secret of", curve, curve) and certs[0] is p.kari_data[curve + "_cert"], "a DH protected request gets a DH protected answer")
    elif kind == "kem" and has:
        h.check(how == "kem" and k["shared_secret"] == "kem secret" and agree, "a KEM protected request gets an answer with that secret")
    elif kind is not None and issue and kga is not None and curve == "ecc":
        h.check(how == "plain" and k["protection"] == "signature" and k["private_key"] is p.kari_data["ecc_key"] and certs[0] is p.kari_data["ecc_cert"], "a key is delivered under the signature of the key agreement key")
    else:
        h.check(how == "hybrid" and k["private_key"] == "own key" and k["cert"] is env.own and certs[0] is env.own and k["alt_signing_key"] == "alt key", "any other request gets a signed answer")
        if kind is not None and issue and enc and curve != "other":
            h.check(p.kari_data[curve + "_cert"] in certs, "with the certificate needed to decrypt the issued one")
