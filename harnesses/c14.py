"""C14 PKIHeader checks: identifiers, nonces, protection fields, sender, time and generalInfo."""

from harnesses.cmp import CMP, Message, Time, clock, header, real_cert, when
from symex.harness import harness

ASSUMPTIONS = [
    "points in time are whole seconds; GeneralizedTime parsing is pyasn1's",
    "the subjectKeyIdentifier and the text of a commonName are arbitrary values (their extraction from the certificate or name is replaced)",
]
OUTSIDE = ["the pvno of requests", "recipKID and freeText (not checked by the suite)"]
MODS = CMP
FIRST = ("ir", "cr", "kur", "ccr", "rr", "genm", "p10cr", "pollReq", "error")
SIG, PBM = "1.2.840.10045.4.3.2", "1.2.840.113533.7.66.13"
T1, T2, T3 = "20260101000000Z", "20260102000000Z", "20260103000000Z"


def octets(h, name, lens=(0, 15, 16, 17)):
    n = h.choice(name + "_len", (None,) + lens)
    return None if n is None else h.bytes(name, n)


def is16(x):
    return x is not None and len(x) == 16


@harness("C14", MODS, {b: {"body": b} for b in FIRST}, bound="each identifier absent, or any bytes of length 0, 15, 16 or 17")
def request_ids(h, body):
    cu = h.module("resources.checkutils")
    tx, sn, rn = octets(h, "tx"), octets(h, "senderNonce"), octets(h, "recipNonce", (0, 16))
    m = Message(header(h, tx, sn, rn), body)
    r = h.attempt(cu.validate_request_message_nonces_and_tx_id, m, allowed=(Exception,))
    good = is16(tx) and is16(sn) and rn is None
    h.check(r.ok == good, "accepted exactly with 16-byte transactionID and senderNonce and no recipNonce")
    if not r.ok:
        h.check(isinstance(r.exc, cu.CMPTestSuiteError), "refused with a CMP error")
        want = set()
        if not is16(sn):
            want.add(cu.BadSenderNonce)
        if not is16(tx):
            want |= {cu.BadDataFormat} if tx is None else {cu.BadRequest}
        if rn is not None:
            want.add(cu.BadRecipientNonce)
        h.check(type(r.exc) in want, "the error names a wrong field")


@harness("C14", MODS, bound="each identifier absent, or any bytes of length 15 or 16; the response's identifiers any 16 bytes")
def cert_conf_ids(h):
    cu = h.module("resources.checkutils")
    tx, sn, rn = octets(h, "tx", (15, 16)), octets(h, "senderNonce", (15, 16)), octets(h, "recipNonce", (15, 16))
    rtx, rsn, rrn = (h.bytes("resp_" + n, 16) for n in ("tx", "senderNonce", "recipNonce"))
    m, resp = Message(header(h, tx, sn, rn), "certConf"), Message(header(h, rtx, rsn, rrn), "ip")
    r = h.attempt(cu.validate_request_message_nonces_and_tx_id, m, resp, allowed=(Exception,))
    if is16(tx) and is16(sn) and is16(rn):
        good = h.both(h.eq(tx, rtx), h.eq(sn, rrn), h.eq(rn, rsn))
    else:
        good = False
    h.check(h.iff(r.ok, good), "accepted exactly if transactionID and both nonces continue the response")
    if not r.ok:
        h.check(isinstance(r.exc, cu.CMPTestSuiteError), "refused with a CMP error")
    r = h.attempt(cu.validate_request_message_nonces_and_tx_id, m, allowed=(Exception,))
    h.check(not r.ok, "a certConf is not accepted without the response it confirms")


@harness("C14", MODS, bound="each response identifier absent or any bytes of length 0, 15, 16, 17 or 32; request identifiers any 16 bytes (one case: 15); demanded nonce strength 64 to 256 bits")
def response_ids(h):
    cu = h.module("resources.checkutils")
    n = h.choice("request_len", (16, 15))
    qtx, qsn = h.bytes("req_tx", n), h.bytes("req_senderNonce", n)
    part = h.choice("part", ("tx", "nonces"))
    q = Message(header(h, qtx, qsn), "ir")
    if part == "tx":
        tx = octets(h, "tx")
        m = Message(header(h, tx, b"s" * 16, b"r" * 16), "ip")
        alone = h.choice("request_given", (True, False))
        r = h.attempt(cu.validate_transaction_id, m, **({"request": q} if alone else {}), allowed=(Exception,))
        h.check(h.iff(r.ok, h.both(is16(tx), h.eq(tx, qtx) if alone and is16(tx) and n == 16 else is16(tx) and not alone)), "the transactionID has 16 bytes and is the request's")
        return
    sec = h.choice("bits", (64, 128, 136, 256))
    sn, rn = octets(h, "senderNonce", (0, 15, 16, 17, 32)), octets(h, "recipNonce", (15, 16))
    m = Message(header(h, b"t" * 16, sn, rn), "ip")
    r = h.attempt(cu.validate_sender_and_recipient_nonce, m, q, sec, allowed=(Exception,))
    need = max(128, sec) // 8
    good = sn is not None and len(sn) >= need and rn is not None and len(rn) >= need and len(rn) == n and h.eq(rn, qsn)
    h.check(h.iff(r.ok, good), "recipNonce is the request's senderNonce and both have the demanded strength")


@harness("C14", MODS, bound="both fields present or absent, protection demanded or not")
def protection_fields(h):
    cu = h.module("resources.checkutils")
    alg, prot, must = h.choice("alg", (True, False)), h.choice("protection", (True, False)), h.choice("must", (True, False))
    m = header(h, b"t" * 16, b"n" * 16, prot=SIG if alg else None)
    if prot:
        m["protection"] = (0,) * 8
    r = h.attempt(cu.check_is_protection_present, m, must, allowed=(Exception,))
    h.check(r.ok == (alg == prot and (alg or not must)), "both fields or, where allowed, none")
    if r.ok:
        h.check(r.value == prot, "reports whether the message is protected")
    else:
        h.check(isinstance(r.exc, cu.BadMessageCheck), "refused as badMessageCheck")
    for f in (cu.check_sender_cmp_protection, cu.validate_senderkid_for_cmp_protection):
        if prot == alg and not prot:
            r = h.attempt(f, m, must_be_protected=must, allowed=(Exception,))
            h.check(r.ok == (not must), "sender checks demand protection where asked")


@harness("C14", MODS, bound="senderKID any bytes of length 0, 3 or 4 (or absent), subjectKeyIdentifier any 3 bytes (or absent), every protection kind, explicit or first extra certificate")
def sender_kid_signature(h):
    cu = h.module("resources.checkutils")
    P = cu.ProtectedType
    kid = octets(h, "kid", (0, 3, 4))
    ski = h.bytes("ski", 3) if h.choice("has_ski", (True, False)) else None
    m = header(h, b"t" * 16, b"n" * 16, kid=kid, prot=SIG)
    m["protection"] = (0,) * 8
    kind = h.choice("kind", (P.TRAD_SIGNATURE, P.PQ_SIG, P.COMPOSITE_SIG, P.DH))
    h.patch(P, "get_protection_type", staticmethod(lambda x: kind))
    own, other = real_cert(1), real_cert(2)
    m["extraCerts"].append(own)
    m["extraCerts"].append(other)
    given = h.choice("given", (True, False))

    def get_ski(c):
        h.check(int(c["tbsCertificate"]["serialNumber"]) == (2 if given else 1), "the protection certificate is examined")
        return ski

    h.patch(cu.certextractutils, "get_subject_key_identifier", get_ski)
    r = h.attempt(cu.validate_senderkid_for_cmp_protection, m, other if given else None, allowed=(Exception,))
    h.check(h.iff(r.ok, kid is not None and (ski is None or h.eq(kid, ski))), "senderKID present and equal to the certificate's subjectKeyIdentifier")
    if not r.ok:
        h.check(isinstance(r.exc, cu.BadMessageCheck), "refused as badMessageCheck")


@harness("C14", MODS, bound="senderKID any text of length 0 to 4 without = or preceded by CN= (or bytes that are no text), commonName any such text of length 1 to 4 or absent, lenient mode or not")
def sender_kid_mac(h):
    cu = h.module("resources.checkutils")
    P = cu.ProtectedType
    n = h.choice("kid_len", (None, 0, 1, 3, 4, -1))
    text = "" if n in (None, 0, -1) else h.str("kid", n, 62, 126)
    pre = h.choice("prefixed", (False, True)) if n is not None else False
    if n is None:
        kid = None
    elif n == -1:
        kid = b"\xff\xfe"
    else:
        raw = [ord("C"), ord("N"), ord("=")] if pre else []
        kid = h.mkbytes(raw + [x for x in text.encode("utf-8")]) if n else bytes(raw)
    c = h.choice("cn_len", (None, 1, 3))
    cn = None if c is None else h.str("cn", c, 62, 126)
    gn = h.choice("sender", ("CN=a", "a@example.com"))
    m = header(h, b"t" * 16, b"n" * 16, kid=kid, prot=PBM, sender=gn)
    m["protection"] = (0,) * 8
    kind = h.choice("kind", (P.MAC, P.KEM))
    h.patch(P, "get_protection_type", staticmethod(lambda x: kind))
    h.patch(cu.utils, "get_openssl_name_notation", lambda name, oids=None, **k: "NULL-DN" if cn is None else "CN=" + cn)
    lenient = h.choice("lenient", (False, True))
    if kid is not None and n == -1 and gn != "CN=a" and lenient:
        return
    r = h.attempt(cu.validate_senderkid_for_cmp_protection, m, allow_mac_failure=lenient, allowed=(Exception,))
    if kid is None:
        good = False
    elif lenient:
        good = True if n != -1 else None
    elif n == -1 or gn != "CN=a" or cn is None or n != c:
        good = False
    else:
        good = h.eq(text, cn)
    if good is not None:
        h.check(h.iff(r.ok, good), "senderKID carries the sender's commonName")
    if not r.ok:
        h.check(isinstance(r.exc, cu.BadMessageCheck), "refused as badMessageCheck")


@harness("C14", MODS, bound="sender and subject from a set of five names (equal, different, reordered, other name type), every protection kind, lenient or not")
def sender_name(h):
    from resources.prepareutils import prepare_name

    cu = h.module("resources.checkutils")
    P = cu.ProtectedType
    subjects = ("CN=a", "CN=b", "CN=a,O=x", "O=x,CN=a", "O=x")
    gn = h.choice("sender", subjects + ("a@example.com",))
    sub = h.choice("subject", subjects)
    m = header(h, b"t" * 16, b"n" * 16, prot=SIG, sender=gn)
    m["protection"] = (0,) * 8
    cert = real_cert(1)
    cert["tbsCertificate"]["subject"]["rdnSequence"] = prepare_name(sub)["rdnSequence"]
    m["extraCerts"].append(cert)
    m["extraCerts"].append(real_cert(2))
    kind = h.choice("kind", (P.TRAD_SIGNATURE, P.PQ_SIG, P.COMPOSITE_SIG, P.MAC, P.KEM))
    h.patch(P, "get_protection_type", staticmethod(lambda x: kind))
    lenient = h.choice("lenient", (False, True))
    r = h.attempt(cu.check_sender_cmp_protection, m, allow_failure=lenient, allowed=(Exception,))
    if kind in (P.MAC, P.KEM):
        good = "CN=" in gn
    else:
        good = gn == sub
    h.check(r.ok == (lenient or good), "sender is the protection certificate's subject, or a directoryName with a commonName for a MAC")
    if not r.ok:
        h.check(isinstance(r.exc, cu.BadMessageCheck), "refused as badMessageCheck")


@harness("C14", MODS, bound="messageTime, clock and request time any of 10^6 seconds (messageTime also absent), allowed interval 0 to 10^4 s or unlimited, confirmWaitTime present or not")
def message_time(h):
    cu = h.module("resources.checkutils")
    t, now, q = (h.int(n, 0, 10**6) for n in ("messageTime", "now", "request_time"))
    h.patch(cu, "datetime", clock(h, Time(now)))
    when(h, {T1: Time(t)})
    present = h.choice("present", (True, False))
    wait = h.choice("confirmWaitTime", (False, True))
    interval = h.int("interval", 0, 10**4) if h.choice("limited", (True, False)) else None
    req = h.choice("request_given", (True, False))
    m = header(h, b"t" * 16, b"n" * 16, time=T1 if present else None)
    if wait:
        info(m, "wait", T2)
    r = h.attempt(cu.check_message_time_field, m, interval, Time(q) if req else None, allowed=(Exception,))
    if not present:
        good = interval is None and not wait
        if r.ok or wait:
            h.check(r.ok == good, "messageTime may be missing only if nothing depends on it")
        else:
            h.check(r.ok == good, "messageTime may be missing only if no interval is demanded")
        return
    if interval is None:
        good = True
    elif req:
        good = h.both(t - q <= interval, q - t <= interval)
    else:
        good = h.both(t <= now, now - t <= interval)
    h.check(h.iff(r.ok, good), "accepted exactly within the allowed interval and not in the future")
    if not r.ok:
        h.check(isinstance(r.exc, cu.BadTime), "refused as badTime")


def info(m, kind, arg=None):
    """Appends a generalInfo entry."""
    from pyasn1.codec.der import encoder
    from pyasn1.type import univ, useful
    from pyasn1_alt_modules import rfc9480
    from resources.asn1_structures import CertProfileValueAsn1

    e = rfc9480.InfoTypeAndValue()
    if kind == "implicit":
        e["infoType"] = rfc9480.id_it_implicitConfirm
        e["infoValue"] = {"null": univ.Null(""), "der": univ.Any(b"\x05\x00"), "bad": univ.Any(b"\x04\x00")}[arg]
    elif kind == "wait":
        e["infoType"] = rfc9480.id_it_confirmWaitTime
        tail = b""
        if arg.endswith("+"):
            arg, tail = arg[:-1], b"\x05\x00"
        e["infoValue"] = univ.Any(b"\x04\x00" if arg == "bad" else encoder.encode(useful.GeneralizedTime(arg)) + tail)
    elif kind == "profile":
        e["infoType"] = rfc9480.id_it_certProfile
        p = CertProfileValueAsn1()
        for x in arg:
            p.append(x)
        e["infoValue"] = univ.Any(encoder.encode(p) if arg else b"\x30\x00")
    else:
        e["infoType"] = "1.2.3.4"
        e["infoValue"] = univ.Any(b"\x05\x00")
    m["header"]["generalInfo"].append(e)


BODIES = ("ir", "cr", "kur", "p10cr", "ip", "cp", "kup", "ccr", "rr", "genm", "genp", "rp", "certConf", "pkiconf", "error", "pollReq", "pollRep", "ccp", "nested", "popdecc", "krr", "krp")


@harness("C14", MODS, {f"bodies{i}": {"bodies": BODIES[i::4]} for i in range(4)}, bound="every body type, implicitConfirm / confirmWaitTime / certProfile absent, present or malformed; behind another entry; clock and waiting time any of 10^6 seconds")
def general_info(h, bodies):
    cu = h.module("resources.checkutils")
    body = h.choice("body", bodies)
    m = header(h, b"t" * 16, b"n" * 16)
    now, wt = h.int("now", 0, 10**6), h.int("until", 0, 10**6)
    h.patch(cu, "datetime", clock(h, Time(now)))
    when(h, {T2: Time(wt)})
    info(m, "other")
    imp = h.choice("implicitConfirm", (None, "null", "der", "bad"))
    wait = h.choice("confirmWaitTime", (None, T2, T2 + "+", "bad"))
    prof = h.choice("certProfile", (None, ("base",)))
    if prof:
        info(m, "profile", prof)
    if imp:
        info(m, "implicit", imp)
    if wait:
        info(m, "wait", wait)
    x = Message(m, body)
    r = h.attempt(cu.check_generalinfo_field, x, allowed=(Exception,))
    good = imp is None or (imp != "bad" and body in ("ir", "cr", "kur", "p10cr", "ip", "cp", "kup"))
    good = good and (prof is None or body in ("ir", "cr", "kur", "p10cr", "genm"))
    if wait:
        good = h.both(good, wait == T2, imp is None, wt > now)
    h.check(h.iff(r.ok, good), "accepted exactly with allowed and well-formed entries")
    if not r.ok:
        h.check(isinstance(r.exc, (cu.CMPTestSuiteError, ValueError)), "refused with an error of the suite")


@harness("C14", MODS, {b: {"body": b} for b in ("ir", "cr", "kur", "p10cr", "genm", "rr", "ip")}, bound="these body types, 1 to 3 requests in the message, 0 to 3 profile names of which each may be unknown or empty")
def cert_profile(h, body):
    cu = h.module("resources.checkutils")
    n = h.choice("requests", (1, 2, 3)) if body in ("ir", "cr", "kur", "genm") else 1
    k = h.choice("profiles", (None, 0, 1, 2, 3))
    m = header(h, b"t" * 16, b"n" * 16)
    names = [h.choice(f"name{i}", ("base", "", "other")) for i in range(k or 0)]
    if k is not None:
        info(m, "profile", names)
    check = h.choice("restricted", (True, False))
    x = Message(m, body, [None] * n)
    r = h.attempt(cu.validate_cert_profile_for_ca, x, ["base"] if check else None, allowed=(Exception,))
    good = k is None or (body not in ("rr", "ip") and 1 <= k <= n and (not check or "other" not in names))
    h.check(r.ok == good, "accepted exactly with one known profile, or none, for each request")
    if not r.ok:
        h.check(isinstance(r.exc, cu.CMPTestSuiteError), "refused with a CMP error")


@harness("C14", MODS, bound="one outcome per check, response with or without its request, protection demanded or not, version 0 to 5")
def client_header(h):
    """validate_pkimessage_header applies every check."""
    cu = h.module("resources.checkutils")
    must, lenient = h.choice("must", (True, False)), h.choice("lenient", (True, False))
    pvno = h.int("pvno", 0, 5)
    m = header(h, b"t" * 16, b"n" * 16, b"q" * 16, time=T1)
    m["header"]["pvno"] = pvno
    q = header(h, b"t" * 16, b"q" * 16, time=T2 if h.choice("request_time", (True, False)) else None)
    qt = q["header"]["messageTime"].isValue
    when(h, {T1: Time(1), T2: Time(2)})
    with_req = h.choice("request_given", (True, False))
    interval = h.choice("interval", (None, 200, "17"))
    oks, seen = {}, {}
    for name in ("check_is_protection_present", "check_sender_cmp_protection", "validate_senderkid_for_cmp_protection", "check_generalinfo_field", "check_message_time_field", "validate_transaction_id", "validate_sender_and_recipient_nonce"):
        oks[name] = h.bool(name)

        def f(*a, name=name, **k):
            seen[name] = (a, k)
            if not oks[name]:
                raise cu.BadRequest("x")
            return True

        h.patch(cu, name, f)
    r = h.attempt(cu.validate_pkimessage_header, m, q if with_req else None, must, interval, lenient, allowed=(Exception,))
    want = [h.either(h.eq(pvno, 2), h.eq(pvno, 3)), *[oks[n] for n in list(oks)[:5]]]
    if with_req:
        want += [oks[n] for n in list(oks)[5:]]
    h.check(h.iff(r.ok, h.both(*want)), "accepted exactly if every check accepts")
    if r.ok:
        a, k = seen["check_message_time_field"]
        rt = k.get("request_time", a[2] if len(a) > 2 else None)
        iv = k.get("allowed_interval", a[1] if len(a) > 1 else None)
        h.check(iv == (None if interval is None else int(interval)), "the interval asked for")
        h.check((rt is not None) == (with_req and qt), "relative to the request if that has a time")
        for n in ("check_sender_cmp_protection", "validate_senderkid_for_cmp_protection"):
            h.check(seen[n][1].get("must_be_protected") == must, "protection demanded as asked")
            h.check(lenient in (seen[n][1].get("allow_failure"), seen[n][1].get("allow_mac_failure")), "leniency as asked")
