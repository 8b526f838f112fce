"""C15 nested messages (batching, added protection) and the answer a request may get."""

from harnesses.c14 import SIG, is16, octets
from harnesses.cmp import CMP, Message, header, real_cert
from symex.harness import harness

ASSUMPTIONS = ["verification, request processing and protection of one message are arbitrary functions (accept, refuse, fail); other checks decide them"]
OUTSIDE = ["more than three inner messages", "a batch whose later message is refused: the answers to the earlier ones are dropped with the batch"]
MODS = CMP + ("mock_ca.nested_handler",)
PBM = "1.2.840.113533.7.66.13"


class Seq(list):
    isValue = True


@harness("C15", MODS, {f"{n}": {"n": n} for n in (1, 2)}, bound="outer message and n inner ones, each identifier any 16 bytes (one of them absent or of 0, 15 or 17 bytes), every combination of the checks asked for")
def unique_ids(h, n):
    cu = h.module("resources.checkutils")
    odd = h.choice("odd", (None, "absent", 15, 17, 0))
    where = h.choice("where", tuple((i, f) for i in range(n + 1) for f in range(3))) if odd is not None else None
    ids = []
    for i in range(n + 1):
        row = []
        for f, name in enumerate(("tx", "senderNonce", "recipNonce")):
            if where == (i, f):
                row.append(None if odd == "absent" else h.bytes(f"{name}{i}", odd))
            else:
                row.append(h.bytes(f"{name}{i}", 16))
        ids.append(row)
    ct, cs, cr, cl = (h.choice("check_" + x, (True, False)) for x in ("tx", "sender", "recip", "length")) if n == 1 else (True, True, h.choice("check_recip", (True, False)), True)
    inner = Seq(Message(header(h, *r), "ir") for r in ids[1:])
    m = Message(header(h, *ids[0]), "nested", inner)
    r = h.attempt(cu.validate_nested_message_unique_nonces_and_ids, m, ct, cs, cr, cl, allowed=(Exception,))

    def column(f):
        return [row[f] for row in ids]

    def distinct(xs):
        return h.both(*[h.no(h.eq(a, b)) for i, a in enumerate(xs) for b in xs[:i] if len(a) == len(b)])

    good = True
    for f, must, uniq in ((0, True, ct), (1, True, cs), (2, cr, cr)):
        xs = column(f)
        if must and None in xs:
            good = False
            break
        xs = [x for x in xs if x is not None]
        if uniq:
            good = h.both(good, distinct(xs))
        seen = xs if f < 2 or cr else xs[:1] if ids[0][2] is not None else []
        if cl and any(len(x) != 16 for x in seen):
            good = False
    h.check(h.iff(r.ok, good), "accepted exactly with all identifiers present, distinct and of full length")
    if not r.ok:
        h.check(isinstance(r.exc, cu.CMPTestSuiteError), "refused with a CMP error")


@harness("C15", MODS, {b: {"body": b} for b in ("ir", "kur", "rr", "genm", "certConf")}, bound="outer and inner identifiers any 16 bytes, or one of them absent, or one or both of 0, 15 or 17 bytes; one or two inner messages")
def added_protection_ids(h, body):
    cu = h.module("resources.checkutils")
    odd = h.choice("odd", (None, "absent", 0, 15, 17))
    field = h.choice("field", (0, 1, 2)) if odd is not None else None
    side = h.choice("side", (0, 1, "both")) if odd is not None else None
    conf = body == "certConf"
    extra = h.choice("recip_set", ((False, False), (True, False), (False, True))) if not conf else (True, True)
    ids = []
    for i in range(2):
        row = []
        for f, name in enumerate(("tx", "senderNonce", "recipNonce")):
            if f == 2 and not extra[i]:
                row.append(None)
            elif field == f and side in (i, "both"):
                row.append(None if odd == "absent" else h.bytes(f"{name}{i}", odd))
            else:
                row.append(h.bytes(f"{name}{i}", 16))
        ids.append(row)
    count = h.choice("count", (1, 2, 0)) if odd is None else 1
    inner = [Message(header(h, *ids[1]), body) for _ in range(count)]
    m = Message(header(h, *ids[0]), "nested", Seq(inner))
    long = h.choice("check_length", (True, False))
    r = h.attempt(cu.validate_add_protection_tx_id_and_nonces, m, long, allowed=(Exception,))
    good = count == 1
    for f in range(3):
        a, b = ids[0][f], ids[1][f]
        if f == 2 and not conf:
            good = good and a is None and b is None
        elif a is None or b is None:
            good = False
        else:
            good = h.both(good, h.eq(a, b), is16(a) or not long)
    h.check(h.iff(r.ok, good), "accepted exactly with the inner identifiers repeated outside, recipNonce only for certConf")
    if not r.ok:
        h.check(isinstance(r.exc, (cu.CMPTestSuiteError, ValueError)), "refused with an error of the suite")


ANSWER = {"ir": "ip", "cr": "cp", "kur": "kup", "p10cr": "cp", "genm": "genp", "ccr": "ccp", "rr": "rp"}


BATCH = {"ir-kur": ("ir", "kur"), "p10cr-genm": ("p10cr", "genm"), "rr-ccr": ("rr", "ccr"), "certConf-ir": ("certConf", "ir"), "cr-cr": ("cr", "cr")}


@harness("C15", MODS, {k: {"kinds": v} for k, v in BATCH.items()}, bound="a batch of two with these bodies and two answers; identifiers any 16 bytes", budget=100)
def nested_answer(h, kinds):
    cu = h.module("resources.checkutils")
    h.patch(cu, "validate_sender_and_recipient", lambda *a, **k: None)
    q = [(h.bytes(f"q_tx{i}", 16), h.bytes(f"q_nonce{i}", 16)) for i in range(2)]
    a = [(h.bytes(f"a_tx{i}", 16), h.bytes(f"a_nonce{i}", 16)) for i in range(2)]
    # messages are told apart by their identifiers
    for x in (a, q):
        h.assume(h.no(h.both(h.eq(x[0][0], x[1][0]), h.eq(x[0][1], x[1][1]))))
    expect = dict(ANSWER, certConf="pkiconf")
    kind_a = [h.choice(f"answer{i}", tuple(dict.fromkeys((expect[kinds[0]], expect[kinds[1]], "error", "nested")))) for i in range(2)]
    req = Message(header(h, b"t" * 16, b"n" * 16), "nested", Seq(Message(header(h, t, s), k) for (t, s), k in zip(q, kinds)))
    ans = Message(header(h, b"t" * 16, b"m" * 16, b"n" * 16), "nested", Seq(Message(header(h, t, b"x" * 16, s), k) for (t, s), k in zip(a, kind_a)))
    r = h.attempt(cu.validate_ids_and_nonces_for_nested_response, req, ans, allowed=(Exception,))
    good = True
    for (t, s), k in zip(q, kinds):
        good = h.both(good, h.either(*[h.both(h.eq(t, t2), h.eq(s, s2), k2 in (expect[k], "error")) for (t2, s2), k2 in zip(a, kind_a)]))
    h.check(h.iff(r.ok, good), "accepted exactly if every request has its answer")
    if not r.ok:
        h.check(isinstance(r.exc, (cu.CMPTestSuiteError, ValueError)), "refused with an error of the suite")


@harness("C15", MODS, bound="batches and answers of up to three messages; answer nested or not")
def nested_size(h):
    cu = h.module("resources.checkutils")
    h.patch(cu, "validate_sender_and_recipient", lambda *a, **k: None)
    n, m, outer = h.choice("requests", (1, 2, 3)), h.choice("answers", (0, 1, 2, 3)), h.choice("outer", ("nested", "error", "ip"))

    def ids(i):
        return bytes([i + 1]) * 16, bytes([i + 17]) * 16

    req = Message(header(h, b"t" * 16, b"n" * 16), "nested", Seq(Message(header(h, *ids(i)), "ir") for i in range(n)))
    ans = Message(header(h, b"t" * 16, b"m" * 16, b"n" * 16), outer, Seq(Message(header(h, ids(i)[0], b"x" * 16, ids(i)[1]), "ip") for i in range(m)))
    r = h.attempt(cu.validate_ids_and_nonces_for_nested_response, req, ans, allowed=(Exception,))
    h.check(r.ok == (n == m and outer == "nested"), "one answer per message, in a nested message")
    if not r.ok:
        h.check(isinstance(r.exc, (cu.CMPTestSuiteError, ValueError)), "refused with an error of the suite")


REQ = ("ir", "cr", "kur", "p10cr", "genm", "ccr", "rr", "certConf", "ip")
RESP = ("ip", "cp", "kup", "genp", "ccp", "rp", "error", "pkiconf", "nested")


@harness("C15", MODS, {f"{m}-{e}": {"mode": m, "err": e} for m in ("plain", "added", "batch") for e in (None, True, False)}, bound="every pair of these body types, error answers allowed, demanded or refused; nested requests of one or two messages")
def answer_types(h, mode, err):
    cu = h.module("resources.checkutils")
    m0 = header(h, b"t" * 16, b"n" * 16)

    def fits(q, a):
        if q not in ANSWER:
            return False
        return a == "error" if err else a == ANSWER[q] or (err is None and a == "error")

    if mode == "batch":
        qs, n = [h.choice(f"req{i}", ("ir", "rr", "p10cr")) for i in range(2)], h.choice("n", (2, 1, 3))
        outer = h.choice("outer", ("nested", "error", "ip"))
        rs = [h.choice(f"resp{i}", ("ip", "rp", "cp", "error")) for i in range(min(n, 2))] + ["ip"] * (n - 2)
        good = outer == "error" and err is not False or outer == "nested" and n == 2 and all(fits(q, a) for q, a in zip(qs, rs))
        q = Message(m0, "nested", Seq(Message(m0, x) for x in qs))
        a = Message(m0, outer, Seq(Message(m0, x) for x in rs))
    else:
        qb, ab = h.choice("req", REQ), h.choice("resp", RESP)
        good = fits(qb, ab)
        q, a = Message(m0, qb), Message(m0, ab)
        if mode == "added":
            q = Message(m0, "nested", Seq([q]))
    r = h.attempt(cu.validate_cmp_body_types, a, q, err, allowed=(Exception,))
    h.check(r.ok == good, "accepted exactly with the answer type of the request")
    if not r.ok:
        h.check(isinstance(r.exc, (cu.CMPTestSuiteError, ValueError)), "refused with an error of the suite")


@harness("C15", MODS, bound="every body type and protection kind")
def integrity(h):
    cu = h.module("resources.checkutils")
    P = cu.ProtectedType
    body = h.choice("body", ("ir", "cr", "p10cr", "kur", "ccr", "rr", "nested", "genm", "certConf"))
    kind = h.choice("kind", (None, P.MAC, P.DH, P.KEM, P.TRAD_SIGNATURE, P.PQ_SIG, P.COMPOSITE_SIG))
    h.patch(P, "get_protection_type", staticmethod(lambda x: kind))
    m = Message(header(h, b"t" * 16, b"n" * 16, prot=SIG if kind else None), body)
    r = h.attempt(cu.validate_wrong_integrity, m, allowed=(Exception,))
    bad = body in ("kur", "ccr", "rr", "nested") and (kind in (None, P.MAC) or body == "ccr" and kind in (P.DH, P.KEM))
    h.check(r.ok != bad, "kur, ccr, rr and nested messages are not accepted with a shared secret MAC")
    if not r.ok:
        h.check(isinstance(r.exc, cu.CMPTestSuiteError), "refused with a CMP error")
        if kind is not None:
            h.check(r.exc.get_failinfo() == "wrongIntegrity", "refused as wrongIntegrity")


class Handler:
    def __init__(self, h, nh):
        self.h = h
        self.nh = nh
        self.log = []
        self.bad = False
        self.ca_cert_chain = ["chain"]
        self.cross_signed_certs = ["cross"]
        self.sender = "CN=CA"

    def get_cross_signed_certs(self):
        return self.cross_signed_certs

    def step(self, name, key, value=None):
        def f(*a, **k):
            who = k.get(key, a[0] if a else None)
            o = self.h.int(name, 0, 2)
            self.log.append((name, who, k))
            if o == 1:
                self.bad = True
                raise self.nh.BadRequest(name)
            if o == 2:
                self.bad = True
                raise ValueError(name)
            return value(who) if value else None

        return f


@harness("C15", MODS, {"0": {"n": 0}, "1": {"n": 1}, "2": {"n": 2}, "2-wrapped": {"n": 2, "wrap": True, "many": 1}, "2-wrapped-0": {"n": 2, "wrap": True, "many": 0}, "2-wrapped-2": {"n": 2, "wrap": True, "many": 2}, "2-recip": {"n": 2, "recip": True}}, bound="up to two inner messages of any body type, one of them itself an added protection message, each check accepting, refusing or failing", budget=100)
def nested_handler(h, n, wrap=False, recip=False, many=1):
    nh = h.module("mock_ca.nested_handler")
    req, conf, prot = Handler(h, nh), Handler(h, nh), Handler(h, nh)
    conf.log = prot.log = req.log
    types = ("ir", "kur", "certConf", "rr") if wrap else ("ir", "p10cr", "kur", "certConf", "rr") if n == 2 else ("ir", "cr", "p10cr", "kur", "ccr", "certConf", "rr", "genm")
    kinds = [h.choice(f"body{i}", types) for i in range(n)]
    open_ = h.choice("inner_unprotected", (True, False))
    real = [Message(header(h, bytes([i + 1]) * 16, bytes([i + 9]) * 16), k) for i, k in enumerate(kinds)]
    inner = list(real)
    if wrap:
        w = h.choice("wrapped", (0, 1))
        inner[w] = Message(header(h, bytes([w + 1]) * 16, bytes([w + 9]) * 16), "nested", Seq([real[w]] * many))
    nonce = h.bytes("recip_nonce", 16) if recip else None
    out = Message(header(h, b"t" * 16, b"n" * 16, nonce), "nested", Seq(inner))
    req.validate_header = req.step("header", "pki_message")
    req.process_cert_request = req.step("act", "pki_message", lambda m: ("answer", m))
    cc = h.choice("cross", (None, "new"))
    conf.process_cert_conf = conf.step("act", "pki_message", lambda m: (("answer", m), cc))
    prot.verify_nested_protection = prot.step("outer", "pki_message")
    prot.verify_added_protection = prot.step("added", "request")
    prot.verify_inner_batch_pkimessage = prot.step("inner", "pki_message")
    present = req.step("present", "pki_message")
    h.patch(nh, "check_is_protection_present", present)
    h.patch(nh, "validate_add_protection_tx_id_and_nonces", req.step("added_ids", "request"))
    h.patch(nh, "validate_nested_message_unique_nonces_and_ids", req.step("ids", "request"))
    built = []
    h.patch(nh, "build_nested_pkimessage", lambda other_messages=None, **k: (built.append((list(other_messages), k)), ("answer", out))[1])
    prot.protect_pkimessage = lambda response=None, request=None, **k: ("protected", response, request)
    for x in (req, conf, prot):
        x.parent = req
    hd = nh.NestedHandler(req, conf, allow_inner_unprotected=open_)
    r = h.attempt(hd.process_nested_request, out, prot, allowed=(Exception,))
    log = req.log
    bad = req.bad or conf.bad or prot.bad
    acts = [i for i, e in enumerate(log) if e[0] == "act"]
    for i in acts:
        who = log[i][1]
        before = [(e[0], e[1]) for e in log[:i]]
        if wrap and who is real[w]:
            h.check(("added", inner[w]) in before and ("added_ids", inner[w]) in before, "acts only after the wrapping message was verified")
        h.check(("outer", out) in before and ("header", out) in before, "acts only after the outer protection and header were accepted")
        if n == 1:
            h.check(("added", out) in before and ("added_ids", out) in before and ("present", who) in before, "acts only after the inner message was verified")
        else:
            h.check((("inner", who) in before or wrap and who is real[w]) and ("ids", out) in before and ("present", who) in before, "acts only after the inner message was verified")
        h.check(not any(e[0] == "act" and e[1] is who for e in log[:i]), "each inner message is processed once")
    for name, who, k in log:
        if name in ("present", "inner", "added"):
            h.check(k.get("must_be_protected") == (not open_), "inner protection is demanded as configured")
        if name == "header":
            h.check(k.get("must_be_protected") is True, "a nested message is protected")
        if name == "inner" and "index" in k:
            h.check(inner[k["index"]] is who, "errors name the message")
    known = ("ir", "cr", "p10cr", "kur", "ccr", "certConf")
    mixed = n == 2 and "certConf" in kinds and set(kinds) != {"certConf"} or recip and set(kinds) != {"certConf"}
    if wrap:
        names = ["nested" if i == w else k for i, k in enumerate(kinds)]
        mixed = "certConf" in names
        if many != 1:
            h.check(not r.ok and not any(log[i][1] is real[w] for i in acts), "a message within a batch adds protection to exactly one message")
            return
    if n == 0 or mixed or any(k not in known for k in kinds):
        h.check(not r.ok, "unsupported content is refused")
        if n == 0 or mixed:
            h.check(not acts, "and nothing is done")
        return
    h.check(r.ok == (not bad), "answered exactly if every check accepts")
    if not r.ok:
        return
    h.check([log[i][1] for i in acts] == real, "every inner message is processed, in order")
    answers = [("protected", ("answer", m), m) for m in real]
    if n == 1:
        h.check(r.value == answers[0], "the answer to the inner message, protected for it")
    else:
        h.check(r.value == ("protected", ("answer", out), out), "a protected nested answer")
        h.check(len(built) == 1 and built[0][0] == answers, "with one protected answer per message, in order")
        k = built[0][1]
        h.check(k["transaction_id"] == b"t" * 16 and k["recip_nonce"] == b"n" * 16, "the answer carries the batch's transactionID and nonce")
    confs = kinds.count("certConf")
    h.check(req.cross_signed_certs == ["cross"] + (["new"] if cc else []) * confs, "confirmed cross certificates are recorded")
