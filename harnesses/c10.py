"""C10 revocation status published by the mock CA: OCSP, CRL, revocation lists."""

from harnesses.cmp import PY, SymEnum, Tags
from harnesses.c09 import NOT_CONFIRMED, CONFIRMED, REVOKED, UPDATED, PENDING, REVIVED, _E
from symex.harness import harness

ASSUMPTIONS = [
    "serial numbers are unique per certificate; certificate encodings are arbitrary and distinct; digests are an injective function",
    "the X.509 builders of the cryptography package are replaced by recorders of what is put into the CRL / OCSP response",
]
OUTSIDE = ["signatures of CRLs and OCSP responses", "databases with more entries than stated"]
MODS = PY + ("mock_ca.mock_fun", "mock_ca.rev_handler", "mock_ca.ca_handler")


def world(h, n=3):
    from pyasn1_alt_modules import rfc9480

    mock = h.module("mock_ca.mock_fun")
    tags = Tags(h)
    h.patch(mock, "compute_hash", lambda alg, data: alg.encode() + data)
    h.patch(mock, "encoder", tags.encoder(mock.encoder))
    h.patch(mock, "copy_asn1_certificate", lambda c, *a: c)
    state = mock.MockCAState()
    db = state.certificate_db
    certs, serials, states = [], [], []
    for i in range(n):
        c = rfc9480.CMPCertificate()
        sn = h.int(f"serial{i}", 1, 2**64)
        for s in serials:
            h.assume(h.no(h.eq(s, sn)))
        c["tbsCertificate"]["serialNumber"] = sn
        tags.put(c, bytes([i]))
        db.add_cert(c, mock.CertStateEnum.CONFIRMED)
        s = SymEnum(h, h.int(f"state{i}", 0, 5))
        db._certs[i].cert_state = s
        certs.append(c)
        serials.append(sn)
        states.append(s)
    return mock, state, certs, serials, states


def ca(h, state):
    cah = h.module("mock_ca.ca_handler")
    rev = h.module("mock_ca.rev_handler")
    x = cah.CAHandler.__new__(cah.CAHandler)
    x.state = state
    x.ca_cert, x.ca_key, x.own_certs = "ca-cert", "ca-key", []
    x.rev_handler = rev.RevocationHandler(state.certificate_db)
    return cah, x


class Out:
    def __init__(self, **k):
        self.__dict__.update(k)

    def public_bytes(self, *a, **k):
        return self


@harness("C10", MODS, bound="2 certificates in arbitrary states and with arbitrary serial numbers, any queried serial number")
def ocsp_status(h):
    mock, state, certs, serials, states = world(h, 2)
    cah, x = ca(h, state)
    q = h.int("query", 1, 2**64)

    class Alg:
        name = "sha256"

    class Ext:
        def get_extension_for_class(self, c):
            from cryptography.x509 import ExtensionNotFound

            raise ExtensionNotFound("no nonce", None)

    class Request:
        serial_number = q
        hash_algorithm = Alg()
        extensions = Ext()

    h.patch(cah.ocsp, "load_der_ocsp_request", lambda d: Request())
    h.patch(mock.ocsp.OCSPResponseBuilder, "build_unsuccessful", staticmethod(lambda s: Out(status="unauthorized" if s == mock.ocsp.OCSPResponseStatus.UNAUTHORIZED else str(s), cert=None)))
    h.patch(mock.certutils, "build_ocsp_response", lambda **k: Out(status=k["status"], cert=k["cert"], time=k.get("revocation_time")))
    r = h.attempt(x.process_ocsp_request, b"", allowed=(Exception,))
    h.check(r.ok, "every well-formed query is answered")
    if not r.ok:
        return
    o = r.value
    rev = [h.either(s == _E(REVOKED), s == _E(UPDATED), s == _E(PENDING)) for s in states]
    good = [h.either(s == _E(CONFIRMED), s == _E(REVIVED)) for s in states]
    hit = [h.eq(q, s) for s in serials]
    h.check(h.iff(o.status == "revoked", h.either(*[h.both(a, b) for a, b in zip(hit, rev)])), "revoked exactly for revoked and superseded certificates")
    h.check(h.iff(o.status == "good", h.either(*[h.both(a, b) for a, b in zip(hit, good)])), "good exactly for issued certificates that are not revoked")
    h.check(o.status in ("revoked", "good", "unauthorized"), "unauthorized otherwise")
    for i in range(2):
        h.check(h.implies(h.both(hit[i], o.status != "unauthorized"), o.cert is certs[i]), "the answer is about the queried certificate")
    if o.status == "revoked":
        h.check(o.time is not None, "a revocation time is given")


class FakeX509:
    def __init__(self, h, real):
        self._real = real

        class Rev:
            def __init__(self, serial_number=None, revocation_date=None, **k):
                self.sn = serial_number

            def serial_number(self, n):
                return Rev(n)

            def revocation_date(self, d):
                return self

            def add_extension(self, *a, **k):
                return self

            def build(self, *a):
                return self

        class Builder:
            def __init__(self, *a, **k):
                self.sns, self.number = [], None

            def add_extension(self, e, critical=None, **k):
                if isinstance(e, int):
                    self.number = e
                return self

            def add_revoked_certificate(self, r):
                self.sns.append(r.sn)
                return self

            def __getattr__(self, k):
                if k.startswith("_"):
                    raise AttributeError(k)
                return lambda *a, **kw: self

        self.RevokedCertificateBuilder = Rev
        self.CertificateRevocationListBuilder = Builder
        self.CRLNumber = lambda n: n

        class AKI:
            oid = "2.5.29.35"
            from_issuer_public_key = staticmethod(lambda k: "aki")

        self.AuthorityKeyIdentifier = AKI
        self.Extension = lambda *a, **k: "ext"

    def __getattr__(self, k):
        return getattr(self._real, k)


@harness("C10", MODS, {"http": {"via": "http"}, "genm": {"via": "genm"}}, bound="3 certificates in arbitrary states and with arbitrary serial numbers, three consecutive CRLs with a revocation in between")
def crl(h, via):
    mock, state, certs, serials, states = world(h)
    cah, x = ca(h, state)
    h.patch(mock, "x509", FakeX509(h, mock.x509))

    class Ca:
        subject = "CN=ca"
        public_key = staticmethod(lambda: "pk")

    h.patch(mock, "convert_to_crypto_lib_cert", lambda c: Ca)
    h.patch(mock, "ensure_is_trad_sign_key", lambda k: k)
    h.patch(mock, "_sign_crl_builder", lambda crl_builder=None, **k: Out(sns=crl_builder.sns, number=crl_builder.number))
    get = x.get_current_crl if via == "http" else (lambda: x.rev_handler.get_current_crl(x.ca_key, x.ca_cert))

    def verify(o, states):
        for sn, s in zip(serials, states):
            listed = h.either(*[h.eq(a, sn) for a in o.sns])
            h.check(h.iff(listed, h.either(s == _E(REVOKED), s == _E(UPDATED), s == _E(PENDING))), "listed exactly if revoked or superseded")
        h.check(len(o.sns) <= len(serials), "nothing else is listed")

    a = get()
    verify(a, states)
    b = get()
    h.check(b.number > a.number, "CRL numbers increase")
    ok = h.attempt(x.rev_handler.mark_as_revoked, certs[0], "keyCompromise")
    states = [_S(h, x) for x in state.certificate_db._certs]
    c = get()
    verify(c, states)
    h.check(c.number > b.number, "CRL numbers increase")
    if ok.ok:
        h.check(h.either(*[h.eq(n, serials[0]) for n in c.sns]), "a revoked certificate is on the next CRL")
        e = state.certificate_db._certs[0].revoked_entry
        h.check(e is not None and e.reason == "keyCompromise", "the reason is recorded")


def _S(h, entry):
    s = entry.cert_state
    return s if isinstance(s, SymEnum) else SymEnum(h, s.value)


@harness("C10", MODS, bound="list of 3 entries with symbolic hashes (stored or computed), any query; one removal")
def revocation_list(h):
    from pyasn1_alt_modules import rfc9480

    mock = h.module("mock_ca.mock_fun")
    tags = Tags(h)
    h.patch(mock, "compute_hash", lambda alg, data: data)
    h.patch(mock, "encoder", tags.encoder(mock.encoder))
    hs = [h.bytes(f"h{i}", 2) for i in range(3)]
    certs, entries = [], []
    for i in range(3):
        c = tags.put(rfc9480.CMPCertificate(), hs[i])
        c["tbsCertificate"]["serialNumber"] = h.int(f"sn{i}", 0, 1000)
        certs.append(c)
        entries.append(mock.RevokedEntry(reason="unspecified", cert=c, hashed_cert=hs[i] if h.choice(f"stored{i}", (True, False)) else None))
    lst = mock.RevokedEntryList(entries=entries)
    q = h.bytes("q", 2)
    hits = [h.eq(q, x) for x in hs]
    h.check(h.iff(lst.contains_hash(q), h.either(*hits)), "contains")
    g = lst.get_by_hash(q)
    h.check(h.iff(g is not None, h.either(*hits)), "found exactly if present")
    for i in range(3):
        h.check(h.implies(g is certs[i], hits[i]), "finds the entry asked for")
    sn = h.int("sn", 0, 1000)
    got = lst.get_cert_by_serial_number(sn)
    h.check(h.iff(got is None, h.no(h.either(*[h.eq(c["tbsCertificate"]["serialNumber"].__int__(), sn) for c in certs]))), "serial lookup")
    lst.remove_by_hash(q)
    left = [e.cert for e in lst.entries]
    h.check(len(left) == 3 - (1 if g is not None else 0), "removes at most one entry")
    if g is not None:
        h.check(not any(c is g for c in left), "removes the entry asked for")
    for i in range(3):
        h.check(h.either(hits[i], any(c is certs[i] for c in left)), "other entries stay")


@harness("C10", MODS, bound="list of 2 revoked certificates; third certificate equal to any of them or none; reason removeFromCRL or another")
def add_entry(h):
    mock = h.module("mock_ca.mock_fun")
    ids = [h.int(f"id{i}", 0, 3) for i in range(3)]
    h.assume(h.no(h.eq(ids[0], ids[1])))
    h.patch(mock, "compare_pyasn1_objects", lambda a, b: h.eq(a.i, b.i))
    C = [Out(i=i) for i in ids]
    lst = mock.RevokedEntryList(entries=[mock.RevokedEntry("unspecified", c, bytes([j])) for j, c in enumerate(C[:2])])
    reason = h.choice("reason", ("removeFromCRL", "keyCompromise", "unspecified"))
    lst.add_entry(mock.RevokedEntry(reason, C[2], b"\x02"))
    have = [e.cert for e in lst.entries]
    if reason == "removeFromCRL":
        for i in range(2):
            h.check(h.iff(any(c is C[i] for c in have), h.no(h.eq(ids[i], ids[2]))), "removeFromCRL removes exactly that certificate")
        h.check(not any(c is C[2] for c in have), "removeFromCRL adds nothing")
    else:
        h.check(len(have) == 3 and have[2] is C[2] and have[0] is C[0] and have[1] is C[1], "appended")
    h.check(h.iff(lst.is_revoked(C[2]), h.either(reason != "removeFromCRL")), "revoked afterwards unless removed")
