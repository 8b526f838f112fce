"""C09 the mock CA's certificate database: state machine, views and key-update time windows."""

from harnesses.cmp import SymEnum, Tags, value_of
from symex.harness import harness

ASSUMPTIONS = [
    "certificates are opaque objects with arbitrary distinct encodings, the certificate digest is an injective function (algorithm name and encoding)",
    "the clock is a symbolic instant",
]
OUTSIDE = ["databases with more entries than stated"]
MODS = ("mock_ca.mock_fun", "mock_ca.rev_handler")
NOT_CONFIRMED, CONFIRMED, REVOKED, UPDATED, PENDING, REVIVED, UNKNOWN = range(7)
# state -> states change_cert_state may move it to
LEGAL = {
    NOT_CONFIRMED: (CONFIRMED,),
    CONFIRMED: (REVOKED, UPDATED, PENDING),
    REVIVED: (REVOKED, UPDATED, PENDING),
    REVOKED: (REVIVED,),
    PENDING: (UPDATED, PENDING),
    UPDATED: (),
}


def world(h, n=3):
    from pyasn1_alt_modules import rfc9480

    mock = h.module("mock_ca.mock_fun")
    tags = Tags(h)
    h.patch(mock, "compute_hash", lambda alg, data: alg.encode() + data)
    h.patch(mock, "encoder", tags.encoder(mock.encoder))
    h.patch(mock, "copy_asn1_certificate", lambda c, *a: c)
    certs = [rfc9480.CMPCertificate() for _ in range(n + 1)]
    ders = [h.bytes(f"der{i}", 1) for i in range(n + 1)]
    for c, d in zip(certs, ders):
        tags.put(c, d)
        c["tbsCertificate"]["serialNumber"] = 7
    for i in range(n):
        for j in range(i):
            h.assume(h.no(h.eq(ders[i], ders[j])))
    db = mock.CertificateDB()
    states = []
    for i in range(n):
        db.add_cert(certs[i], mock.CertStateEnum.CONFIRMED)
        s = SymEnum(h, h.int(f"state{i}", 0, 5))
        db._certs[i].cert_state = s
        states.append(s)
    return mock, db, certs, ders, states


@harness("C09", MODS, bound="3 entries in arbitrary states, arbitrary requested state, target any entry or an unknown certificate, with or without revocation details and new certificate")
def transition(h):
    mock, db, certs, ders, states = world(h)
    n = 3
    target, td = certs[n], ders[n]
    new = SymEnum(h, h.int("new", 0, 6))
    upd = certs[0] if h.choice("with_new_cert", (True, False)) else None
    rev = mock.RevokedEntry(reason="keyCompromise", cert=certs[0]) if h.choice("with_details", (True, False)) else None
    had = [h.choice(f"had{i}", (True, False)) if i == 0 else False for i in range(n)]
    for i in range(n):
        if had[i]:
            db._certs[i].update_cert_digest = b"old"
    before = [(e.cert, e.cert_state, e.cert_digest, e.update_cert_digest, e.updated_date, e.revoked_entry) for e in db._certs]
    r = h.attempt(db.change_cert_state, target, new, revoke_entry=rev, updated_cert=upd, allowed=(ValueError, TypeError))
    h.check(len(db._certs) == n, "no entry added or removed")
    hits = []
    for i in range(n):
        e, b = db._certs[i], before[i]
        mine = h.eq(td, ders[i])
        h.check(e.cert is b[0] and e.cert_digest is b[2], "certificate and digest never change")
        same_state = e.cert_state is b[1]
        rest_same = e.update_cert_digest is b[3] and e.updated_date is b[4] and e.revoked_entry is b[5]
        h.check(h.either(mine, same_state and rest_same), "entries of other certificates are untouched")
        if not r.ok:
            h.check(same_state and rest_same, "a refused transition changes nothing")
        legal = h.either(*[h.both(states[i] == _E(s), h.either(*[new == _E(t) for t in to])) for s, to in LEGAL.items() if to])
        needs = h.implies(h.either(new == _E(PENDING), h.both(new == _E(UPDATED), h.either(h.no(states[i] == _E(PENDING)), not had[i]))), upd is not None)
        hits.append(mine)
        if r.ok:
            h.check(h.implies(mine, legal), "only legal transitions")
            h.check(h.implies(mine, h.eq(value_of(e.cert_state), new.v)), "the entry has the requested state")
            h.check(h.implies(h.both(mine, h.either(new == _E(UPDATED), new == _E(PENDING))), e.update_cert_digest is not None), "an updated certificate refers to its successor")
            h.check(h.implies(h.both(mine, new == _E(REVOKED)), e.revoked_entry is not None and (rev is None or e.revoked_entry is rev)), "a revoked certificate has a revocation entry")
            h.check(h.implies(h.both(mine, new == _E(REVIVED)), e.revoked_entry is None), "a revived certificate has no revocation entry")
        else:
            h.check(h.no(h.both(mine, legal, needs)), "a legal transition is performed")
    if r.ok:
        h.check(h.either(*hits), "an unknown certificate is refused")


class _E:
    def __init__(self, v):
        self.value = v


@harness("C09", MODS, bound="2 entries in arbitrary states")
def views(h):
    mock, db, certs, ders, states = world(h, 2)
    E = mock.CertStateEnum
    issued, revoked, pending = db.issued_certs, db.revoked_certs, db.not_confirmed_certs
    updated = db.updated_certs
    has = lambda l, c: any(x is c for x in l)
    for what, l, f in (
        ("issued certificates", issued, lambda s: h.no(h.either(s == E.NOT_CONFIRMED, s == E.UPDATED_BUT_NOT_CONFIRMED))),
        ("revoked certificates", revoked, lambda s: s == E.REVOKED),
        ("certificates waiting for confirmation", pending, lambda s: s == E.NOT_CONFIRMED),
        ("updated certificates", updated, lambda s: h.either(s == E.UPDATED, s == E.UPDATED_BUT_NOT_CONFIRMED)),
    ):
        h.check(h.both(*[h.iff(has(l, c), f(s)) for c, s in zip(certs, states)]), what)
        h.check(len(l) == sum(has(l, c) for c in certs[:2]), "no duplicates")


@harness("C09", MODS, bound="3 entries in arbitrary states, any certificate")
def lookup(h):
    mock, db, certs, ders, states = world(h)
    x = db.get_cert_state(certs[3])
    for i in range(3):
        h.check(h.implies(h.eq(ders[3], ders[i]), x is states[i]), "state of a stored certificate")
    h.check(h.implies(h.no(h.either(*[h.eq(ders[3], d) for d in ders[:3]])), x is mock.CertStateEnum.UNKNOWN), "state of an unknown certificate")
    e = db.get_cert(certs[3])
    for i in range(3):
        h.check(h.iff(h.eq(ders[3], ders[i]), e is db._certs[i]), "entry of a stored certificate")


@harness("C09", MODS, bound="database of 2 entries, any initial state, save-date flag either way")
def add(h):
    mock, db, certs, ders, states = world(h, 2)
    new = SymEnum(h, h.int("new", 0, 6))
    r = h.attempt(db.add_cert, certs[2], new)
    ok = h.either(new == _E(NOT_CONFIRMED), new == _E(CONFIRMED))
    h.check(h.iff(r.ok, ok), "certificates enter as confirmed or waiting for confirmation only")
    h.check(len(db._certs) == (3 if r.ok else 2), "stored exactly if accepted")
    for i in range(2):
        h.check(db._certs[i].cert_state is states[i], "other entries untouched")
    if r.ok:
        h.check(h.eq(value_of(db._certs[2].cert_state), new.v), "stored with its state")


class Instant:
    """Stand-in for datetime: whole seconds."""

    def __init__(self, t):
        self.t = t

    def replace(self, **k):
        return self

    def __sub__(self, o):
        return Diff(self.t - o.t)


class Diff:
    def __init__(self, t):
        self.t = t

    def total_seconds(self):
        return self.t


BODIES = ("ir", "cr", "p10cr", "kur", "rr", "certConf", "genm", "ccr", "popdecr", "nested")


@harness("C09", MODS, {b: {"body": b} for b in BODIES}, bound="one entry in any state, any update instant and current time (whole seconds), any timeout, known or unknown certificate, both modes")
def update_window(h, body):
    mock, db, certs, ders, states = world(h, 1)
    now, upd, timeout = h.int("now", 0, 10**10), h.int("updated", 0, 10**10), h.int("timeout", 0, 10**6)

    class Clock:
        @staticmethod
        def now(tz=None):
            return Instant(now)

    h.patch(mock, "datetime", Clock)
    db.updated_cert_timeout = timeout
    db._certs[0].updated_date = Instant(upd)
    allow = h.choice("allow_timeout", (True, False))
    r = h.attempt(db.update_state.validate_is_updated, body, certs[1], allow_timeout=allow, allowed=(mock.CertRevoked, mock.BadRequest, mock.CertConfirmed))
    known = h.eq(ders[0], ders[1])
    E = mock.CertStateEnum
    upd_, pend = states[0] == E.UPDATED, states[0] == E.UPDATED_BUT_NOT_CONFIRMED
    d = now - upd
    if body == "certConf":
        bad = d > timeout
    elif body == "kur":
        bad = d < timeout
    elif body == "rr":
        bad = h.no(d < timeout) if allow else True
    elif body in ("ir", "cr", "p10cr"):
        bad = True
    else:
        bad = True if allow else h.no(d > timeout)
    refuse = h.both(known, h.either(upd_, h.both(pend, bad)))
    h.check(h.iff(r.ok, h.no(refuse)), "an updated certificate is refused, a pending update only inside (or outside) its time window")
    if not r.ok:
        h.check(h.implies(upd_, isinstance(r.exc, mock.CertRevoked)), "an updated certificate counts as revoked")
