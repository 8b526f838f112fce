"""Helpers for the CMP and mock-CA harnesses: real pyasn1 objects holding symbolic values, stub certificates."""

PY = ("pyasn1.type.*", "pyasn1.codec.ber.encoder", "pyasn1.codec.der.encoder", "pyasn1.codec.cer.encoder", "pyasn1.compat.*")
CMP = PY + ("resources.asn1_structures", "resources.cmputils", "resources.checkutils", "resources.ca_ra_utils", "resources.suiteenums", "resources.exceptions", "mock_ca.mock_fun", "mock_ca.cert_conf_handler")


class SymEnum:
    """A symbolic member of an Enum with integer values (comparisons fork on the value)."""

    def __init__(self, h, v):
        self.h = h
        self.v = v

    def __eq__(self, o):
        if isinstance(o, SymEnum):
            return self.h.eq(self.v, o.v)
        if hasattr(o, "value"):
            return self.h.eq(self.v, o.value)
        return False

    def __ne__(self, o):
        return self.h.no(self == o)

    __hash__ = None

    def __str__(self):
        return "state"

    __repr__ = __str__


def value_of(x):
    return x.v if isinstance(x, SymEnum) else x.value


class Tags:
    """Stand-in for DER encoding and hashing of certificates: every certificate object carries its encoding."""

    def __init__(self, h):
        self.h = h
        self.known = []

    def put(self, cert, tag):
        self.known.append((cert, tag))
        return cert

    def of(self, cert):
        for c, t in self.known:
            if c is cert:
                return t
        raise KeyError("unknown certificate object")

    def encoder(self, real):
        tags = self

        class Encoder:
            @staticmethod
            def encode(x, *a, **k):
                for c, t in tags.known:
                    if c is x:
                        return t
                return real.encode(x, *a, **k)

        return Encoder


CERT = (
    "MIIBbzCCARWgAwIBAgIUUs1QqeJb9qLK+MYajjaG+YWOeqIwCgYIKoZIzj0EAwIwDDEKMAgGA1UEAwwBYTAgFw0yNjExMTkwOTI2"
    "NTVaGA8yMTI2MTAyNjA5MjY1NVowDDEKMAgGA1UEAwwBYTBZMBMGByqGSM49AgEGCCqGSM49AwEHA0IABNMvcjdRYA2/sGVuGgGY"
    "HqpLXMkomO63ltrb4U+7PJS+P2NERsmUJ7ssWPeB9sqsA+xOG5X10SGdZ7ZRGJoXjAOjUzBRMB0GA1UdDgQWBBR+btN+jc6EGmSD"
    "GgLgooPOlNQTwjAfBgNVHSMEGDAWgBR+btN+jc6EGmSDGgLgooPOlNQTwjAPBgNVHRMBAf8EBTADAQH/MAoGCCqGSM49BAMCA0gA"
    "MEUCIQDG7NxuD4uCTKFjU/967E4xg22rnXf4BRN7ES7AILeynQIgf92OzNxmbUHd8gEdMM6PoLqkeV8iFSaT+WnFi4vLJXQ="
)


def real_cert(serial=None):
    """A complete certificate object (self-signed EC certificate for CN=a)."""
    import base64

    from pyasn1.codec.der import decoder
    from pyasn1_alt_modules import rfc9480

    c, _ = decoder.decode(base64.b64decode(CERT), asn1Spec=rfc9480.CMPCertificate())
    if serial is not None:
        c["tbsCertificate"]["serialNumber"] = serial
    return c


def header(h, tx=None, sender_nonce=None, recip_nonce=None, kid=b"kid", time=None, prot=None, sender="CN=a"):
    """A PKIMessage with exactly the given header fields (None: absent); prot: protection algorithm OID."""
    from pyasn1_alt_modules import rfc9480

    cmputils = h.module("resources.cmputils")
    names = {"transactionID": tx, "senderNonce": sender_nonce, "recipNonce": recip_nonce, "senderKID": kid, "messageTime": time}
    out = ",".join(k for k, v in names.items() if v is None)
    m = cmputils.prepare_pki_message(sender=sender, recipient="CN=b", exclude_fields=out or None, transaction_id=b"\x00" * 16, sender_nonce=b"\x01" * 16, recip_nonce=b"\x02" * 16, sender_kid=b"k", message_time=time)
    if "=" in sender:
        m = cmputils.patch_sender(m, sender_name=sender)
    for k, v in names.items():
        if v is not None and k != "messageTime":
            m["header"][k] = v
    if prot is not None:
        m["header"]["protectionAlg"]["algorithm"] = type(m["header"]["protectionAlg"]["algorithm"])(prot)
    return m


class Message:
    """A message with a body of the given name and content; everything else comes from the real message."""

    def __init__(self, m, name, value=None):
        self.m = m
        self.name = name
        self.value = value

    def __getitem__(self, k):
        return Body(self.name, self.value) if k == "body" else self.m[k]


class Body:
    isValue = True

    def __init__(self, name, value):
        self.name = name
        self.value = value

    def getName(self):
        return self.name

    def __len__(self):
        return 1

    def __getitem__(self, k):
        assert k == self.name, k
        return self.value


class Time:
    """A point in time in (symbolic) seconds."""

    def __init__(self, t):
        self.t = t

    def __sub__(self, o):
        return Span(self.t - o.t) if isinstance(o, Time) else Time(self.t - _secs(o))

    def __add__(self, o):
        return Time(self.t + _secs(o))

    def __lt__(self, o):
        return self.t < o.t

    def __le__(self, o):
        return self.t <= o.t

    def __gt__(self, o):
        return self.t > o.t

    def __ge__(self, o):
        return self.t >= o.t

    def __str__(self):
        return "time"

    __repr__ = __str__


def _secs(d):
    return d.s if isinstance(d, Span) else int(d.total_seconds())


class Span:
    def __init__(self, s):
        self.s = s

    def total_seconds(self):
        return self.s

    def __neg__(self):
        return Span(-self.s)

    def __abs__(self):
        return Span(abs(self.s))

    def __lt__(self, o):
        return self.s < _secs(o)

    def __le__(self, o):
        return self.s <= _secs(o)

    def __gt__(self, o):
        return self.s > _secs(o)

    def __ge__(self, o):
        return self.s >= _secs(o)


def clock(h, now):
    """A datetime module whose clock shows `now` (a Time)."""
    import datetime as real

    class datetime:
        @staticmethod
        def now(tz=None):
            return now

        @staticmethod
        def utcnow():
            return now

    class mod:
        timezone = real.timezone
        timedelta = real.timedelta

    mod.datetime = datetime
    return mod


def when(h, times):
    """GeneralizedTime texts stand for the given Times."""
    from pyasn1.type import useful

    h.patch(useful.TimeMixIn, "asDateTime", property(lambda self: times[str(self).replace(".0Z", "Z")]))
