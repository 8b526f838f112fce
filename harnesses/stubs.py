"""Environment stubs shared by the harnesses (hash functions as uninterpreted functions, clock, randomness)."""

STREAM = 4096


def hash_model(h, injective=False, stream=STREAM, prefix=None):
    """Replace cryptography's Hash by uninterpreted functions, one per algorithm.

    `prefix(name, data, n)` may return the output for a call (list of byte values), else None."""
    import cryptography.hazmat.primitives.hashes as hashes

    ufs = {}

    class Hash:
        def __init__(self, algorithm, backend=None):
            self.algorithm = algorithm
            self.data = b""
            self.done = False

        def update(self, d):
            if self.done:
                raise ValueError("Context was already finalized.")
            self.data = self.data + bytes_of(d)

        def copy(self):
            r = Hash(self.algorithm)
            r.data = self.data
            return r

        def finalize(self):
            self.done = True
            n = self.algorithm.digest_size
            name = self.algorithm.name
            if n > 100000:
                n = stream
            if prefix is not None:
                r = prefix(name, self.data, n)
                if r is not None:
                    return r
            if name not in ufs:
                ufs[name] = h.xof("H_" + name.replace("-", "_"), injective=injective)
            return ufs[name](self.data, n=n)

    h.patch(hashes, "Hash", Hash)
    return Hash


def bytes_of(d):
    if type(d).__name__ == "SymBytes":
        return type(d)(d.b)
    return bytes(d)


def hashlib_model(h, injective=False, names=None):
    """hashlib constructors (and hashlib.new) as uninterpreted functions."""
    import hashlib

    ufs = {}
    sizes = {"sha1": 20, "sha224": 28, "sha256": 32, "sha384": 48, "sha512": 64, "sha3_224": 28, "sha3_256": 32, "sha3_384": 48, "sha3_512": 64, "shake_128": None, "shake_256": None}

    class Obj:
        def __init__(self, name, data=b""):
            self.name = name
            self.data = bytes_of(data)
            self.digest_size = sizes[name] or 0

        def update(self, d):
            self.data = self.data + bytes_of(d)

        def copy(self):
            return Obj(self.name, self.data)

        def digest(self, n=None):
            if self.name not in ufs:
                ufs[self.name] = h.xof("H_" + self.name, injective=injective)
            return ufs[self.name](self.data, n=sizes[self.name] if n is None else n)

        def hexdigest(self, n=None):
            return self.digest(n).hex()

    for n in sizes:
        h.patch(hashlib, n, (lambda nm: lambda data=b"", **k: Obj(nm, data))(n))
    h.patch(hashlib, "new", lambda nm, data=b"", **k: Obj(nm.lower().replace("-", "_"), data))
    return Obj


def catbytes(h, x):
    """bytes value of bytes/bytearray/symbolic."""
    return bytes_of(x)
