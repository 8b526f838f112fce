"""C07 SLH-DSA (FIPS 205)."""

from harnesses.c06 import OIDS, hash_fn
from harnesses.stubs import bytes_of, hash_model
from symex.harness import harness

ASSUMPTIONS = [
    "SHAKE/SHA outputs are uninterpreted functions of their input",
    "WOTS+ level: the hash chain is the ideal chain (position counter plus chain identity), justified by chain/* for the real chain",
    "hypertree level at full size: one XMSS tree is an arbitrary signature scheme with the root of its tree, justified by xmss/*",
]
OUTSIDE = ["FORS at the full k and a (checked for reduced k, a)", "the real hash functions (delegated to OpenSSL)"]
FIPS = ("pq_logic.fips.fips205", "pq_logic.fips._fips_utils")
TAB = {
    # name: n h d hp a k m
    "128s": (16, 63, 7, 9, 12, 14, 30),
    "128f": (16, 66, 22, 3, 6, 33, 34),
    "192s": (24, 63, 7, 9, 14, 17, 39),
    "192f": (24, 66, 22, 3, 8, 33, 42),
    "256s": (32, 64, 8, 8, 14, 22, 47),
    "256f": (32, 68, 17, 4, 9, 35, 49),
}
SETS = {f"{f}-{s}": {"f": f, "s": s} for f in ("sha2", "shake") for s in TAB}


def real(h, f, s):
    return h.module("pq_logic.fips.fips205").SLH_DSA_PARAMS[f"slh-dsa-{f}-{s}"]


def small(hh, f="SHAKE", n=16, **k):
    m = hh.module("pq_logic.fips.fips205")
    p = dict(h=4, d=2, hp=2, a=2, k=2, lg_w=4, m=20)
    p.update(k)
    return m.SLH_DSA(hashname=f, n=n, **p)


# ------------------------------------------------------------------------------- reference (FIPS 205)
class Adr:
    def __init__(self, layer=0, tree=0, typ=0, w1=0, w2=0, w3=0):
        self.v = [layer, tree, typ, w1, w2, w3]

    def but(self, **k):
        names = ["layer", "tree", "typ", "w1", "w2", "w3"]
        return Adr(**{**dict(zip(names, self.v)), **k})

    def bytes(self):
        r = b""
        for v, n in zip(self.v, (4, 12, 4, 4, 4, 4)):
            r += v.to_bytes(n, "big")
        return r

    def short(self):
        b = self.bytes()
        return b[3:4] + b[8:16] + b[19:20] + b[20:32]


class Ref:
    """FIPS 205 hash functions, section 11, over the modelled hashes."""

    def __init__(self, h, Hash, f, n, m):
        self.h, self.Hash, self.f, self.n, self.m = h, Hash, f, n, m

    def sha(self, bits, x, n=None):
        return hash_fn(self.h, self.Hash, f"SHA-{bits}", x)[: bits // 8 if n is None else n]

    def shake(self, x, n):
        return hash_fn(self.h, self.Hash, "SHAKE256", x, n)

    def mgf(self, bits, seed, n):
        out = b""
        for c in range(-(-n // (bits // 8))):
            out += self.sha(bits, seed + c.to_bytes(4, "big"))
        return out[:n]

    def hmac(self, bits, k, x):
        b = 64 if bits == 256 else 128
        k = list(k) + [0] * (b - len(k))
        mk = self.h.mkbytes
        return self.sha(bits, mk([c ^ 0x5C for c in k]) + self.sha(bits, mk([c ^ 0x36 for c in k]) + x))[: self.n]

    @property
    def big(self):
        return 256 if self.n == 16 else 512

    def PRF(self, seed, sk, a):
        if self.f == "shake":
            return self.shake(seed + a.bytes() + sk, self.n)
        return self.sha(256, seed + bytes(64 - self.n) + a.short() + sk, self.n)

    def F(self, seed, a, x):
        if self.f == "shake":
            return self.shake(seed + a.bytes() + x, self.n)
        return self.sha(256, seed + bytes(64 - self.n) + a.short() + x, self.n)

    def H(self, seed, a, x):
        if self.f == "shake" or self.n == 16:
            return self.F(seed, a, x)
        return self.sha(512, seed + bytes(128 - self.n) + a.short() + x, self.n)

    def PRFmsg(self, k, r, m):
        if self.f == "shake":
            return self.shake(k + r + m, self.n)
        return self.hmac(self.big, k, r + m)

    def Hmsg(self, r, seed, root, m):
        if self.f == "shake":
            return self.shake(r + seed + root + m, self.m)
        return self.mgf(self.big, r + seed + self.sha(self.big, r + seed + root + m), self.m)


def bits_of(bs):
    """Bits of a byte string, most significant first (as 0/1 integers)."""
    out = []
    for b in bs:
        for i in range(7, -1, -1):
            out.append((b >> i) & 1)
    return out


def num(bits):
    v = 0
    for b in bits:
        v = v * 2 + b
    return v


# ------------------------------------------------------------------------------------- conversions
BASES = {f"{b}x{n}": {"b": b, "n": n} for b, n in ((4, 32), (4, 48), (4, 64), (6, 33), (8, 33), (9, 35), (12, 14), (14, 17), (14, 22), (4, 3))}


@harness("C07", FIPS, BASES, bound="every byte symbolic; digit width and count of the parameter sets")
def base2b(h, b, n):
    s = small(h)
    x = h.bytes("x", (b * n + 7) // 8)
    got = s.base_2b(x, b, n)
    bits = bits_of(x)
    h.check(len(got) == n, "number of digits")
    h.check(h.both(*[h.eq(got[i], num(bits[i * b : (i + 1) * b])) for i in range(n)]), "digits are consecutive groups of bits")


@harness("C07", FIPS, {str(n): {"n": n} for n in (1, 2, 3, 4, 8)}, bound="every integer and byte string of the stated size")
def integers(h, n):
    s = small(h)
    x = h.bytes("x", n)
    v = s.to_int(x, n)
    h.check(h.eq(v, num(bits_of(x))), "toInt is big-endian")
    h.check(h.eq(bytes_of(s.to_byte(v, n)), x), "toByte inverts toInt")
    y = h.int("y", 0, 256**n - 1)
    h.check(h.eq(s.to_int(s.to_byte(y, n), n), y), "toInt inverts toByte")


@harness("C07", FIPS, {"": {}}, bound="every field value")
def address(h):
    A = h.module("pq_logic.fips.fips205").ADRS
    a = A()
    layer, tree, typ = h.int("layer", 0, 21), h.int("tree", 0, 2**64 - 1), h.int("typ", 0, 6)
    w1, w2, w3 = (h.int(f"w{i}", 0, 2**32 - 1) for i in (1, 2, 3))
    a.set_layer_address(layer)
    a.set_tree_address(tree)
    a.set_tree_height(h.int("j1", 0, 2**32 - 1))
    a.set_tree_index(h.int("j2", 0, 2**32 - 1))
    a.set_type_and_clear(typ)
    h.check(h.eq(bytes_of(a.adrs()), Adr(layer, tree, typ).bytes()), "setting the type clears the remaining words")
    a.set_key_pair_address(w1)
    a.set_tree_height(w2)
    a.set_tree_index(w3)
    want = Adr(layer, tree, typ, w1, w2, w3)
    h.check(h.eq(bytes_of(a.adrs()), want.bytes()), "fields are big-endian words at their offsets")
    h.check(h.eq(bytes_of(a.adrsc()), want.short()), "compressed address")
    h.check(h.both(h.eq(a.get_key_pair_address(), w1), h.eq(a.get_tree_index(), w3)), "getters")
    b = a.copy()
    b.set_chain_address(h.int("c", 0, 2**32 - 1))
    b.set_hash_address(h.int("d", 0, 2**32 - 1))
    h.check(h.eq(bytes_of(a.adrs()), want.bytes()), "a copy is independent")
    h.check(h.eq(bytes_of(b.adrs()), want.but(w2=h.int("c", 0, 2**32 - 1), w3=h.int("d", 0, 2**32 - 1)).bytes()), "chain and hash address share the height and index words")


@harness("C07", FIPS, SETS, bound="all bytes of seeds, address words, digests and a message of 0, 5 and 200 bytes symbolic")
def hashing(h, f, s):
    n, _, _, _, _, _, m = TAB[s]
    p = real(h, f, s)
    Hash = hash_model(h)
    ref = Ref(h, Hash, f, n, m)
    seed, sk, root = h.bytes("seed", n), h.bytes("sk", n), h.bytes("root", n)
    A = h.module("pq_logic.fips.fips205").ADRS
    vals = dict(layer=h.int("layer", 0, 21), tree=h.int("tree", 0, 2**64 - 1), typ=h.int("typ", 0, 6), w1=h.int("w1", 0, 511), w2=h.int("w2", 0, 100), w3=h.int("w3", 0, 2**20))
    a, ra = A(), Adr(**vals)
    a.set_layer_address(vals["layer"])
    a.set_tree_address(vals["tree"])
    a.set_type_and_clear(vals["typ"])
    a.set_key_pair_address(vals["w1"])
    a.set_tree_height(vals["w2"])
    a.set_tree_index(vals["w3"])
    h.check(h.eq(bytes_of(p.prf(seed, sk, a)), ref.PRF(seed, sk, ra)), "PRF")
    x, y, z = h.bytes("x", n), h.bytes("y", 2 * n), h.bytes("z", 5 * n)
    h.check(h.eq(bytes_of(p.h_f(seed, a, x)), ref.F(seed, ra, x)), "F")
    h.check(h.eq(bytes_of(p.h_h(seed, a, y)), ref.H(seed, ra, y)), "H")
    h.check(h.eq(bytes_of(p.h_t(seed, a, z)), ref.H(seed, ra, z)), "T_l")
    for ln in (0, 5, 200):
        msg = h.bytes(f"m{ln}", ln)
        h.check(h.eq(bytes_of(p.prf_msg(sk, x, msg)), ref.PRFmsg(sk, x, msg)), "PRF_msg")
        h.check(h.eq(bytes_of(p.h_msg(x, seed, root, msg)), ref.Hmsg(x, seed, root, msg)), "H_msg")


@harness("C07", FIPS, SETS, bound="the whole digest symbolic")
def digest(h, f, s):
    n, hh, d, hp, a, k, m = TAB[s]
    p = real(h, f, s)
    h.check((p.n, p.h, p.d, p.hp, p.a, p.k, p.lg_w, p.m) == (n, hh, d, hp, a, k, 4, m), "parameters of table 2")
    wl = 2 * n + 3
    h.check((p.len, p.pk_sz, p.sk_sz, p.sig_sz) == (wl, 2 * n, 4 * n, n * (1 + k * (1 + a) + hh + d * wl)), "derived sizes")
    x = h.bytes("x", m)
    md, tree, leaf = p.split_digest(x)
    k1 = (k * a + 7) // 8
    k2 = k1 + (hh - hp + 7) // 8
    k3 = k2 + (hp + 7) // 8
    h.check(k3 == m, "the digest is used up")
    h.check(h.eq(md, x[:k1]), "message digest part")
    h.check(h.eq(tree, num(bits_of(x[k1:k2])[-(hh - hp) :])), "tree index: low bits, big-endian")
    h.check(h.eq(leaf, num(bits_of(x[k2:k3])[-hp:])), "leaf index: low bits, big-endian")


# ------------------------------------------------------------------------------------- WOTS+
def kp_adrs(h, typ=0, hp=9):
    """An ADRS with symbolic layer, tree and key pair, of the given type."""
    A = h.module("pq_logic.fips.fips205").ADRS
    layer, tree, kp = h.int("layer", 0, 21), h.int("tree", 0, 2**64 - 1), h.int("kp", 0, 2**hp - 1)
    a = A()
    a.set_layer_address(layer)
    a.set_tree_address(tree)
    a.set_type_and_clear(typ)
    a.set_key_pair_address(kp)
    return a, Adr(layer, tree, typ, kp)


@harness("C07", FIPS, {"shake": {"f": "SHAKE", "n": 16}, "sha2": {"f": "SHA2", "n": 24}}, bound="every start value and split point of the chain")
def chain(h, f, n):
    s = small(h, f, n)
    Hash = hash_model(h)
    ref = Ref(h, Hash, f.lower(), n, 0)
    x, seed = h.bytes("x", n), h.bytes("seed", n)
    at = h.int("at", 0, 15)
    to = h.int("to", 0, 15)
    h.assume(at <= to)
    a, ra = kp_adrs(h)
    c = h.int("c", 0, 66)
    a.set_chain_address(c)
    got = s.chain(x, at, to - at, seed, a)
    t = x
    for j in range(16):
        if at <= j and j < to:
            t = ref.F(seed, ra.but(w2=c, w3=j), t)
    h.check(h.eq(got, t), "chain(x, i, s) applies F at hash addresses i .. i+s-1")
    h.check(s.chain(x, at, 16 - at, seed, a) is None, "a chain does not run past its end")


def ideal_chain(h, s, log):
    """Chain values are (position, identity); applying it at another position than the value's gives garbage."""
    w = s.w

    def chain(x, i, st, pk_seed, adrs):
        log.append((x, i, st, pk_seed, bytes_of(adrs.adrs())))
        fresh = type(i) is int and i == 0
        pos = 0 if fresh else x[0]
        ok = h.both(h.eq(pos, i), i + st < w, st >= 0)
        body = x[1:]
        if ok is True:
            return h.mkbytes([i + st] + list(body))
        return h.mkbytes([h.ite(ok, i + st, 255)] + [h.ite(ok, b, 255) for b in body])

    h.patch(s, "chain", chain)


def digits(m, n):
    """(digits of the message, checksum digits) for lg_w = 4."""
    msg = []
    for b in m:
        msg += [b >> 4, b & 15]
    cs = sum(15 - d for d in msg)
    return msg, [cs >> 8, (cs >> 4) & 15, cs & 15]


WOTS = {"shake-16": {"f": "SHAKE", "n": 16}, "shake-24": {"f": "SHAKE", "n": 24}, "sha2-24": {"f": "SHA2", "n": 24}, "sha2-32": {"f": "SHA2", "n": 32, "_tiers": ("thorough",)}}


@harness("C07", FIPS, WOTS, bound="every message of n bytes, every key, seed and address; lg_w = 4")
def wots(h, f, n):
    s = small(h, f, n)
    Hash = hash_model(h)
    ref = Ref(h, Hash, f.lower(), n, 0)
    log = []
    ideal_chain(h, s, log)
    m, sk, seed = h.bytes("m", n), h.bytes("sk", n), h.bytes("seed", n)
    a, ra = kp_adrs(h)
    md, cd = digits(m, n)
    want = md + cd
    ln = 2 * n + 3
    pk = s.wots_pkgen(sk, seed, a.copy())
    h.check(len(log) == ln, "len chains")
    ends = b""
    for i, (x, st, cnt, sd, ad) in enumerate(log):
        h.check(h.both(h.eq(x, ref.PRF(seed, sk, ra.but(typ=5, w2=i))), h.eq(st, 0), h.eq(cnt, 15), h.eq(sd, seed), h.eq(ad[:28], ra.but(w2=i).bytes()[:28])), "public key: full chain from PRF, chain address i")
        ends += h.mkbytes([15] + list(x[1:]))
    h.check(h.eq(pk, ref.H(seed, ra.but(typ=1), ends)), "public key is T_len of the chain ends")
    log.clear()
    sig = s.wots_sign(m, sk, seed, a.copy())
    h.check(len(sig) == ln * n, "signature length")
    for i, (x, st, cnt, sd, ad) in enumerate(log):
        h.check(h.both(h.eq(st, 0), h.eq(cnt, want[i]), h.eq(x, ref.PRF(seed, sk, ra.but(typ=5, w2=i))), h.eq(ad[:28], ra.but(w2=i).bytes()[:28])), "signature: message and checksum digits as chain lengths")
    log.clear()
    pk2 = s.wots_pk_from_sig(sig, m, seed, a.copy())
    h.check(h.eq(pk, pk2), "public key from a signature is the public key")
    for i, (x, st, cnt, sd, ad) in enumerate(log):
        h.check(h.both(h.eq(st, want[i]), h.eq(cnt, 15 - want[i]), h.eq(x, sig[i * n : (i + 1) * n])), "verification completes each chain")


# ------------------------------------------------------------------------------------- XMSS, hypertree
def ideal_wots(h, s, log=None):
    n = s.n
    pkf, sgf, bad = h.xof("wots_pk"), h.xof("wots_sig"), h.xof("wots_bad")

    def head(adrs):
        return bytes_of(adrs.adrs())[:24]

    def pkgen(sk, seed, adrs):
        r = pkf(sk, seed, head(adrs), n=n)
        adrs.set_chain_address(s.len - 1)
        adrs.set_hash_address(s.w - 2)
        return r

    def sign(m, sk, seed, adrs):
        return sgf(m, sk, seed, head(adrs), n=n) + bytes((s.len - 1) * n)

    def recover(sig, m, seed, adrs):
        # the secret seed is a ghost: the one key of this run
        good = h.eq(sig, sgf(m, s.ghost_sk, seed, head(adrs), n=n) + bytes((s.len - 1) * n))
        p, b = pkf(s.ghost_sk, seed, head(adrs), n=n), bad(sig, m, seed, head(adrs), n=n)
        if good is True:
            return p
        return h.mkbytes([h.ite(good, x, y) for x, y in zip(p, b)])

    h.patch(s, "wots_pkgen", pkgen)
    h.patch(s, "wots_sign", sign)
    h.patch(s, "wots_pk_from_sig", recover)
    return pkf


def ref_xmss(s, ref, pkf, sk, seed, layer, tree, hp):
    nodes = [pkf(sk, seed, Adr(layer, tree, 0, i).bytes()[:24], n=s.n) for i in range(2**hp)]
    levels = [nodes]
    z = 1
    while len(nodes) > 1:
        nodes = [ref.H(seed, Adr(layer, tree, 2, 0, z, i), nodes[2 * i] + nodes[2 * i + 1]) for i in range(len(nodes) // 2)]
        levels.append(nodes)
        z += 1
    return levels


XM = {
    "shake-h2": {"f": "SHAKE", "n": 16, "hp": 2},
    "sha2-h3": {"f": "SHA2", "n": 16, "hp": 3},
    "shake-h4": {"f": "SHAKE", "n": 32, "hp": 4, "_tiers": ("thorough",)},
    "shake-h6": {"f": "SHAKE", "n": 16, "hp": 6, "_tiers": ("thorough",)},
}


@harness("C07", FIPS, XM, bound="every leaf index of a tree of the stated height, every message, key and address")
def xmss(h, f, n, hp):
    s = small(h, f, n, hp=hp, h=2 * hp)
    Hash = hash_model(h)
    ref = Ref(h, Hash, f.lower(), n, 0)
    pkf = ideal_wots(h, s)
    A = h.module("pq_logic.fips.fips205").ADRS
    m, sk, seed = h.bytes("m", n), h.bytes("sk", n), h.bytes("seed", n)
    s.ghost_sk = sk
    layer, tree = h.int("layer", 0, 21), h.int("tree", 0, 2**64 - 1)
    idx = h.int("idx", 0, 2**hp - 1)

    def adr():
        a = A()
        a.set_layer_address(layer)
        a.set_tree_address(tree)
        return a

    levels = ref_xmss(s, ref, pkf, sk, seed, layer, tree, hp)
    h.check(h.eq(s.xmss_node(sk, 0, hp, seed, adr()), levels[hp][0]), "the root is the Merkle tree of the WOTS+ public keys")
    a = adr()
    sig = s.xmss_sign(m, sk, idx, seed, a)
    h.check(len(sig) == (s.len + hp) * n, "signature length")
    got = s.xmss_pk_from_sig(idx, sig, m, seed, a)
    h.check(h.eq(got, levels[hp][0]), "the signature leads to the root")
    for j in range(hp):
        auth = sig[(s.len + j) * n : (s.len + j + 1) * n]
        for i, nd in enumerate(levels[j]):
            h.check(h.implies(h.eq((idx >> j) ^ 1, i), h.eq(auth, nd)), "authentication path")
    # an arbitrary signature: the root is recomputed from every part of it
    other = h.bytes("other", (s.len + hp) * n)
    r = s.xmss_pk_from_sig(idx, other, m, seed, adr())
    node = s.wots_pk_from_sig(other[: s.len * n], m, seed, kp_only(A, layer, tree, idx))
    for j in range(hp):
        au = other[(s.len + j) * n : (s.len + j + 1) * n]
        ad = Adr(layer, tree, 2, 0, j + 1, idx >> (j + 1))
        if (idx >> j) & 1 == 0:
            node = ref.H(seed, ad, node + au)
        else:
            node = ref.H(seed, ad, au + node)
    h.check(h.eq(r, node), "root recomputed from an arbitrary signature")


def kp_only(A, layer, tree, idx):
    a = A()
    a.set_layer_address(layer)
    a.set_tree_address(tree)
    a.set_key_pair_address(idx)
    return a


@harness("C07", FIPS, {s: {"s": s} for s in TAB}, bound="every tree and leaf index at the full height, every message and key; each XMSS tree ideal")
def hypertree(h, s):
    n, hh, d, hp, a, k, m = TAB[s]
    p = real(h, "shake", s)
    sgf, root, bad = h.xof("xmss_sig"), h.xof("xmss_root"), h.xof("xmss_bad")
    size = (p.len + hp) * n

    def head(adrs):
        return bytes_of(adrs.adrs())[:16]

    seen = []

    def sign(msg, sk, idx, seed, adrs):
        x = sgf(msg, sk, seed, head(adrs), idx.to_bytes(4, "big"), n=n)
        seen.append((head(adrs), idx, msg))
        adrs.set_type_and_clear(2)
        return x + bytes(size - n)

    def recover(idx, sig, msg, seed, adrs):
        good = h.eq(sig, sgf(msg, sk, seed, head(adrs), idx.to_bytes(4, "big"), n=n) + bytes(size - n))
        r, b = root(sk, seed, head(adrs), n=n), bad(sig, msg, seed, head(adrs), idx.to_bytes(4, "big"), n=n)
        adrs.set_type_and_clear(2)
        if good is True:
            return r
        return h.mkbytes([h.ite(good, x, y) for x, y in zip(r, b)])

    h.patch(p, "xmss_sign", sign)
    h.patch(p, "xmss_pk_from_sig", recover)
    sk, seed, msg = h.bytes("sk", n), h.bytes("seed", n), h.bytes("msg", n)
    tree, leaf = h.int("tree", 0, 2 ** (hh - hp) - 1), h.int("leaf", 0, 2**hp - 1)
    sig = p.ht_sign(msg, sk, seed, tree, leaf)
    h.check(len(sig) == d * size, "signature length")
    h.check(len(seen) == d, "one XMSS signature per layer")
    t, l = tree, leaf
    node = msg
    for j, (hd, idx, mm) in enumerate(seen):
        h.check(h.both(h.eq(hd, Adr(j, t).bytes()[:16]), h.eq(idx, l), h.eq(mm, node)), "layer j signs the root below with the next index bits")
        node = root(sk, seed, Adr(j, t).bytes()[:16], n=n)
        l, t = t & (2**hp - 1), t >> hp
    top = root(sk, seed, Adr(d - 1, 0).bytes()[:16], n=n)
    h.check(p.ht_verify(msg, sig, seed, tree, leaf, top), "a hypertree signature verifies under the top root")
    wrong = h.bytes("wrong", n)
    h.check(h.iff(p.ht_verify(msg, sig, seed, tree, leaf, wrong), h.eq(wrong, top)), "and under no other root")


# ------------------------------------------------------------------------------------- FORS
FO = {"k2a2": {"k": 2, "a": 2, "f": "SHAKE"}, "k1a4": {"k": 1, "a": 4, "f": "SHA2"}, "k3a1": {"k": 3, "a": 1, "f": "SHA2"}, "k2a3": {"k": 2, "a": 3, "f": "SHAKE", "_tiers": ("thorough",)}}


@harness("C07", FIPS, FO, bound="every digest, key and address for the stated k and a")
def fors(h, k, a, f):
    n = 16
    s = small(h, f, n, k=k, a=a)
    Hash = hash_model(h)
    ref = Ref(h, Hash, f.lower(), n, 0)
    sk, seed = h.bytes("sk", n), h.bytes("seed", n)
    sel = h.choice("sel", range(1 << (k * a)))
    md = h.mkbytes([(sel << (8 - k * a)) + h.int("rest", 0, (1 << (8 - k * a)) - 1)]) if k * a < 8 else bytes([sel])
    ad, ra = kp_adrs(h, 3)
    leaves = [ref.PRF(seed, sk, ra.but(typ=6, w3=i)) for i in range(k << a)]
    levels = [[ref.F(seed, ra.but(w3=i), x) for i, x in enumerate(leaves)]]
    for z in range(1, a + 1):
        p = levels[-1]
        levels.append([ref.H(seed, ra.but(w2=z, w3=i), p[2 * i] + p[2 * i + 1]) for i in range(len(p) // 2)])
    pk = ref.H(seed, ra.but(typ=4), b"".join(levels[a]) if not h.symbolic else _cat(levels[a]))
    sig = s.fors_sign(md, sk, seed, ad.copy())
    h.check(len(sig) == k * (a + 1) * n, "signature length")
    for i in range(k):
        ix = (sel >> (a * (k - 1 - i))) & ((1 << a) - 1)
        o = i * (a + 1) * n
        for v in range(1 << a):
            parts = [h.eq(sig[o : o + n], leaves[(i << a) + v])]
            for j in range(a):
                parts.append(h.eq(sig[o + (j + 1) * n : o + (j + 2) * n], levels[j][(i << (a - j)) + ((v >> j) ^ 1)]))
            h.check(h.implies(h.eq(ix, v), h.both(*parts)), "secret value and authentication path of the selected leaf")
    h.check(h.eq(s.fors_pk_from_sig(sig, md, seed, ad.copy()), pk), "the signature leads to the FORS public key")
    other = h.bytes("other", k * (a + 1) * n)
    got = s.fors_pk_from_sig(other, md, seed, ad.copy())
    roots = []
    for i in range(k):
        ix = (sel >> (a * (k - 1 - i))) & ((1 << a) - 1)
        o = i * (a + 1) * n
        node = ref.F(seed, ra.but(w3=(i << a) + ix), other[o : o + n])
        for j in range(a):
            au = other[o + (j + 1) * n : o + (j + 2) * n]
            t = ra.but(w2=j + 1, w3=((i << a) + ix) >> (j + 1))
            if (ix >> j) & 1 == 0:
                node = ref.H(seed, t, node + au)
            else:
                node = ref.H(seed, t, au + node)
        roots.append(node)
    h.check(h.eq(got, ref.H(seed, ra.but(typ=4), _cat(roots))), "public key recomputed from an arbitrary signature")


def _cat(xs):
    r = b""
    for x in xs:
        r += x
    return r


# ------------------------------------------------------------------------------------- whole scheme
SCHEME = {"shake": {"f": "SHAKE", "n": 16}, "sha2-16": {"f": "SHA2", "n": 16}, "sha2-24": {"f": "SHA2", "n": 24, "_budget": 90}}


@harness("C07", FIPS, SCHEME, bound="h=2 d=2 h'=1 a=1 k=1; every key, message (4 bytes), randomness and selected leaf; hash chain ideal; digest split into arbitrary indices")
def scheme(h, f, n):
    s = small(h, f, n, h=2, d=2, hp=1, a=1, k=1, m=3)
    Hash = hash_model(h)
    ref = Ref(h, Hash, f.lower(), n, 3)
    ideal_chain(h, s, [])
    sel = h.choice("sel", range(8))
    h.patch(s, "split_digest", lambda dg: (bytes([(sel & 1) << 7]), (sel >> 1) & 1, sel >> 2))
    sk_seed, sk_prf, seed = h.bytes("sk_seed", n), h.bytes("sk_prf", n), h.bytes("seed", n)
    pk, sk = s.slh_keygen_internal(sk_seed, sk_prf, seed)
    h.check(h.both(h.eq(sk[: 2 * n], sk_seed + sk_prf), h.eq(sk[2 * n :], pk), h.eq(pk[:n], seed)), "key layout")
    h.check(len(sk) == 4 * n, "key sizes")
    m, rnd = h.bytes("m", 4), h.bytes("rnd", n)
    sig = s.slh_sign_internal(m, sk, rnd)
    h.check(len(sig) == s.sig_sz, "signature size")
    h.check(h.eq(sig[:n], ref.PRFmsg(sk_prf, rnd, m)), "randomiser is PRF_msg of key, randomness and message")
    h.check(s.slh_verify_internal(m, sig, pk), "a signature verifies")


@harness("C07", FIPS, {"det": {}}, bound="every key and message (4 bytes); h=2 d=2 h'=1 a=1 k=1")
def deterministic(h):
    n = 16
    s = small(h, "SHAKE", n, h=2, d=2, hp=1, a=1, k=1, m=3)
    Hash = hash_model(h)
    ref = Ref(h, Hash, "shake", n, 3)
    h.patch(s, "fors_sign", lambda *a: b"F")
    h.patch(s, "fors_pk_from_sig", lambda *a: b"P")
    h.patch(s, "ht_sign", lambda *a: b"T")
    sk, m = h.bytes("sk", 4 * n), h.bytes("m", 4)
    sig = s.slh_sign_internal(m, sk)
    h.check(h.eq(sig, ref.PRFmsg(sk[n : 2 * n], sk[2 * n : 3 * n], m) + b"FT"), "without randomness the public seed is used")


@harness("C07", FIPS, SCHEME, bound="every key, message and signature; FORS and hypertree arbitrary functions")
def verify_parts(h, f, n):
    """What the verifier and signer hand to FORS and the hypertree."""
    s = small(h, f, n, h=12, d=3, hp=4, a=3, k=4, m=5)
    Hash = hash_model(h)
    ref = Ref(h, Hash, f.lower(), n, 5)
    seen = []
    verdict = h.bool("verdict")
    h.patch(s, "fors_pk_from_sig", lambda sf, md, seed, ad: seen.append(("pk", sf, md, seed, bytes_of(ad.adrs()))) or b"PKFORS")
    h.patch(s, "fors_sign", lambda md, sk, seed, ad: seen.append(("fs", md, sk, seed, bytes_of(ad.adrs()))) or b"SIGFORS")
    h.patch(s, "ht_sign", lambda m, sk, seed, t, l: seen.append(("hs", m, sk, seed, t, l)) or b"SIGHT")

    def htv(m, sg, seed, t, l, root):
        seen.append(("hv", m, sg, seed, t, l, root))
        return verdict

    h.patch(s, "ht_verify", htv)
    pk, sig, m = h.bytes("pk", 2 * n), h.bytes("sig", s.sig_sz), h.bytes("m", 7)
    fl = 4 * 4 * n
    r = s.slh_verify_internal(m, sig, pk)
    h.check(h.iff(r, verdict), "the hypertree decides")
    dg = ref.Hmsg(sig[:n], pk[:n], pk[n:], m)
    tree, leaf = num(bits_of(dg[2:3])), num(bits_of(dg[3:4])[-4:])
    want = Adr(0, tree, 3, leaf).bytes()
    g = seen[0]
    h.check(h.both(h.eq(g[1], sig[n : n + fl]), h.eq(g[2], dg[:2]), h.eq(g[3], pk[:n]), h.eq(g[4], want)), "FORS input: signature part, digest, seed, address")
    g = seen[1]
    h.check(h.both(h.eq(g[1], b"PKFORS"), h.eq(g[2], sig[n + fl :]), h.eq(g[3], pk[:n]), h.eq(g[4], tree), h.eq(g[5], leaf), h.eq(g[6], pk[n:])), "hypertree input: FORS key, rest of the signature, indices, root")
    seen.clear()
    sk, rnd = h.bytes("sk", 4 * n), h.bytes("rnd", n)
    out = s.slh_sign_internal(m, sk, rnd)
    r = ref.PRFmsg(sk[n : 2 * n], rnd, m)
    dg = ref.Hmsg(r, sk[2 * n : 3 * n], sk[3 * n :], m)
    tree, leaf = num(bits_of(dg[2:3])), num(bits_of(dg[3:4])[-4:])
    h.check(h.eq(out, r + b"SIGFORSSIGHT"), "signature layout")
    g = [x for x in seen if x[0] == "fs"][0]
    h.check(h.both(h.eq(g[1], dg[:2]), h.eq(g[2], sk[:n]), h.eq(g[3], sk[2 * n : 3 * n]), h.eq(g[4], Adr(0, tree, 3, leaf).bytes())), "FORS signs the digest at the selected leaf")
    g = [x for x in seen if x[0] == "hs"][0]
    h.check(h.both(h.eq(g[1], b"PKFORS"), h.eq(g[2], sk[:n]), h.eq(g[3], sk[2 * n : 3 * n]), h.eq(g[4], tree), h.eq(g[5], leaf)), "the hypertree signs the FORS public key")


@harness("C07", FIPS, {s: {"s": s} for s in TAB}, bound="signatures one byte and one node too short or long, keys one byte off; the last bytes symbolic")
def lengths(h, s):
    n = TAB[s][0]
    p = real(h, "shake", s)
    h.patch(p, "fors_pk_from_sig", lambda *a: bytes(n))
    h.patch(p, "ht_verify", lambda *a: True)
    h.patch(p, "h_msg", lambda *a: bytes_of(p.m))
    tail, m, pk = h.bytes("tail", n), h.bytes("m", 3), h.bytes("pk", 2 * n)
    sig = bytes_of(p.sig_sz - n) + tail
    h.check(p.slh_verify_internal(m, sig, pk) is True, "right lengths reach the hypertree")
    extra = h.bytes("extra", n)
    for bad in (sig[:-1], sig[:-n], sig + extra[:1], sig + extra, b""):
        h.check(not p.slh_verify_internal(m, bad, pk), "a signature of another length is rejected")
    for bad in (pk[:-1], pk + extra[:1], pk + extra, pk[:n]):
        h.check(not p.slh_verify_internal(m, sig, bad), "a public key of another length is rejected")


CTX = {f"{n}": {"n": n} for n in (0, 1, 32, 255)}


@harness("C07", FIPS, CTX, bound="message, context, randomness symbolic; context length as stated, message lengths 0, 1, 5")
def framing(h, n):
    s = small(h)
    Hash = hash_model(h)
    seen = []
    h.patch(s, "slh_sign_internal", lambda m, sk, addrnd=None: seen.append((m, sk, addrnd)) or b"sig")
    h.patch(s, "slh_verify_internal", lambda m, sig, pk: seen.append((m, sig, pk)) or True)
    ctx, rnd = h.bytes("ctx", n), h.bytes("rnd", 16)
    for ln in (0, 1, 5):
        m = h.bytes(f"m{ln}", ln)
        want = b"\x00" + bytes([n]) + ctx + m
        h.check(h.eq(s.slh_sign(m, ctx, b"K", rnd), b"sig"), "a signature is returned")
        h.check(h.both(h.eq(bytes_of(seen[-1][0]), want), h.eq(seen[-1][1], b"K"), h.eq(seen[-1][2], rnd)), "signed message is 0, |ctx|, ctx, M")
        h.check(s.slh_verify(m, b"S", ctx, b"P") is True, "verification result is passed on")
        h.check(h.both(h.eq(bytes_of(seen[-1][0]), want), h.eq(seen[-1][1], b"S"), h.eq(seen[-1][2], b"P")), "verified message is 0, |ctx|, ctx, M")
        for ph, oid in list(OIDS.items()) + [("SHAKE256", bytes.fromhex("060960864801650304020c"))]:
            size = {"SHAKE128": 32, "SHAKE256": 64}.get(ph)
            want = b"\x01" + bytes([n]) + ctx + oid + hash_fn(h, Hash, ph, m, size)
            sig = s.hash_slh_sign(m, ctx, ph, b"K", rnd)
            h.check(h.eq(sig, b"sig"), "a signature is returned")
            h.check(h.both(h.eq(bytes_of(seen[-1][0]), want), h.eq(seen[-1][1], b"K"), h.eq(seen[-1][2], rnd)), "pre-hash signature covers 1, |ctx|, ctx, OID, PH(M)")
            h.check(s.hash_ml_dsa_verify(b"P", m, b"S", ctx, ph) is True, "verification result is passed on")
            h.check(h.both(h.eq(bytes_of(seen[-1][0]), want), h.eq(seen[-1][1], b"S"), h.eq(seen[-1][2], b"P")), "pre-hash verification covers 1, |ctx|, ctx, OID, PH(M)")


@harness("C07", FIPS, {"256": {"n": 256}, "300": {"n": 300}}, bound="context longer than 255 bytes, all bytes symbolic")
def long_context(h, n):
    s = small(h)
    hash_model(h)
    h.patch(s, "slh_sign_internal", lambda *a, **k: b"sig")
    h.patch(s, "slh_verify_internal", lambda *a, **k: True)
    ctx, m = h.bytes("ctx", n), h.bytes("m", 3)
    for what, f in (
        ("sign", lambda: s.slh_sign(m, ctx, b"K")),
        ("verify", lambda: s.slh_verify(m, b"S", ctx, b"P")),
        ("pre-hash sign", lambda: s.hash_slh_sign(m, ctx, "SHA-256", b"K")),
        ("pre-hash verify", lambda: s.hash_ml_dsa_verify(b"P", m, b"S", ctx, "SHA-256")),
    ):
        r = h.attempt(f)
        h.check(not r.ok or not r.value, f"{what} refuses a context longer than 255 bytes")
