"""The properties (source of properties.jsonl and MANIFEST.json)."""

TRUST = (
    "Within the bounds in the evidence file each obligation is decided by z3 for all values; outside them nothing is claimed. "
    "Trusted: z3, CPython, the instrumentation and symbolic value model in symex/ (cross-checked on every run by replaying solver-chosen "
    "paths on the plain code), and the listed stubs (hash functions as uninterpreted functions, clock, randomness)."
)
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, note, observe=(), state=(), na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note,
                      observe=list(observe), state=list(state), na=na))


K = "pq_logic/fips/fips203.py"
D = "pq_logic/fips/fips204.py"
P("C01", "ML-KEM encodings are exact inverses and compression error is bounded",
  "For every ML-KEM parameter set, unpacking what was packed returns the same polynomial for every legal coefficient, packing is little-endian bit packing as FIPS 203 defines it, and unpacked coefficients are reduced. Compressing then decompressing moves a coefficient by at most the rounding error the standard allows, decompressing then compressing is the identity, and compression equals rounding of x*2^d/q modulo 2^d.",
  ["inputs"], "all coefficient values and all byte strings, for every bit width used by any ML-KEM parameter set",
  "The unit tests run known-answer vectors: a handful of coefficient values per bit width, so a rounding or bit-order error on rare values is not reached.",
  [K], [("byte encoding/decoding and bit conversion", K), ("compress/decompress rounding", K)],
  "All 256 coefficients symbolic per polynomial; compression checked for every x in [0,q).", ["encapsulation keys, decapsulation keys and ciphertexts as bytes"])
P("C02", "ML-KEM polynomial arithmetic, sampling and decryption are correct",
  "The number-theoretic transform followed by its inverse is the identity, and multiplying in the transformed domain equals negacyclic polynomial multiplication modulo q. Sampling yields reduced uniform coefficients by rejection and centred-binomial coefficients in [-eta, eta] from exactly the bits the standard names, and decrypting an encrypted message returns the message whenever the noise is within the decryption bound.",
  ["inputs"], "all polynomials with coefficients in [0,q), all messages, all sampler byte streams within the bound",
  "Tests compare whole key generation and encapsulation runs against fixed vectors, so only the sampled seeds' coefficients are covered.",
  [K], [("NTT and inverse, base multiplication", K), ("rejection and binomial samplers", K), ("K-PKE encrypt/decrypt", K)],
  "NTT checked over symbolic residues (exact linear/bilinear forms modulo q); samplers over symbolic byte streams of bounded length.")
P("C03", "ML-KEM decapsulation: implicit rejection, input checks and key agreement",
  "Decapsulating the ciphertext an encapsulation produced returns the same shared secret, and any other ciphertext of the right length yields the pseudo-random rejection secret derived from the private key and the ciphertext instead of an error. Keys and ciphertexts of the wrong length, and encapsulation keys with unreduced coefficients, are refused.",
  ["inputs"], "all seeds, messages, keys and ciphertexts (hash functions arbitrary)",
  "Tests decapsulate valid vectors and a few corruptions; whether every modified ciphertext takes the rejection path, and every seed agrees, is not reachable by sampling.",
  [K], [("key generation, encapsulation and decapsulation", K), ("input validation", K)],
  "Hashes are uninterpreted functions; the K-PKE layer is replaced by an arbitrary function where C02 decides it.")
P("C04", "ML-DSA keys, hints and signatures have one canonical encoding",
  "Decoding an encoded ML-DSA public key, private key, or signature returns the same values for every legal value, in the bit order and size FIPS 204 gives. A hint encoding is accepted only if positions are strictly ascending per polynomial, counts are monotone and at most omega, and unused bytes are zero, so that every hint has exactly one accepted encoding.",
  ["inputs"], "all coefficient values, all hint byte strings within the bound, all three parameter sets",
  "Tests run signing and verification vectors; malformed or non-canonical hint encodings and boundary coefficients appear in few or none of them.",
  [D], [("bit packing", D), ("key and signature encoding/decoding", D), ("hint packing with canonicity checks", D)],
  "Packing checked for all 256 coefficients; key and signature level with 8 symbolic coefficients per polynomial (thorough: all); hints with reduced omega/k completely, and full-weight hints at the real parameters.")
P("C05", "ML-DSA arithmetic, rounding, hints and sampling follow FIPS 204",
  "The ML-DSA transform and its inverse cancel and transformed-domain products equal negacyclic products modulo q. Power2Round and Decompose split every residue uniquely within the stated ranges; UseHint recovers the high bits of the perturbed value whenever the perturbation is within the bound, and equals the high bits of r+z for hints made by MakeHint. The samplers produce coefficients only in their ranges, by rejection, from the seed bytes; the challenge polynomial has exactly tau entries of plus or minus one; the mask lies within gamma1.",
  ["inputs"], "all residues modulo q, all hint and perturbation values in range, all sampler byte streams within the bound",
  "Known-answer vectors touch a vanishing part of the 8.4 million residues; the wrap-around case of Decompose and the edges of UseHint are rare in random signing runs.",
  [D], [("NTT and ring product", D), ("rounding and hints", D), ("rejection, bounded, ball and mask samplers", D)],
  "Rounding decided for every residue, split by high-bits bucket; sampler streams bounded as stated in the evidence.")
P("C06", "ML-DSA signing and verification contract",
  "Every signature the signing loop releases verifies under the matching public key for the same message and context, satisfies the norm and hint-weight bounds, and is a function of key, message, context and randomness only. Verification accepts exactly the signatures whose recomputed challenge matches and whose response is within bounds; it rejects wrong lengths. Context strings longer than 255 bytes are refused, message and context are framed unambiguously, and pre-hash signatures never verify as pure ones.",
  ["inputs", "histories"], "all messages, contexts, keys and rejection outcomes within the stated sizes (hash functions arbitrary)",
  "Rejection branches fire with small probability and depend on extreme coefficients; vectors fix the inputs, so a wrong bound or missing check still produces valid test signatures.",
  [D], [("sign, verify, pre-hash framing", D), ("rejection loop bounds", D), ("key generation", D)],
  "Hash functions are uninterpreted; the algebra of the verify equation uses the ring operations decided in C05.", ["signatures, acceptance result"])
S = "pq_logic/fips/fips205.py"
P("C07", "SLH-DSA signatures follow FIPS 205 and every signature verifies",
  "Every SLH-DSA signature produced for any message, context, key and randomness verifies under the matching public key, and each layer (WOTS+, XMSS, hypertree, FORS) computes exactly the tree hashes, addresses, digit encodings and index splits FIPS 205 defines, for every leaf and tree index. Verification recomputes the root from every part of the signature, rejects signatures and keys of any other length, and accepts only the signed root. Contexts over 255 bytes are refused; pure and pre-hash messages are framed as specified, and pre-hash signing and verification agree.",
  ["inputs"], "all messages, keys, randomness, leaf and tree indices, addresses within the stated parameters (hash functions arbitrary)",
  "Known-answer vectors use a few messages; each exercises a few of the 2^63 leaves and one checksum value per layer, and pre-hash signing is not covered at all.",
  [S], [("WOTS+ chains and checksum", S), ("XMSS and hypertree", S), ("FORS", S), ("internal and external sign/verify, framing", S)],
  "Hashes uninterpreted; WOTS+ at n=16/24 with an ideal chain, XMSS height 2-3 (thorough 6), FORS small k and a, hypertree and digest split at the full parameters.", ["signatures, acceptance result"])
MF, CC, RV, CH = "mock_ca/mock_fun.py", "mock_ca/cert_conf_handler.py", "mock_ca/rev_handler.py", "mock_ca/ca_handler.py"
RA = "resources/ca_ra_utils.py"
P("C08", "A certificate becomes confirmed only by a matching certConf",
  "The mock CA confirms a certificate exactly when a certConf arrives for its pending transaction, with the nonces of that transaction, the request's kind of protection (same certificate for signatures, same algorithm for MACs), certReqId 0 and the hash of the certificate that was issued, and does not reject it. A rejected certificate stays unconfirmed and, for a key update, the certificate it would replace is not superseded; an accepted one supersedes it. A refused certConf changes nothing, and a transaction is confirmed only once. Every refusal is a CMP error with a status, never an internal failure.",
  ["inputs", "histories"], "all transaction identifiers, nonces, hashes, request ids, statuses and the recorded states of the certificates involved",
  "Tests confirm one certificate with matching values; they do not try wrong combinations of nonce, hash, id, status and state, and rejection by the client is not followed up in the database.",
  [CC, MF, RA], [("certConf validation and pending transactions", CC), ("certificate database confirmation", MF), ("CertStatus hash comparison", RA)],
  "One pending transaction and one earlier one; certificate encodings arbitrary and the digest an injective function.", ["accepted or refused certConf, pkiConf, certificate state"], [("transactions", "pending transactions and the certificates they issued", CC), ("certificate states", "state of each stored certificate", MF)])
P("C09", "Certificate states change only along the allowed transitions",
  "In the mock CA's certificate database a certificate becomes confirmed, revoked, updated or revived only from the states that allow it, a refused change leaves the database untouched, and a change touches only the certificate it names. Every stored certificate is counted in exactly the views (confirmed, revoked, updated, unconfirmed) of its state, lookups return the matching certificate for every serial number or digest and nothing otherwise. A key-update or cross-certification window set for a certificate admits only the certificates and messages the state calls for.",
  ["inputs", "histories"], "all certificate states, serial numbers and digests in a database of the stated size, for each operation",
  "Tests walk single life cycles; they do not try each operation from each state nor check that other entries are left alone.",
  [MF], [("certificate database entries, transitions and lookups", MF), ("update windows and state checks for a request", MF)],
  "One arbitrary step from an arbitrary database state of 2-3 entries (inductive over histories).", ["certificate status lists and lookups"], [("certificate database", "certificates, their state and revocation entry", MF)])
P("C10", "Published revocation status agrees with the certificate database",
  "The OCSP answer for any serial number is 'revoked' exactly for revoked, superseded or pending-revocation certificates, 'good' exactly for issued certificates that are not revoked, and 'unauthorized' for anything else, and it names the queried certificate. The CRL lists every revoked certificate of the database and of the revocation lists exactly once and none that is not revoked or has been revived, over HTTP and in general messages, and its number increases with each one issued. Adding an entry to the revocation lists changes only that certificate's status.",
  ["inputs", "histories"], "all serial numbers and certificate states in a database of the stated size",
  "Tests query one revoked and one good certificate; states such as updated or revived, several entries together and repeated CRLs are not covered.",
  [MF, CH, RV], [("OCSP status lookup", MF), ("CRL generation", CH), ("revocation entry list", MF)],
  "Databases of 2-3 entries in arbitrary states; the cryptography package's builders record what they are given.", ["OCSP responses, CRLs"], [("revocation lists", "revoked and updated entries", MF)])
CR, CHH, ST = "mock_ca/cert_req_handler.py", "mock_ca/challenge_handler.py", "mock_ca/stfl_validator.py"
P("C11", "Transactions, KEM secrets, challenges and signature indices are used only once",
  "A transactionID for which the mock CA already issued or holds an unconfirmed certificate is refused for a new request, and every issued certificate is recorded under its transaction (as confirmed only with implicit confirmation, otherwise as awaiting its certConf) and in the certificate database. An established KEM shared secret protects one transaction and is used only for the transactionID it was established for. A proof-of-possession challenge is answered by the matching value in the same transaction, once. A stateful hash-based signature index is accepted once per key, only within the key's range, and the recorded used indices are exactly those accepted.",
  ["inputs", "histories"], "all transaction identifiers, secrets, challenge values and leaf indices, from each recorded state of the stated size",
  "Tests run one exchange with fresh values; replays with equal or nearly equal values, in each recorded state, are not tried.",
  [CR, CHH, ST, MF], [("recording of issued certificates and transactions", CR), ("KEM shared secret bookkeeping", MF), ("challenges", CHH), ("stateful signature state", ST)],
  "One arbitrary step from recorded states of up to 2 entries.", ["accepted or refused requests"], [("transaction records", "issued, unconfirmed and confirmed certificates by transaction", MF), ("KEM secrets", "shared secret per transaction", MF), ("used indices", "used leaf indices per stateful key", ST)])
P("C12", "Revocation requests change only the named certificate, and only when authentic",
  "The mock CA revokes or revives a certificate exactly when the revocation request names it by the serial number and issuer of a certificate the CA issued, carries a valid signature, KEM or Diffie-Hellman based protection, has a signer that is not itself revoked (a revoked signer can at most revive its own certificate), and the named certificate's state allows it. A request to revoke an already revoked certificate, to revive one that is not revoked, or with missing or invalid protection is answered with a failure and changes nothing. No other certificate's status changes.",
  ["inputs", "histories"], "all serial numbers, issuers, reasons and certificate states in a database of the stated size, each kind of protection",
  "Tests revoke the certificate that signs the request; mismatching serial numbers, other issuers' certificates and other states are sampled a few times.",
  [RV, MF, RA], [("revocation request processing", RV), ("certificate and revocation state", MF), ("revocation response and request validation", RA)],
  "A database of two certificates in arbitrary states plus an unknown signer; signature and MAC verification modelled as recorded outcomes.", ["revocation responses, certificate status"], [("revocation lists", "revoked and updated entries", MF)])
P("C13", "The mock CA acts on a request only after every admission check accepted it",
  "The mock CA issues a certificate, answers a challenge, confirms, revokes or establishes a KEM secret only for a message whose protection was verified (general messages may be unprotected), whose header, nonces and certReqIds are valid, whose stateful signature index is unused, and whose certificates are neither revoked, superseded nor still unconfirmed; it performs at most one such action per message, the one the body asks for. A request naming a compromised key, or a key the same subject already uses (also as part of a hybrid key), is refused. A certificate is confirmed implicitly only if the request asked for it and the certificate is not encrypted. Every message gets an answer: the handler's or an error with a failure reason, and a refused message changes nothing.",
  ["inputs"], "every body type, protection kind and combination of outcomes of the checks, with up to 2 requests per message",
  "Tests send well-formed requests and a few single faults; combinations such as a cross-certification request with an unconfirmed signer or a compromised key in the second request are not tried.",
  [CH, CR, MF, RV], [("dispatch and checks of a message", CH), ("certificate request checks and error mapping", CR), ("compromised and reused keys", MF), ("revoked and updated signers", RV)],
  "The checks themselves are arbitrary accept/refuse/fail functions here; their content is decided in other properties.", ["answers and certificates issued"])
CU, NH, PH = "resources/checkutils.py", "mock_ca/nested_handler.py", "mock_ca/prot_handler.py"
P("C14", "Header checks accept exactly conforming PKIMessage headers",
  "A request header is accepted exactly if it has a 16-byte transactionID and senderNonce and no recipNonce; a response exactly if it repeats the request's transactionID and carries its senderNonce as recipNonce, with nonces of at least 128 bits; a certConf exactly if it continues the response it confirms. Protection algorithm and protection value are both present or both absent. The sender of a signed message equals the subject of the protection certificate and senderKID its subjectKeyIdentifier; for MAC protection the sender is a directoryName with the commonName that senderKID carries. messageTime lies neither in the future nor further from now, or from the request, than the allowed interval. implicitConfirm, confirmWaitTime and certProfile appear only in the bodies, with the values and in the combinations RFC 9483 allows. The overall header validation applies each of these checks.",
  ["inputs"], "all identifiers, nonces, key identifiers, names, times and combinations of optional fields within the stated lengths",
  "Tests use one conforming header and a few single faults; near misses (equal prefixes, absent against empty, times just outside the window, swapped nonces) are not sampled.",
  [CU, "resources/cmputils.py"], [("header, nonce, time and sender checks", CU), ("field access and generalInfo lookup", "resources/cmputils.py")],
  "Real PKIMessage objects with symbolic field values; body contents are not part of these checks.", ["accepted or refused headers and the error"])
P("C15", "Nested messages are unpacked safely and answers have the type of the request",
  "A batch is accepted only if all transactionIDs and senderNonces, inner and outer, are present, 16 bytes and distinct; added protection only if it wraps exactly one message and repeats its transactionID and nonces, with recipNonce for certConf only. Each inner message is processed at most once, in order, only after the outer protection and its own protection were accepted, a batch mixing certConf with other messages is refused, and the answer holds one protected answer per message and the identifiers of the batch. A client accepts an answer only of the type belonging to the request (or an error where allowed), and a nested answer only if it holds the answer to every request. kur, ccr, rr and nested messages are never accepted with a shared-secret MAC, nor ccr with KEM or DH based MACs.",
  ["inputs"], "all identifiers, body types, numbers of messages up to the stated bound, protection kinds and outcomes of the checks",
  "Tests exercise one batch and one added-protection message; collisions between inner and outer identifiers, wrong pairings and partial failures are not sampled.",
  [CU, NH], [("identifier and answer checks", CU), ("processing of nested requests", NH)],
  "Batches of up to two messages (answers up to three).", ["accepted or refused messages, answers"])
P("C16", "Messages are verified by the mechanism they name and answered in kind",
  "The mock CA accepts a protected message exactly if its body may carry that kind of protection and verification by that mechanism succeeds: MACs with the shared secret, DH based MACs with the secret agreed with the sender's key type, KEM based MACs with the established secret, signatures (traditional, post-quantum, composite, stateful) with the signer's certificate, which must chain to a trust anchor and permit the use; a cross-certification request must come from a trusted or cross-certified CA and a nested message from a trusted RA. A stateful signature is accepted only under a registered key with an index not used before, which is recorded. Inner messages are verified likewise. Every refusal has the failInfo of its reason. The answer is protected with the request's kind of protection, algorithm and secret (otherwise signed by the CA) and carries the certificates needed.",
  ["inputs", "histories"], "every body, protection kind, configuration and outcome of each verification step; all stateful indices over two messages",
  "Tests run one good and one bad message per mechanism; combinations of mechanism, body, key type, configuration and failing step are not covered.",
  [PH, "mock_ca/operation_dbs.py", CU], [("verification and protection of messages", PH), ("stateful signature state", "mock_ca/operation_dbs.py"), ("kinds of protection a body may have", CU)],
  "The cryptographic verifications are arbitrary accept/refuse functions here.", ["accepted or refused messages, answers"], [("used indices", "used leaf indices per stateful key", "mock_ca/operation_dbs.py")])

PU, CR = "resources/protectionutils.py", "resources/cryptoutils.py"
P("C17", "Message protection is the MAC or signature the protectionAlg names",
  "For every supported protection algorithm and its parameters (PBMAC1, password based MAC, HMAC, KMAC, GMAC, DH based MAC, KEM based MAC, RSA, RSASSA-PSS, ECDSA, EdDSA, ML-DSA, SLH-DSA), protecting a message stores exactly the MAC or signature the standards define, over the DER encoding of its header and body, with the hash, KDF, salt, iteration count and key length its protectionAlg announces, and puts the signer's certificate first in extraCerts with sender and senderKID taken from it. A protected message is accepted if and only if its protection has that value under the receiver's secret or key, whether the parameters were just built or decoded from the wire; unknown algorithms, algorithms outside the lightweight profile (if enforced) and signature algorithms which do not fit the key are refused. Responses are judged to match the request's MAC algorithm exactly if algorithm and parameters other than the salt are equal.",
  ["inputs", "configurations"], "every algorithm and parameter combination in the bounds, all secrets, nonces, bodies and protection values",
  "Tests protect and verify with the same code, so an error made on both sides, or one that shows only for a rarely used hash or for decoded parameters, passes.",
  [PU, CR, "resources/prepare_alg_ids.py", "resources/oid_mapping.py"], [("protection and verification", PU), ("primitives' wrappers", CR), ("algorithm identifiers", "resources/prepare_alg_ids.py")],
  "HMAC, KMAC, GMAC, KDFs, hashes and signature schemes are arbitrary functions; the algorithms themselves are trusted.", ["the protection field, accepted or refused messages"], [])


P("C18", "Certificates are issued only after proof of possession of their own key",
  "Every certificate request, alone or in a batch, is answered with a certificate if and only if its own proof of possession holds: a signature over its own request under the key it requests (also PKCS#10), the MAC with the key agreed with the requested key, a message signed by a trusted RA for raVerified, a decrypted private key that fits the requested public key and identifier, or a certificate encrypted under the requested key; a request without proof only if the CA generates the key, never for a key update. Otherwise it is refused with badPOP, notAuthorized or the reason of its template. Each answer carries the identifier and certificate of its own request, certReqIds are accepted exactly if they are 0 to n-1, and oldCertID must name the signer's certificate. A challenge encrypts its number for the requested key only, with the witness the hash of that number; exactly the holder of that key answers with the number.",
  ["inputs", "configurations"], "every kind of proof for every kind of request and pair of requests of a batch, all outcomes of signature, MAC and chain verification, all numbers of a challenge",
  "Tests use one request with a right or a manipulated proof; a check applied to the wrong request of a batch, or skipped for one kind of proof or protection, passes them.",
  ["resources/ca_ra_utils.py", "resources/extra_issuing_logic.py", "resources/certutils.py", "mock_ca/cert_req_handler.py"], [("verification of the proof and issuing", "resources/ca_ra_utils.py"), ("answering challenges", "resources/extra_issuing_logic.py")],
  "Signature, MAC, chain verification and encryption are arbitrary functions; building the certificate from the template succeeds.", ["issued certificates and refusals"], [])

P("C19", "Enveloped data opens for its recipient only and is accepted as prescribed",
  "Data enveloped for a recipient (RSA key transport, ECDH, X25519/X448 and MQV key agreement, KEM, password) is recovered exactly by the holder of the recipient's key or password and by nobody else, with key-encryption keys derived as RFC 5753, RFC 9629 and RFC 8018 define from the named algorithms, ukm and lengths. A received EnvelopedData is opened only if it has exactly the expected number and type of recipient infos (the indexed one is used), their prescribed versions, a recipient or originator identifier naming the CMP protection certificate (its key identifier if it has one, else issuer and serial number), known algorithms with fitting key lengths, the expected content type, an IV and, for passwords, a salt other than the message's. A centrally generated key is accepted only if its SignedData has version 3, one digest algorithm and one signer with the key identifier of the KGA's certificate, the digest of the content, the same digest algorithm everywhere and a valid signature under the first certificate of a chain to a trust anchor authorised for key generation, and holds exactly one version 2 key package whose private key fits its public key and the issued certificate.",
  ["inputs", "configurations"], "every content key, ukm, salt, shared secret, key identifier, version and digest within the bounds, every single deviation of a received structure, every recipient scheme and verification outcome",
  "Tests envelope with one key per scheme and open what the suite built itself, so a wrong derivation on both sides and most single deviations of the structure pass.",
  ["resources/envdatautils.py", "resources/ca_kga_logic.py", "resources/keyutils.py", "resources/cryptoutils.py"], [("building EnvelopedData and KEK derivation", "resources/envdatautils.py"), ("acceptance of EnvelopedData and of generated keys", "resources/ca_kga_logic.py")],
  "Block ciphers, key wrap, KDF hashes and signatures are uninterpreted functions (ideal primitives), DER decoding returns what was encoded; EC arithmetic is concrete except for the shared point.", ["recovered content keys, keys and refusals"], [])

P("C20", "Composite signatures and hybrid KEMs bind both component keys",
  "A composite signature is the ML-DSA signature followed by the traditional signature, both over the same message representative (prefix, label of the combination, context length and context, pre-hash of the message), and is accepted if and only if both components accept their own part, each with the key, label, padding and hash of the combination the algorithm identifier names, which must be that of the key; contexts of more than 255 bytes are refused. Encapsulation and decapsulation of X-Wing, the composite KEMs, Chempat, DHKEM, ECDH-KEM and RSA-KEM give the secret their specification derives from both component secrets, the traditional ciphertext, the public key and the label; both sides agree for every key and ciphertext of the right form, and ciphertexts of wrong length or form are refused.",
  ["inputs", "configurations"], "every combination of component algorithms, all messages, contexts, keys, component secrets and ciphertexts in the bounds, every pair of component verdicts, every algorithm identifier with every key",
  "Tests sign and verify, encapsulate and decapsulate with the same code and a few combinations: an input left out on both sides, one component's verdict ignored or the hash of a rarely used combination passes.",
  ["pq_logic/keys/composite_sig.py", "pq_logic/keys/composite_kem.py", "pq_logic/keys/xwing.py", "pq_logic/keys/chempat_key.py", "pq_logic/keys/trad_kem_keys.py", "pq_logic/kem_mechanism.py", "resources/protectionutils.py"],
  [("composite signatures", "pq_logic/keys/composite_sig.py"), ("composite KEM combiner", "pq_logic/keys/composite_kem.py"), ("X-Wing", "pq_logic/keys/xwing.py"), ("Chempat", "pq_logic/keys/chempat_key.py"), ("traditional KEMs", "pq_logic/kem_mechanism.py")],
  "Component signatures are arbitrary functions and verdicts, component KEM secrets arbitrary, Diffie-Hellman commutative, hashes uninterpreted.", ["signatures, accepted or refused signatures, shared secrets"], [])

P("C21", "Hybrid messages, CRLs and certificates need the signatures of both keys",
  "A PKIMessage with a composite signature is accepted if and only if the signature verifies over its header and body under the composite key given, that of its certificate, or the one made of the certificate's key and the other key the certificate names (alternative public key, related certificate, certificate discovery, paired certificate or Sun-hybrid extension). A message, CRL or certificate that carries any part of an alternative (Catalyst) signature is accepted if and only if both the ordinary signature and the alternative signature, over the structure without the alternative signature value, verify under their keys and algorithms; if both are required one alone is refused, and one without alternative parts needs the ordinary signature only. A signed list or certificate altered in any field, even if signed again with the traditional key, is refused. Verification changes nothing and can be repeated.",
  ["inputs", "configurations"], "every combination of parts of an alternative signature, every way to name the other key, all verdicts of the two verifications, every single change of a signed certificate or list",
  "Tests verify freshly signed objects with all parts in place; a missing part, a wrong source of the key, or an object whose alternative signature alone is wrong are not tried.",
  ["pq_logic/pq_verify_logic.py", "pq_logic/hybrid_sig/catalyst_logic.py", "resources/protectionutils.py", "pq_logic/hybrid_sig/cert_binding_for_multi_auth.py", "pq_logic/hybrid_sig/certdiscovery.py"],
  [("hybrid verification of messages and CRLs, choice of the alternative key", "pq_logic/pq_verify_logic.py"), ("Catalyst certificates and CRLs", "pq_logic/hybrid_sig/catalyst_logic.py"), ("composite signature by two keys", "resources/protectionutils.py")],
  "Signature verification is an arbitrary verdict per key, data and signature; keys are fixed EC and ML-DSA-44 keys.", ["accepted or refused messages, lists and certificates"], [])
