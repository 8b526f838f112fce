From d0bc88ddd2863a273d0455734c7bcc772e138dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:52 +0000
Subject: [PATCH 01/52] fix: reject ML-DSA signatures of the wrong length

---
 pq_logic/fips/fips204.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pq_logic/fips/fips204.py b/pq_logic/fips/fips204.py
index e3776f0..4d69cca 100644
--- a/pq_logic/fips/fips204.py
+++ b/pq_logic/fips/fips204.py
@@ -614,6 +614,10 @@ class ML_DSA:
         if param is not None:
             self.__init__(param)
 
+        bl = 32 * (1 + int(self.gam1 - 1).bit_length())
+        if len(sig) != self.lam // 4 + bl * self.ell + self.omega + self.k:
+            return False
+
         (rho, t1) = self.pk_decode(pk)
         (ct, z, h) = self.sig_decode(sig)
         # print('# rho:', rho.hex())
-- 
2.43.0


From dcfa77d5bdd4b21b28d23a8fb59b55c183cbb63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:09:30 +0000
Subject: [PATCH 02/52] fix: pre-hash SLH-DSA signing passed message and key in
 the wrong order

---
 pq_logic/fips/fips205.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pq_logic/fips/fips205.py b/pq_logic/fips/fips205.py
index c1d6ac5..3c5732d 100644
--- a/pq_logic/fips/fips205.py
+++ b/pq_logic/fips/fips205.py
@@ -766,6 +766,7 @@ class SLH_DSA:
         if len(ctx) > 255:
             raise ValueError(f"The provided context is too long: {len(ctx)}")
 
+        ph = ph.lower()
         if ph == "sha-256":
             oid = bytes([0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01])
             # phm = SHA256.new(m).digest()
@@ -786,7 +787,7 @@ class SLH_DSA:
             return None
 
         mp = integer_to_bytes(1, 1) + integer_to_bytes(len(ctx), 1) + ctx + oid + phm
-        sig = self.slh_sign_internal(sk, mp, rnd)
+        sig = self.slh_sign_internal(mp, sk, rnd)
         return sig
 
     #   XXX Note 2024-11-09: Not covered by test vectors.
@@ -827,6 +828,7 @@ class SLH_DSA:
         if len(ctx) > 255:
             raise ValueError(f"The provided context is too long: {len(ctx)}")
 
+        ph = ph.upper()
         if ph == "SHA-256":
             oid = bytes([0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01])
             # phm = SHA256.new(m).digest()
-- 
2.43.0


From 79d60b74062cf551e9f0af13777be6a33cee0d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:41:27 +0000
Subject: [PATCH 03/52] fix: certificates rejected in certConf were treated as
 confirmed

---
 mock_ca/cert_conf_handler.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mock_ca/cert_conf_handler.py b/mock_ca/cert_conf_handler.py
index c75bc13..936072c 100644
--- a/mock_ca/cert_conf_handler.py
+++ b/mock_ca/cert_conf_handler.py
@@ -367,16 +367,23 @@ class CertConfHandler:
 
         ccp_cert = None
 
-        if response_type == "kup":
+        # Certificates rejected by the client must not be treated as confirmed.
+        accepted_certs = [
+            cert
+            for entry, cert in zip(pki_message["body"]["certConf"], issued_certs)
+            if not (entry["statusInfo"].isValue and str(entry["statusInfo"]["status"]) == "rejection")
+        ]
+
+        if response_type == "kup" and accepted_certs:
             cert = requests["extraCerts"][0]
             self.state_db.certificate_db.change_cert_state(
                 cert,
                 new_state=CertStateEnum.UPDATED,
             )
-        if response_type == "ccp":
-            ccp_cert = issued_certs[0]
+        if response_type == "ccp" and accepted_certs:
+            ccp_cert = accepted_certs[0]
 
-        for cert in issued_certs:
+        for cert in accepted_certs:
             self.state_db.certificate_db.change_cert_state(
                 cert,
                 new_state=CertStateEnum.CONFIRMED,
-- 
2.43.0


From 46b86627ee8fdd8fd43c28996a19d25f55b63d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:41:27 +0000
Subject: [PATCH 04/52] fix: unexpected certConf status raised AttributeError
 instead of BadRequest

---
 resources/ca_ra_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index d821e86..527918c 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -3127,7 +3127,7 @@ def _validate_cert_status(
     if str(status["status"]) not in {"accepted", "rejection"}:
         raise BadRequest(
             "Invalid certificate status in CertConf message."
-            f"Expected 'accepted' or 'rejection', got {status['status'].getName()}"
+            f"Expected 'accepted' or 'rejection', got {status['status'].prettyPrint()}"
         )
 
     if str(status["status"]) == "accepted" and status["failInfo"].isValue:
-- 
2.43.0


From 3f5c318c1b27dfbde34fcdb3431ecb9be9ff8b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:41:27 +0000
Subject: [PATCH 05/52] fix: revoked, unconfirmed and updated certificates
 could be set to updated

---
 mock_ca/mock_fun.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index 2881089..7fd3fff 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -1182,6 +1182,15 @@ class CertificateDB:
                     entry.cert_state = new_state
                     entry.revoked_entry = None
                 elif new_state in [CertStateEnum.UPDATED, CertStateEnum.UPDATED_BUT_NOT_CONFIRMED]:
+                    if entry.cert_state not in [
+                        CertStateEnum.CONFIRMED,
+                        CertStateEnum.REVIVED,
+                        CertStateEnum.UPDATED_BUT_NOT_CONFIRMED,
+                    ]:
+                        raise ValueError(
+                            f"The certificate state must be CONFIRMED, REVIVED or UPDATED_BUT_NOT_CONFIRMED, "
+                            f"to change it to {new_state}. Got: {entry.cert_state}. {error_suffix}"
+                        )
                     self._process_update_cert(entry=entry, cert_state=new_state, updated_cert=updated_cert)
                 elif new_state == CertStateEnum.CONFIRMED:
                     if entry.cert_state == CertStateEnum.NOT_CONFIRMED:
-- 
2.43.0


From 1c46c3e6161b515eb8fb8d0a5436065b743fcb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:41:27 +0000
Subject: [PATCH 06/52] fix: default revocation entry was built but not stored

---
 mock_ca/mock_fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index 7fd3fff..8acd1c1 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -1083,7 +1083,7 @@ class CertificateDB:
         :param revoke_entry: The revoked entry to add to the certificate.
         """
         if revoke_entry is None:
-            RevokedEntry(
+            revoke_entry = RevokedEntry(
                 reason="unspecified",
                 cert=entry.cert,
                 hashed_cert=cert_digest,
-- 
2.43.0


From 167a5fcda5e44e57f79d67405f7a4bf77c00961e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:41:27 +0000
Subject: [PATCH 07/52] fix: OCSP query for an updated certificate raised
 NotImplementedError

---
 mock_ca/mock_fun.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index 8acd1c1..c93e694 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -307,6 +307,8 @@ class CertRevStateDB:
         if num in nums:
             status = "revoked"
             found_cert = self.rev_entry_list.get_cert_by_serial_number(num)
+            if found_cert is None:
+                found_cert = self.update_entry_list.get_cert_by_serial_number(num)
         else:
             for cert in issued_certs:
                 if num == int(cert["tbsCertificate"]["serialNumber"]):
-- 
2.43.0


From 93773dfeb4ba13e2ef76b25f5ac564f7f117af2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:41:27 +0000
Subject: [PATCH 08/52] fix: CRL number never increased

---
 mock_ca/mock_fun.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index c93e694..dd1a9da 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -1296,6 +1296,8 @@ class CertificateDB:
             ca_cert=ca_cert,
             hash_alg=hash_alg,
         )
+        self._crl_number += 1
+        return crl
 
     def get_ocsp_response(
         self,
-- 
2.43.0


From 86f3b4990516c1a73e1bb88f5c7ba80355ef4897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:41:27 +0000
Subject: [PATCH 09/52] fix: served CRL ignored the certificates revoked in the
 certificate database

---
 mock_ca/ca_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index 925e6e2..ed36e16 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -1392,9 +1392,9 @@ class CAHandler:
 
     def get_current_crl(self) -> bytes:
         """Process the CRL request and return the response."""
-        response = self.state.cert_state_db.get_crl_response(
+        response = self.state.certificate_db.get_current_crl(
+            ca_key=self.ca_key,
             ca_cert=self.ca_cert,
-            sign_key=self.ca_key,
             hash_alg="sha256",
         )
         return response.public_bytes(encoding=Encoding.DER)
-- 
2.43.0


From 06c67444af0b4090c0caccbef131e01057855b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:41:27 +0000
Subject: [PATCH 10/52] fix: compromised-key check skipped ccr bodies and
 requests after one without key

---
 mock_ca/mock_fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index dd1a9da..3911d4d 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -428,7 +428,7 @@ class CertRevStateDB:
             for entry in request["body"][body_name]:
                 public_key = ca_ra_utils.get_public_key_from_cert_req_msg(entry, must_be_present=False)
                 if public_key is None:
-                    return False
+                    continue
 
                 if self.rev_entry_list.contains_key(public_key):
                     return True
-- 
2.43.0


From 7aa611ea16ad673b8ecd175798f76d95e1688bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:41:27 +0000
Subject: [PATCH 11/52] fix: cross-certification requests were matched by the
 misspelt body name crr

---
 mock_ca/ca_handler.py    |  2 +-
 mock_ca/mock_fun.py      |  4 ++--
 resources/ca_ra_utils.py | 32 ++++++++++++++++----------------
 3 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index ed36e16..033eb5a 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -717,7 +717,7 @@ class CAHandler:
             if pki_message["body"].getName() not in ["rr", "genm"]:
                 self.verify_protection(pki_message)
 
-            if pki_message["body"].getName() in ["ir", "cr", "p10cr", "crr", "kur", "rr"]:
+            if pki_message["body"].getName() in ["ir", "cr", "p10cr", "ccr", "kur", "rr"]:
                 self._check_for_compromised_key(pki_message)
 
             if pki_message["body"].getName() not in ["certConf", "error"]:
diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index 3911d4d..9953c26 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -424,7 +424,7 @@ class CertRevStateDB:
 
         body_name = request["body"].getName()
 
-        if body_name in ["ir", "cr", "crr", "kur"]:
+        if body_name in ["ir", "cr", "ccr", "kur"]:
             for entry in request["body"][body_name]:
                 public_key = ca_ra_utils.get_public_key_from_cert_req_msg(entry, must_be_present=False)
                 if public_key is None:
@@ -1291,7 +1291,7 @@ class CertificateDB:
             updated_certs=self.updated_certs,
             crl_number=self._crl_number,
         )
-        return rev_db.get_crl_response(
+        crl = rev_db.get_crl_response(
             sign_key=ca_key,
             ca_cert=ca_cert,
             hash_alg=hash_alg,
diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index 527918c..88e7e1f 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -432,7 +432,7 @@ def get_cert_req_msg_from_pkimessage(  # noqa: D417 Missing argument description
 
     Raises:
     ------
-        - ValueError: If the body type is not one of `ir`, `cr`, `kur`, or `crr`.
+        - ValueError: If the body type is not one of `ir`, `cr`, `kur`, or `ccr`.
         - IndexError: If the index is out of range.
 
     Examples:
@@ -481,7 +481,7 @@ def validate_cert_req_id(  # noqa: D417 Missing argument descriptions in the doc
         if cert_id != cert_req_id:
             raise BadRequest("Invalid certReqId in PKIMessage.")
     else:
-        raise ValueError(f"Invalid PKIMessage body: {body_name} Expected: ir, cr, kur, crr or p10cr")
+        raise ValueError(f"Invalid PKIMessage body: {body_name} Expected: ir, cr, kur, ccr or p10cr")
 
 
 @not_keyword
@@ -1103,7 +1103,7 @@ def check_if_request_is_for_kga(  # noqa: D417 undocumented-params
 
     Raises:
     ------
-        - ValueError: If the body type is not one of `ir`, `cr`, `kur`, or `crr`.
+        - ValueError: If the body type is not one of `ir`, `cr`, `kur`, or `ccr`.
         - BadCertTemplate: If the key OID is not recognized.
 
     Examples:
@@ -1272,7 +1272,7 @@ def verify_popo_for_cert_request(  # noqa: D417 Missing argument descriptions in
 
     Raises:
     ------
-        - ValueError: If the body type is not one of `ir`, `cr`, `kur`, or `crr`.
+        - ValueError: If the body type is not one of `ir`, `cr`, `kur`, or `ccr`.
         - ValueError: If the POP structure is invalid
         - ValueError: If the public key type is invalid.
         - NotImplementedError: If the request is for key agreement.
@@ -1286,8 +1286,8 @@ def verify_popo_for_cert_request(  # noqa: D417 Missing argument descriptions in
 
     """
     body_name = pki_message["body"].getName()
-    if body_name not in {"ir", "cr", "kur", "crr"}:
-        raise ValueError(f"Invalid PKIMessage body: {pki_message['body'].getName()} Expected: ir, cr, kur, crr")
+    if body_name not in {"ir", "cr", "kur", "ccr"}:
+        raise ValueError(f"Invalid PKIMessage body: {pki_message['body'].getName()} Expected: ir, cr, kur, ccr")
 
     cert_req_msg = get_cert_req_msg_from_pkimessage(pki_message, index=cert_req_index)
 
@@ -2142,7 +2142,7 @@ def verify_sig_pop_for_pki_request(  # noqa: D417 Missing argument descriptions
 
     Raises:
     ------
-        - ValueError: If the body type is not one of `ir`, `cr`, `kur`, or `crr`.
+        - ValueError: If the body type is not one of `ir`, `cr`, `kur`, or `ccr`.
         - IndexError: If the index is out of range.
         - BadAsn1Data: If the ASN.1 data is invalid.
         - BadPOP: If the signature is invalid.
@@ -2153,7 +2153,7 @@ def verify_sig_pop_for_pki_request(  # noqa: D417 Missing argument descriptions
 
     """
     body_name = pki_message["body"].getName()
-    if body_name in {"ir", "cr", "kur", "crr"}:
+    if body_name in {"ir", "cr", "kur", "ccr"}:
         cert_req_msg = get_cert_req_msg_from_pkimessage(pki_message, index=cert_index)
         popo: rfc4211.ProofOfPossession = cert_req_msg["popo"]
         if not popo["signature"].isValue:
@@ -2179,7 +2179,7 @@ def verify_sig_pop_for_pki_request(  # noqa: D417 Missing argument descriptions
             raise BadPOP("POP verification for `p10cr` failed.")  # pylint: disable=raise-missing-from
 
     else:
-        raise ValueError(f"Invalid PKIMessage body: {body_name} Expected: ir, cr, kur, crr or p10cr")
+        raise ValueError(f"Invalid PKIMessage body: {body_name} Expected: ir, cr, kur, ccr or p10cr")
 
 
 @not_keyword
@@ -2478,10 +2478,10 @@ def get_response_body_type(request: PKIMessageTMP) -> str:
         return "cp"
     if body_name == "kur":
         return "kup"
-    if body_name == "crr":
+    if body_name == "ccr":
         return "ccp"
 
-    raise ValueError(f"Invalid PKIMessage body: {body_name}. Expected: ir, cr, kur, crr or p10cr.")
+    raise ValueError(f"Invalid PKIMessage body: {body_name}. Expected: ir, cr, kur, ccr or p10cr.")
 
 
 def _build_ca_cert_response_body(
@@ -2666,7 +2666,7 @@ def enforce_lwcmp_for_ca(  # noqa: D417 Missing argument descriptions in the doc
 ) -> None:
     """Enforce the Lightweight CMP (LwCMP) for a CA.
 
-    When the request is "ir", "cr", "kur", or "crr", the `certReqId` **MUST** be `0`,
+    When the request is "ir", "cr", "kur", or "ccr", the `certReqId` **MUST** be `0`,
     and only one **MUST** be present (p10cr does not have a `certReqId`).
 
     Supported request types:
@@ -2674,7 +2674,7 @@ def enforce_lwcmp_for_ca(  # noqa: D417 Missing argument descriptions in the doc
     - ir (initialization request)
     - cr (certification request)
     - kur (key update request)
-    - crr (cross-certification request)
+    - ccr (cross-certification request)
     - rr (revocation request)
     - certConf (certificate confirmation)
 
@@ -2695,7 +2695,7 @@ def enforce_lwcmp_for_ca(  # noqa: D417 Missing argument descriptions in the doc
     """
     if request["body"].getName() == "p10cr":
         pass
-    elif request["body"].getName() in {"ir", "cr", "kur", "crr"}:
+    elif request["body"].getName() in {"ir", "cr", "kur", "ccr"}:
         if len(request["body"][request["body"].getName()]) != 1:
             raise BadRequest("Only one certificate request is allowed for LwCMP.")
 
@@ -2712,7 +2712,7 @@ def enforce_lwcmp_for_ca(  # noqa: D417 Missing argument descriptions in the doc
 
     else:
         raise BadRequest(
-            "Invalid PKIMessage body for LwCMP. Expected: ir, cr, kur, crr, rr, certConf or p10cr."
+            "Invalid PKIMessage body for LwCMP. Expected: ir, cr, kur, ccr, rr, certConf or p10cr."
             f"Got: {request['body'].getName()}."
         )
 
@@ -4702,7 +4702,7 @@ def get_cert_template_from_pkimessage(request: PKIMessageTMP, index: Strint = 0)
     :return: The `CertTemplate` object.
     """
     body_name = request["body"].getName()
-    if body_name not in ["ir", "cr", "kur", "crr"]:
+    if body_name not in ["ir", "cr", "kur", "ccr"]:
         raise ValueError(f"The PKIMessage was not a certification request. Got body name: {body_name}")
 
     body_name = request["body"].getName()
-- 
2.43.0


From 9bf63e1dbf5e89580b9789dea03c17d3955182b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:52:31 +0000
Subject: [PATCH 12/52] fix: DH-protected revocation requests were always
 refused

---
 mock_ca/rev_handler.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mock_ca/rev_handler.py b/mock_ca/rev_handler.py
index 675be05..1766945 100644
--- a/mock_ca/rev_handler.py
+++ b/mock_ca/rev_handler.py
@@ -10,9 +10,9 @@ from typing import Any, Dict, List, Optional, Tuple
 
 from cryptography.exceptions import InvalidSignature
 from cryptography.hazmat.primitives import serialization
-from cryptography.hazmat.primitives.asymmetric.ec import EllipticCurvePrivateKey
-from cryptography.hazmat.primitives.asymmetric.x448 import X448PrivateKey
-from cryptography.hazmat.primitives.asymmetric.x25519 import X25519PrivateKey
+from cryptography.hazmat.primitives.asymmetric.ec import EllipticCurvePrivateKey, EllipticCurvePublicKey
+from cryptography.hazmat.primitives.asymmetric.x448 import X448PrivateKey, X448PublicKey
+from cryptography.hazmat.primitives.asymmetric.x25519 import X25519PrivateKey, X25519PublicKey
 from pyasn1_alt_modules import rfc9480
 
 from mock_ca.mock_fun import (
@@ -400,11 +400,11 @@ class RevocationHandler:
             raise ValueError("Provided public key is not an ECDH key.")
 
         key = None
-        if isinstance(public_key, X25519PrivateKey):
+        if isinstance(public_key, X25519PublicKey):
             key = self.x25519_key
-        elif isinstance(public_key, X448PrivateKey):
+        elif isinstance(public_key, X448PublicKey):
             key = self.x448_key
-        elif isinstance(public_key, EllipticCurvePrivateKey):
+        elif isinstance(public_key, EllipticCurvePublicKey):
             key = self.ec_key
 
         if key is None:
@@ -438,6 +438,7 @@ class RevocationHandler:
             shared_secret = self._get_ecdh_shared_secret(public_key)
 
             verify_pkimessage_protection(pki_message=pki_message, shared_secret=shared_secret)
+            return
 
         if prot_type == ProtectedType.MAC:
             raise WrongIntegrity("MAC protection is not supported for revocation requests.")
-- 
2.43.0


From 71539b22a7686c99cb80bfc6b3fabb6821e6046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:30:11 +0000
Subject: [PATCH 13/52] fix: require a commonName in the sender of
 MAC-protected messages

get_openssl_name_notation returns 'NULL-DN' (never None) if the name has no commonName, so a
MAC-protected message without one passed the sender check and senderKID 'NULL-DN' matched it.
---
 resources/checkutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resources/checkutils.py b/resources/checkutils.py
index f6e4541..45f44d3 100644
--- a/resources/checkutils.py
+++ b/resources/checkutils.py
@@ -380,7 +380,7 @@ def _verify_sender_field_for_mac(sender_name: rfc9480.GeneralName, allow_failure
     cm_name = utils.get_openssl_name_notation(name=sender_name["directoryName"], oids=[rfc5280.id_at_commonName])
 
     if not allow_failure:
-        if cm_name is None:
+        if cm_name is None or cm_name == "NULL-DN":
             raise BadMessageCheck(
                 " For MAC-based protection, the CA "
                 "MUST use an identifier in the commonName field of the directoryName choice."
@@ -614,7 +614,7 @@ def _verify_senderkid_for_mac(pki_message: PKIMessageTMP, allow_mac_failure: boo
 
     cm_name = utils.get_openssl_name_notation(name=sender_name, oids=[rfc5280.id_at_commonName])
 
-    if not cm_name:
+    if not cm_name or cm_name == "NULL-DN":
         if not allow_mac_failure:
             raise BadMessageCheck(f"PKIMessage `sender` did not contain a commonName: {sender_name.prettyPrint()}")
         logging.warning("PKIMessage `sender` did not contain a commonName: %s", sender_name.prettyPrint())
-- 
2.43.0


From c50b530c2bf1787c6b8610d405db7e19f54fd529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:30:11 +0000
Subject: [PATCH 14/52] fix: accept one certProfile name per request

RFC 9480: the value MUST NOT contain more elements than the message has requests. The check refused
exactly one name per request and accepted more names than requests.
---
 resources/checkutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resources/checkutils.py b/resources/checkutils.py
index 45f44d3..5cc69b3 100644
--- a/resources/checkutils.py
+++ b/resources/checkutils.py
@@ -1287,8 +1287,8 @@ def validate_cert_profile_for_ca(  # noqa D417 undocumented-param
     if len(profiles) == 0:
         raise BadRequest("The `certProfile` structure must contain at least one profile.")
 
-    if len(profiles) == _get_cert_profile_msg_size(pki_message):
-        raise BadRequest("The `certProfile` structure must not contain the same profile multiple times.")
+    if len(profiles) > _get_cert_profile_msg_size(pki_message):
+        raise BadRequest("The `certProfile` structure must not contain more profiles than requests.")
 
     if cert_profiles is not None:
         cert_profiles.append("")
-- 
2.43.0


From 9474664c530c2828b8a2f64dc9da491313eaf4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:30:11 +0000
Subject: [PATCH 15/52] fix: refuse a response messageTime far before the
 request

A response time earlier than the request's gave a negative difference, which never exceeded the
allowed interval.
---
 resources/checkutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/checkutils.py b/resources/checkutils.py
index 5cc69b3..c2c5e6c 100644
--- a/resources/checkutils.py
+++ b/resources/checkutils.py
@@ -1415,7 +1415,7 @@ def check_message_time_field(
         time_obj = msg_time.asDateTime
 
         if request_time is not None:
-            time_diff = (time_obj - request_time).total_seconds()
+            time_diff = abs((time_obj - request_time).total_seconds())
             logging.info("Time difference between request and response was: %d seconds.", int(time_diff))
         else:
             _check_message_time_for_request(time_obj, allowed_interval)
-- 
2.43.0


From 24b4dbcc18ab6f616f2e62769a1da284588b69db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:35:23 +0000
Subject: [PATCH 16/52] fix: check the answer to every message of a batched
 request

The requests were keyed by their body name, so only the last message of each type was checked, and
rr, ccr and certConf raised KeyError.
---
 resources/checkutils.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/resources/checkutils.py b/resources/checkutils.py
index c2c5e6c..a99c739 100644
--- a/resources/checkutils.py
+++ b/resources/checkutils.py
@@ -2027,7 +2027,7 @@ def validate_ids_and_nonces_for_nested_response(  # noqa D417 undocumented-param
             f"{len(request['body'])}. The response size was: {len(response['body'])}"
         )
 
-    req_pair: Dict[str, Tuple[bytes, bytes]] = {}
+    req_pairs: List[Tuple[str, Tuple[bytes, bytes]]] = []
     resp_pair: Dict[Tuple[bytes, bytes], str] = {}
     for msg in response["body"]["nested"]:
         body_name = msg["body"].getName()
@@ -2035,20 +2035,32 @@ def validate_ids_and_nonces_for_nested_response(  # noqa D417 undocumented-param
 
     for msg in request["body"]["nested"]:
         body_name = msg["body"].getName()
-        req_pair[body_name] = (msg["header"]["senderNonce"].asOctets(), msg["header"]["transactionID"].asOctets())
+        req_pairs.append(
+            (body_name, (msg["header"]["senderNonce"].asOctets(), msg["header"]["transactionID"].asOctets()))
+        )
 
-    allowed_answer_bodies = {"p10cr": "cp", "cr": "cp", "genm": "genp", "kur": "kup", "ir": "ip"}
+    allowed_answer_bodies = {
+        "p10cr": "cp",
+        "cr": "cp",
+        "genm": "genp",
+        "kur": "kup",
+        "ir": "ip",
+        "ccr": "ccp",
+        "rr": "rp",
+        "certConf": "pkiconf",
+    }
     always_allowed = ["error", "pollReq"]
-    for body_name, tuple_data in req_pair.items():
+    for body_name, tuple_data in req_pairs:
         if tuple_data not in resp_pair:
             raise ValueError("The response nested message did not contain the response for a message.")
 
         if resp_pair[tuple_data] in always_allowed:
             continue
 
-        if allowed_answer_bodies[body_name] != resp_pair[tuple_data]:
+        if allowed_answer_bodies.get(body_name) != resp_pair[tuple_data]:
             raise ValueError(
-                f"Expected to get the PKIBody type: {allowed_answer_bodies[body_name]} but got: {resp_pair[tuple_data]}"
+                f"Expected to get the PKIBody type: {allowed_answer_bodies.get(body_name)} "
+                f"but got: {resp_pair[tuple_data]}"
             )
 
 
-- 
2.43.0


From 835c35c40d6a479958b1d2e30c8525ff9e8b1a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:35:23 +0000
Subject: [PATCH 17/52] fix: verify the protection of certConf messages in a
 batch

The other messages of a batched request are verified, but a certConf was processed whatever its
protection was.
---
 mock_ca/nested_handler.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mock_ca/nested_handler.py b/mock_ca/nested_handler.py
index 4a97cf9..b9d4922 100644
--- a/mock_ca/nested_handler.py
+++ b/mock_ca/nested_handler.py
@@ -259,6 +259,14 @@ class NestedHandler:
                 out.append(response)
 
             elif entry["body"].getName() == "certConf":
+                check_is_protection_present(entry, must_be_protected=not self.allow_inner_unprotected)
+                prot_handler.verify_inner_batch_pkimessage(
+                    pki_message=entry,
+                    cc_certs=self.cert_req_handler.get_cross_signed_certs(),
+                    must_be_protected=not self.allow_inner_unprotected,
+                    index=i,
+                    pq_stateful_state=pq_stateful_state,
+                )
                 response, ccp_cert = self.cert_conf_handler.process_cert_conf(
                     pki_message=entry,
                 )
-- 
2.43.0


From 27518548faca34ad7144fa610d972184ed87d2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:04:46 +0000
Subject: [PATCH 18/52] fix: refuse an unprotected inner rr, kur or ccr with
 badMessageCheck

With unprotected inner messages allowed, an unprotected rr, kur or ccr inside
a nested message reached ProtectedType.get_protection_type, whose ValueError
was answered as systemFailure.
---
 mock_ca/prot_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mock_ca/prot_handler.py b/mock_ca/prot_handler.py
index 66057de..d43aead 100644
--- a/mock_ca/prot_handler.py
+++ b/mock_ca/prot_handler.py
@@ -911,7 +911,7 @@ class ProtectionHandler:
         if not must_be_protected and body_name not in ["rr", "kur", "ccr"] and not is_protected:
             return
 
-        if not is_protected and must_be_protected:
+        if not is_protected:
             raise BadMessageCheck("The inner added protected PKIMessage protection algorithm is not set.")
 
         prot_type = ProtectedType.get_protection_type(pki_message)
-- 
2.43.0


From 6204b68f783f014770ac6d0c8e2c0a9b477c03d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:13:23 +0000
Subject: [PATCH 19/52] fix: honour bad_message_check for KEM protected
 responses

ProtectionHandler.protect_pkimessage invalidates the protection on demand for
every kind of protection but the KEM-based MAC.
---
 mock_ca/prot_handler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mock_ca/prot_handler.py b/mock_ca/prot_handler.py
index d43aead..10167be 100644
--- a/mock_ca/prot_handler.py
+++ b/mock_ca/prot_handler.py
@@ -410,6 +410,7 @@ class ProtectionHandler:
                 protected_response = protect_pkimessage_kem_based_mac(
                     pki_message=response,
                     shared_secret=ss.shared_secret,
+                    bad_message_check=bad_message_check,
                 )
                 if secondary_cert is not None:
                     protected_response["extraCerts"].append(secondary_cert)
-- 
2.43.0


From c683baa7c529a868586ec28cac816f494f72932c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:36:38 +0000
Subject: [PATCH 20/52] fix: accept every supported hash as one-way function of
 DHBasedMac

SHA-3 was accepted when building the parameters but computing the MAC raised a KeyError.
---
 resources/protectionutils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 0bb0387..62b133d 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -106,7 +106,6 @@ from resources.oidutils import (
     RSA_OID_2_NAME,
     RSASSA_PSS_OID_2_NAME,
     SHA2_NAME_2_OID,
-    SHA_OID_2_NAME,
     SUPPORTED_MAC_OID_2_NAME,
     SYMMETRIC_PROT_ALGO,
     TRAD_SIG_OID_2_NAME,
@@ -481,7 +480,10 @@ def compute_dh_based_mac_from_alg_id(
     if owf_oid["parameters"].isValue and ignore_parameters:
         raise BadDataFormat("The `owf` field must not have parameters.")
 
-    owf = SHA_OID_2_NAME[owf_oid["algorithm"]]
+    owf = get_hash_from_oid(owf_oid["algorithm"])
+    if owf is None:
+        raise BadAlg(f"Unsupported `owf` for DHBasedMAC: {may_return_oid_to_name(owf_oid['algorithm'])}")
+
     derived_key = oid_mapping.compute_hash(alg_name=owf, data=shared_secret)
 
     mac_alg_oid = params["mac"]["algorithm"]
-- 
2.43.0


From a1f7a3f67f242532d007c86700093def3c392eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:36:38 +0000
Subject: [PATCH 21/52] fix: derive the DHBasedMac key from the hashed shared
 secret for GMAC and KMAC

RFC 9810, section 5.1.3.2: BASEKEY is the output of the OWF; the raw shared secret was used as BASEKEY.
---
 resources/protectionutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 62b133d..f05a757 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -493,7 +493,7 @@ def compute_dh_based_mac_from_alg_id(
         mac = cryptoutils.compute_hmac(key=derived_key, data=data, hash_alg=mac_alg)
     elif mac_alg_oid in AES_GMAC_OID_2_NAME:
         length = _get_aes_length(AES_GMAC_OID_2_NAME[mac_alg_oid])
-        derived_key = dh_based_mac_derive_key(basekey=shared_secret, desired_length=length, owf=owf)
+        derived_key = dh_based_mac_derive_key(basekey=derived_key, desired_length=length, owf=owf)
         if not isinstance(params["mac"]["parameters"], rfc9044.GCMParameters):
             gmac_params, rest = decoder.decode(params["mac"]["parameters"], rfc9044.GCMParameters())
         else:
@@ -503,7 +503,7 @@ def compute_dh_based_mac_from_alg_id(
         mac = cryptoutils.compute_gmac(data=data, key=derived_key, iv=nonce)
 
     elif mac_alg_oid in KMAC_OID_2_NAME:
-        derived_key = dh_based_mac_derive_key(basekey=shared_secret, desired_length=32, owf=owf)
+        derived_key = dh_based_mac_derive_key(basekey=derived_key, desired_length=32, owf=owf)
         mac = cryptoutils.compute_kmac_from_alg_id(alg_id=params["mac"], data=data, key=derived_key)
     else:
         raise BadAlg(f"Unsupported MAC algorithm for DHBasedMAC: {may_return_oid_to_name(mac_alg_oid)}")
-- 
2.43.0


From 6570a1b1c9635714bfce635eda28191f62164f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:36:38 +0000
Subject: [PATCH 22/52] fix: use the owf of received PBM parameters and decode
 received GMAC parameters in compute_mac_from_alg_id

---
 resources/protectionutils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index f05a757..67ca93b 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -566,12 +566,21 @@ def compute_mac_from_alg_id(key: bytes, alg_id: rfc9480.AlgorithmIdentifier, dat
 
         salt = prot_params["salt"].asOctets()
         iterations = int(prot_params["iterationCount"])
-        hash_alg = HMAC_OID_2_NAME[prot_params["mac"]["algorithm"]].split("-")[1]
+        hash_alg_owf = get_hash_from_oid(prot_params["owf"]["algorithm"])
+        mac_hash_alg = HMAC_OID_2_NAME[prot_params["mac"]["algorithm"]].split("-")[1]
         return cryptoutils.compute_password_based_mac(
-            data=data, key=key, iterations=iterations, salt=salt, hash_alg=hash_alg
+            data=data,
+            key=key,
+            iterations=iterations,
+            salt=salt,
+            hash_alg=hash_alg_owf,  # type: ignore
+            mac_hash_alg=mac_hash_alg,
         )
 
     if protection_type_oid in AES_GMAC_OID_2_NAME:
+        if not isinstance(prot_params, rfc9044.GCMParameters):
+            prot_params, _ = decoder.decode(prot_params, rfc9044.GCMParameters())
+
         nonce = prot_params["nonce"].asOctets()
         return cryptoutils.compute_gmac(data=data, key=key, iv=nonce)
 
-- 
2.43.0


From f63412acd217d7175491c3147fcc3ea941489f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:36:38 +0000
Subject: [PATCH 23/52] fix: decode the PBKDF2 parameters of a received
 KEMBasedMac

---
 resources/protectionutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 67ca93b..1077075 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -2102,7 +2102,7 @@ def compute_kdf_from_alg_id(kdf_alg_id: rfc9480.AlgorithmIdentifier, ss: bytes,
 
     if kdf_alg_id["algorithm"] == rfc9481.id_PBKDF2:
         if not isinstance(kdf_alg_id["parameters"], rfc8018.PBKDF2_params):
-            pbkdf2_params = decoder.decode(kdf_alg_id["parameters"], asn1Spec=rfc9480.AlgorithmIdentifier())[0]
+            pbkdf2_params = decoder.decode(kdf_alg_id["parameters"], asn1Spec=rfc8018.PBKDF2_params())[0]
         else:
             pbkdf2_params = kdf_alg_id["parameters"]
 
-- 
2.43.0


From 5b9439be873540e95db6a5a96d108b178eacf10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:37:03 +0000
Subject: [PATCH 24/52] fix: sign with the hash and salt length of the
 RSASSA-PSS parameters

sign_data_with_alg_id always signed with SHA-256, so a message protected with
rsassa-pss and another hash_alg did not verify.
---
 resources/protectionutils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 1077075..1cb1afa 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -696,13 +696,15 @@ def sign_rsa_pss_data_with_alg_id(
     :param private_key: The RSA private key used for signing.
     :param data: The data to be signed.
     :param alg_id: The AlgorithmIdentifier specifying the RSASSA-PSS algorithm.
-    :param hash_alg: The hash algorithm to use for the signature. Defaults to "sha256".
+    :param hash_alg: The hash algorithm to use for the signature, if the `alg_id` has no parameters.
+    Defaults to "sha256".
     :return: The signature as a byte string.
     """
     if not alg_id["parameters"].isValue:
         salt_length = None
     elif isinstance(alg_id["parameters"], rfc8017.RSASSA_PSS_params):
         salt_length = int(alg_id["parameters"]["saltLength"])
+        hash_alg = get_hash_from_oid(alg_id["parameters"]["hashAlgorithm"]["algorithm"])
     elif isinstance(alg_id["parameters"], univ.Any):
         # TODO fix with unsafe param, for better negative testing in general.
         params, _ = try_decode_pyasn1(  # type: ignore
@@ -711,6 +713,7 @@ def sign_rsa_pss_data_with_alg_id(
         )
         params: rfc8017.RSASSA_PSS_params
         salt_length = int(params["saltLength"])
+        hash_alg = get_hash_from_oid(params["hashAlgorithm"]["algorithm"])
 
     else:
         salt_length = None
@@ -2466,7 +2469,7 @@ def sign_data_with_alg_id(  # noqa: D417 Missing argument descriptions in the do
     # TODO fix this
     if oid in RSASSA_PSS_OID_2_NAME and isinstance(key, rsa.RSAPrivateKey):
         hash_alg = get_hash_from_oid(oid, only_hash=True)
-        return cryptoutils.sign_data(key=key, data=data, hash_alg=hash_alg, use_rsa_pss=True)
+        return sign_rsa_pss_data_with_alg_id(private_key=key, data=data, alg_id=alg_id, hash_alg=hash_alg)
 
     if oid in PQ_OID_2_NAME or oid in TRAD_SIG_OID_2_NAME:
         hash_alg = get_hash_from_oid(oid, only_hash=True)
-- 
2.43.0


From c0af94976df8644a17d303c28f75577900c672b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:38:13 +0000
Subject: [PATCH 25/52] fix: accept NULL for absent parameters when allow_null
 is set

The flag was inverted in _compare_alg_id: with allow_null NULL and absent
parameters did not match, and without it equal parameters did not match.
---
 resources/protectionutils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 1cb1afa..55b436f 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -134,23 +134,24 @@ def _compare_alg_id(
 ) -> bool:
     """Compare two `AlgorithmIdentifier` structures.
 
-    If `allow_null` is True, the entire structures are DER-encoded and compared.
+    If `allow_null` is False, the entire structures are DER-encoded and compared.
 
     :param alg_id1: The first `AlgorithmIdentifier` to compare.
     :param alg_id2: The second `AlgorithmIdentifier` to compare.
     :param allow_null: If True, allows absent values to have the value `NULL` for legacy systems.
     :return: True if equal; False otherwise.
     """
-    if allow_null:
-        alg_id1_der = encoder.encode(alg_id1)
-        alg_id2_der = encoder.encode(alg_id2)
+    alg_id1_der = encoder.encode(alg_id1)
+    alg_id2_der = encoder.encode(alg_id2)
+    if not allow_null or alg_id1_der == alg_id2_der:
         return alg_id1_der == alg_id2_der
 
     if alg_id1["algorithm"] != alg_id2["algorithm"]:
         return False
 
-    if alg_id2["parameters"].isValue:
-        return False
+    for alg_id in (alg_id1, alg_id2):
+        if alg_id["parameters"].isValue and not _is_parmeters_null(alg_id):
+            return False
 
     return True
 
-- 
2.43.0


From 508b2e9f868df0e983a56311855f9d15f16d3570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:38:13 +0000
Subject: [PATCH 26/52] fix: compare the protectionAlg of the pkiconf message

With same_salt=False the response was compared a second time instead.
---
 resources/protectionutils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 55b436f..539d072 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -1657,7 +1657,10 @@ def mac_protection_algorithms_must_match(  # noqa D417 undocumented-param
                 raise ValueError("Protection algorithm mismatch between PKI Confirmation and CA response.")
         else:
             # For convenience, use the request, which must be equal.
-            _compare_mac_params(request_algo, response_algo, same_salt=same_salt, allow_null=allow_null)
+            if request_algo["algorithm"] != pki_conf_id["algorithm"]:
+                raise ValueError("Protection algorithm mismatch between PKI Confirmation and CA response.")
+
+            _compare_mac_params(request_algo, pki_conf_id, same_salt=same_salt, allow_null=allow_null)
 
 
 @not_keyword
-- 
2.43.0


From 791283cf0153c7d2e47d2240857e1e4d338749ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:38:13 +0000
Subject: [PATCH 27/52] fix: refuse messages which are not MAC-protected in the
 non-strict MAC comparison

---
 resources/protectionutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 539d072..d35a818 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -1566,7 +1566,7 @@ def _compare_not_strict_mac(
     our_type = get_protection_type_from_pkimessage(request, enforce_lwcmp=enforce_lwcmp)
     our_alg_id_name = may_return_oid_to_name(request["header"]["protectionAlg"]["algorithm"])
 
-    if server_type != our_type:
+    if server_type != our_type or our_type not in ("mac", "dh_based_mac", "kem_based_mac"):
         server_alg_id_name = may_return_oid_to_name(response["header"]["protectionAlg"]["algorithm"])
 
         raise ValueError(f"Both messages are not MAC protected. Our {our_alg_id_name}: Server {server_alg_id_name}")
-- 
2.43.0


From bdf6825e91037fcc40f5275e1b1fb6930530377f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:46:46 +0000
Subject: [PATCH 28/52] fix: derive keys with HKDF and a SHA-3 hash

The hash of hkdf-sha3-256 was read as sha3, which is unknown.
---
 resources/protectionutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index d35a818..997ccbb 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -2085,7 +2085,7 @@ def compute_kdf_from_alg_id(kdf_alg_id: rfc9480.AlgorithmIdentifier, ss: bytes,
     :raises ValueError: If the KDF algorithm is not supported, or if the hash algorithm is not recognized.
     """
     if kdf_alg_id["algorithm"] in HKDF_OID_2_NAME:
-        hash_alg = HKDF_OID_2_NAME[kdf_alg_id["algorithm"]].split("-")[1]
+        hash_alg = HKDF_OID_2_NAME[kdf_alg_id["algorithm"]].split("-", 1)[1].replace("-", "_")
         return cryptoutils.compute_hkdf(hash_alg=hash_alg, length=length, key_material=ss, info=ukm)
 
     if kdf_alg_id["algorithm"] in [rfc5990.id_kdf_kdf2, rfc5990.id_kdf_kdf3]:
-- 
2.43.0


From e41b573bd84eb630c0b1e4b6fa88543bb7ae5a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:46:46 +0000
Subject: [PATCH 29/52] fix: use a salt length of zero of the RSASSA-PSS
 parameters

It was replaced by the digest size.
---
 resources/cryptoutils.py     | 8 ++++++--
 resources/prepare_alg_ids.py | 4 +++-
 resources/protectionutils.py | 4 +---
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/resources/cryptoutils.py b/resources/cryptoutils.py
index f21652a..2ee2fcb 100644
--- a/resources/cryptoutils.py
+++ b/resources/cryptoutils.py
@@ -177,7 +177,9 @@ def sign_data_rsa_pss(
     hash_alg = "sha256" if hash_alg is None else hash_alg
     hash_algorithm = hash_name_to_instance(hash_alg)
     second_hash_algorithm = hash_name_to_instance(second_hash_alg) if second_hash_alg else hash_algorithm
-    pss_padding = padding.PSS(mgf=padding.MGF1(hash_algorithm), salt_length=salt_length or hash_algorithm.digest_size)
+    if salt_length is None:
+        salt_length = hash_algorithm.digest_size
+    pss_padding = padding.PSS(mgf=padding.MGF1(hash_algorithm), salt_length=salt_length)
     return private_key.sign(data=data, padding=pss_padding, algorithm=second_hash_algorithm)
 
 
@@ -711,10 +713,12 @@ def _verify_trad_signature(
 
     if isinstance(public_key, rsa.RSAPublicKey):
         if use_rsa_pss:
+            if salt_length is None:
+                salt_length = hash_alg.digest_size
             public_key.verify(
                 signature,
                 data,
-                padding.PSS(mgf=padding.MGF1(hash_alg), salt_length=salt_length or hash_alg.digest_size),
+                padding.PSS(mgf=padding.MGF1(hash_alg), salt_length=salt_length),
                 hash_alg,  # type: ignore
             )
         else:
diff --git a/resources/prepare_alg_ids.py b/resources/prepare_alg_ids.py
index 8f7d476..2422df9 100644
--- a/resources/prepare_alg_ids.py
+++ b/resources/prepare_alg_ids.py
@@ -681,7 +681,9 @@ def prepare_rsa_pss_alg_id(
         explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1), cloneValueFlag=True
     )
     # 20 is the default for sha1.
-    pss_params["saltLength"] = univ.Integer(value=salt_length or hash_inst.digest_size).subtype(
+    if salt_length is None:
+        salt_length = hash_inst.digest_size
+    pss_params["saltLength"] = univ.Integer(value=salt_length).subtype(
         explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 2)
     )
 
diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 997ccbb..574d238 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -1888,9 +1888,7 @@ def verify_rsassa_pss_from_alg_id(
     public_key.verify(
         signature=signature,
         data=data,
-        padding=padding.PSS(
-            mgf=padding.MGF1(algorithm=hash_algorithm), salt_length=salt_length or hash_algorithm.digest_size
-        ),
+        padding=padding.PSS(mgf=padding.MGF1(algorithm=hash_algorithm), salt_length=salt_length),
         algorithm=hash_algorithm,
     )
 
-- 
2.43.0


From 6ea138f0d4383bceb853fae72ec1535c11f88874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:46:46 +0000
Subject: [PATCH 30/52] fix: check the protectionAlg against the key of the
 certificate

Without an explicit public key only the hash of the protectionAlg was used, so
an ECDSA protectionAlg was accepted for an RSA signature.
---
 resources/protectionutils.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 574d238..93591a6 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -1340,17 +1340,13 @@ def _verify_pki_message_sig(pki_message: PKIMessageTMP, public_key: Optional[Ver
             )
         verify_rsassa_pss_from_alg_id(pub_key, data=encoded, signature=protection_value, alg_id=prot_alg_id)
     else:
-        hash_alg = get_hash_from_oid(protection_type_oid)
-        hash_alg = hash_alg if hash_alg is None else hash_alg.split("-")[-1]
-        if public_key is not None:
-            verify_signature_with_alg_id(
-                public_key=public_key, data=encoded, signature=protection_value, alg_id=prot_alg_id
-            )
-            return
+        if public_key is None:
+            cert_key = certutils.load_public_key_from_cert(pki_message["extraCerts"][0])
+            public_key = convertutils.ensure_is_verify_key(cert_key)
 
         # Raises an InvalidSignature Exception if invalid.
-        certutils.verify_signature_with_cert(
-            asn1cert=pki_message["extraCerts"][0], data=encoded, signature=protection_value, hash_alg=hash_alg
+        verify_signature_with_alg_id(
+            public_key=public_key, data=encoded, signature=protection_value, alg_id=prot_alg_id
         )
 
 
-- 
2.43.0


From a583296f3b8a863390cf4d07a705996d6f1f69bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:54:29 +0000
Subject: [PATCH 31/52] fix: verify the signature POP of every request of a
 batch

Only the POP of the first request was verified.
---
 resources/ca_ra_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index 88e7e1f..eddd38d 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -1309,7 +1309,7 @@ def verify_popo_for_cert_request(  # noqa: D417 Missing argument descriptions in
         )
 
     elif name == "signature":
-        verify_sig_pop_for_pki_request(pki_message)
+        verify_sig_pop_for_pki_request(pki_message, cert_index=cert_req_index)
     elif name == "keyEncipherment":
         public_key = get_public_key_from_cert_req_msg(cert_req_msg=cert_req_msg)
 
-- 
2.43.0


From 991227f2deacabb35299fc90cf519b3ffd12ad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:54:29 +0000
Subject: [PATCH 32/52] fix: check the request without POP for key generation,
 not the first of the batch

---
 resources/ca_ra_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index eddd38d..d10f43a 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -2382,7 +2382,7 @@ def _process_one_cert_request(
                 ) from e
 
     elif not cert_req_msg["popo"].isValue:
-        if not check_if_request_is_for_kga(request):
+        if not check_if_request_is_for_kga(request, index=cert_index):
             raise BadCertTemplate(
                 "The `popo` structure is missing in the PKIMessage."
                 "But the request is not for KGA (key generation authority)."
-- 
2.43.0


From 57df06969ae8a63ea57171045b77c28ec97b1d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:54:30 +0000
Subject: [PATCH 33/52] fix: verify the POP of p10cr messages

The CSR was looked up in the PKIMessage instead of its body.
---
 resources/ca_ra_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index d10f43a..0217461 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -2165,8 +2165,8 @@ def verify_sig_pop_for_pki_request(  # noqa: D417 Missing argument descriptions
                 "POP signature is missing in the PKIMessage.", error_details=[e.message] + e.error_details
             ) from e
 
-    elif pki_message["p10cr"]:
-        csr = pki_message["p10cr"]
+    elif body_name == "p10cr":
+        csr = pki_message["body"]["p10cr"]
         try:
             certutils.verify_csr_signature(csr)
 
-- 
2.43.0


From 8d7121f44bbacc47c00c3a65ae82c3684d1d6ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:54:30 +0000
Subject: [PATCH 34/52] fix: accept raVerified only in messages signed by the
 RA

Anyone could add the certificate of a trusted RA to a MAC-protected request.
---
 resources/ca_ra_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index 0217461..14ef918 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -91,7 +91,7 @@ from resources.oid_mapping import (
     sha_alg_name_to_oid,
 )
 from resources.oidutils import CURVE_OID_2_NAME, id_KemBasedMac
-from resources.suiteenums import InvalidOneAsymKeyType, KeySaveType
+from resources.suiteenums import InvalidOneAsymKeyType, KeySaveType, ProtectedType
 from resources.typingutils import (
     CAResponse,
     CertOrCerts,
@@ -1201,6 +1201,12 @@ def _verify_ra_verified(
 
     logging.debug("Loaded RA certificates: %d", len(ra_certs))
 
+    if not pki_message["header"]["protectionAlg"].isValue:
+        raise NotAuthorized("The PKIMessage with `raVerified` is not protected by the RA.")
+
+    if ProtectedType.get_protection_type(pki_message) in [ProtectedType.MAC, ProtectedType.DH, ProtectedType.KEM]:
+        raise NotAuthorized("The PKIMessage with `raVerified` is not signed by the RA.")
+
     if not pki_message["extraCerts"].isValue:
         raise NotAuthorized("RA certificate is missing in the PKIMessage (no `extraCerts`).")
 
-- 
2.43.0


From 1d8e2946e58dd974b3be84b17ec69d46a0105f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:54:30 +0000
Subject: [PATCH 35/52] fix: do not accept raVerified unchecked in
 KEM-protected key updates

---
 mock_ca/cert_req_handler.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mock_ca/cert_req_handler.py b/mock_ca/cert_req_handler.py
index 53da0d2..cc366f2 100644
--- a/mock_ca/cert_req_handler.py
+++ b/mock_ca/cert_req_handler.py
@@ -485,7 +485,6 @@ class CertReqHandler:
             response, certs = build_ip_cmp_message(
                 request=pki_message,
                 implicit_confirm=False,
-                verify_ra_verified=False,
                 for_mac=True,
                 **self.issuing_params,
             )
-- 
2.43.0


From e27666b40e6fbce31a55ca2e90c99ae60b8fd8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:54:30 +0000
Subject: [PATCH 36/52] fix: read the privateKey field of EncKeyWithID

---
 resources/ca_ra_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index 14ef918..c034b0c 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -2993,7 +2993,7 @@ def verify_encrypted_key_popo(
                 logging.debug(enc_key["identifier"].prettyPrint())
                 raise ValueError("EncKeyWithID identifier name mismatch.")
 
-    data = encoder.encode(enc_key["privateKeyInfo"])
+    data = encoder.encode(enc_key["privateKey"])
 
     private_key = CombinedKeyFactory.load_private_key_from_one_asym_key(data, must_be_version_2=False)
 
-- 
2.43.0


From db2e9d8780aef51c1c587e4fc949bdae8adfe4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:40:12 +0000
Subject: [PATCH 37/52] fix: decapsulate the KEM ciphertext of a challenge

The ciphertext in the generalInfo was not handed to the processing of the challenge, so version 2 challenges for KEM keys could not be answered.
---
 resources/extra_issuing_logic.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/resources/extra_issuing_logic.py b/resources/extra_issuing_logic.py
index 2d1de5d..5ab52cf 100644
--- a/resources/extra_issuing_logic.py
+++ b/resources/extra_issuing_logic.py
@@ -21,6 +21,7 @@ from robot.api.deco import keyword, not_keyword
 
 from pq_logic.keys.abstract_wrapper_keys import KEMPrivateKey, KEMPublicKey
 from pq_logic.pq_utils import is_kem_private_key, is_kem_public_key
+from pq_logic.tmp_oids import id_it_KemCiphertextInfo
 from resources import (
     asn1utils,
     ca_kga_logic,
@@ -34,7 +35,7 @@ from resources import (
     protectionutils,
     utils,
 )
-from resources.asn1_structures import ChallengeASN1, PKIMessageTMP
+from resources.asn1_structures import ChallengeASN1, KemCiphertextInfoAsn1, PKIMessageTMP
 from resources.convertutils import str_to_bytes
 from resources.cryptoutils import compute_aes_cbc, perform_ecdh
 from resources.exceptions import BadAsn1Data, BadRequest, InvalidKeyCombination
@@ -550,7 +551,8 @@ def process_pkimessage_with_popdecc(  # noqa D417 undocumented-param
             kari_cert=kwargs.get("kari_cert"),
             pki_message=pki_message,
         )
-        rand = process_simple_challenge(challenge=challenge, ee_key=ee_key, iv=iv, ca_pub_key=ca_pub_key)
+        kemct = _get_kem_ct_from_general_info(pki_message) if is_kem_private_key(ee_key) else None  # type: ignore
+        rand = process_simple_challenge(challenge=challenge, ee_key=ee_key, iv=iv, ca_pub_key=ca_pub_key, kemct=kemct)
 
     num = rand["int"]
     if expected_sender is not None:
@@ -570,6 +572,26 @@ def process_pkimessage_with_popdecc(  # noqa D417 undocumented-param
     return response
 
 
+def _get_kem_ct_from_general_info(pki_message: PKIMessageTMP) -> bytes:
+    """Extract the KEM ciphertext of the challenge from the `generalInfo` field.
+
+    :param pki_message: The PKIMessage containing the challenge.
+    :return: The KEM ciphertext.
+    :raises BadRequest: If the `KemCiphertextInfo` is absent.
+    :raises BadAsn1Data: If the `KemCiphertextInfo` has a remainder.
+    """
+    for entry in pki_message["header"]["generalInfo"]:
+        if entry["infoType"] == id_it_KemCiphertextInfo:
+            kem_ct_info = entry["infoValue"]
+            if not isinstance(kem_ct_info, KemCiphertextInfoAsn1):
+                kem_ct_info, rest = asn1utils.try_decode_pyasn1(kem_ct_info.asOctets(), KemCiphertextInfoAsn1())  # type: ignore
+                if rest:
+                    raise BadAsn1Data("KemCiphertextInfo")
+            return kem_ct_info["ct"].asOctets()
+
+    raise BadRequest("The `KemCiphertextInfo` for the challenge is missing.")
+
+
 @not_keyword
 def validate_popdecc_version(pki_message: PKIMessageTMP) -> None:
     """Validate the PKIMessage version against the presence of the encryptedRand and challenge fields.
-- 
2.43.0


From b07af89859cdd7aa35ab49a0225e463c5a23a1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:28:19 +0000
Subject: [PATCH 38/52] fix: compute the associate value of a point with the
 exact size of the order

The floating point logarithm rounded up for secp384r1, which made ECMQV incompatible with other implementations.
---
 resources/cryptoutils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resources/cryptoutils.py b/resources/cryptoutils.py
index 2ee2fcb..b8684cc 100644
--- a/resources/cryptoutils.py
+++ b/resources/cryptoutils.py
@@ -14,7 +14,6 @@ and password-based key derivation (PBKDF2).
 """
 
 import logging
-import math
 import os
 from typing import Optional, Tuple, Union
 
@@ -979,7 +978,7 @@ def perform_static_dh(
 def avf(point: Point) -> int:
     """Compute the affine value of a point P on the elliptic curve."""
     n = point.curve.field.n
-    length = math.ceil((math.floor(math.log2(n)) + 1) / 2)
+    length = (n.bit_length() + 1) // 2
     return (point.x % (2**length)) + (2**length)
 
 
-- 
2.43.0


From a11288ca09728b0e5b5bfc513bac1a50fe78eb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:28:19 +0000
Subject: [PATCH 39/52] fix: keep the leading zeros of the ECMQV shared secret

---
 resources/cryptoutils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resources/cryptoutils.py b/resources/cryptoutils.py
index b8684cc..1059dd9 100644
--- a/resources/cryptoutils.py
+++ b/resources/cryptoutils.py
@@ -1012,7 +1012,8 @@ def compute_sender_ecdh_mqv_one_pass_exchange(
         raise ValueError("Computed point is at infinity.")
 
     z = point.x
-    return z.to_bytes((z.bit_length() + 7) // 8, byteorder="big")
+    # As of RFC 5753 Section 3.2 is the field element converted with the length of the field.
+    return z.to_bytes((point.curve.field.p.bit_length() + 7) // 8, byteorder="big")
 
 
 @not_keyword
@@ -1127,4 +1128,5 @@ def compute_recipient_ecdh_mqv_one_pass_exchange(
         raise ValueError("Computed point is at infinity.")
 
     z = point.x
-    return z.to_bytes((z.bit_length() + 7) // 8, byteorder="big")
+    # As of RFC 5753 Section 3.2 is the field element converted with the length of the field.
+    return z.to_bytes((point.curve.field.p.bit_length() + 7) // 8, byteorder="big")
-- 
2.43.0


From bfa01c63d31482439ef5eaeb122dfd8c00127552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:28:19 +0000
Subject: [PATCH 40/52] fix: decrypt the EnvelopedData with the selected
 recipient info

---
 resources/ca_kga_logic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resources/ca_kga_logic.py b/resources/ca_kga_logic.py
index 1f496ed..0a1c6a7 100644
--- a/resources/ca_kga_logic.py
+++ b/resources/ca_kga_logic.py
@@ -1028,6 +1028,7 @@ def validate_enveloped_data(
         password,
         ee_key,
         cmp_protection_cert,
+        recip_index=int(recip_info_index),
         expected_size=expected_size,
         for_pop=for_pop,
         allow_rsa_null=allow_rsa_null,
-- 
2.43.0


From 6ac83bbfcbb8607f1c747342094297b8b2fe18f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:28:19 +0000
Subject: [PATCH 41/52] fix: compare the signer identifier with the key
 identifier of the KGA certificate

---
 resources/ca_kga_logic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resources/ca_kga_logic.py b/resources/ca_kga_logic.py
index 0a1c6a7..42a2080 100644
--- a/resources/ca_kga_logic.py
+++ b/resources/ca_kga_logic.py
@@ -1348,6 +1348,12 @@ def check_signer_infos(
             "The `sid` inside the `SignerInfo` structure must be the KGA certificate's subjectKeyIdentifier!"
         )
 
+    kga_ski = certextractutils.get_field_from_certificate(kga_certificate, extension="ski")
+    if sid["subjectKeyIdentifier"].asOctets() != kga_ski:
+        raise ValueError(
+            "The `sid` inside the `SignerInfo` structure does not match the KGA certificate's subjectKeyIdentifier!"
+        )
+
     sign_attr: rfc5652.SignedAttributes = signer_info["signedAttrs"]
     message_digest_value = validate_signed_attributes(sign_attr, expected_digests=int(expected_digests))
 
-- 
2.43.0


From 1b721d10eb298e76778d0eae228cdfe3704ee259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:28:33 +0000
Subject: [PATCH 42/52] fix: read and write RSAES-OAEP parameters as RFC 4055
 defines them

The hash algorithm of MGF1 is an AlgorithmIdentifier, the parameters have defaults and may hold a label.
---
 resources/envdatautils.py    |  2 +-
 resources/protectionutils.py | 53 ++++++++++++++++++++++++++----------
 2 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/resources/envdatautils.py b/resources/envdatautils.py
index b560ef4..0cdefa7 100644
--- a/resources/envdatautils.py
+++ b/resources/envdatautils.py
@@ -741,7 +741,7 @@ def _get_rsa_kari_alg_id(use_rsa_oaep: bool) -> rfc5652.KeyEncryptionAlgorithmId
     oaep_params = rfc4055.RSAES_OAEP_params()
     oaep_params["hashFunc"]["algorithm"] = rfc4055.id_sha384
     oaep_params["maskGenFunc"]["algorithm"] = rfc4055.id_mgf1
-    oaep_params["maskGenFunc"]["parameters"] = encoder.encode(rfc4055.id_sha256)
+    oaep_params["maskGenFunc"]["parameters"] = encoder.encode(rfc4055.sha256Identifier)
 
     key_enc_alg_oaep["algorithm"] = rfc4055.id_RSAES_OAEP
     key_enc_alg_oaep["parameters"] = oaep_params
diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 93591a6..1d51458 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -2406,6 +2406,22 @@ def verify_kem_based_mac_protection(
         raise BadMessageCheck("The KEMBasedMac verification failed.")
 
 
+def _get_mgf1_hash_oid(parameters: univ.Any) -> univ.ObjectIdentifier:
+    """Get the hash algorithm of MGF1, which is an `AlgorithmIdentifier` (or only its OID).
+
+    :param parameters: The DER-encoded MGF1 parameters.
+    :return: The OID of the hash algorithm.
+    :raises BadAsn1Data: If the parameters cannot be decoded.
+    """
+    data = parameters.asOctets()
+    is_oid = data[:1] == b"\x06"
+    value, rest = try_decode_pyasn1(data, univ.ObjectIdentifier() if is_oid else rfc5280.AlgorithmIdentifier())
+    if rest != b"":
+        raise BadAsn1Data("MGF1 parameters")
+
+    return value if is_oid else value["algorithm"]  # type: ignore
+
+
 @not_keyword
 def get_rsa_oaep_padding(param: rfc4055.RSAES_OAEP_params) -> padding.OAEP:
     """Generate the appropriate RSA OAEP padding configuration based on the `RSAES_OAEP_params`.
@@ -2413,23 +2429,32 @@ def get_rsa_oaep_padding(param: rfc4055.RSAES_OAEP_params) -> padding.OAEP:
     :param param: The `RSAES_OAEP_params` structure that defines the padding scheme, including the hash function,
                   mask generation function, and optional pSourceFunc.
     :return: A `cryptography` library `OAEP` padding object configured with the specified parameters.
-    :raises ValueError: If there is an error decoding the mask generation function parameters.
-    :raises NotImplementedError: If the pSourceFunc parameter is present (not supported by the implementation).
+    :raises BadAsn1Data: If there is an error decoding the parameters.
+    :raises BadAlg: If the mask generation function is not MGF1 or the pSourceFunc is not pSpecified.
     """
-    hash_name = get_hash_from_oid(param["hashFunc"]["algorithm"])
-    hash_fun = hash_name_to_instance(hash_name)  # type: ignore
-
-    data = param["maskGenFunc"]["parameters"]
-    oid, rest = decoder.decode(data, univ.ObjectIdentifier())
-    if rest != b"":
-        raise BadAsn1Data("MGF1 parameters")
-
-    mgf_hash_alg = hash_name_to_instance(get_hash_from_oid(oid))  # type: ignore
-
+    # As of RFC 4055 Section 4.1 are SHA-1, MGF1 with SHA-1 and the empty label the defaults.
+    hash_oid = rfc4055.id_sha1
+    if param["hashFunc"].isValue:
+        hash_oid = param["hashFunc"]["algorithm"]
+
+    mgf_hash_oid = rfc4055.id_sha1
+    if param["maskGenFunc"].isValue:
+        if param["maskGenFunc"]["algorithm"] != rfc4055.id_mgf1:
+            raise BadAlg("The `maskGenFunc` of RSAES-OAEP must be MGF1.")
+        mgf_hash_oid = _get_mgf1_hash_oid(param["maskGenFunc"]["parameters"])
+
+    label = None
     if param["pSourceFunc"].isValue:
-        raise NotImplementedError("pSourceFunc is not supported")
+        if param["pSourceFunc"]["algorithm"] != rfc4055.id_pSpecified:
+            raise BadAlg("The `pSourceFunc` of RSAES-OAEP must be pSpecified.")
+        label_octets, rest = try_decode_pyasn1(param["pSourceFunc"]["parameters"], univ.OctetString())  # type: ignore
+        if rest != b"":
+            raise BadAsn1Data("pSourceFunc parameters")
+        label = label_octets.asOctets()
 
-    return padding.OAEP(mgf=padding.MGF1(algorithm=mgf_hash_alg), algorithm=hash_fun, label=None)
+    hash_fun = hash_name_to_instance(get_hash_from_oid(hash_oid))  # type: ignore
+    mgf_hash_alg = hash_name_to_instance(get_hash_from_oid(mgf_hash_oid))  # type: ignore
+    return padding.OAEP(mgf=padding.MGF1(algorithm=mgf_hash_alg), algorithm=hash_fun, label=label)
 
 
 @keyword(name="Sign Data With AlgID")
-- 
2.43.0


From 6e99c5fd8b384afaef05ea681d9bc68b4637c45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:34:44 +0000
Subject: [PATCH 43/52] fix: identify the KGA by the certificate of its key

---
 resources/ca_ra_utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index c034b0c..3dfe13a 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -737,10 +737,17 @@ def prepare_private_key_for_kga(
             key_export_version=version_num,
         )
 
+    # The chain may also start with the CA certificate.
+    kga_public_key = kga_key.public_key()
+    kga_cert = next(
+        (cert for cert in kga_cert_chain if certutils.load_public_key_from_cert(cert) == kga_public_key),
+        kga_cert_chain[0],
+    )
+
     signed_data = envdatautils.prepare_signed_data(
         signing_key=kga_key,
         sig_hash_name=None,  # will automatically be set to the hash algorithm used for the KGA key.
-        cert=kga_cert_chain[0],
+        cert=kga_cert,
         private_keys=new_private_keys,
         cert_chain=kga_cert_chain,
     )
-- 
2.43.0


From dbba7e30d9df936fd0d6df46b469f561623591d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:57:39 +0000
Subject: [PATCH 44/52] fix: return the message digest of the signed attributes
 as bytes

---
 resources/ca_kga_logic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resources/ca_kga_logic.py b/resources/ca_kga_logic.py
index 42a2080..ad24463 100644
--- a/resources/ca_kga_logic.py
+++ b/resources/ca_kga_logic.py
@@ -1474,7 +1474,10 @@ def validate_signed_attributes(sign_attr: rfc5652.SignedAttributes, expected_dig
                 raise ValueError("The `id-messageDigest` `attrValues` must contain exactly one value!")
 
             val = attr["attrValues"][index]
-            message_digest_value, _ = decoder.decode(val, rfc5652.MessageDigest())
+            message_digest, rest = decoder.decode(val, rfc5652.MessageDigest())
+            if rest != b"":
+                raise BadAsn1Data("MessageDigest")
+            message_digest_value = message_digest.asOctets()
 
     if message_digest_value is None:
         raise ValueError("The `id-messageDigest` attribute was not found in the `SignedAttributes` structure!")
-- 
2.43.0


From 39d6055aec3c0fa9ccbb919f5df31d919309ad33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:57:39 +0000
Subject: [PATCH 45/52] fix: require the public key of a centrally generated
 key

---
 resources/ca_kga_logic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resources/ca_kga_logic.py b/resources/ca_kga_logic.py
index ad24463..05afb48 100644
--- a/resources/ca_kga_logic.py
+++ b/resources/ca_kga_logic.py
@@ -1544,6 +1544,9 @@ def validate_asymmetric_key_package(
             f"But Got: {int(one_asym_key['version'])}"
         )
 
+    if not one_asym_key["publicKey"].isValue:
+        raise InvalidKeyData("The `publicKey` of the `OneAsymmetricKey` structure must be present!")
+
     private_key = pq_logic.combined_factory.CombinedKeyFactory.load_private_key_from_one_asym_key(
         one_asym_key, must_be_version_2=True
     )
-- 
2.43.0


From 4ef51c487154e9414aa12eaec22cd59d808f8c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:38:23 +0000
Subject: [PATCH 46/52] fix: verify a composite signature only with the
 algorithm of the key

Of the named composite algorithm only the RSA padding was used, so that
a signature was accepted under the name of every other combination.
---
 resources/protectionutils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 1d51458..be9b663 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -2687,6 +2687,7 @@ def verify_signature_with_alg_id(  # noqa: D417 Missing argument descriptions in
     if oid in COMPOSITE_SIG_OID_TO_NAME:
         if not isinstance(public_key, CompositeSigPublicKey):
             raise TypeError(f"The public key must be a CompositeSigPublicKey. Got: {keyutils.get_key_name(public_key)}")
+        keyutils.check_consistency_sig_alg_id_and_key(alg_id, public_key)
         name = COMPOSITE_SIG_OID_TO_NAME[oid]
         use_pss = name.endswith("-pss")
         logging.debug("Verifying composite signature with name: %s", name)
-- 
2.43.0


From f9bca16c942044c04bad657f0a702d4865fff16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:38:23 +0000
Subject: [PATCH 47/52] fix: refuse X-Wing ciphertexts of the wrong length

Bytes after the ciphertext were ignored.
---
 pq_logic/keys/xwing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pq_logic/keys/xwing.py b/pq_logic/keys/xwing.py
index 0c79170..600473e 100644
--- a/pq_logic/keys/xwing.py
+++ b/pq_logic/keys/xwing.py
@@ -242,7 +242,11 @@ class XWingPrivateKey(AbstractHybridRawPrivateKey):
 
         :param ct: The ciphertext to decapsulate the shared secret from.
         :return: The shared secret.
+        :raises ValueError: If the ciphertext does not have the length of a X-Wing ciphertext.
         """
+        if len(ct) != 1120:
+            raise ValueError(f"The X-Wing ciphertext must be 1120 bytes in total, but got: {len(ct)}.")
+
         ct_M = ct[:1088]
         ct_X = ct[1088:1120]
         ss_M = self.pq_key.decaps(ct_M)
-- 
2.43.0


From e8145e32c9dc48716592c8a47538a9dbdcbe0ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:07:32 +0000
Subject: [PATCH 48/52] fix: verify composite signatures of a certificate with
 an EC key and a second certificate

The identifier of EC public keys was not recognised as traditional.
---
 pq_logic/pq_verify_logic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pq_logic/pq_verify_logic.py b/pq_logic/pq_verify_logic.py
index 8deb4ec..134cc4f 100644
--- a/pq_logic/pq_verify_logic.py
+++ b/pq_logic/pq_verify_logic.py
@@ -16,7 +16,7 @@ from typing import Iterable, List, Optional, Sequence, Tuple, Union
 from cryptography.exceptions import InvalidSignature
 from pyasn1.codec.der import decoder, encoder
 from pyasn1.type import constraint, tag, univ
-from pyasn1_alt_modules import rfc5280, rfc9480
+from pyasn1_alt_modules import rfc5280, rfc6664, rfc9480
 from robot.api.deco import keyword
 
 from pq_logic.hybrid_sig import (
@@ -195,7 +195,11 @@ def verify_composite_signature_with_hybrid_cert(  # noqa D417 undocumented-param
 
     cert_sig_alg = cert["tbsCertificate"]["subjectPublicKeyInfo"]["algorithm"]["algorithm"]
 
-    if cert_sig_alg in MSG_SIG_ALG or str(cert_sig_alg) in TRAD_STR_OID_TO_KEY_NAME:
+    if (
+        cert_sig_alg in MSG_SIG_ALG
+        or str(cert_sig_alg) in TRAD_STR_OID_TO_KEY_NAME
+        or cert_sig_alg == rfc6664.id_ecPublicKey
+    ):
         logging.info("The certificate contains a traditional signature algorithm.")
         _verify_signature_with_other_cert(cert, sig_alg, data, signature, other_certs=other_certs)
         return
-- 
2.43.0


From 58bde48ee91b81a0d152dc62a8bd281ea730f092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:07:32 +0000
Subject: [PATCH 49/52] fix: leave a message unchanged when its alternative
 signature is verified

The alternative signature was removed, so that the message could not be verified again.
---
 pq_logic/pq_verify_logic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pq_logic/pq_verify_logic.py b/pq_logic/pq_verify_logic.py
index 134cc4f..de6752c 100644
--- a/pq_logic/pq_verify_logic.py
+++ b/pq_logic/pq_verify_logic.py
@@ -600,8 +600,10 @@ def verify_hybrid_pkimessage_protection(  # noqa D417 undocumented-param
         else:
             other_key = may_extract_alt_key_from_cert(cert=cert, other_certs=other_certs)
 
+        general_info = pki_message["header"]["generalInfo"]
         pki_message["header"]["generalInfo"] = other_fields
         data = protectionutils.prepare_protected_part(pki_message)
+        pki_message["header"]["generalInfo"] = general_info
         other_key = convertutils.ensure_is_verify_key(other_key)
         try:
             protectionutils.verify_signature_with_alg_id(
-- 
2.43.0


From 4f6d9b3b87b041f0621a1fc981c7b022c30b0dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:07:32 +0000
Subject: [PATCH 50/52] fix: verify a message with the given public key

The given key was ignored for signatures which are not composite.
---
 pq_logic/pq_verify_logic.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pq_logic/pq_verify_logic.py b/pq_logic/pq_verify_logic.py
index de6752c..c517526 100644
--- a/pq_logic/pq_verify_logic.py
+++ b/pq_logic/pq_verify_logic.py
@@ -569,13 +569,14 @@ def verify_hybrid_pkimessage_protection(  # noqa D417 undocumented-param
             other_certs=other_certs,
         )
     else:
-        cert = pki_message["extraCerts"][0]
+        cert = None
         other_certs = None
-        if len(pki_message) > 1:
+        if pki_message["extraCerts"].isValue:
+            cert = pki_message["extraCerts"][0]
             other_certs = pki_message["extraCerts"][1:]
 
         public_key = convertutils.ensure_is_verify_key(
-            certutils.load_public_key_from_cert(pki_message["extraCerts"][0])
+            public_key or certutils.load_public_key_from_cert(pki_message["extraCerts"][0])
         )
         protectionutils.verify_signature_with_alg_id(
             public_key=public_key,
@@ -597,8 +598,10 @@ def verify_hybrid_pkimessage_protection(  # noqa D417 undocumented-param
 
         if public_key_info is not None:
             other_key = keyutils.load_public_key_from_spki(public_key_info)
-        else:
+        elif cert is not None:
             other_key = may_extract_alt_key_from_cert(cert=cert, other_certs=other_certs)
+        else:
+            other_key = None
 
         general_info = pki_message["header"]["generalInfo"]
         pki_message["header"]["generalInfo"] = other_fields
-- 
2.43.0


From 6ce1a9fc3c755d526707e307612ffa4eaa3e8fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:07:47 +0000
Subject: [PATCH 51/52] fix: verify a CRL which has extensions but no
 alternative signature

Every CRL with extensions was required to have an alternative signature.
---
 pq_logic/pq_verify_logic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pq_logic/pq_verify_logic.py b/pq_logic/pq_verify_logic.py
index c517526..33835b0 100644
--- a/pq_logic/pq_verify_logic.py
+++ b/pq_logic/pq_verify_logic.py
@@ -685,7 +685,9 @@ def verify_crl_signature(  # noqa D417 undocumented-param
             else:
                 alt_extn.append(extn)
 
-        crl["tbsCertList"]["crlExtensions"] = alt_extn
+        if alt_sig_alg is None and alt_sig_value is None and not must_be_catalyst_signed:
+            return
+
         if alt_sig_alg is None:
             raise ValueError("The CRL does not contain an alternative signature algorithm.")
 
-- 
2.43.0


From 246f4fb8448bef9a8a122805e5ab6c862cef61fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:07:47 +0000
Subject: [PATCH 52/52] fix: leave a CRL unchanged when its alternative
 signature is verified

The alternative signature was removed, so that the CRL could not be verified again.
---
 pq_logic/pq_verify_logic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pq_logic/pq_verify_logic.py b/pq_logic/pq_verify_logic.py
index 33835b0..5719d65 100644
--- a/pq_logic/pq_verify_logic.py
+++ b/pq_logic/pq_verify_logic.py
@@ -697,7 +697,9 @@ def verify_crl_signature(  # noqa D417 undocumented-param
         if alt_sig_value is None:
             raise ValueError("The CRL does not contain an alternative signature.")
 
+        crl["tbsCertList"]["crlExtensions"] = alt_extn
         data = encoder.encode(crl["tbsCertList"]) + encoder.encode(crl["signatureAlgorithm"])
+        crl["tbsCertList"]["crlExtensions"] = crl_extensions
         alt_public_key = convertutils.ensure_is_verify_key(alt_public_key)
         try:
             protectionutils.verify_signature_with_alg_id(
-- 
2.43.0

