From ff6189980bec0125631b50ecdeeb972c1f1c7254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 01/15] fix: reject messages shorter than a header instead of
 panicking

Msg::parse_header asserted on the length of a received message, so any peer
could take down a requester or responder with a one or two byte message.
---
 src/msgs/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/msgs/mod.rs b/src/msgs/mod.rs
index 0f47a7c..df3e2dd 100644
--- a/src/msgs/mod.rs
+++ b/src/msgs/mod.rs
@@ -63,10 +63,11 @@ pub trait Msg {
     /// Return `Ok(true)` if the writed header is of the given type and has a correct version.
     /// Return `Ok(false)` if the header is another message type.
     /// Return an error if the version is wrong for a GetVersion message.
-    ///
-    /// Prerequisite buf >= 2 bytes
+    /// Return an error if `buf` is too short to contain a header.
     fn parse_header(buf: &[u8]) -> Result<bool, ParseHeaderError> {
-        assert!(buf.len() > 2);
+        if buf.len() < HEADER_SIZE {
+            return Err(ParseHeaderError);
+        }
         if buf[1] != Self::SPDM_CODE {
             Ok(false)
         } else {
-- 
2.43.0


From de842ead6385ca7e7117684340217a84eeab4a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 02/15] fix: report a certificate that is not a DER sequence
 instead of panicking

CertificateChain::parse runs on the chain received from the responder, so the
leading tag is not under our control.
---
 src/msgs/certificates.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/msgs/certificates.rs b/src/msgs/certificates.rs
index ba20fad..fd4d660 100644
--- a/src/msgs/certificates.rs
+++ b/src/msgs/certificates.rs
@@ -303,7 +303,9 @@ impl<'a> CertificateChain<'a> {
         r: &mut Reader,
     ) -> Result<(usize, usize), ParseCertificateChainError> {
         // Skip the sequence byte
-        assert_eq!(r.get_byte()?, 0x30);
+        if r.get_byte()? != 0x30 {
+            return Err(ParseCertificateChainError::BadDerEncoding);
+        }
 
         let pair = match r.get_byte()? {
             n if (n & 0x80) == 0 => (n.into(), 2),
-- 
2.43.0


From b451d6b19d4689cf54284ff44e80d061f82168d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 03/15] fix: do not panic when encoding a signature with an all
 zero r or s

bin_to_der runs on the signature received in a CHALLENGE_AUTH message. Zero is
not a valid r or s, so signature verification rejects the encoded result.
---
 src/crypto/pki.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crypto/pki.rs b/src/crypto/pki.rs
index c501773..55bc4e3 100644
--- a/src/crypto/pki.rs
+++ b/src/crypto/pki.rs
@@ -97,7 +97,8 @@ pub fn bin_to_der(signature: &[u8], out: &mut [u8]) -> usize {
 // Take an integer (`r` or `s`) and return as a pair its start location and its
 // size including any necessary pad bytes.
 fn get_start_and_length(i: &[u8]) -> (usize, usize) {
-    let start = i.iter().position(|b| *b != 0).unwrap();
+    // An integer of all zeros is encoded as a single zero byte.
+    let start = i.iter().position(|b| *b != 0).unwrap_or(i.len() - 1);
     let pad = if i[start] & 0x80 != 0 { 1 } else { 0 };
     let length = i.len() - start + pad;
     (start, length)
-- 
2.43.0


From 7d6f737e3090f5959fa475834fca84fbcf5582f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 04/15] fix: bound opaque data received from a peer by the
 configured maximums

The element count and the element length of opaque data are chosen by the
peer. Values beyond MAX_OPAQUE_ELEMENTS or MAX_OPAQUE_ELEMENT_DATA_SIZE indexed
past the end of fixed size arrays and panicked.
---
 src/msgs/common.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/msgs/common.rs b/src/msgs/common.rs
index ce93c81..3fa5f48 100644
--- a/src/msgs/common.rs
+++ b/src/msgs/common.rs
@@ -13,6 +13,9 @@ use core::convert::{From, TryFrom, TryInto};
 pub enum ParseOpaqueDataError {
     Read(ReadError),
     ParseOpaqueElement(ParseOpaqueElementError),
+
+    // There are more elements than `config::MAX_OPAQUE_ELEMENTS`
+    MaxElementsExceeded,
 }
 
 impl From<ReadError> for ParseOpaqueDataError {
@@ -55,6 +58,9 @@ impl OpaqueData {
     pub fn read(r: &mut Reader) -> Result<OpaqueData, ParseOpaqueDataError> {
         let total_elements = r.get_byte()?;
         r.skip_reserved(3)?;
+        if total_elements as usize > config::MAX_OPAQUE_ELEMENTS {
+            return Err(ParseOpaqueDataError::MaxElementsExceeded);
+        }
         let mut elements =
             [OpaqueElement::default(); config::MAX_OPAQUE_ELEMENTS];
         for i in 0..total_elements as usize {
@@ -85,6 +91,9 @@ pub enum ParseOpaqueElementError {
     // The vendor Id does not match the registry format
     InvalidVendorId,
 
+    // The data is larger than `config::MAX_OPAQUE_ELEMENT_DATA_SIZE`
+    MaxDataSizeExceeded,
+
     ParseVendorRegistryId,
     ParseVendorId(ParseVendorIdError),
 }
@@ -191,6 +200,9 @@ impl OpaqueElement {
 
         let vendor_id = VendorId::read(r, vendor_id_len)?;
         let data_len = r.get_u16()?;
+        if data_len as usize > config::MAX_OPAQUE_ELEMENT_DATA_SIZE {
+            return Err(ParseOpaqueElementError::MaxDataSizeExceeded);
+        }
         let mut data = [0u8; config::MAX_OPAQUE_ELEMENT_DATA_SIZE];
         r.get_slice(data_len as usize, &mut data)?;
         let bytes_read = 4 + vendor_id_len as usize + data_len as usize;
-- 
2.43.0


From dd44295b6b52e6b9b39a002252db20f2198f22b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 05/15] fix: accept a CHALLENGE_AUTH message without opaque
 data

A length of 0 means that there is no opaque data field, but the parser took
the start of the signature for it.
---
 src/msgs/challenge.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/msgs/challenge.rs b/src/msgs/challenge.rs
index 244869b..0746715 100644
--- a/src/msgs/challenge.rs
+++ b/src/msgs/challenge.rs
@@ -245,7 +245,12 @@ impl ChallengeAuth {
         if opaque_data_len as usize > MAX_OPAQUE_DATA_SIZE {
             return Err(ParseChallengeAuthError::MaxOpaqueDataSizeExceeded);
         }
-        let opaque_data = OpaqueData::read(&mut r)?;
+        // The opaque data is absent if its length is 0
+        let opaque_data = if opaque_data_len == 0 {
+            OpaqueData::default()
+        } else {
+            OpaqueData::read(&mut r)?
+        };
         let signature = SignatureBuf::read(signature_size, &mut r)?;
 
         Ok(ChallengeAuth {
-- 
2.43.0


From 8ceff37b8d8fe54825b9f0eb776e1badc62ea48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 06/15] fix: keep the slot in a CHALLENGE_AUTH that requests
 mutual authentication

Masking the slot with bit 7 always wrote zero: the slot was lost and the
mutual authentication bit was not set.
---
 src/msgs/challenge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msgs/challenge.rs b/src/msgs/challenge.rs
index 0746715..696f0c9 100644
--- a/src/msgs/challenge.rs
+++ b/src/msgs/challenge.rs
@@ -166,7 +166,7 @@ impl Msg for ChallengeAuth {
     ) -> Result<usize, WriteChallengeAuthError> {
         self.validate()?;
         if self.use_mutual_auth {
-            w.put(self.slot & (1 << 7))?;
+            w.put(self.slot | (1 << 7))?;
         } else {
             w.put(self.slot)?;
         }
-- 
2.43.0


From 3f02ab4261a19d1201784350c98938f7aaa88ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 07/15] fix: select only algorithms that were offered and are
 supported

The responder picked the lowest bit offered without regard to what it
implements, and hashing or sizing a signature with such a selection panicked
later on. An empty offer overflowed the shift, which selected an algorithm that
was not offered or panicked. Answer such requests with an error instead.
---
 src/responder/algorithms.rs | 70 ++++++++++++++++++++++++-------------
 src/responder/error.rs      | 16 ++++++++-
 2 files changed, 60 insertions(+), 26 deletions(-)

diff --git a/src/responder/algorithms.rs b/src/responder/algorithms.rs
index addb978..9a0af8d 100644
--- a/src/responder/algorithms.rs
+++ b/src/responder/algorithms.rs
@@ -3,6 +3,8 @@
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
 use super::{capabilities, expect, id_auth, AllStates, ResponderError};
+use crate::config;
+use crate::crypto::ProvidedDigests;
 use crate::msgs::algorithms::*;
 use crate::msgs::capabilities::{ReqFlags, RspFlags};
 use crate::msgs::{Msg, HEADER_SIZE};
@@ -46,7 +48,7 @@ impl State {
         let req_msg = NegotiateAlgorithms::parse_body(&req[HEADER_SIZE..])?;
         transcript.extend(req)?;
 
-        let algorithms = self.choose_algorithms(req_msg);
+        let algorithms = self.choose_algorithms(req_msg)?;
         let size = algorithms.write(rsp)?;
         transcript.extend(&rsp[..size])?;
         self.algorithms = Some(algorithms);
@@ -55,7 +57,7 @@ impl State {
     }
 
     // We use the simplest mechanism possible here and just choose the first set
-    // bit for each algorithm.
+    // bit for each algorithm, out of those we support.
     //
     // TODO: Allow the user to choose which algorithms it can utilize, or
     // encapsulate that in a type/trait ?
@@ -63,56 +65,65 @@ impl State {
     // TODO: Allow the user to pass priorities? It really seems like the
     // requester should be the one prioritizing though! Unfortunately, SPDM
     // doesn't appear to have a mechanism for that.
-    fn choose_algorithms(&self, req: NegotiateAlgorithms) -> Algorithms {
+    fn choose_algorithms(
+        &self,
+        req: NegotiateAlgorithms,
+    ) -> Result<Algorithms, ResponderError> {
         let mut rsp = Algorithms::default();
 
         rsp.measurement_spec_selected = req.measurement_spec;
 
-        let first_bit_set = req.base_hash_algo.bits().trailing_zeros();
+        let hash_algos =
+            req.base_hash_algo & ProvidedDigests::supported_algorithms();
+        let selected = first_set_bit(hash_algos.bits())?;
         rsp.measurement_hash_algo_selected =
-            BaseHashAlgo::from_bits(1 << first_bit_set).unwrap();
+            BaseHashAlgo::from_bits_truncate(selected);
         rsp.base_hash_algo_selected = rsp.measurement_hash_algo_selected;
 
-        let first_bit_set = req.base_asym_algo.bits().trailing_zeros();
+        let mut signing_algos = BaseAsymAlgo::default();
+        for s in config::ALGORITHMS_ASYMMETRIC_SIGNING {
+            signing_algos |= s.parse()?;
+        }
+        let asym_algos = req.base_asym_algo & signing_algos;
+        let selected = first_set_bit(asym_algos.bits())?;
         rsp.base_asym_algo_selected =
-            BaseAsymAlgo::from_bits(1 << first_bit_set).unwrap();
+            BaseAsymAlgo::from_bits_truncate(selected);
 
         rsp.num_algorithm_responses = req.num_algorithm_requests;
 
         for i in 0..rsp.num_algorithm_responses as usize {
             match &req.algorithm_requests[i] {
                 AlgorithmRequest::Dhe(algo) => {
-                    let first_bit_set = algo.supported.bits().trailing_zeros();
+                    let selected = first_set_bit(algo.supported.bits().into())?;
                     let supported =
-                        DheFixedAlgorithms::from_bits(1 << first_bit_set)
-                            .unwrap();
+                        DheFixedAlgorithms::from_bits_truncate(selected as u16);
                     let algo = DheAlgorithm { supported };
                     rsp.algorithm_responses[i] = AlgorithmResponse::Dhe(algo);
                 }
                 AlgorithmRequest::Aead(algo) => {
-                    let first_bit_set = algo.supported.bits().trailing_zeros();
-                    let supported =
-                        AeadFixedAlgorithms::from_bits(1 << first_bit_set)
-                            .unwrap();
+                    let selected = first_set_bit(algo.supported.bits().into())?;
+                    let supported = AeadFixedAlgorithms::from_bits_truncate(
+                        selected as u16,
+                    );
                     let algo = AeadAlgorithm { supported };
                     rsp.algorithm_responses[i] = AlgorithmResponse::Aead(algo);
                 }
                 AlgorithmRequest::ReqBaseAsym(algo) => {
-                    let first_bit_set = algo.supported.bits().trailing_zeros();
-                    let supported = ReqBaseAsymFixedAlgorithms::from_bits(
-                        1 << first_bit_set,
-                    )
-                    .unwrap();
+                    let selected = first_set_bit(algo.supported.bits().into())?;
+                    let supported =
+                        ReqBaseAsymFixedAlgorithms::from_bits_truncate(
+                            selected as u16,
+                        );
                     let algo = ReqBaseAsymAlgorithm { supported };
                     rsp.algorithm_responses[i] =
                         AlgorithmResponse::ReqBaseAsym(algo);
                 }
                 AlgorithmRequest::KeySchedule(algo) => {
-                    let first_bit_set = algo.supported.bits().trailing_zeros();
-                    let supported = KeyScheduleFixedAlgorithms::from_bits(
-                        1 << first_bit_set,
-                    )
-                    .unwrap();
+                    let selected = first_set_bit(algo.supported.bits().into())?;
+                    let supported =
+                        KeyScheduleFixedAlgorithms::from_bits_truncate(
+                            selected as u16,
+                        );
                     let algo = KeyScheduleAlgorithm { supported };
                     rsp.algorithm_responses[i] =
                         AlgorithmResponse::KeySchedule(algo);
@@ -120,6 +131,15 @@ impl State {
             }
         }
 
-        rsp
+        Ok(rsp)
+    }
+}
+
+// Return a value with only the least significant set bit of `bits`.
+fn first_set_bit(bits: u32) -> Result<u32, ResponderError> {
+    if bits == 0 {
+        Err(ResponderError::NoSupportedAlgorithm)
+    } else {
+        Ok(1 << bits.trailing_zeros())
     }
 }
diff --git a/src/responder/error.rs b/src/responder/error.rs
index 2ffe186..3a22843 100644
--- a/src/responder/error.rs
+++ b/src/responder/error.rs
@@ -4,7 +4,7 @@
 
 use crate::msgs::{
     self,
-    algorithms::ParseNegotiateAlgorithmsError,
+    algorithms::{ParseBaseAsymAlgoError, ParseNegotiateAlgorithmsError},
     capabilities::{ParseGetCapabilitiesError, ParseRspCapabilityError},
     certificates::WriteCertificateChainError,
     challenge::{ParseChallengeError, WriteChallengeAuthError},
@@ -38,6 +38,12 @@ pub enum ResponderError {
     // Parsing a NegotiateAlgorithms message failed
     ParseNegotiateAlgorithms(ParseNegotiateAlgorithmsError),
 
+    // The requester did not offer any algorithm that we support
+    NoSupportedAlgorithm,
+
+    // Parsing a base asymetric signing algorithm type from a string failed
+    ParseBaseAsymAlgo,
+
     // Parsing a GetCapabilities message failed
     ParseGetCapabilities(ParseGetCapabilitiesError),
 
@@ -87,6 +93,12 @@ impl From<ParseNegotiateAlgorithmsError> for ResponderError {
     }
 }
 
+impl From<ParseBaseAsymAlgoError> for ResponderError {
+    fn from(_: ParseBaseAsymAlgoError) -> Self {
+        ResponderError::ParseBaseAsymAlgo
+    }
+}
+
 impl From<ParseRspCapabilityError> for ResponderError {
     fn from(_: ParseRspCapabilityError) -> Self {
         ResponderError::ParseCapability
@@ -133,6 +145,8 @@ impl From<&ResponderError> for msgs::Error {
             ResponderError::ParseNegotiateAlgorithms(_) => {
                 msgs::Error::InvalidRequest
             }
+            ResponderError::NoSupportedAlgorithm => msgs::Error::InvalidRequest,
+            ResponderError::ParseBaseAsymAlgo => msgs::Error::Unspecified,
             ResponderError::ParseChallenge(
                 ParseChallengeError::InvalidMeasurementHashType,
             ) => msgs::Error::InvalidRequest,
-- 
2.43.0


From be2fcc2a70e3dbe95aadfff15621c9cc2fba3bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 08/15] fix: fail when a signer returns a signature of the
 wrong size

Copying it into the CHALLENGE_AUTH message panicked.
---
 src/responder/challenge.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/responder/challenge.rs b/src/responder/challenge.rs
index 33d8c72..4abe74c 100644
--- a/src/responder/challenge.rs
+++ b/src/responder/challenge.rs
@@ -127,6 +127,10 @@ impl State {
             .sign(m1_hash.as_ref())
             .map_err(|_| ResponderError::SigningFailed)?;
 
+        if signature.as_ref().len() != usize::from(signature_size) {
+            return Err(ResponderError::SigningFailed);
+        }
+
         // Attach the real signature to the CHALLENGE_AUTH message
         rsp[sig_start..size].copy_from_slice(signature.as_ref());
 
-- 
2.43.0


From e7b6a2bcc5f909e5c9448ac542578a8aeb55b217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 09/15] fix: reject a certificate for a slot other than the
 requested one

The requester took whatever slot the responder named in its CERTIFICATE
message and went on to challenge that slot.
---
 src/requester/error.rs   | 3 +++
 src/requester/id_auth.rs | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/requester/error.rs b/src/requester/error.rs
index 935008c..e4e76d3 100644
--- a/src/requester/error.rs
+++ b/src/requester/error.rs
@@ -42,6 +42,9 @@ pub enum RequesterError {
     // The challenge auth response was invalid
     ChallengeAuth(ChallengeAuthError),
 
+    // The responder sent the certificate for a slot that was not requested
+    IncorrectSlot,
+
     // A certificate could not be parsed properly
     ParseCert(ParseCertificateError),
     InvalidCert,
diff --git a/src/requester/id_auth.rs b/src/requester/id_auth.rs
index 7b03722..9319cf6 100644
--- a/src/requester/id_auth.rs
+++ b/src/requester/id_auth.rs
@@ -40,6 +40,7 @@ pub struct State {
     // key of the responder was provisioned in a trusted environment or if
     // CAP_PSK is enabled.
     pub digests: Option<Digests>,
+    pub requested_slot: Option<u8>,
     pub cert_chain: Option<Certificate>,
 }
 
@@ -53,6 +54,7 @@ impl From<algorithms::State> for State {
             responder_cap: s.responder_cap,
             algorithms: s.algorithms.unwrap(),
             digests: None,
+            requested_slot: None,
             cert_chain: None,
         }
     }
@@ -112,6 +114,7 @@ impl State {
         };
         let size = msg.write(buf)?;
         transcript.extend(&buf[..size])?;
+        self.requested_slot = Some(slot);
         Ok(&buf[..size])
     }
 
@@ -123,6 +126,9 @@ impl State {
     ) -> Result<(), RequesterError> {
         expect::<Certificate>(buf)?;
         let cert = Certificate::parse_body(&buf[HEADER_SIZE..])?;
+        if self.requested_slot != Some(cert.slot) {
+            return Err(RequesterError::IncorrectSlot);
+        }
         self.cert_chain = Some(cert);
         transcript.extend(buf)?;
         Ok(())
-- 
2.43.0


From 8cd89a9aa1797d4c5b507c00fc1e23aae1920f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 10/15] fix: parse the body of GET_DIGESTS requests

Truncated requests and requests with reserved bytes set were answered.
---
 src/responder/id_auth.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/responder/id_auth.rs b/src/responder/id_auth.rs
index a47e3b7..8400b12 100644
--- a/src/responder/id_auth.rs
+++ b/src/responder/id_auth.rs
@@ -117,6 +117,8 @@ impl State {
         rsp: &mut [u8],
         transcript: &mut Transcript,
     ) -> Result<(usize, AllStates), ResponderError> {
+        let _ = GetDigests::parse_body(&req[HEADER_SIZE..])?;
+
         let slot_mask = create_slot_mask(cert_chains);
         let digests = self.hash_cert_chains(cert_chains)?;
 
-- 
2.43.0


From 80f93ecbb0a4dfc2a975c6014741c66d78c3c1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:42 +0000
Subject: [PATCH 11/15] fix: refuse certificate and challenge requests that
 were not advertised

A responder whose configuration does not include CERT_CAP or CHAL_CAP still
served GET_DIGESTS, GET_CERTIFICATE and CHALLENGE, and signed for the latter.
Without a crypto provider these requests panicked.
---
 src/responder/challenge.rs | 9 +++++++++
 src/responder/id_auth.rs   | 8 ++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/responder/challenge.rs b/src/responder/challenge.rs
index 4abe74c..8fb4f69 100644
--- a/src/responder/challenge.rs
+++ b/src/responder/challenge.rs
@@ -51,6 +51,15 @@ impl State {
     ) -> Result<(usize, AllStates), ResponderError> {
         reset_on_get_version!(req, rsp, transcript);
         expect::<Challenge>(req)?;
+
+        // Challenges are only answered if we advertised them
+        if !self.responder_cap.contains(RspFlags::CHAL_CAP) {
+            return Err(ResponderError::UnexpectedMsgCode {
+                expected: GetVersion::SPDM_CODE,
+                got: req[1],
+            });
+        }
+
         let digest_size =
             self.algorithms.base_hash_algo_selected.get_digest_size();
         let signature_size =
diff --git a/src/responder/id_auth.rs b/src/responder/id_auth.rs
index 8400b12..56f8a31 100644
--- a/src/responder/id_auth.rs
+++ b/src/responder/id_auth.rs
@@ -65,6 +65,14 @@ impl State {
     ) -> Result<(usize, AllStates), ResponderError> {
         reset_on_get_version!(req, rsp, transcript);
 
+        // Certificates are only available if we advertised them
+        if !self.responder_cap.contains(RspFlags::CERT_CAP) {
+            return Err(ResponderError::UnexpectedMsgCode {
+                expected: GetVersion::SPDM_CODE,
+                got: req[1],
+            });
+        }
+
         if GetDigests::parse_header(req)? {
             return self.handle_get_digests(cert_chains, req, rsp, transcript);
         }
-- 
2.43.0


From 47b497f2ad47445e2441a08764a32d984d36011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 12/15] fix: use the negotiated version in ERROR messages

Only version 1.1 (and 1.0) can be negotiated, but errors were sent as 1.2.
---
 src/msgs/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msgs/error.rs b/src/msgs/error.rs
index 4ca950e..28b56c6 100644
--- a/src/msgs/error.rs
+++ b/src/msgs/error.rs
@@ -91,7 +91,7 @@ pub struct ResponseNotReady {
 
 impl Msg for Error {
     const NAME: &'static str = "ERROR";
-    const SPDM_VERSION: u8 = 0x12;
+    const SPDM_VERSION: u8 = 0x11;
     const SPDM_CODE: u8 = 0x7F;
 
     type WriteError = BufferFullError;
-- 
2.43.0


From 22c327c70b92946d18e5050e1d8c5b13e0065a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:21 +0000
Subject: [PATCH 13/15] fix: reject a response that does not follow a request

Responses were handled even if the corresponding request had not been written
yet, as happens when the transport duplicates a response. Depending on the
state, the requester panicked or went on without the request.
---
 src/requester.rs       | 18 +++++++++++++++++-
 src/requester/error.rs |  3 +++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/requester.rs b/src/requester.rs
index 9f5022d..b267526 100644
--- a/src/requester.rs
+++ b/src/requester.rs
@@ -60,6 +60,9 @@ struct RequesterData<'a, S: Signer> {
     // This Option allows us to move between AllStates variants at runtime, without having
     // to take self by value.
     state: Option<AllStates>,
+
+    // Has a request been written whose response was not yet handled?
+    awaiting_response: bool,
 }
 
 /// The `RequesterInit` state handles the "autonomous" part of the
@@ -94,6 +97,7 @@ impl<'a, S: Signer> RequesterInit<'a, S> {
                 slots,
                 transcript: Transcript::new(),
                 state: Some(version::State {}.into()),
+                awaiting_response: false,
             },
         }
     }
@@ -112,7 +116,9 @@ impl<'a, S: Signer> RequesterInit<'a, S> {
         if let AllStates::NewSession = state {
             return Err(RequesterError::InitializationComplete);
         }
-        state.write_req(buf, &mut self.data.transcript)
+        let req = state.write_req(buf, &mut self.data.transcript)?;
+        self.data.awaiting_response = true;
+        Ok(req)
     }
 
     /// The user calls `handle_msg` when a response is received over the
@@ -120,10 +126,20 @@ impl<'a, S: Signer> RequesterInit<'a, S> {
     ///
     /// `Ok(true)` will be returned when initialization is complete. At this
     /// point the user should call the `begin_session` method.
+    ///
+    /// A message that does not follow a request is an error.
     pub fn handle_msg<'b>(
         &mut self,
         rsp: &[u8],
     ) -> Result<bool, RequesterError> {
+        if let Some(AllStates::NewSession) = self.data.state {
+            return Err(RequesterError::InitializationComplete);
+        }
+        if !self.data.awaiting_response {
+            self.data.state = Some(AllStates::Error);
+            return Err(RequesterError::UnexpectedResponse);
+        }
+        self.data.awaiting_response = false;
         let state = self.data.state.take().unwrap();
         match state.handle_msg(
             rsp,
diff --git a/src/requester/error.rs b/src/requester/error.rs
index e4e76d3..c5c1c19 100644
--- a/src/requester/error.rs
+++ b/src/requester/error.rs
@@ -31,6 +31,9 @@ pub enum RequesterError {
         got: u8,
     },
 
+    // A response was received without a preceding request
+    UnexpectedResponse,
+
     /// The responder does not support the same versions as the requester
     NoSupportedVersions {
         received: Version,
-- 
2.43.0


From 5f399b6df26e107fa6cfe84704ec6be874aa1e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:06 +0000
Subject: [PATCH 14/15] fix: offer only hash algorithms that fit
 max_digest_size

With max_digest_size = 32 a negotiated SHA-384 or SHA-512 panicked when the
first digest was taken.
---
 src/crypto/ring/digest.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/crypto/ring/digest.rs b/src/crypto/ring/digest.rs
index 9f97343..c2c399f 100644
--- a/src/crypto/ring/digest.rs
+++ b/src/crypto/ring/digest.rs
@@ -6,6 +6,7 @@ use core::convert::{TryFrom, TryInto};
 use crypto::digest::Digest;
 use ring_compat::digest::{Sha256, Sha384, Sha512};
 
+use crate::config;
 use crate::crypto::digest::Digests;
 use crate::impl_digests;
 use crate::msgs::algorithms::BaseHashAlgo;
@@ -19,8 +20,20 @@ impl_digests!(
 );
 
 impl ProvidedDigests {
+    /// Only algorithms whose digests fit in `config::MAX_DIGEST_SIZE` bytes
+    /// can be used.
     pub fn supported_algorithms() -> BaseHashAlgo {
-        BaseHashAlgo::SHA_256 | BaseHashAlgo::SHA_384 | BaseHashAlgo::SHA_512
+        let mut algos = BaseHashAlgo::default();
+        if config::MAX_DIGEST_SIZE >= 32 {
+            algos |= BaseHashAlgo::SHA_256;
+        }
+        if config::MAX_DIGEST_SIZE >= 48 {
+            algos |= BaseHashAlgo::SHA_384;
+        }
+        if config::MAX_DIGEST_SIZE >= 64 {
+            algos |= BaseHashAlgo::SHA_512;
+        }
+        algos
     }
 }
 
-- 
2.43.0


From 526b65036f3527aaffaf679795e6641774761658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:06 +0000
Subject: [PATCH 15/15] fix: ask for 65535 certificate bytes, not 0, with a 64
 KiB buffer

---
 src/requester/id_auth.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/requester/id_auth.rs b/src/requester/id_auth.rs
index 9319cf6..eec2ce5 100644
--- a/src/requester/id_auth.rs
+++ b/src/requester/id_auth.rs
@@ -110,7 +110,7 @@ impl State {
         let msg = GetCertificate {
             slot,
             offset: 0,
-            length: MAX_CERT_CHAIN_SIZE as u16,
+            length: usize::min(MAX_CERT_CHAIN_SIZE, u16::MAX as usize) as u16,
         };
         let size = msg.write(buf)?;
         transcript.extend(&buf[..size])?;
-- 
2.43.0

