From a428f9661fe6604230bc4d1e27e0991aa747be14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:35 +0000
Subject: [PATCH 01/18] fix: judge not-before against the given validation time

Ucan::validate and ProofChain used the wall clock for nbf even when the
caller gave an explicit time to validate against.
---
 ucan/src/ucan.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index beaf8d2..e8e8f15 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -75,7 +75,7 @@ impl Ucan {
             return Err(anyhow!("Expired"));
         }
 
-        if self.is_too_early() {
+        if self.is_too_early_at(now_time) {
             return Err(anyhow!("Not active yet (too early)"));
         }
 
@@ -119,8 +119,13 @@ impl Ucan {
 
     /// Returns true if the not-before ("nbf") time is still in the future
     pub fn is_too_early(&self) -> bool {
+        self.is_too_early_at(None)
+    }
+
+    /// As [Ucan::is_too_early], but judged against the given time if there is one
+    fn is_too_early_at(&self, now_time: Option<u64>) -> bool {
         match self.payload.nbf {
-            Some(nbf) => nbf > now(),
+            Some(nbf) => nbf > now_time.unwrap_or_else(now),
             None => false,
         }
     }
-- 
2.43.0


From bf07da08ae28509897e545f88832d846e2ba9d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:35 +0000
Subject: [PATCH 02/18] fix: do not drop the capabilities after one of another
 semantics

reduce_capabilities stopped at the first capability the given semantics
cannot interpret, losing all that sort after it.
---
 ucan/src/chain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ucan/src/chain.rs b/ucan/src/chain.rs
index 285efbb..7a40482 100644
--- a/ucan/src/chain.rs
+++ b/ucan/src/chain.rs
@@ -219,7 +219,7 @@ impl ProofChain {
             .ucan
             .capabilities()
             .iter()
-            .map_while(|data| semantics.parse_capability(&data));
+            .filter_map(|data| semantics.parse_capability(&data));
 
         // Get the claimed attenuations of this ucan, cross-checking ancestral
         // attenuations to discover the originating authority
-- 
2.43.0


From d659ba4d296b92fa5ce885da94c284fbc05d1cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:35 +0000
Subject: [PATCH 03/18] fix: honour redelegation of all proofs (prf:*)

prf:* was parsed as an unscoped resource, so that a token redelegating all
of its proofs redelegated none.
---
 ucan/src/capability/proof.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ucan/src/capability/proof.rs b/ucan/src/capability/proof.rs
index 986bb57..c95e544 100644
--- a/ucan/src/capability/proof.rs
+++ b/ucan/src/capability/proof.rs
@@ -1,4 +1,4 @@
-use super::{Ability, CapabilitySemantics, Scope};
+use super::{Ability, CapabilitySemantics, ResourceUri, Scope};
 use anyhow::{anyhow, Result};
 use url::Url;
 
@@ -76,4 +76,9 @@ impl ToString for ProofSelection {
 
 pub struct ProofDelegationSemantics {}
 
-impl CapabilitySemantics<ProofSelection, ProofAction> for ProofDelegationSemantics {}
+impl CapabilitySemantics<ProofSelection, ProofAction> for ProofDelegationSemantics {
+    /// For proofs, `*` selects all of them (as opposed to being unscoped)
+    fn parse_resource(&self, resource: &Url) -> Option<ResourceUri<ProofSelection>> {
+        Some(ResourceUri::Scoped(self.parse_scope(resource)?))
+    }
+}
-- 
2.43.0


From 82bbe687a87b2bc3d7858d31260521a67ea3b339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:09 +0000
Subject: [PATCH 04/18] fix: parse the resource of as:<did>:<resource>
 capabilities

The colons of the resource were dropped, so that no such capability could
be interpreted, and as:<did>:* is not a URL by itself.
---
 ucan/src/capability/semantics.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ucan/src/capability/semantics.rs b/ucan/src/capability/semantics.rs
index 65966fb..dd9f46a 100644
--- a/ucan/src/capability/semantics.rs
+++ b/ucan/src/capability/semantics.rs
@@ -131,7 +131,9 @@ where
             _ => return None,
         };
 
-        Some((format!("did:key:{value}"), path_parts.collect()))
+        let resource = path_parts.collect::<Vec<&str>>().join(":");
+
+        Some((format!("did:key:{value}"), resource))
     }
 
     fn parse_resource(&self, resource: &Url) -> Option<ResourceUri<S>> {
@@ -167,7 +169,10 @@ where
                 let (did, resource) = self.extract_did(uri.path())?;
                 Resource::As {
                     did,
-                    kind: self.parse_resource(&Url::parse(resource.as_str()).ok()?)?,
+                    kind: match resource.as_str() {
+                        "*" => ResourceUri::Unscoped,
+                        resource => self.parse_resource(&Url::parse(resource).ok()?)?,
+                    },
                 }
             }
             _ => Resource::Resource {
-- 
2.43.0


From c3e4ed057e4504a19002d4c81cd630a766ce636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:09 +0000
Subject: [PATCH 05/18] fix: refuse a did:key without magic bytes instead of
 panicking

---
 ucan/src/crypto/did.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ucan/src/crypto/did.rs b/ucan/src/crypto/did.rs
index 3322f2c..2ee8a06 100644
--- a/ucan/src/crypto/did.rs
+++ b/ucan/src/crypto/did.rs
@@ -50,7 +50,9 @@ impl DidParser {
         }
 
         let did_bytes = bs58::decode(&did[DID_KEY_PREFIX.len()..]).into_vec()?;
-        let magic_bytes = &did_bytes[0..2];
+        let magic_bytes = did_bytes
+            .get(0..2)
+            .ok_or_else(|| anyhow!("DID is too short: {}", did))?;
         match self.key_constructors.get(magic_bytes) {
             Some(ctor) => {
                 let key = ctor(Vec::from(&did_bytes[2..]))?;
-- 
2.43.0


From e336bed7300913b1449224ee9cba9c7798178e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:09 +0000
Subject: [PATCH 06/18] fix: refuse a truncated varsig signature instead of
 panicking

---
 ucan/src/ipld/signature.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ucan/src/ipld/signature.rs b/ucan/src/ipld/signature.rs
index ed520cb..44e8a6a 100644
--- a/ucan/src/ipld/signature.rs
+++ b/ucan/src/ipld/signature.rs
@@ -130,7 +130,10 @@ impl Signature {
         // TODO: Non-standard algorithm support here...
 
         let algorithm = JwtSignatureAlgorithm::try_from(VarsigPrefix::try_from(prefix)?)?;
-        let signature = buffer[..signature_length].to_vec();
+        let signature = buffer
+            .get(..signature_length)
+            .ok_or_else(|| anyhow!("Signature is shorter than its stated length"))?
+            .to_vec();
 
         Ok((algorithm, signature))
     }
-- 
2.43.0


From 3b8323994a81f1c3cbd885909929f6ee3ef76692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 07/18] fix: display any decoded principal without panicking

A principal of fewer than two bytes, or a did: principal that is not UTF-8,
made Principle::to_string panic.
---
 ucan/src/ipld/principle.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/ucan/src/ipld/principle.rs b/ucan/src/ipld/principle.rs
index 9980f40..ae8139b 100644
--- a/ucan/src/ipld/principle.rs
+++ b/ucan/src/ipld/principle.rs
@@ -27,13 +27,12 @@ impl FromStr for Principle {
 impl Display for Principle {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let bytes = &self.0;
-        let did_content = match &bytes[0..2] {
-            DID_IPLD_PREFIX => [
-                DID_PREFIX,
-                std::str::from_utf8(&bytes[2..]).map_err(|_| std::fmt::Error)?,
-            ]
-            .concat(),
-            _ => [DID_KEY_PREFIX, &bs58::encode(bytes).into_string()].concat(),
+        let other_did = bytes
+            .strip_prefix(DID_IPLD_PREFIX)
+            .and_then(|did| std::str::from_utf8(did).ok());
+        let did_content = match other_did {
+            Some(did) => [DID_PREFIX, did].concat(),
+            None => [DID_KEY_PREFIX, &bs58::encode(bytes).into_string()].concat(),
         };
 
         write!(f, "{did_content}")
-- 
2.43.0


From 85f573f7e914c6b0a4d054847feb4024540d4460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 08/18] fix: keep the version of a token when converting it
 from UCAN-IPLD

---
 ucan/src/ipld/ucan.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ucan/src/ipld/ucan.rs b/ucan/src/ipld/ucan.rs
index c98970d..0835606 100644
--- a/ucan/src/ipld/ucan.rs
+++ b/ucan/src/ipld/ucan.rs
@@ -3,7 +3,7 @@ use crate::{
     crypto::JwtSignatureAlgorithm,
     ipld::{Principle, Signature},
     serde::Base64Encode,
-    ucan::{FactsMap, Ucan, UcanHeader, UcanPayload, UCAN_VERSION},
+    ucan::{FactsMap, Ucan, UcanHeader, UcanPayload},
 };
 use cid::Cid;
 use serde::{Deserialize, Serialize};
@@ -74,7 +74,7 @@ impl TryFrom<&UcanIpld> for Ucan {
         };
 
         let payload = UcanPayload {
-            ucv: UCAN_VERSION.into(),
+            ucv: value.v.clone(),
             iss: value.iss.to_string(),
             aud: value.aud.to_string(),
             exp: value.exp,
-- 
2.43.0


From 888cd7b4bd45f280f4a81459fc72a63cf59a6b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 09/18] fix: do not credit originators with broader
 capabilities

Merging a narrower capability into a broader one added the originators of
the narrower one to the broader one.
---
 ucan/src/chain.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/ucan/src/chain.rs b/ucan/src/chain.rs
index 7a40482..157994f 100644
--- a/ucan/src/chain.rs
+++ b/ucan/src/chain.rs
@@ -274,10 +274,24 @@ impl ProofChain {
                     .capability
                     .enables(&capability_info.capability)
                 {
-                    remaining_capability_info
+                    // Only equivalent capabilities share their originators; the
+                    // originator of a narrower one does not originate the broader
+                    if capability_info
+                        .capability
+                        .enables(&remaining_capability_info.capability)
+                    {
+                        remaining_capability_info
+                            .originators
+                            .extend(capability_info.originators);
+                        continue 'merge;
+                    }
+
+                    if capability_info
                         .originators
-                        .extend(capability_info.originators);
-                    continue 'merge;
+                        .is_subset(&remaining_capability_info.originators)
+                    {
+                        continue 'merge;
+                    }
                 }
             }
 
-- 
2.43.0


From 1a5b0510d936e4d7f67b8a68306571310c404230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 10/18] fix: return an error instead of panicking when signing
 fails

Signable::sign panicked when the key could not tell its DID and on
capabilities whose caveat is not an object.
---
 ucan/src/builder.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ucan/src/builder.rs b/ucan/src/builder.rs
index 44fb9cb..4adb4e7 100644
--- a/ucan/src/builder.rs
+++ b/ucan/src/builder.rs
@@ -87,10 +87,7 @@ where
     /// data suitable for encoding as a JWT token string
     pub async fn sign(&self) -> Result<Ucan> {
         let header = self.ucan_header();
-        let payload = self
-            .ucan_payload()
-            .await
-            .expect("Unable to generate UCAN payload");
+        let payload = self.ucan_payload().await?;
 
         let header_base64 = header.jwt_base64_encode()?;
         let payload_base64 = payload.jwt_base64_encode()?;
-- 
2.43.0


From d4674480c3da5ad3f80d11b97ab3241a2d5dfc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 11/18] fix: refuse token strings with parts after the
 signature

---
 ucan/src/ucan.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index e8e8f15..d5be982 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -265,6 +265,10 @@ impl FromStr for Ucan {
             .ok_or_else(|| anyhow!("Missing UCAN signature in token part"))?
             .map_err(|e| e.context("Could not parse UCAN signature base64"))?;
 
+        if parts.next().is_some() {
+            return Err(anyhow!("Unexpected part after UCAN signature"));
+        }
+
         Ok(Ucan::new(
             header,
             payload,
-- 
2.43.0


From 5f44a726623f70b99bdffebaacd89710eab7c4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 12/18] fix: encode tokens from the data that was signed

Re-encoding the header and payload of a token from an implementation with
other key order or spacing changed its text and CID and made its signature
invalid.
---
 ucan/src/ucan.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index d5be982..d6aef9a 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -1,7 +1,7 @@
 use crate::{
     capability::Capabilities,
     crypto::did::DidParser,
-    serde::{Base64Encode, DagJson},
+    serde::DagJson,
     time::now,
 };
 use anyhow::{anyhow, Result};
@@ -91,12 +91,13 @@ impl Ucan {
     /// Produce a base64-encoded serialization of the UCAN suitable for
     /// transferring in a header field
     pub fn encode(&self) -> Result<String> {
-        let header = self.header.jwt_base64_encode()?;
-        let payload = self.payload.jwt_base64_encode()?;
+        // NOTE: The signature covers the signed data as it was received, which
+        // may differ from how this library would encode the header and payload
+        let signed_data = std::str::from_utf8(&self.signed_data)?;
         let signature =
             base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(self.signature.as_slice());
 
-        Ok(format!("{header}.{payload}.{signature}"))
+        Ok(format!("{signed_data}.{signature}"))
     }
 
     /// Returns true if the UCAN has past its expiration date
-- 
2.43.0


From 407a64c8c1ccd88b8d849c013d37a423ba1b0bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 13/18] fix: refuse serialized tokens whose fields are not the
 signed ones

The header and payload of a deserialized Ucan were never compared to the
signed data, so that an edited token still passed validation.
---
 ucan/src/ucan.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index d6aef9a..5e9c62a 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -43,6 +43,7 @@ pub struct UcanPayload {
 }
 
 #[derive(Clone, Serialize, Deserialize, Debug, PartialEq, Eq)]
+#[serde(try_from = "UncheckedUcan")]
 pub struct Ucan {
     header: UcanHeader,
     payload: UcanPayload,
@@ -50,6 +51,33 @@ pub struct Ucan {
     signature: Vec<u8>,
 }
 
+/// A deserialized UCAN whose fields may not be those that were signed
+#[derive(Deserialize)]
+struct UncheckedUcan {
+    header: UcanHeader,
+    payload: UcanPayload,
+    signed_data: Vec<u8>,
+    signature: Vec<u8>,
+}
+
+impl TryFrom<UncheckedUcan> for Ucan {
+    type Error = anyhow::Error;
+
+    fn try_from(value: UncheckedUcan) -> Result<Self, Self::Error> {
+        let ucan = Ucan::new(
+            value.header,
+            value.payload,
+            value.signed_data,
+            value.signature,
+        );
+
+        match Ucan::from_str(&ucan.encode()?)? == ucan {
+            true => Ok(ucan),
+            false => Err(anyhow!("UCAN fields do not match the signed data")),
+        }
+    }
+}
+
 impl Ucan {
     pub fn new(
         header: UcanHeader,
-- 
2.43.0


From aade70ddbc54718c953d27f62a7e362c4be78b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 14/18] fix: verify that a proof is the token its CID refers to

A store answering with another token could substitute proofs.
---
 ucan/src/chain.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/ucan/src/chain.rs b/ucan/src/chain.rs
index 157994f..d257577 100644
--- a/ucan/src/chain.rs
+++ b/ucan/src/chain.rs
@@ -9,7 +9,10 @@ use crate::{
 };
 use anyhow::{anyhow, Result};
 use async_recursion::async_recursion;
-use cid::Cid;
+use cid::{
+    multihash::{Code, MultihashDigest},
+    Cid,
+};
 use std::{collections::BTreeSet, fmt::Debug};
 
 const PROOF_DELEGATION_SEMANTICS: ProofDelegationSemantics = ProofDelegationSemantics {};
@@ -65,7 +68,7 @@ impl ProofChain {
         if let Some(ucan_proofs) = ucan.proofs() {
             for cid_string in ucan_proofs.iter() {
                 let cid = Cid::try_from(cid_string.as_str())?;
-                let ucan_token = store.require_token(&cid).await?;
+                let ucan_token = Self::require_cited_token(&cid, store).await?;
                 let proof_chain =
                     Self::try_from_token_string(&ucan_token, now_time, did_parser, store).await?;
                 proof_chain.validate_link_to(&ucan)?;
@@ -123,7 +126,7 @@ impl ProofChain {
         S: UcanJwtStore,
     {
         Self::try_from_token_string(
-            &store.require_token(cid).await?,
+            &Self::require_cited_token(cid, store).await?,
             now_time,
             did_parser,
             store,
@@ -145,6 +148,20 @@ impl ProofChain {
         Self::from_ucan(ucan, now_time, did_parser, store).await
     }
 
+    /// Read a token from a [UcanJwtStore], and verify that it is the one that the [Cid] refers to
+    async fn require_cited_token<S>(cid: &Cid, store: &S) -> Result<String>
+    where
+        S: UcanJwtStore,
+    {
+        let token = store.require_token(cid).await?;
+        let hasher = Code::try_from(cid.hash().code())?;
+
+        match hasher.digest(token.as_bytes()) == *cid.hash() {
+            true => Ok(token),
+            false => Err(anyhow!("Token does not match its CID {}", cid)),
+        }
+    }
+
     fn validate_link_to(&self, ucan: &Ucan) -> Result<()> {
         let audience = self.ucan.audience();
         let issuer = ucan.issuer();
-- 
2.43.0


From 0b6ba3990d606efe02deda4cca987d0be41c3e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 15/18] fix: report an absent token as absent rather than as an
 error

UcanJwtStore::read_token never returned None.
---
 ucan/src/store.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ucan/src/store.rs b/ucan/src/store.rs
index 034a4c3..65665d8 100644
--- a/ucan/src/store.rs
+++ b/ucan/src/store.rs
@@ -81,7 +81,8 @@ pub trait UcanJwtStore: UcanStore<RawCodec> {
 
         match self.read::<Ipld>(cid).await? {
             Some(Ipld::Bytes(bytes)) => Ok(Some(std::str::from_utf8(&bytes)?.to_string())),
-            _ => Err(anyhow!("No UCAN was found for CID {:?}", cid)),
+            Some(_) => Err(anyhow!("No UCAN was found for CID {:?}", cid)),
+            None => Ok(None),
         }
     }
 
-- 
2.43.0


From 0f28a2e8baae09e1872255b2cae814a2406f29c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 16/18] fix: do not overflow when adding a long lifetime to the
 clock

---
 ucan/src/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ucan/src/builder.rs b/ucan/src/builder.rs
index 4adb4e7..8bfc8b3 100644
--- a/ucan/src/builder.rs
+++ b/ucan/src/builder.rs
@@ -282,7 +282,8 @@ where
         if self.expiration.is_some() {
             self.expiration
         } else {
-            self.lifetime.map(|lifetime| now() + lifetime)
+            self.lifetime
+                .map(|lifetime| now().saturating_add(lifetime))
         }
     }
 
-- 
2.43.0


From 622bd8e138731f13d41f05ef34ed2793e879d442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:14 +0000
Subject: [PATCH 17/18] fix: keep the query of as:<did>:<resource> capabilities

---
 ucan/src/capability/semantics.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ucan/src/capability/semantics.rs b/ucan/src/capability/semantics.rs
index dd9f46a..d303b7a 100644
--- a/ucan/src/capability/semantics.rs
+++ b/ucan/src/capability/semantics.rs
@@ -1,7 +1,7 @@
 use super::{Capability, Caveat};
 use serde_json::{json, Value};
 use std::fmt::Debug;
-use url::Url;
+use url::{Position, Url};
 
 pub trait Scope: ToString + TryFrom<Url> + PartialEq + Clone {
     fn contains(&self, other: &Self) -> bool;
@@ -166,7 +166,8 @@ where
                 kind: self.parse_resource(&uri)?,
             },
             "as" => {
-                let (did, resource) = self.extract_did(uri.path())?;
+                // NOTE: The query and fragment belong to the nested resource
+                let (did, resource) = self.extract_did(&uri[Position::BeforePath..])?;
                 Resource::As {
                     did,
                     kind: match resource.as_str() {
-- 
2.43.0


From fe66ca418b121b67ada33a5887f12ac2d6306b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:10 +0000
Subject: [PATCH 18/18] fix: do not take a resource with a query or fragment
 for an unscoped one

---
 ucan/src/capability/semantics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ucan/src/capability/semantics.rs b/ucan/src/capability/semantics.rs
index d303b7a..f25eee3 100644
--- a/ucan/src/capability/semantics.rs
+++ b/ucan/src/capability/semantics.rs
@@ -137,7 +137,7 @@ where
     }
 
     fn parse_resource(&self, resource: &Url) -> Option<ResourceUri<S>> {
-        Some(match resource.path() {
+        Some(match &resource[Position::BeforePath..] {
             "*" => ResourceUri::Unscoped,
             _ => ResourceUri::Scoped(self.parse_scope(resource)?),
         })
-- 
2.43.0

