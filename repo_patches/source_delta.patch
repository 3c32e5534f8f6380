From e127f7d6401f673a4ea5d0339cafb457ec006e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:05 +0000
Subject: [PATCH 01/17] fix: do not reserve memory from an unchecked count in a
 trie page token

---
 src/storage/trie/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/trie/util.rs b/src/storage/trie/util.rs
index 3a4c207..25ff5b0 100644
--- a/src/storage/trie/util.rs
+++ b/src/storage/trie/util.rs
@@ -62,7 +62,8 @@ pub fn decode_trie_page_token(encoded: &str) -> Result<Option<Vec<Vec<u8>>>, Tri
     let mut offset = 0usize;
     let count = u32::from_be_bytes(bytes[offset..offset + 4].try_into().unwrap()) as usize;
     offset += 4;
-    let mut out: Vec<Vec<u8>> = Vec::with_capacity(count);
+    // The count is supplied by the caller: never reserve more parts than the token can hold.
+    let mut out: Vec<Vec<u8>> = Vec::with_capacity(count.min(bytes.len() / 4));
     for _ in 0..count {
         if offset + 4 > bytes.len() {
             return Err(TrieError::TokenDecodeError(
-- 
2.43.0


From 7697c143a80917afe37d71c90b3e0db6dda1043e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 02/17] fix: keep a name owner's index entry when a newer proof
 has the same owner

---
 src/storage/store/account/name_registry_events.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/storage/store/account/name_registry_events.rs b/src/storage/store/account/name_registry_events.rs
index 099527d..afafa1e 100644
--- a/src/storage/store/account/name_registry_events.rs
+++ b/src/storage/store/account/name_registry_events.rs
@@ -83,8 +83,9 @@ pub fn put_username_proof_transaction(
     let secondary_key = make_fname_username_proof_by_fid_key(username_proof.fid);
     txn.put(secondary_key, primary_key);
 
-    // If a username is being transferred, remove the existing secondary key.
-    if let Some(existing_fid) = existing_fid {
+    // If a username is being transferred, remove the existing secondary key. When the owner does
+    // not change it is the key written above, which must stay.
+    if let Some(existing_fid) = existing_fid.filter(|fid| *fid != username_proof.fid) {
         let secondary_key = make_fname_username_proof_by_fid_key(existing_fid);
         txn.delete(secondary_key);
     }
-- 
2.43.0


From 003e07e99f3dff20ac3d21b514c55ceffd6a4fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 03/17] fix: clamp 64-bit time bounds of listings instead of
 truncating them

---
 src/network/rpc_extensions.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/network/rpc_extensions.rs b/src/network/rpc_extensions.rs
index eec2422..ca83892 100644
--- a/src/network/rpc_extensions.rs
+++ b/src/network/rpc_extensions.rs
@@ -113,11 +113,12 @@ impl FidTimestampRequestExt for FidTimestampRequest {
 
     fn timestamps(&self) -> (Option<u32>, Option<u32>) {
         let start_timestamp = match self.start_timestamp {
-            Some(ts) => Some(ts as u32),
+            // Bounds beyond 32 bits mean the last representable second; truncating would wrap them.
+            Some(ts) => Some(u32::try_from(ts).unwrap_or(u32::MAX)),
             None => None,
         };
         let stop_timestamp = match self.stop_timestamp {
-            Some(ts) => Some(ts as u32),
+            Some(ts) => Some(u32::try_from(ts).unwrap_or(u32::MAX)),
             None => None,
         };
         (start_timestamp, stop_timestamp)
-- 
2.43.0


From 4dc0dc950d8a78e236900adbdacdc5c9a5f49c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 04/17] fix: order pending block events by Unix time like every
 other pending message

---
 src/mempool/mempool.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mempool/mempool.rs b/src/mempool/mempool.rs
index b5f11a4..28a8af5 100644
--- a/src/mempool/mempool.rs
+++ b/src/mempool/mempool.rs
@@ -332,7 +332,8 @@ impl ValidatorMessageMempoolExt for proto::ValidatorMessage {
         } else if let Some(block_event) = &self.block_event {
             MempoolKey::new(
                 MempoolMessageKind::ValidatorMessage,
-                block_event.block_timestamp(),
+                // Block events carry Farcaster time, unlike on-chain events and name proofs.
+                FarcasterTime::new(block_event.block_timestamp()).to_unix_seconds(),
                 block_event.seqnum().to_string(),
             )
         } else {
-- 
2.43.0


From 6c818f65b655dab49192781d7d8faaa162f185ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 05/17] fix: do not count a replaced message hash cache entry
 twice

---
 src/network/replication/replicator.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/network/replication/replicator.rs b/src/network/replication/replicator.rs
index e6d88c4..82841e5 100644
--- a/src/network/replication/replicator.rs
+++ b/src/network/replication/replicator.rs
@@ -130,7 +130,11 @@ impl MessageHashCache {
         key: MessageHashCacheKey,
         value: Arc<HashMap<Vec<u8>, CacheMessageEntry>>,
     ) {
-        let mut new_cache_size = self.cache_size + value.len();
+        // An entry that is replaced no longer counts towards the cache size
+        self.cache_lru.remove(&key);
+        let replaced = self.cache.remove(&key).map(|v| v.len()).unwrap_or(0);
+
+        let mut new_cache_size = self.cache_size - replaced + value.len();
 
         // Don't let the cache size be more than max entries allowed
         if new_cache_size > Self::MAX_MESSAGE_HASH_CACHE_ENTRIES {
-- 
2.43.0


From 04340c1b4ed7ca1623f60419ee2d1d9d66320428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 06/17] fix: a storage slot with less than is lent drops to
 zero instead of wrapping around

---
 src/storage/store/account/onchain_event_store.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/storage/store/account/onchain_event_store.rs b/src/storage/store/account/onchain_event_store.rs
index e1966f3..c5480c3 100644
--- a/src/storage/store/account/onchain_event_store.rs
+++ b/src/storage/store/account/onchain_event_store.rs
@@ -1048,9 +1048,9 @@ impl StorageSlot {
 
     pub fn sub(&mut self, other: &StorageSlot) {
         if other.is_active() {
-            self.units_legacy -= other.units_legacy;
-            self.units_2024 -= other.units_2024;
-            self.units_2025 -= other.units_2025;
+            self.units_legacy = self.units_legacy.saturating_sub(other.units_legacy);
+            self.units_2024 = self.units_2024.saturating_sub(other.units_2024);
+            self.units_2025 = self.units_2025.saturating_sub(other.units_2025);
         }
     }
 }
-- 
2.43.0


From ad16eb8566657ee66a1571198ad4eeea9da81b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 07/17] fix: list uploaded snapshot chunks in order, as restore
 joins them in the listed order

---
 src/storage/db/snapshot.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/storage/db/snapshot.rs b/src/storage/db/snapshot.rs
index d801545..4ad0c12 100644
--- a/src/storage/db/snapshot.rs
+++ b/src/storage/db/snapshot.rs
@@ -601,6 +601,9 @@ pub async fn upload_to_s3(
         file_names.push(file_name)
     }
 
+    // A restore joins the chunks in the listed order, and read_dir lists them in no particular one.
+    file_names.sort();
+
     let metadata = SnapshotMetadata {
         key_base: upload_dir,
         chunks: file_names,
-- 
2.43.0


From dc71be0feca20fc121f81c61c5aa0d56351faa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:36 +0000
Subject: [PATCH 08/17] fix: refuse a verification whose chain id only fits
 when truncated

---
 src/core/validations/verification.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/validations/verification.rs b/src/core/validations/verification.rs
index a6389b8..f565eb9 100644
--- a/src/core/validations/verification.rs
+++ b/src/core/validations/verification.rs
@@ -389,7 +389,10 @@ fn validate_verification_add_eth_address_signature(
         return Err(ValidationError::InvalidEthClaimSignatureLength);
     }
 
-    let chain_id = body.chain_id as u16;
+    // Compared whole: truncating it would let an unsupported chain id in (65537 as 1).
+    let Ok(chain_id) = u16::try_from(body.chain_id) else {
+        return Err(ValidationError::InvalidData);
+    };
     if !EIP_712_FARCASTER_VERIFICATION_CLAIM_CHAIN_IDS.contains(&chain_id) {
         return Err(ValidationError::InvalidData);
     }
-- 
2.43.0


From 2256673662b14c36695f3a143deedeea49fa01cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:36 +0000
Subject: [PATCH 09/17] fix: a github username takes ASCII digits only

---
 src/core/validations/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/validations/message.rs b/src/core/validations/message.rs
index 5ea4a95..748d5ab 100644
--- a/src/core/validations/message.rs
+++ b/src/core/validations/message.rs
@@ -24,7 +24,7 @@ const MAX_DATA_BYTES_FOR_USERNAME_PROOF: usize = 16_384;
 const EMBEDS_V1_CUTOFF: u32 = 73612800;
 const TWITTER_USERNAME_REGEX: &str = "^[a-z0-9_]{0,15}$";
 const FNAME_REGEX: &str = "^[a-z0-9][a-z0-9-]{0,15}$";
-const GITHUB_USERNAME_REGEX: &str = "^[a-zA-Z\\d](?:[a-zA-Z\\d]|-(?!-)){0,38}$";
+const GITHUB_USERNAME_REGEX: &str = "^[a-zA-Z0-9](?:[a-zA-Z0-9]|-(?!-)){0,38}$";
 
 static FNAME_RE: LazyLock<Regex> = LazyLock::new(|| Regex::new(FNAME_REGEX).unwrap());
 static TWITTER_USERNAME_RE: LazyLock<Regex> =
-- 
2.43.0


From 362f9df7f353c3225c4846fae32f6de9357e3a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:46 +0000
Subject: [PATCH 10/17] fix: refuse a malformed signer key in a bootstrap page
 instead of panicking

A peer serving trie messages could crash a bootstrapping node with a signer that isn't 32 bytes long.
---
 src/bootstrap/replication/service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bootstrap/replication/service.rs b/src/bootstrap/replication/service.rs
index 73ae846..f601928 100644
--- a/src/bootstrap/replication/service.rs
+++ b/src/bootstrap/replication/service.rs
@@ -1190,7 +1190,7 @@ impl ReplicatorBootstrap {
 
                 if let (Ok(sig), Ok(key)) = (
                     Signature::from_slice(&m.signature),
-                    VerifyingKey::from_bytes(m.signer.as_slice().try_into().unwrap()),
+                    VerifyingKey::try_from(m.signer.as_slice()),
                 ) {
                     signatures.push(sig);
                     verifying_keys.push(key);
-- 
2.43.0


From 2ff5c8d16245bb60610d0ca07395bb63e0f982ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:53 +0000
Subject: [PATCH 11/17] fix: check the structured data of bootstrapped messages
 against the signed bytes

Only data_bytes are covered by the message hash, but the structured copy is what gets merged, so a
peer could supply arbitrary data alongside genuine signed bytes.
---
 src/bootstrap/replication/service.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/bootstrap/replication/service.rs b/src/bootstrap/replication/service.rs
index f601928..1ed6d4b 100644
--- a/src/bootstrap/replication/service.rs
+++ b/src/bootstrap/replication/service.rs
@@ -1172,8 +1172,17 @@ impl ReplicatorBootstrap {
         for trie_message_entry in trie_messages.iter() {
             if let Some(TrieMessage::UserMessage(m)) = &trie_message_entry.trie_message {
                 // Validate message hash first
-                if m.data_bytes.is_some() {
-                    validate_message_hash(m.hash_scheme, &m.data_bytes.as_ref().unwrap(), &m.hash)?;
+                if let Some(data_bytes) = &m.data_bytes {
+                    validate_message_hash(m.hash_scheme, data_bytes, &m.hash)?;
+
+                    // Only the data_bytes are covered by the hash, but it's the structured data that
+                    // gets merged. Make sure it's exactly what was signed.
+                    let signed_data = proto::MessageData::decode(data_bytes.as_slice()).ok();
+                    if signed_data.is_none() || signed_data != m.data {
+                        return Err(BootstrapError::ValidationError(
+                            validations::error::ValidationError::InvalidData,
+                        ));
+                    }
                 } else {
                     if m.data.is_none() {
                         return Err(BootstrapError::ValidationError(
-- 
2.43.0


From dae56fddb5931d2648504100d90213a3e3c055a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:03 +0000
Subject: [PATCH 12/17] fix: delete the merged child's own record when a trie
 node is compacted

---
 src/storage/trie/trie_node.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/trie/trie_node.rs b/src/storage/trie/trie_node.rs
index 6f05f8e..29c7c2e 100644
--- a/src/storage/trie/trie_node.rs
+++ b/src/storage/trie/trie_node.rs
@@ -505,7 +505,8 @@ impl TrieNode {
                     self.children.remove(&char);
 
                     // Delete child
-                    let child_prefix = Self::make_primary_key(&prefix, Some(char));
+                    let mut child_prefix = prefix.clone();
+                    child_prefix.push(char);
                     self.delete_to_txn(txn, &child_prefix);
                 }
             }
-- 
2.43.0


From 5a2fd486daef29e0e3b754b9368120e963041933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:09 +0000
Subject: [PATCH 13/17] fix: refuse a message whose structured data is not what
 was signed

Only data_bytes are covered by the message hash and signature, but the engines check and merge the
structured copy, so a block proposer could pair genuine signed bytes with arbitrary data.
---
 src/core/validations/message.rs   | 12 ++++++++++++
 src/storage/store/block_engine.rs |  3 +++
 src/storage/store/engine.rs       |  3 +++
 3 files changed, 18 insertions(+)

diff --git a/src/core/validations/message.rs b/src/core/validations/message.rs
index 748d5ab..50a2c5f 100644
--- a/src/core/validations/message.rs
+++ b/src/core/validations/message.rs
@@ -95,6 +95,18 @@ pub fn validate_timestamp(
     Ok(())
 }
 
+/// Only `data_bytes`, when present, are covered by the message hash and the signature. Wherever the
+/// structured `data` is what takes effect, it has to be exactly what was signed.
+pub fn validate_structured_data(message: &proto::Message) -> Result<(), ValidationError> {
+    if let Some(data_bytes) = &message.data_bytes {
+        let signed_data = MessageData::decode(data_bytes.as_slice()).ok();
+        if signed_data.is_none() || signed_data != message.data {
+            return Err(ValidationError::InvalidData);
+        }
+    }
+    Ok(())
+}
+
 pub fn validate_message(
     message: &proto::Message,
     current_network: proto::FarcasterNetwork,
diff --git a/src/storage/store/block_engine.rs b/src/storage/store/block_engine.rs
index c6104d0..51d9c80 100644
--- a/src/storage/store/block_engine.rs
+++ b/src/storage/store/block_engine.rs
@@ -944,6 +944,9 @@ impl BlockEngine {
             version,
         )?;
 
+        // From here on, it's the structured data that's checked and merged.
+        validations::message::validate_structured_data(message)?;
+
         // 1. Check that the user has a custody address
         self.stores
             .onchain_event_store
diff --git a/src/storage/store/engine.rs b/src/storage/store/engine.rs
index 31845aa..147093a 100644
--- a/src/storage/store/engine.rs
+++ b/src/storage/store/engine.rs
@@ -2073,6 +2073,9 @@ impl ShardEngine {
             version,
         )?;
 
+        // From here on, it's the structured data that's checked and merged.
+        validations::message::validate_structured_data(message)?;
+
         // 1. Check that the user has a custody address
         // If not in the temp cache, fall back to the DB
         self.stores
-- 
2.43.0


From 9add871b94f381261f48be99c49a1ef75e84517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:29 +0000
Subject: [PATCH 14/17] fix: judge a username by the block's view of the batch,
 not by the clock

The caller already passes the view that the block's version grants; looking up the version of the
current time made the same block valid or invalid depending on when it is replayed.
---
 src/storage/store/engine.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/storage/store/engine.rs b/src/storage/store/engine.rs
index 147093a..5bea68b 100644
--- a/src/storage/store/engine.rs
+++ b/src/storage/store/engine.rs
@@ -2236,16 +2236,10 @@ impl ShardEngine {
     ) -> Result<Option<UserNameProof>, MessageValidationError> {
         // TODO(aditi): The fnames proofs should live in the username proof store.
         if name.ends_with(".eth") {
-            let version = EngineVersion::current(self.network);
-            let batch_txn = if version.is_enabled(ProtocolFeature::DependentMessagesInBulkSubmit) {
-                txn
-            } else {
-                &RocksDbTransactionBatch::new()
-            };
             let proof_message = UsernameProofStore::get_username_proof(
                 &self.stores.username_proof_store,
                 &name.as_bytes().to_vec(),
-                batch_txn,
+                txn,
             )
             .map_err(|e| MessageValidationError::StoreError(e))?;
             match proof_message {
-- 
2.43.0


From e411fcf977d8fe56acff41bf6bd2a14d4fd3f94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:01 +0000
Subject: [PATCH 15/17] fix: refuse gossiped user messages without data or with
 a short hash instead of panicking the mempool

---
 src/mempool/mempool.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mempool/mempool.rs b/src/mempool/mempool.rs
index 28a8af5..103cf68 100644
--- a/src/mempool/mempool.rs
+++ b/src/mempool/mempool.rs
@@ -925,6 +925,15 @@ impl Mempool {
         message: MempoolMessage,
         source: MempoolSource,
     ) -> Result<(), HubError> {
+        // Gossiped messages arrive here unvalidated. Without data there is no mempool key, and without
+        // a full hash no primary key, so neither can be looked up.
+        if let MempoolMessage::UserMessage(user_msg) = &message {
+            match &user_msg.data {
+                Some(data) => make_ts_hash(data.timestamp, &user_msg.hash)?,
+                None => return Err(HubError::validation_failure("message data is missing")),
+            };
+        }
+
         let shard_ids = self.read_node_mempool.route_mempool_message(&message);
 
         let mut errors = vec![];
-- 
2.43.0


From e654dbb1a688c58441bfbb1778b0595204ef2121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:01 +0000
Subject: [PATCH 16/17] fix: never rate limit KEY_REMOVE in the mempool

---
 src/mempool/mempool.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mempool/mempool.rs b/src/mempool/mempool.rs
index 103cf68..c26be2d 100644
--- a/src/mempool/mempool.rs
+++ b/src/mempool/mempool.rs
@@ -613,6 +613,14 @@ fn is_key_add(message: &proto::Message) -> bool {
     }
 }
 
+/// True iff the message body is a `KeyRemoveBody`.
+fn is_key_remove(message: &proto::Message) -> bool {
+    match &message.data {
+        Some(data) => matches!(data.body, Some(proto::message_data::Body::KeyRemoveBody(_))),
+        None => false,
+    }
+}
+
 fn is_live_at(message: &proto::Message) -> bool {
     match &message.data {
         Some(data) => matches!(
@@ -719,6 +727,10 @@ impl Mempool {
                     }
                 }
 
+                if is_key_remove(user_msg) {
+                    return false;
+                }
+
                 if is_live_at(user_msg) {
                     if !self.live_at_rate_limits.consume_for_fid(fid) {
                         self.statsd_client
-- 
2.43.0


From 03af5a5d1cde0867d6c03303b03906246b11febb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:01 +0000
Subject: [PATCH 17/17] fix: remember a rate limit bucket for longer than its
 window

---
 src/mempool/mempool.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mempool/mempool.rs b/src/mempool/mempool.rs
index c26be2d..76d7dcd 100644
--- a/src/mempool/mempool.rs
+++ b/src/mempool/mempool.rs
@@ -51,7 +51,7 @@ pub struct RateLimitsConfig {
 impl Default for RateLimitsConfig {
     fn default() -> Self {
         Self {
-            time_to_idle: Duration::from_secs(60 * 2 * 2),
+            time_to_idle: Duration::from_secs(60 * 60 * 2),
             // Make time to idle 2x the rate limit window so it's ok if out of sync
             max_capacity: 1_000_000,
         }
-- 
2.43.0

