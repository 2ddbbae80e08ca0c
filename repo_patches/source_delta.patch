From 98ca87037b41b3ce47a8c17fc5df066ebb4dddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 01/20] fix: keep reputation cache and queue consistent in
 penalize_many

When the penalty function of a later identity failed, or the same identity
appeared more than once, the identity cache had already been decremented while
the queue of packets had not, and a later expire panicked.
---
 reputation/src/trs.rs | 60 +++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/reputation/src/trs.rs b/reputation/src/trs.rs
index 81ec8d5..30d6070 100644
--- a/reputation/src/trs.rs
+++ b/reputation/src/trs.rs
@@ -205,35 +205,39 @@ where
         K: 'a,
     {
         let mut total_subtracted = V::default();
-        let mut to_subtract = ids_fs
-            .into_iter()
-            .filter_map(|(id, mut next_v)| {
-                let mut old_v = self.get(id);
-                // next_v returns the new value of v
-                let new_v = next_v(self.get(id));
-                match new_v.cmp(&old_v) {
-                    Ordering::Greater => {
-                        // Overflow: return error
-                        Some(Err(RepError {
-                            old_rep: old_v,
-                            new_rep: new_v,
-                        }))
-                    }
-                    Ordering::Equal => {
-                        // When there is no reputation to subtract, we can skip this identity
-                        None
-                    }
-                    Ordering::Less => {
-                        old_v -= new_v;
-                        let ts = old_v;
-                        total_subtracted += ts.clone();
-                        // Update cache. Cannot fail because we just checked for overflow
-                        decrement_cache(&mut self.map, id.clone(), ts.clone()).unwrap();
-                        Some(Ok((id.clone(), ts)))
-                    }
+        let mut to_subtract: HashMap<K, V, S> = HashMap::default();
+        for (id, mut next_v) in ids_fs {
+            // Reputation of this identity after the penalties already accumulated for it
+            let mut old_v = self.get(id);
+            if let Some(ts) = to_subtract.get(id) {
+                old_v -= ts.clone();
+            }
+            // next_v returns the new value of v
+            let new_v = next_v(old_v.clone());
+            match new_v.cmp(&old_v) {
+                Ordering::Greater => {
+                    // Overflow: return error. Nothing has been modified yet
+                    return Err(RepError {
+                        old_rep: old_v,
+                        new_rep: new_v,
+                    });
                 }
-            })
-            .collect::<Result<HashMap<K, V, S>, _>>()?;
+                Ordering::Equal => {
+                    // When there is no reputation to subtract, we can skip this identity
+                }
+                Ordering::Less => {
+                    old_v -= new_v;
+                    let ts = old_v;
+                    total_subtracted += ts.clone();
+                    *to_subtract.entry(id.clone()).or_default() += ts;
+                }
+            }
+        }
+
+        // Update cache. Cannot fail because we just checked for overflow
+        for (id, ts) in to_subtract.iter() {
+            decrement_cache(&mut self.map, id.clone(), ts.clone()).unwrap();
+        }
 
         // Iterate back to front
         for (_, rep_diff) in self.queue.iter_mut().rev() {
-- 
2.43.0


From 4d5ddae133350fa032a4d12f4d1dedc884fd4232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 02/20] fix: reject slip32 keys whose secret key prefix is not
 zero

from_slip32 only checked the prefix with a debug assertion: malformed input
panicked in debug builds and was accepted in release builds.
---
 crypto/src/key.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crypto/src/key.rs b/crypto/src/key.rs
index 9ee256b..d96bfb5 100644
--- a/crypto/src/key.rs
+++ b/crypto/src/key.rs
@@ -193,7 +193,11 @@ impl ExtendedSK {
         cursor.read_exact(chain_code.as_mut())?;
 
         let secret_prefix = cursor.read_u8()?;
-        debug_assert!(secret_prefix == 0);
+        if secret_prefix != 0 {
+            return Err(KeyError::Deserialization(format!(
+                "invalid secret key prefix, expected: 0, got: {secret_prefix}",
+            )));
+        }
 
         let mut secret = Protected::new(vec![0; 32]);
         cursor.read_exact(secret.as_mut())?;
-- 
2.43.0


From c1e9ad3656bcdf8f504e13cb2ebccd3f3cafd2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 03/20] fix: serialize slip32 keys with more than 47 path
 levels

The buffer size was computed in u8, which overflows for depth >= 48: a panic in
debug builds and a serialization error in release builds.
---
 crypto/src/key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/src/key.rs b/crypto/src/key.rs
index d96bfb5..cec9909 100644
--- a/crypto/src/key.rs
+++ b/crypto/src/key.rs
@@ -218,11 +218,11 @@ impl ExtendedSK {
         })?;
 
         let capacity = 1     // 1 byte for depth
-            + 4 * depth      // 4 * depth bytes for path
+            + 4 * path.depth() // 4 * depth bytes for path
             + 32             // 32 bytes for chain code
             + 33             // 33 bytes for 0x00 || private key
             ;
-        let mut bytes = Protected::new(vec![0; usize::from(capacity)]);
+        let mut bytes = Protected::new(vec![0; capacity]);
         let mut slice = bytes.as_mut();
 
         slice.write_all(&[depth])?;
-- 
2.43.0


From 7184fd157a15ad500ae781f0e926416cfe92dfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:43 +0000
Subject: [PATCH 04/20] fix: serialize ProtectedString as the string it is
 deserialized from

It was serialized as bytes but deserialized as a string, so formats that tell
them apart (JSON) could not read back what they wrote. Binary formats write the
same bytes as before.
---
 protected/src/serde.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protected/src/serde.rs b/protected/src/serde.rs
index 358b7ef..84c4b3b 100644
--- a/protected/src/serde.rs
+++ b/protected/src/serde.rs
@@ -34,6 +34,6 @@ impl Serialize for ProtectedString {
     where
         S: Serializer,
     {
-        serializer.serialize_bytes(self.as_ref())
+        serializer.serialize_str(self.as_ref())
     }
 }
-- 
2.43.0


From 7f49553f55d3ec0034f3e6d070574360550e1dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:24 +0000
Subject: [PATCH 05/20] fix: do not leave an empty stake entry behind when
 adding less than the minimum

---
 data_structures/src/staking/stakes.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/data_structures/src/staking/stakes.rs b/data_structures/src/staking/stakes.rs
index cf7a301..2e2e178 100644
--- a/data_structures/src/staking/stakes.rs
+++ b/data_structures/src/staking/stakes.rs
@@ -224,6 +224,14 @@ where
     {
         let key = key.into();
 
+        // Make sure that a failed addition does not leave an empty entry behind
+        if coins < minimum_stakeable {
+            Err(StakesError::AmountIsBelowMinimum {
+                amount: coins,
+                minimum: minimum_stakeable,
+            })?;
+        }
+
         // Find or create a matching stake entry
         let stake_found = self.by_key.contains_key(&key);
         let stake = self
-- 
2.43.0


From 6196d9745a73481d85086ea1c5a1103e1bceb639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:35 +0000
Subject: [PATCH 06/20] fix: reject unstake transactions whose withdrawal and
 fee overflow

---
 validations/src/validations.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index d52a01a..1b57248 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -141,7 +141,11 @@ pub fn ut_transaction_fee(
     let out_value = ut_tx.body.value();
     let fee_value = ut_tx.body.fee;
 
-    if out_value + fee_value > staked_amount {
+    let total_value = out_value
+        .checked_add(fee_value)
+        .ok_or(TransactionError::OutputValueOverflow)?;
+
+    if total_value > staked_amount {
         Err(TransactionError::NegativeFee.into())
     } else {
         Ok(fee_value)
@@ -1472,7 +1476,11 @@ pub fn validate_unstake_transaction<'a>(
     }
 
     // Check if is unstaking more than the total stake
-    let mut amount_to_unstake = ut_tx.body.value() + ut_tx.body.fee;
+    let mut amount_to_unstake = ut_tx
+        .body
+        .value()
+        .checked_add(ut_tx.body.fee)
+        .ok_or(TransactionError::OutputValueOverflow)?;
 
     let validator = ut_tx.body.operator;
     let withdrawer = ut_tx.signature.public_key.pkh();
-- 
2.43.0


From 6456b96525f05ec83d23e5ec98ad63d04ab58455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:15 +0000
Subject: [PATCH 07/20] fix: reject stake transactions whose outputs overflow

---
 validations/src/validations.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 1b57248..f619c78 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -122,10 +122,14 @@ pub fn st_transaction_fee(
         None => 0,
     };
 
-    if out_value + change_value > in_value {
+    let total_value = out_value
+        .checked_add(change_value)
+        .ok_or(TransactionError::OutputValueOverflow)?;
+
+    if total_value > in_value {
         Err(TransactionError::NegativeFee.into())
     } else {
-        Ok(in_value - out_value - change_value)
+        Ok(in_value - total_value)
     }
 }
 
@@ -1417,10 +1421,13 @@ pub fn validate_stake_transaction<'a>(
                 .map(|stake| stake.value.coins)
                 .unwrap()
                 .into();
-            if staked_amount + st_tx.body.output.value > max_stake_nanowits {
+            let total_stake = staked_amount
+                .checked_add(st_tx.body.output.value)
+                .ok_or(TransactionError::OutputValueOverflow)?;
+            if total_stake > max_stake_nanowits {
                 Err(TransactionError::StakeAboveMaximum {
                     max_stake: max_stake_nanowits,
-                    stake: staked_amount + st_tx.body.output.value,
+                    stake: total_stake,
                 })?;
             }
         }
-- 
2.43.0


From 4286418532576a538d024fb64dc3a6a6e8ba7887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 08/20] fix: commits take no collateral from their inputs under
 every wit/2 protocol

---
 validations/src/validations.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index f619c78..b06abe0 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -297,25 +297,23 @@ pub fn validate_commit_collateral(
             output_value: out_value,
         }
         .into())
-    } else if in_value - out_value != required_collateral {
+    } else {
+        // In wit/2 the collateral comes from the stake, so the inputs can only pay for the change
+        let expected_collateral = if protocol_version < ProtocolVersion::V2_0 {
+            required_collateral
+        } else {
+            0
+        };
         let found_collateral = in_value - out_value;
-        if protocol_version != ProtocolVersion::V2_0 {
+        if found_collateral != expected_collateral {
             Err(TransactionError::IncorrectCollateral {
-                expected: required_collateral,
+                expected: expected_collateral,
                 found: found_collateral,
             }
             .into())
-        } else if found_collateral == 0 {
-            Ok(())
         } else {
-            Err(TransactionError::IncorrectCollateral {
-                expected: 0,
-                found: found_collateral,
-            }
-            .into())
+            Ok(())
         }
-    } else {
-        Ok(())
     }
 }
 
-- 
2.43.0


From e64a0af1a0a2a9ef7f0f5b902ae5b177a3e92625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 09/20] fix: compare block candidates by power under every
 wit/2 protocol

---
 validations/src/validations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index b06abe0..99e5604 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -2843,7 +2843,7 @@ pub fn compare_block_candidates(
     s: &VrfSlots,
     protocol_version: ProtocolVersion,
 ) -> Ordering {
-    if protocol_version == ProtocolVersion::V2_0 {
+    if protocol_version >= ProtocolVersion::V2_0 {
         match b1_power.cmp(&b2_power) {
             // Equal power, first compare VRF hash and finally the block hash
             Ordering::Equal => {
-- 
2.43.0


From cc6f226fd451cadabef12d9c2ff3985db8c2052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:36 +0000
Subject: [PATCH 10/20] fix: require mining eligibility by stake under every
 wit/2 protocol

---
 validations/src/validations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 99e5604..701a31d 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -2561,7 +2561,7 @@ pub fn validate_block(
         // with the genesis_block_hash
         validate_genesis_block(block, consensus_constants.genesis_hash).map_err(Into::into)
     } else {
-        let target_hash = if protocol_version == ProtocolVersion::V2_0 {
+        let target_hash = if protocol_version >= ProtocolVersion::V2_0 {
             let validator = block.block_sig.public_key.pkh();
             let eligibility = stakes.mining_eligibility(validator, block_epoch, replication_factor);
             if eligibility == Ok(Eligible::No(InsufficientPower))
-- 
2.43.0


From 058a4319366c5a87494d16c8b678794f8ba42025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:39 +0000
Subject: [PATCH 11/20] fix: pay nobody but the requester in wit/2 tallies

---
 validations/src/validations.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 701a31d..0dffbf0 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -1287,6 +1287,16 @@ pub fn validate_tally_transaction<'a>(
                 return Err(TransactionError::MultipleRewards { pkh: output.pkh }.into());
             }
             pkh_rewarded.insert(output.pkh);
+
+            // In wit/2 witnesses are rewarded through their stakes, so the tally change is the only
+            // output there can be
+            if protocol_version >= ProtocolVersion::V2_0 {
+                return Err(TransactionError::PublicKeyHashMismatch {
+                    expected_pkh: dr_state.pkh,
+                    signature_pkh: output.pkh,
+                }
+                .into());
+            }
         }
 
         if is_after_second_hard_fork && output.time_lock != 0 {
-- 
2.43.0


From 803aacd27dca1cead03a0e93a221ac015181dd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:29 +0000
Subject: [PATCH 12/20] fix: keep the network ranges of inbound sessions in
 step with the sessions

---
 p2p/src/sessions/mod.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/p2p/src/sessions/mod.rs b/p2p/src/sessions/mod.rs
index 69448a8..12d9722 100644
--- a/p2p/src/sessions/mod.rs
+++ b/p2p/src/sessions/mod.rs
@@ -271,11 +271,24 @@ where
         // Unegister network range to allow other peers in same network range as the one we are
         // removing to take its place
         if session_type == SessionType::Inbound {
-            self.inbound_network_ranges.remove_address(&address);
+            self.release_inbound_network_range(&address);
         }
 
         Ok(())
     }
+    /// Forget the network range of an inbound session that is gone, unless there is still another
+    /// inbound session in the same range
+    fn release_inbound_network_range(&mut self, address: &SocketAddr) {
+        self.inbound_network_ranges.remove_address(address);
+        for other in self
+            .inbound_unconsolidated
+            .collection
+            .keys()
+            .chain(self.inbound_consolidated.collection.keys())
+        {
+            self.inbound_network_ranges.insert_address(other);
+        }
+    }
     /// Method to consolidate a session
     pub fn consolidate_session(
         &mut self,
@@ -292,9 +305,15 @@ where
         let cons_sessions = self.get_sessions(session_type, SessionStatus::Consolidated)?;
 
         // Register session into consolidated collection
-        cons_sessions.register_session(address, session_info.reference)?;
+        let result = cons_sessions.register_session(address, session_info.reference);
 
-        Ok(())
+        // If the session could not be consolidated it is not registered anymore, so its network
+        // range must not be kept either
+        if result.is_err() && session_type == SessionType::Inbound {
+            self.release_inbound_network_range(&address);
+        }
+
+        result
     }
     /// Method to mark a session as consensus safe
     pub fn consensus_session(&mut self, address: SocketAddr) -> Result<(), SessionsError> {
-- 
2.43.0


From 0c539e9c682c5a94ed7b7ba9b51483ab9a0c1878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:31 +0000
Subject: [PATCH 13/20] fix: count a superblock vote once however often it is
 sent

---
 data_structures/src/superblock.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/data_structures/src/superblock.rs b/data_structures/src/superblock.rs
index 59cb0bf..29b246c 100644
--- a/data_structures/src/superblock.rs
+++ b/data_structures/src/superblock.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{HashMap, HashSet},
+    collections::{HashMap, HashSet, hash_map::Entry},
     convert::{TryFrom, TryInto},
 };
 
@@ -168,12 +168,9 @@ impl SuperBlockVotesMempool {
 
     fn insert_vote(&mut self, sbv: SuperBlockVote) {
         let pkh = sbv.secp256k1_signature.public_key.pkh();
-        if self
-            .votes_of_each_identity
-            .insert(pkh, sbv.clone())
-            .is_none()
-        {
-            // Only insert votes from a PublicKeyHash the first time
+        // Only insert votes from a PublicKeyHash the first time, keeping both maps in agreement
+        if let Entry::Vacant(entry) = self.votes_of_each_identity.entry(pkh) {
+            entry.insert(sbv.clone());
             self.votes_on_each_superblock
                 .entry(sbv.superblock_hash)
                 .or_default()
-- 
2.43.0


From 64f2db7cea483b528128f723ba5229ccb718bee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:25 +0000
Subject: [PATCH 14/20] fix: refuse a message that cannot be converted instead
 of panicking

---
 data_structures/src/proto/versioning.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/data_structures/src/proto/versioning.rs b/data_structures/src/proto/versioning.rs
index 62c9462..8745cd1 100644
--- a/data_structures/src/proto/versioning.rs
+++ b/data_structures/src/proto/versioning.rs
@@ -283,9 +283,10 @@ pub trait Versioned: ProtobufConvert {
     /// schema.
     fn from_versioned_pb(legacy: Self::LegacyType) -> Result<Self, Error>
     where
-        Self: From<Self::LegacyType>,
+        Self: TryFrom<Self::LegacyType>,
+        <Self as TryFrom<Self::LegacyType>>::Error: Into<Error>,
     {
-        Ok(Self::from(legacy))
+        Self::try_from(legacy).map_err(Into::into)
     }
 
     /// Tries to deserialize a data structure from its regular protobuf schema, and if it fails, it
@@ -293,7 +294,8 @@ pub trait Versioned: ProtobufConvert {
     fn from_versioned_pb_bytes(bytes: &[u8]) -> Result<Self, Error>
     where
         <Self as ProtobufConvert>::ProtoStruct: protobuf::Message,
-        Self: From<Self::LegacyType>,
+        Self: TryFrom<Self::LegacyType>,
+        <Self as TryFrom<Self::LegacyType>>::Error: Into<Error>,
     {
         let mut current = Self::ProtoStruct::new();
         let direct_attempt = current
@@ -307,7 +309,7 @@ pub trait Versioned: ProtobufConvert {
             let mut legacy = Self::LegacyType::new();
             legacy.merge_from_bytes(bytes)?;
 
-            Ok(Self::from(legacy))
+            Self::try_from(legacy).map_err(Into::into)
         }
     }
 }
@@ -848,11 +850,13 @@ impl From<LegacyMessage> for crate::proto::schema::witnet::Message {
     }
 }
 
-impl From<LegacyMessage> for Message {
-    fn from(legacy: LegacyMessage) -> Self {
+impl TryFrom<LegacyMessage> for Message {
+    type Error = Error;
+
+    fn try_from(legacy: LegacyMessage) -> Result<Self, Self::Error> {
         let pb = crate::proto::schema::witnet::Message::from(legacy);
 
-        Message::from_pb(pb).unwrap()
+        Message::from_pb(pb)
     }
 }
 
-- 
2.43.0


From 8f24ae54538e1c653277d1d992080a5295f78e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:15 +0000
Subject: [PATCH 15/20] fix: derive the relative fee of a stake from all of its
 weight

---
 data_structures/src/transaction_factory.rs | 36 +++++++++++++++++-----
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/data_structures/src/transaction_factory.rs b/data_structures/src/transaction_factory.rs
index c844212..2113d40 100644
--- a/data_structures/src/transaction_factory.rs
+++ b/data_structures/src/transaction_factory.rs
@@ -295,10 +295,9 @@ pub trait OutputsCollection {
                 })
             }
             Fee::Relative(priority) => {
-                let absolute_fee = priority.into_absolute(current_weight);
-
-                let max_iterations = 1 + ((max_weight - current_weight) / INPUT_SIZE);
+                let max_iterations = 1 + ((max_weight.saturating_sub(current_weight)) / INPUT_SIZE);
                 for _i in 0..max_iterations {
+                    let absolute_fee = priority.into_absolute(current_weight);
                     let amount = output_value
                         .checked_add(absolute_fee.as_nanowits())
                         .ok_or(TransactionError::FeeOverflow)?;
@@ -324,17 +323,39 @@ pub trait OutputsCollection {
                                 change.into_iter().collect(),
                             );
 
-                            body.weight()
+                            let weight = body.weight();
+                            if weight > max_weight {
+                                return Err(TransactionError::DataRequestWeightLimitExceeded {
+                                    weight,
+                                    max_weight,
+                                    dr_output: Box::new(body.dr_output),
+                                });
+                            }
+                            weight
                         }
                         TransactionOutputs::Stake((stake_output, change)) => {
                             let body = StakeTransactionBody::new(inputs, stake_output, change);
 
-                            body.weight()
+                            let weight = body.weight();
+                            if weight > max_weight {
+                                return Err(TransactionError::StakeWeightLimitExceeded {
+                                    weight,
+                                    max_weight,
+                                });
+                            }
+                            weight
                         }
                         TransactionOutputs::ValueTransfer(outputs) => {
                             let body = VTTransactionBody::new(inputs, outputs);
 
-                            body.weight()
+                            let weight = body.weight();
+                            if weight > max_weight {
+                                return Err(TransactionError::ValueTransferWeightLimitExceeded {
+                                    weight,
+                                    max_weight,
+                                });
+                            }
+                            weight
                         }
                     };
 
@@ -827,7 +848,8 @@ pub fn build_st(
     };
 
     let tx_info = utxos.generic_transaction_factory(
-        TransactionOutputs::Stake((output.clone(), None)),
+        // The change output also counts for the weight that a relative fee is derived from
+        TransactionOutputs::Stake((output.clone(), Some(ValueTransferOutput::default()))),
         fee,
         timestamp,
         None,
-- 
2.43.0


From ddbe2e86f72d5a02eb2932826848d53246117543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:42 +0000
Subject: [PATCH 16/20] fix: refuse an empty recoverable signature instead of
 panicking

---
 data_structures/src/chain/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 883f4a6..1afaed5 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -1817,9 +1817,15 @@ impl KeyedSignature {
         compact: &[u8],
         message: &[u8],
     ) -> Result<Self, Secp256k1ConversionError> {
-        let recid = RecoveryId::from_i32(i32::from(compact[0]))
+        let (recid, compact) =
+            compact
+                .split_first()
+                .ok_or(Secp256k1ConversionError::Secp256k1 {
+                    inner: secp256k1::Error::InvalidSignature,
+                })?;
+        let recid = RecoveryId::from_i32(i32::from(*recid))
             .map_err(|e| Secp256k1ConversionError::Secp256k1 { inner: e })?;
-        let recoverable = RecoverableSignature::from_compact(&compact[1..], recid)
+        let recoverable = RecoverableSignature::from_compact(compact, recid)
             .map_err(|e| Secp256k1ConversionError::Secp256k1 { inner: e })?;
 
         Self::from_recoverable(&recoverable, message)
-- 
2.43.0


From 9612405d5bb85a6f46840ee9e5e4dc16e8bfce7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:06 +0000
Subject: [PATCH 17/20] fix: report start times of epochs that overflow since
 2.0 instead of panicking

---
 data_structures/src/chain/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 1afaed5..bc05da5 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -4774,8 +4774,11 @@ impl EpochConstants {
             )
             .map_err(|_| EpochCalculationError::Overflow)?;
 
-            self.checkpoint_zero_timestamp_wit2
-                + i64::from((epoch - epochs_pre_v2) * Epoch::from(self.checkpoints_period_wit2))
+            (epoch - epochs_pre_v2)
+                .checked_mul(Epoch::from(self.checkpoints_period_wit2))
+                .map(i64::from)
+                .and_then(|x| x.checked_add(self.checkpoint_zero_timestamp_wit2))
+                .ok_or(EpochCalculationError::Overflow)?
         } else {
             epoch_timestamp
         };
-- 
2.43.0


From 77b26290f4bf168663975ff55eee588691298cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:32 +0000
Subject: [PATCH 18/20] fix: compare the reward of a data request in the pool
 with its own collateral

---
 data_structures/src/chain/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index bc05da5..9963313 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3374,8 +3374,8 @@ impl TransactionsPool {
             }
             Transaction::DataRequest(dr_tx) => {
                 let dr_tx_reward_collateral_ratio = calculate_reward_collateral_ratio(
-                    self.collateral_minimum,
                     dr_tx.body.dr_output.collateral,
+                    self.collateral_minimum,
                     dr_tx.body.dr_output.witness_reward,
                 );
                 if dr_tx_reward_collateral_ratio > self.required_reward_collateral_ratio {
-- 
2.43.0


From 7ebf3d4de07385d1b35e5b5482470e5cc0006fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:52 +0000
Subject: [PATCH 19/20] fix: forget the weight and the inputs of stakes that
 are cleared from the pool

---
 data_structures/src/chain/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 9963313..d0aa466 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -2731,14 +2731,17 @@ impl TransactionsPool {
 
     /// Clear stake transactions in TransactionsPool
     pub fn clear_stake_transactions(&mut self) {
-        self.st_transactions.clear();
-        self.sorted_st_index.clear();
+        let hashes: Vec<Hash> = self.st_transactions.keys().copied().collect();
+        for hash in hashes {
+            self.st_remove_inner(&hash, false);
+        }
     }
 
     /// Clear unstake transactions in TransactionsPool
     pub fn clear_unstake_transactions(&mut self) {
         self.ut_transactions.clear();
         self.sorted_ut_index.clear();
+        self.total_ut_weight = 0;
     }
 
     /// Returns `Ok(true)` if the pool already contains this transaction.
-- 
2.43.0


From cf13b82853059d181711f3948d92e4b2979339c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:04 +0000
Subject: [PATCH 20/20] fix: remove stakes from a pool that is full of them
 instead of panicking

---
 data_structures/src/chain/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index d0aa466..03af535 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3296,6 +3296,19 @@ impl TransactionsPool {
     fn remove_transactions_for_size_limit(&mut self) -> Vec<Transaction> {
         let mut removed_transactions = vec![];
         while self.total_transactions_weight() > self.weight_limit {
+            if self.vt_transactions.is_empty() && self.dr_transactions.is_empty() {
+                // Only stake transactions are left, remove the one with the lowest fee/weight
+                let tx_hash = self
+                    .sorted_st_index
+                    .iter()
+                    .map(|(_fee_weight, tx_hash)| *tx_hash)
+                    .next()
+                    // There must be at least one transaction because the total weight is not zero
+                    .unwrap();
+                let tx = self.st_remove_inner(&tx_hash, false).unwrap();
+                removed_transactions.push(Transaction::Stake(tx));
+                continue;
+            }
             // Try to split the memory between value transfer and data requests using the same
             // ratio as the one used in blocks
             // The ratio of vt to dr in blocks is currently 1:4
-- 
2.43.0

