From 61f4837cc4cfa15174aa304cfa3350affcd3d158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:47 +0000
Subject: [PATCH 01/37] fix: take the extrinsics pool locks in one order

add_extrinsic locks the pool map before the index, while
get_extrinsics_by_type_and_timeslot locked the index first, so that a
writer and a reader could deadlock.
---
 extrinsics/src/pool/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extrinsics/src/pool/mod.rs b/extrinsics/src/pool/mod.rs
index 25bbbdd..774c83b 100644
--- a/extrinsics/src/pool/mod.rs
+++ b/extrinsics/src/pool/mod.rs
@@ -98,8 +98,9 @@ impl XtPool {
         extrinsic_type: XtType,
         timeslot_index: TimeslotIndex,
     ) -> Result<Vec<OpaqueXtEntry>, XtPoolError> {
-        let type_timeslot_index = self.type_timeslot_index.read().unwrap();
+        // Same lock order as `add_extrinsic`
         let extrinsics = self.extrinsics.read().unwrap();
+        let type_timeslot_index = self.type_timeslot_index.read().unwrap();
 
         Ok(type_timeslot_index
             .get(&(extrinsic_type, timeslot_index))
-- 
2.43.0


From bdbb991e2f6ae93c2d541cb054b259fb1b8dc869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:12 +0000
Subject: [PATCH 02/37] fix: hold no peer map lock while announcing a block

The DashMap guards of the peer map and of the stream handles stayed
alive across the await on the outgoing channel. A full channel then
blocked every thread that stores a connection for a peer of that shard.
---
 network/src/manager.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/network/src/manager.rs b/network/src/manager.rs
index 0597032..6529477 100644
--- a/network/src/manager.rs
+++ b/network/src/manager.rs
@@ -390,17 +390,21 @@ impl NetworkManager {
         block_header: &BlockHeader,
     ) -> Result<(), NetworkError> {
         tracing::debug!("Sending block announcement via mpsc channel...");
-        for peer in self.all_validator_peers.iter() {
-            if let Some(conn) = &peer.value().conn {
-                if let Some(handle_ref) =
-                    conn.up_stream_handles.get(&UpStreamKind::BlockAnnouncement)
-                {
-                    let handle = handle_ref.value();
-                    handle
-                        .send_block_announcement(block_header.block_announcement_blob()?)
-                        .await?
-                }
-            }
+        // Collect the stream handles first so that no map lock is held while sending
+        let handles: Vec<UpStreamHandle> = self
+            .all_validator_peers
+            .iter()
+            .filter_map(|peer| {
+                let conn = peer.value().conn.as_ref()?;
+                conn.up_stream_handles
+                    .get(&UpStreamKind::BlockAnnouncement)
+                    .map(|handle| handle.value().clone())
+            })
+            .collect();
+
+        for handle in handles {
+            let blob = block_header.block_announcement_blob()?;
+            handle.send_block_announcement(blob).await?;
         }
         Ok(())
     }
-- 
2.43.0


From 6339d22fca03d0d7c9d9fe6e7ae9d636eb520bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:12 +0000
Subject: [PATCH 03/37] fix: a closed peer stream does not stop a block
 announcement

The first peer whose outgoing channel had closed ended the announcement
for all others, and with it the chain extension task, which then never
committed the authored block's state.
---
 network/src/manager.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/network/src/manager.rs b/network/src/manager.rs
index 6529477..7c262a6 100644
--- a/network/src/manager.rs
+++ b/network/src/manager.rs
@@ -404,7 +404,9 @@ impl NetworkManager {
 
         for handle in handles {
             let blob = block_header.block_announcement_blob()?;
-            handle.send_block_announcement(blob).await?;
+            if let Err(e) = handle.send_block_announcement(blob).await {
+                tracing::error!("Failed to send a block announcement to a peer: {e}");
+            }
         }
         Ok(())
     }
-- 
2.43.0


From 48abca38d296d1d92802c62d8903e452eb50e11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 04/37] fix: store an authored header before making it the best
 one

set_best_header ran first, so a failed write left a best header that the
header database does not hold.
---
 node/src/scheduler/chain_extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/src/scheduler/chain_extension.rs b/node/src/scheduler/chain_extension.rs
index c33af31..17206ba 100644
--- a/node/src/scheduler/chain_extension.rs
+++ b/node/src/scheduler/chain_extension.rs
@@ -53,12 +53,12 @@ pub async fn extend_chain(
             .author_block_commit_header(jam_node.storage())
             .await?;
         let storage = jam_node.storage();
-        storage.header_db().set_best_header(new_header.clone());
         // TODO: GRANDPA: Block finalization handling
         storage
             .header_db()
             .commit_header(new_header.clone())
             .await?;
+        storage.header_db().set_best_header(new_header.clone());
 
         tracing::info!(
             "🎁 Authored a new block ({}) (slot: {})",
-- 
2.43.0


From a870a25ae07b6fcf5dd9cb0b940f2103d4bbe641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:56 +0000
Subject: [PATCH 05/37] fix: add a header to the ancestor set only once it is
 stored

A failed database write left headers in the ancestor set that the header
database does not hold.
---
 block/src/header_db.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/block/src/header_db.rs b/block/src/header_db.rs
index 0cfaec3..4bd3392 100644
--- a/block/src/header_db.rs
+++ b/block/src/header_db.rs
@@ -130,12 +130,13 @@ impl BlockHeaderDB {
         header_hash: BlockHeaderHash,
         header: BlockHeader,
     ) -> Result<(), BlockHeaderDBError> {
-        // Insert to AncestorSet
         let ancestor_entry = (header.timeslot_index(), header_hash.clone());
-        self.ancestors_guard().add(ancestor_entry);
 
         // Insert to DB
         self.db.put_entry(&header_hash, header).await?;
+
+        // Insert to AncestorSet
+        self.ancestors_guard().add(ancestor_entry);
         Ok(())
     }
 
@@ -143,12 +144,10 @@ impl BlockHeaderDB {
         &self,
         headers: Vec<(BlockHeaderHash, BlockHeader)>,
     ) -> Result<(), BlockHeaderDBError> {
-        // Insert to AncestorSet
         let ancestor_entries: Vec<AncestorEntry> = headers
             .iter()
             .map(|(hash, header)| (header.timeslot_index(), hash.clone()))
             .collect();
-        self.ancestors_guard().add_multiple(ancestor_entries);
 
         // Insert to DB
         let mut batch = WriteBatch::default();
@@ -164,6 +163,9 @@ impl BlockHeaderDB {
         self.db
             .commit_write_batch_and_sync_cache(batch, &header_writes)
             .await?;
+
+        // Insert to AncestorSet
+        self.ancestors_guard().add_multiple(ancestor_entries);
         Ok(())
     }
 
-- 
2.43.0


From c647568f9d33d80fb95a5b99a3dc55f46ea3649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:19 +0000
Subject: [PATCH 06/37] fix: skip validation for a genesis block only on an
 empty chain

Any block with a zero parent hash was executed and committed without its
header, seal and markers being validated, at any point of the chain.
---
 node/src/roles/importer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node/src/roles/importer.rs b/node/src/roles/importer.rs
index 9023089..1074e65 100644
--- a/node/src/roles/importer.rs
+++ b/node/src/roles/importer.rs
@@ -180,8 +180,8 @@ impl BlockImporter {
         with_ancestors: bool,
         block_commit_mode: BlockCommitMode,
     ) -> Result<BlockImportOutput, BlockImportError> {
-        if block.is_genesis() {
-            // Skip validation for the genesis block
+        if block.is_genesis() && storage.header_db().get_best_header() == BlockHeader::default() {
+            // Skip validation for the genesis block, as long as the chain is empty
             let output =
                 Self::run_state_transition(&storage, block, with_ancestors, block_commit_mode)
                     .await?;
-- 
2.43.0


From d70c534f092939ce5fb78f0f12acf4f556a4a4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:19 +0000
Subject: [PATCH 07/37] fix: a header becomes the best one only once it is
 stored

A failed write of an imported or genesis header left a best header that
the header database does not hold.
---
 node/src/jam_node/init.rs  |  7 +++++--
 node/src/roles/importer.rs | 15 ++++++---------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/node/src/jam_node/init.rs b/node/src/jam_node/init.rs
index cd8e4b7..0d337fd 100644
--- a/node/src/jam_node/init.rs
+++ b/node/src/jam_node/init.rs
@@ -21,8 +21,11 @@ async fn set_genesis_state(jam_node: &JamNode) -> Result<(), Box<dyn Error>> {
     let genesis_header = load_genesis_block().header;
     let genesis_header_hash = genesis_header.hash()?;
     let storage = jam_node.storage();
-    storage.header_db().set_best_header(genesis_header.clone());
-    storage.header_db().commit_header(genesis_header).await?;
+    storage
+        .header_db()
+        .commit_header(genesis_header.clone())
+        .await?;
+    storage.header_db().set_best_header(genesis_header);
 
     // Set genesis extrinsics entry
     storage
diff --git a/node/src/roles/importer.rs b/node/src/roles/importer.rs
index 1074e65..6cb937b 100644
--- a/node/src/roles/importer.rs
+++ b/node/src/roles/importer.rs
@@ -168,7 +168,11 @@ impl BlockImporter {
         if matches!(block_commit_mode, BlockCommitMode::Immediate) {
             // Store the block header to the block header DB & ancestor set
             let header_db = storage.header_db();
-            header_db.insert_header(header_hash, header).await?;
+            header_db.insert_header(header_hash, header.clone()).await?;
+            // Set best header
+            if !block.is_genesis() {
+                header_db.set_best_header(header);
+            }
         }
 
         Ok(block_import_output)
@@ -191,14 +195,7 @@ impl BlockImporter {
         // Validate header fields (prior to STF)
         Self::validate_block_header_prior_stf(&storage, block).await?;
         // Re-execute STF
-        let output =
-            Self::run_state_transition(&storage, block, with_ancestors, block_commit_mode).await?;
-
-        // Set best header
-        if matches!(block_commit_mode, BlockCommitMode::Immediate) {
-            storage.header_db().set_best_header(block.header.clone());
-        }
-        Ok(output)
+        Self::run_state_transition(&storage, block, with_ancestors, block_commit_mode).await
     }
 
     /// Note: Currently, each STF validates Xt types as well. Up-front Xt validations might work
-- 
2.43.0


From e88aa4db0d4784fcb6f3bd05d93aa13c0e5dcfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 08/37] fix: restore the ring cache when a block import fails

An invalid block of a new epoch rotates the ring cache before it is
rejected. Only the state cache was rolled back, so ring proofs of later
blocks were checked against the verifier of another validator set.
---
 node/src/roles/importer.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/node/src/roles/importer.rs b/node/src/roles/importer.rs
index 6cb937b..8f3fda3 100644
--- a/node/src/roles/importer.rs
+++ b/node/src/roles/importer.rs
@@ -126,6 +126,10 @@ impl BlockImporter {
                 }
             };
             let timeslot_index = block.header.timeslot_index();
+
+            let state_manager = storage.state_manager();
+            let ring_cache_before = state_manager.ring_cache_snapshot();
+            let staging_context_before = state_manager.last_staging_set_transition_context();
             match Self::import_block(storage.clone(), block, false, BlockCommitMode::Immediate)
                 .await
             {
@@ -141,8 +145,13 @@ impl BlockImporter {
                 }
                 Err(e) => {
                     tracing::error!("Invalid block: {e}");
-                    // Rollback uncommitted state changes
-                    storage.state_manager().rollback_dirty_cache();
+                    // Rollback uncommitted state changes and the ring cache
+                    state_manager.rollback_dirty_cache();
+                    state_manager.restore_ring_cache_snapshot(ring_cache_before);
+                    state_manager.update_last_staging_set_transition_context(
+                        staging_context_before.last_staging_set_transition_slot,
+                        staging_context_before.last_effective_staging_set_hash,
+                    );
                 }
             }
         }
-- 
2.43.0


From 2be8e831d81a10ca5ad71d8c467ca8f28bc55052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 09/37] fix: reject an empty block response instead of
 panicking

A peer that answers a block request with nothing decodable made the
announcement task index an empty vector.
---
 network/src/streams/up_streams.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/network/src/streams/up_streams.rs b/network/src/streams/up_streams.rs
index f613dc6..cc5b2b8 100644
--- a/network/src/streams/up_streams.rs
+++ b/network/src/streams/up_streams.rs
@@ -91,11 +91,12 @@ impl UpStreamHandler {
                         .await
                         {
                             Ok(blocks) => {
+                                let Some(block) = blocks.into_iter().next() else {
+                                    tracing::error!("[UP0 | CE128] No block in the response");
+                                    return;
+                                };
                                 // Block Importer: validate the received block
-                                if let Err(e) = block_import_mpsc_sender_cloned
-                                    .send(blocks[0].clone())
-                                    .await
-                                {
+                                if let Err(e) = block_import_mpsc_sender_cloned.send(block).await {
                                     tracing::error!(
                                         "Block Importer mpsc channel receiver closed: {e}"
                                     )
-- 
2.43.0


From a768964793d89770c9cf655bcc07ac4c48190dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 10/37] fix: answer unsupported stream requests with an error,
 not a panic

A peer could end a task, and with it the accept loop of a connection,
by opening a CE stream of any other kind or asking for several blocks.
---
 network/src/streams/ce_streams/responder.rs | 2 +-
 storage/src/node_storage.rs                 | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/network/src/streams/ce_streams/responder.rs b/network/src/streams/ce_streams/responder.rs
index f3b234a..692fc7e 100644
--- a/network/src/streams/ce_streams/responder.rs
+++ b/network/src/streams/ce_streams/responder.rs
@@ -48,7 +48,7 @@ impl CeStreamResponder {
                 }
             }
             _ => {
-                unimplemented!()
+                tracing::error!("[{stream_kind}] Unsupported CE stream request");
             }
         }
     }
diff --git a/storage/src/node_storage.rs b/storage/src/node_storage.rs
index e8aa49a..d3d0faf 100644
--- a/storage/src/node_storage.rs
+++ b/storage/src/node_storage.rs
@@ -27,6 +27,8 @@ pub enum NodeStorageError {
     HeaderNotFoundFromDB(String),
     #[error("Xts with hash {0} not found from the XtDB")]
     XtsNotFoundFromDB(String),
+    #[error("Requesting a sequence of {0} blocks is not supported")]
+    UnsupportedBlocksRequest(u32),
 }
 
 // TODO: Add storages for Shards, etc.
@@ -49,7 +51,7 @@ impl NodeServerTrait for NodeStorage {
             let block = self.get_block(&header_hash).await?;
             Ok(vec![block])
         } else {
-            unimplemented!()
+            Err(NodeStorageError::UnsupportedBlocksRequest(max_blocks))
         }
     }
 }
-- 
2.43.0


From 937a19e645eb6047be089be7d01134d90989c51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 11/37] fix: reject verdicts of a later epoch

A verdict whose epoch index was after the current epoch passed the age check and
was then judged against the previous validator set; an index of u32::MAX
overflowed.
---
 extrinsics/src/validation/disputes.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/extrinsics/src/validation/disputes.rs b/extrinsics/src/validation/disputes.rs
index 656ec13..6cdefda 100644
--- a/extrinsics/src/validation/disputes.rs
+++ b/extrinsics/src/validation/disputes.rs
@@ -170,8 +170,11 @@ impl DisputesXtValidator {
         all_past_report_hashes: &[Hash32],
         extrinsic: &DisputesXt,
     ) -> Result<(), XtError> {
-        // Check if verdicts contain entries with epoch index older than the previous epoch
-        if entry.epoch_index + 1 < prior_timeslot.epoch() {
+        // Check if verdicts contain entries of neither the current epoch nor the previous one
+        let current_epoch = prior_timeslot.epoch();
+        if entry.epoch_index != current_epoch
+            && entry.epoch_index.checked_add(1) != Some(current_epoch)
+        {
             return Err(XtError::InvalidJudgmentsAge(
                 entry.epoch_index,
                 prior_timeslot.epoch(),
-- 
2.43.0


From bdde14ec4d3abdbc1648271c66d981fd67e5795c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 12/37] fix: allocate no more than the input holds when
 decoding

A length prefix in the input was used to allocate before it was compared with the
bytes left, so that a short message could make the decoder panic (capacity
overflow) or take gigabytes.
---
 codec/fr-codec/src/lib.rs                        | 16 ++++++++++++++--
 common/src/types/mod.rs                          | 10 ++++++++++
 pvm/pvm-core/src/program/loader.rs               |  2 +-
 .../src/refine/auditable_bundle.rs               |  4 +---
 state/src/types/services.rs                      |  2 +-
 5 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/codec/fr-codec/src/lib.rs b/codec/fr-codec/src/lib.rs
index 2124931..84ab5f0 100644
--- a/codec/fr-codec/src/lib.rs
+++ b/codec/fr-codec/src/lib.rs
@@ -336,7 +336,9 @@ impl<T: JamEncode> JamEncode for Vec<T> {
 impl<T: JamDecode> JamDecode for Vec<T> {
     fn decode<I: JamInput>(input: &mut I) -> Result<Self, JamCodecError> {
         let len = usize::decode(input)?; // length discriminator
-        let mut vec = Self::with_capacity(len);
+
+        // The length is not trusted: reserve no more memory than the remaining input takes
+        let mut vec = Self::with_capacity(len.min(input.remaining_len() / size_of::<T>().max(1)));
         for _ in 0..len {
             vec.push(T::decode(input)?);
         }
@@ -685,8 +687,13 @@ impl JamDecodeFixed for BitVec<u8, Lsb0> {
     where
         Self: Sized,
     {
-        let mut bv = Self::with_capacity(size_in_bits);
         let expected_bytes = size_in_bits.div_ceil(8);
+        if expected_bytes > input.remaining_len() {
+            return Err(JamCodecError::InputError(
+                "Not enough data to decode bits".into(),
+            ));
+        }
+        let mut bv = Self::with_capacity(size_in_bits);
         let mut bytes_read = 0;
 
         while bytes_read < expected_bytes {
@@ -731,6 +738,11 @@ impl JamDecodeFixed for Vec<u8> {
     where
         Self: Sized,
     {
+        if size > input.remaining_len() {
+            return Err(JamCodecError::InputError(
+                "Not enough data to fill buffer".into(),
+            ));
+        }
         let mut buffer = vec![0u8; size];
         input.read(&mut buffer)?;
         Ok(buffer)
diff --git a/common/src/types/mod.rs b/common/src/types/mod.rs
index 2df8180..5af1526 100644
--- a/common/src/types/mod.rs
+++ b/common/src/types/mod.rs
@@ -163,6 +163,11 @@ impl JamDecode for ByteSequence {
         Self: Sized,
     {
         let len = usize::decode(input)?;
+        if len > input.remaining_len() {
+            return Err(JamCodecError::InputError(
+                "Failed to Decode ByteSequence".into(),
+            ));
+        }
         let mut vec = vec![0u8; len];
         input
             .read(&mut vec)
@@ -198,6 +203,11 @@ impl JamDecodeFixed for ByteSequence {
     where
         Self: Sized,
     {
+        if size > input.remaining_len() {
+            return Err(JamCodecError::InputError(
+                "Not enough data to fill buffer".into(),
+            ));
+        }
         let mut buffer = vec![0u8; size];
         input.read(&mut buffer)?;
         Ok(Self(buffer))
diff --git a/pvm/pvm-core/src/program/loader.rs b/pvm/pvm-core/src/program/loader.rs
index a1feab8..bf1d554 100644
--- a/pvm/pvm-core/src/program/loader.rs
+++ b/pvm/pvm-core/src/program/loader.rs
@@ -68,7 +68,7 @@ impl ProgramLoader {
         let instructions_len = usize::decode(input)?;
 
         // Decode the dynamic jump table (j)
-        let mut jump_table = Vec::with_capacity(jump_table_len);
+        let mut jump_table = Vec::new();
         for _ in 0..jump_table_len {
             jump_table.push(MemAddress::decode_fixed(input, z as usize)?);
         }
diff --git a/pvm/pvm-invocation/src/refine/auditable_bundle.rs b/pvm/pvm-invocation/src/refine/auditable_bundle.rs
index fc73161..e261d86 100644
--- a/pvm/pvm-invocation/src/refine/auditable_bundle.rs
+++ b/pvm/pvm-invocation/src/refine/auditable_bundle.rs
@@ -85,9 +85,7 @@ impl JamDecode for AuditableBundle {
             let mut work_item_xts = Vec::with_capacity(work_item.extrinsic_data_info.len());
             for xt_info in &work_item.extrinsic_data_info {
                 let blob_length = xt_info.blob_length as usize;
-                let mut blob = vec![0u8; blob_length];
-                input.read(&mut blob)?;
-                work_item_xts.push(Octets::from_vec(blob));
+                work_item_xts.push(Octets::decode_fixed(input, blob_length)?);
             }
             extrinsic_data.push(work_item_xts);
         }
diff --git a/state/src/types/services.rs b/state/src/types/services.rs
index 31dac09..1ae7c6c 100644
--- a/state/src/types/services.rs
+++ b/state/src/types/services.rs
@@ -518,7 +518,7 @@ impl JamDecode for AccountLookupsEntry {
         Self: Sized,
     {
         let len = usize::decode(input)?;
-        let mut timeslots = Vec::with_capacity(len);
+        let mut timeslots = Vec::new();
         for _ in 0..len {
             let timeslot = Timeslot::decode_fixed(input, 4)?;
             timeslots.push(timeslot)
-- 
2.43.0


From e2e4ecaf9296308406885b320fb26c12787d6273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:42 +0000
Subject: [PATCH 13/37] fix: a program that does not load panics its own
 invocation

An invalid program blob made the invocation return an error, which fails the
import of the whole block. The invocation now ends with a panic and no gas used.
---
 pvm/pvm-interface/src/invoke.rs | 35 +++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/pvm/pvm-interface/src/invoke.rs b/pvm/pvm-interface/src/invoke.rs
index 6aa05be..4ffa65a 100644
--- a/pvm/pvm-interface/src/invoke.rs
+++ b/pvm/pvm-interface/src/invoke.rs
@@ -196,19 +196,11 @@ impl PVMInterface {
         let cached_program = if let Some(entry) = program_cache().get(&program_hash) {
             entry
         } else {
-            let formatted_program = FormattedProgram::from_standard_program(standard_program)?;
-            if !formatted_program.is_program_size_valid() {
-                return Err(PVMError::VMCoreError(VMCoreError::InvalidProgram));
-            }
-
-            // Initialize the program state
-            let mut program_state = ProgramState::default();
-            ProgramLoader::load_program(&formatted_program.code, &mut program_state)?;
-
-            let cached = Arc::new(CachedProgram {
-                formatted_program: Arc::new(formatted_program),
-                program_state: Arc::new(program_state),
-            });
+            let Ok(program) = Self::load_standard_program(standard_program) else {
+                tracing::error!("Failed to load program");
+                return Ok(PVMInvocationResult::panic(0));
+            };
+            let cached = Arc::new(program);
             program_cache().insert(program_hash, cached.clone());
             cached
         };
@@ -257,6 +249,23 @@ impl PVMInterface {
         }
     }
 
+    /// Decodes and loads a standard program blob.
+    fn load_standard_program(standard_program: &[u8]) -> Result<CachedProgram, VMCoreError> {
+        let formatted_program = FormattedProgram::from_standard_program(standard_program)?;
+        if !formatted_program.is_program_size_valid() {
+            return Err(VMCoreError::InvalidProgram);
+        }
+
+        // Initialize the program state
+        let mut program_state = ProgramState::default();
+        ProgramLoader::load_program(&formatted_program.code, &mut program_state)?;
+
+        Ok(CachedProgram {
+            formatted_program: Arc::new(formatted_program),
+            program_state: Arc::new(program_state),
+        })
+    }
+
     /// Invokes the PVM general functions including host calls with arguments injected by the `Ψ_M`
     /// common invocation function.
     ///
-- 
2.43.0


From 5a73eb7b688c222f88323c2f6587490b17e21326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 14/37] fix: halting with an output address past the memory
 gives no output

A program that halted with an address above 2^32 in register 7 made the
invocation return an error, which fails the import of the whole block.
---
 pvm/pvm-interface/src/invoke.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvm/pvm-interface/src/invoke.rs b/pvm/pvm-interface/src/invoke.rs
index 4ffa65a..acbcbdb 100644
--- a/pvm/pvm-interface/src/invoke.rs
+++ b/pvm/pvm-interface/src/invoke.rs
@@ -232,7 +232,9 @@ impl PVMInterface {
         match result.exit_reason {
             ExitReason::OutOfGas => Ok(PVMInvocationResult::out_of_gas(gas_used)),
             ExitReason::RegularHalt => {
-                let start_address = pvm.state.read_reg_as_mem_address(7)?;
+                let Ok(start_address) = pvm.state.read_reg_as_mem_address(7) else {
+                    return Ok(PVMInvocationResult::no_output(gas_used));
+                };
                 let data_len = pvm.state.read_reg(8) as usize;
                 if !pvm
                     .state
-- 
2.43.0


From d5ecd5ab1425ece76e34bc64ce14bb30bbdda035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 15/37] fix: decode instructions that reach past the next
 opcode or the end

An instruction whose arguments lie past the next opcode, or past the end of the
code, made the decoder index out of bounds, so that a service's code could crash
the node; one followed by a gap of more than 15 octets was an error. The code is
read as if followed by zeros, and arguments are read wherever they lie.
---
 pvm/pvm-core/src/program/loader.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pvm/pvm-core/src/program/loader.rs b/pvm/pvm-core/src/program/loader.rs
index bf1d554..fea656e 100644
--- a/pvm/pvm-core/src/program/loader.rs
+++ b/pvm/pvm-core/src/program/loader.rs
@@ -9,7 +9,7 @@ use bitvec::prelude::*;
 use fr_codec::prelude::*;
 use fr_pvm_types::{
     common::{MemAddress, RegValue},
-    constants::MAX_SKIP_DISTANCE,
+    constants::{MAX_INST_BLOB_LENGTH, MAX_SKIP_DISTANCE},
 };
 use tracing::Level;
 
@@ -157,7 +157,11 @@ impl ProgramLoader {
             let inst = if next_index > instructions.len() {
                 Instruction::trap()
             } else {
-                Instruction::from_inst_blob(&instructions[idx..next_index], idx as RegValue, skip)?
+                // The arguments may reach past the next opcode; octets past the end are zeros
+                let mut inst_blob = [0u8; MAX_INST_BLOB_LENGTH];
+                let inst_end = instructions.len().min(idx + MAX_INST_BLOB_LENGTH);
+                inst_blob[..inst_end - idx].copy_from_slice(&instructions[idx..inst_end]);
+                Instruction::from_inst_blob(&inst_blob, idx as RegValue, skip)?
             };
             decoded_instructions.push(inst);
             let decoded_index = decoded_instructions.len() as u32;
-- 
2.43.0


From 5a31297bf8f9c99658bb203d243471acfc12fb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 16/37] fix: a host call index above 255 is not a host call

The index was cut to its lowest octet, so that `ecalli 256` was taken for
`ecalli 0`.
---
 pvm/pvm-core/src/program/instruction/set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvm/pvm-core/src/program/instruction/set.rs b/pvm/pvm-core/src/program/instruction/set.rs
index 720e507..e48e284 100644
--- a/pvm/pvm-core/src/program/instruction/set.rs
+++ b/pvm/pvm-core/src/program/instruction/set.rs
@@ -172,7 +172,7 @@ impl InstructionSet {
         program_state: &ProgramState,
         ins: &Instruction,
     ) -> Result<SingleStepResult, VMCoreError> {
-        let imm_host_call_type = reg_to_u8(ins.imm1()?);
+        let imm_host_call_type = u8::try_from(ins.imm1()?).unwrap_or(u8::MAX);
         let exit_reason = ExitReason::HostCall(
             HostCallType::from_u8(imm_host_call_type).ok_or(VMCoreError::InvalidHostCallType)?,
         );
-- 
2.43.0


From e20efe8c35b8660f810aeb7b301ddbb61db5e144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 17/37] fix: a heap expansion past the address space is a
 collision

The requested size was cut to 32 bits and added without a check, so that a large
request moved the end of the heap backwards.
---
 pvm/pvm-core/src/state/memory.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pvm/pvm-core/src/state/memory.rs b/pvm/pvm-core/src/state/memory.rs
index bd31710..241a5f9 100644
--- a/pvm/pvm-core/src/state/memory.rs
+++ b/pvm/pvm-core/src/state/memory.rs
@@ -369,13 +369,15 @@ impl Memory {
 
     /// Expand the heap area for the `sbrk` instruction.
     pub fn expand_heap(&mut self, start: MemAddress, size: usize) -> Result<(), MemoryError> {
-        let end = start + size as MemAddress;
+        let collision = MemoryError::SbrkHeapStackCollision(start, size, self.stack_start);
+        let Some(end) = MemAddress::try_from(size)
+            .ok()
+            .and_then(|size| start.checked_add(size))
+        else {
+            return Err(collision);
+        };
         if self.heap_start != 0 && end >= self.stack_start {
-            return Err(MemoryError::SbrkHeapStackCollision(
-                start,
-                size,
-                self.stack_start,
-            ));
+            return Err(collision);
         }
         self.set_address_range_access(start..end, AccessType::ReadWrite)?; // FIXME: SBRK: address-level access control
         self.heap_end = end;
-- 
2.43.0


From 6cb087390b0ace8ddb66a008d9cee38dae64b36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 18/37] fix: a memory access past the end of memory panics the
 program

A load or store within the last seven octets of memory that ran past its end made
the invocation return an error, which fails the import of the whole block. The
access wraps around to the forbidden zone, so the program panics.
---
 pvm/pvm-core/src/state/memory.rs       | 6 ++++--
 pvm/pvm-core/src/state/state_change.rs | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pvm/pvm-core/src/state/memory.rs b/pvm/pvm-core/src/state/memory.rs
index 241a5f9..5e702e8 100644
--- a/pvm/pvm-core/src/state/memory.rs
+++ b/pvm/pvm-core/src/state/memory.rs
@@ -264,8 +264,9 @@ impl Memory {
             .checked_add(length)
             .ok_or(MemoryError::OutOfRange(address))?;
 
+        // Past the end, the range wraps around to the forbidden zone
         if end > self.data.len() {
-            return Err(MemoryError::OutOfRange(address));
+            return Err(MemoryError::Forbidden(address));
         }
 
         let (start_page, _) = self.get_page_and_offset(address);
@@ -335,8 +336,9 @@ impl Memory {
             .checked_add(bytes.len())
             .ok_or(MemoryError::OutOfRange(address))?;
 
+        // Past the end, the range wraps around to the forbidden zone
         if end > self.data.len() {
-            return Err(MemoryError::OutOfRange(address));
+            return Err(MemoryError::Forbidden(address));
         }
 
         let (start_page, _) = self.get_page_and_offset(address);
diff --git a/pvm/pvm-core/src/state/state_change.rs b/pvm/pvm-core/src/state/state_change.rs
index 666c87a..b35d259 100644
--- a/pvm/pvm-core/src/state/state_change.rs
+++ b/pvm/pvm-core/src/state/state_change.rs
@@ -157,6 +157,9 @@ impl VMStateMutator {
                 Err(MemoryError::AccessViolation(address)) => {
                     return Err(VMCoreError::PageFault(VMUtils::page_start_address(address)))
                 }
+                Err(MemoryError::Forbidden(address)) => {
+                    return Err(VMCoreError::ForbiddenMemZone(address))
+                }
                 Err(e) => return Err(e.into()),
             }
         }
-- 
2.43.0


From 47c0501cf6636a7495aa7b5829118792560ec6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 19/37] fix: a gas charge above the counter's range runs out of
 gas

A transfer with a gas limit above 2^63 made the invocation return an error, which
fails the import of the whole block, instead of running out of gas.
---
 pvm/pvm-core/src/gas/mod.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pvm/pvm-core/src/gas/mod.rs b/pvm/pvm-core/src/gas/mod.rs
index ec3fbdb..3e36ec3 100644
--- a/pvm/pvm-core/src/gas/mod.rs
+++ b/pvm/pvm-core/src/gas/mod.rs
@@ -10,13 +10,8 @@ impl GasCharger {
         vm_state: &mut VMState,
         gas_charge: UnsignedGas,
     ) -> Result<SignedGas, VMCoreError> {
-        let gas_charge_signed: SignedGas = gas_charge
-            .try_into()
-            .map_err(|_| VMCoreError::TooLargeGasCharge(gas_charge))?;
-        vm_state.gas_counter = vm_state
-            .gas_counter
-            .checked_sub(gas_charge_signed)
-            .ok_or(VMCoreError::GasCounterOverflow)?;
+        let gas_charge_signed = SignedGas::try_from(gas_charge).unwrap_or(SignedGas::MAX);
+        vm_state.gas_counter = vm_state.gas_counter.saturating_sub(gas_charge_signed);
         Ok(vm_state.gas_counter)
     }
 }
-- 
2.43.0


From 725734d802056641657b9b5d268ce8158a0b2176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 20/37] fix: a failed database read is an error, not an absent
 entry

CoreDB::get_entry dropped the error of a failed read and of an unknown column
family and reported that there is no such entry.
---
 db/src/core/core_db.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/db/src/core/core_db.rs b/db/src/core/core_db.rs
index 5237dc5..cc4bd41 100644
--- a/db/src/core/core_db.rs
+++ b/db/src/core/core_db.rs
@@ -59,14 +59,13 @@ impl CoreDB {
     ) -> Result<Option<Vec<u8>>, CoreDBError> {
         let db = self.db.clone();
         let key_vec = key.to_vec();
-        Ok(tokio::task::spawn_blocking(move || {
+        tokio::task::spawn_blocking(move || -> Result<_, CoreDBError> {
             let cf = db
                 .cf_handle(cf_name)
-                .ok_or(CoreDBError::ColumnFamilyNotFound(cf_name.to_string()))
-                .ok()?;
-            db.get_cf(&cf, &key_vec).ok()?
+                .ok_or(CoreDBError::ColumnFamilyNotFound(cf_name.to_string()))?;
+            Ok(db.get_cf(&cf, &key_vec)?)
         })
-        .await?)
+        .await?
     }
 
     pub(crate) async fn put_entry(
-- 
2.43.0


From a71245827de6e7d517ee68df19252c1057b0c952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:00 +0000
Subject: [PATCH 21/37] fix: a failed read while searching the trie is an error

MerkleDB::find_longest_prefix took an error of the database iterator for the end
of the table and answered from the part it had read.
---
 state/state-merkle-v2/src/merkle_db.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/state/state-merkle-v2/src/merkle_db.rs b/state/state-merkle-v2/src/merkle_db.rs
index cbba6fb..01ca50e 100644
--- a/state/state-merkle-v2/src/merkle_db.rs
+++ b/state/state-merkle-v2/src/merkle_db.rs
@@ -8,7 +8,7 @@ use fr_common::{MerkleRoot, StateKey};
 use fr_db::{
     core::{
         cached_db::{CachedDB, DBKey},
-        core_db::CoreDB,
+        core_db::{CoreDB, CoreDBError},
     },
     ColumnFamily, Direction, IteratorMode,
 };
@@ -65,13 +65,14 @@ impl MerkleDB {
         tokio::task::spawn_blocking(move || -> Result<_, StateMerkleError> {
             let mut longest_prefix = MerklePath(BitVec::new());
 
-            let mut iter = core_db.iterator_cf(
+            let iter = core_db.iterator_cf(
                 nodes_cf_handle,
                 IteratorMode::From(&start_key, Direction::Forward),
             )?;
 
             // Iterate on DB keys until we find a DB key which becomes the longest prefix of `state_key`
-            while let Some(Ok((candidate_db_key, _))) = iter.next() {
+            for entry in iter {
+                let (candidate_db_key, _) = entry.map_err(CoreDBError::from)?;
                 let candidate_path = MerklePath::from_db_key(&candidate_db_key)?;
 
                 // Reached to a DB key with larger value; no need to check further
-- 
2.43.0


From f9ced9f229bfefa91461ccc4a1d3b7a32c5c1a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:41 +0000
Subject: [PATCH 22/37] fix: read an account entry added since the last commit
 as absent from the clean state

---
 state/src/manager.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/state/src/manager.rs b/state/src/manager.rs
index 6661d6f..4144690 100644
--- a/state/src/manager.rs
+++ b/state/src/manager.rs
@@ -1083,6 +1083,16 @@ impl StateManager {
     where
         T: AccountStateComponent,
     {
+        // An entry added since the last commit has no clean value in the cache
+        if let Some(CacheEntryStatus::Dirty(StateMut::Add)) = self.cache.get_entry_status(state_key)
+        {
+            return Ok(self
+                .retrieve_state_encoded(state_key)
+                .await?
+                .map(|state_data| T::decode(&mut state_data.as_slice()))
+                .transpose()?);
+        }
+
         self.get_clean_state_entry_internal(state_key).await // account state key could not be initialized yet
     }
 
-- 
2.43.0


From 101e56b95b7c03ad78b712862822c92cb21686ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 23/37] fix: fold an entry's removal and re-addition within the
 state cache

An entry added and then removed before a commit was marked as removed, so the
commit failed on its unknown leaf and a rollback left the entry in the cache as
if it were committed. An entry removed and then added again was marked as added,
so a rollback lost the committed value and the commit inserted its leaf twice.
---
 state/src/cache.rs   | 10 ++++++++++
 state/src/manager.rs | 11 +++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/state/src/cache.rs b/state/src/cache.rs
index c548ef4..4b71998 100644
--- a/state/src/cache.rs
+++ b/state/src/cache.rs
@@ -148,6 +148,16 @@ impl StateCache {
 
         f(entry_mut)?; // Call the closure to apply the state mutation
 
+        // An entry that is added and then removed before getting committed to the db doesn't exist
+        // either in the db or after the commit, so it is dropped from the cache.
+        if cache_entry.status == CacheEntryStatus::Dirty(StateMut::Add)
+            && state_mut == StateMut::Remove
+        {
+            self.remove_dirty_state_key(state_key);
+            self.inner.invalidate(state_key);
+            return Ok(());
+        }
+
         // If cache entry is dirty with `StateMut::Add` and the new `state_mut` is `StateMut::Update`,
         // keep the entry marked with `StateMut::Add`. This allows mutating new entries before
         // they get committed to the db.
diff --git a/state/src/manager.rs b/state/src/manager.rs
index 4144690..308fd2c 100644
--- a/state/src/manager.rs
+++ b/state/src/manager.rs
@@ -1006,12 +1006,19 @@ impl StateManager {
         }
 
         let state_entry_type = Arc::new(state_entry.into_entry_type());
+
+        // An entry removed since the last commit still exists in the db, so adding it again
+        // is an update of the db entry.
+        let (clean_snapshot, state_mut) = match self.cache.get_entry(state_key) {
+            Some(removed) => (removed.clean_snapshot, StateMut::Update),
+            None => (state_entry_type.clone(), StateMut::Add),
+        };
         self.cache.insert_entry(
             state_key.clone(),
             CacheEntry {
-                clean_snapshot: state_entry_type.clone(),
+                clean_snapshot,
                 value: state_entry_type,
-                status: CacheEntryStatus::Dirty(StateMut::Add),
+                status: CacheEntryStatus::Dirty(state_mut),
             },
         );
 
-- 
2.43.0


From c56a71afaf32e1416219077f76c2c38cd8e342e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:20 +0000
Subject: [PATCH 24/37] fix: discard the trie changes of a failed commit
 preparation

A preparation that failed half way left its nodes in the change set, so they
entered the trie and the root of the next block.
---
 state/src/merkle_interface/manager.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/state/src/merkle_interface/manager.rs b/state/src/merkle_interface/manager.rs
index 3d82a74..e2b13ba 100644
--- a/state/src/merkle_interface/manager.rs
+++ b/state/src/merkle_interface/manager.rs
@@ -696,6 +696,9 @@ impl MerkleManager {
             return Ok(None);
         }
 
+        // Discard changes left behind by a preparation that failed
+        self.merkle_change_set.clear();
+
         // Update nodes in `MerkleChangeSet`
         self.insert_dirty_cache_entries_as_leaf_writes(dirty_entries)
             .await?;
-- 
2.43.0


From 84e8ffa59c98f76c8f8e1b95b0028eee62470a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:37 +0000
Subject: [PATCH 25/37] fix: the signed remainder of the least integer is not
 positive

---
 pvm/pvm-core/src/utils.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pvm/pvm-core/src/utils.rs b/pvm/pvm-core/src/utils.rs
index 3c1d8fd..e753afb 100644
--- a/pvm/pvm-core/src/utils.rs
+++ b/pvm/pvm-core/src/utils.rs
@@ -313,8 +313,8 @@ impl VMUtils {
         if b == 0 {
             a
         } else {
-            let sgn = if a.is_positive() { 1 } else { -1 };
-            sgn * (((a as i64).abs() as i32) % ((b as i64).abs() as i32))
+            // The remainder takes the sign of the dividend
+            a.wrapping_rem(b)
         }
     }
 
@@ -324,8 +324,8 @@ impl VMUtils {
         if b == 0 {
             a
         } else {
-            let sgn = if a.is_positive() { 1 } else { -1 };
-            sgn * (((a as i128).abs() as i64) % ((b as i128).abs() as i64))
+            // The remainder takes the sign of the dividend
+            a.wrapping_rem(b)
         }
     }
 }
-- 
2.43.0


From 8ef6caa4bcc9e8fb8bdcae18a6e7d310e0db1cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:37 +0000
Subject: [PATCH 26/37] fix: a block begins after a terminator at index zero

---
 pvm/pvm-core/src/program/loader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvm/pvm-core/src/program/loader.rs b/pvm/pvm-core/src/program/loader.rs
index fea656e..625a082 100644
--- a/pvm/pvm-core/src/program/loader.rs
+++ b/pvm/pvm-core/src/program/loader.rs
@@ -92,7 +92,7 @@ impl ProgramLoader {
     fn set_basic_block_start_indices(program: &mut ProgramState) -> Result<(), VMCoreError> {
         program.basic_block_start_indices.set(0, true);
         let instructions_len = program.instructions.len();
-        for n in 1..instructions_len {
+        for n in 0..instructions_len {
             if program
                 .opcode_bitmask
                 .get(n)
-- 
2.43.0


From 6e632d1183605133c8280e91d1ce031fdd5a44c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:37 +0000
Subject: [PATCH 27/37] fix: a page fault of a byte load reports the start of
 its page

---
 pvm/pvm-core/src/program/instruction/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvm/pvm-core/src/program/instruction/utils.rs b/pvm/pvm-core/src/program/instruction/utils.rs
index 36ce564..fc7bcf6 100644
--- a/pvm/pvm-core/src/program/instruction/utils.rs
+++ b/pvm/pvm-core/src/program/instruction/utils.rs
@@ -40,7 +40,7 @@ macro_rules! mem_panic {
 macro_rules! mem_page_fault {
     ($addr:expr) => {
         Ok(SingleStepResult {
-            exit_reason: ExitReason::PageFault($addr),
+            exit_reason: ExitReason::PageFault(VMUtils::page_start_address($addr)),
             state_change: VMStateChange::default(),
         })
     };
-- 
2.43.0


From 6dc0348a208251eb83b411c840d847909ffb4823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:56 +0000
Subject: [PATCH 28/37] fix: an inner machine has the whole address space

---
 pvm/pvm-host/src/host_functions/refine/mod.rs | 2 +-
 pvm/pvm-host/src/inner_vm.rs                  | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pvm/pvm-host/src/host_functions/refine/mod.rs b/pvm/pvm-host/src/host_functions/refine/mod.rs
index d06070b..d936d20 100644
--- a/pvm/pvm-host/src/host_functions/refine/mod.rs
+++ b/pvm/pvm-host/src/host_functions/refine/mod.rs
@@ -445,7 +445,7 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
         // Construct a new `VMState` and `ProgramState` for the general invocation function.
         let mut inner_vm_state_copy = VMState {
             regs,
-            memory: inner_vm_mut.memory.clone(),
+            memory: std::mem::take(&mut inner_vm_mut.memory),
             pc: inner_vm_mut.pc,
             gas_counter: gas_limit
                 .try_into()
diff --git a/pvm/pvm-host/src/inner_vm.rs b/pvm/pvm-host/src/inner_vm.rs
index 985b354..510c060 100644
--- a/pvm/pvm-host/src/inner_vm.rs
+++ b/pvm/pvm-host/src/inner_vm.rs
@@ -1,5 +1,8 @@
 use fr_pvm_core::state::memory::Memory;
-use fr_pvm_types::common::RegValue;
+use fr_pvm_types::{
+    common::RegValue,
+    constants::{MEMORY_SIZE, PAGE_SIZE},
+};
 
 #[derive(Clone)]
 pub(crate) struct InnerPVM {
@@ -15,7 +18,7 @@ impl InnerPVM {
     pub(crate) fn new(program_code: Vec<u8>, pc: RegValue) -> Self {
         Self {
             program_code,
-            memory: Memory::default(),
+            memory: Memory::new(MEMORY_SIZE, PAGE_SIZE),
             pc,
         }
     }
-- 
2.43.0


From aeadc7fdbe7578a5a9b054ff70c0f030f5a3ff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:56 +0000
Subject: [PATCH 29/37] fix: PAGES clears pages that were not writable

---
 pvm/pvm-host/src/host_functions/refine/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pvm/pvm-host/src/host_functions/refine/mod.rs b/pvm/pvm-host/src/host_functions/refine/mod.rs
index d936d20..2496273 100644
--- a/pvm/pvm-host/src/host_functions/refine/mod.rs
+++ b/pvm/pvm-host/src/host_functions/refine/mod.rs
@@ -372,6 +372,12 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
         if mode < 3 {
             let address_offset = (inner_memory_page_offset * PAGE_SIZE) as MemAddress;
             let data_size = pages_count * PAGE_SIZE;
+            // The pages need not have been writable so far
+            let Ok(_) = inner_memory_mut
+                .set_page_range_access(page_start..page_end, AccessType::ReadWrite)
+            else {
+                continue_huh!()
+            };
             let Ok(_) = inner_memory_mut.write_bytes(address_offset, &vec![0u8; data_size]) else {
                 continue_huh!()
             };
-- 
2.43.0


From bf954fa6d8908af2809e96d54e3aaf7691070a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:56 +0000
Subject: [PATCH 30/37] fix: a page range of PAGES does not wrap around

---
 pvm/pvm-host/src/host_functions/refine/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvm/pvm-host/src/host_functions/refine/mod.rs b/pvm/pvm-host/src/host_functions/refine/mod.rs
index 2496273..32fb162 100644
--- a/pvm/pvm-host/src/host_functions/refine/mod.rs
+++ b/pvm/pvm-host/src/host_functions/refine/mod.rs
@@ -354,7 +354,7 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
 
         if mode > 4
             || inner_memory_page_offset < 16
-            || inner_memory_page_offset + pages_count >= (1 << 32) / PAGE_SIZE
+            || inner_memory_page_offset.saturating_add(pages_count) >= (1 << 32) / PAGE_SIZE
         {
             continue_huh!()
         }
-- 
2.43.0


From 98643e3034a9aecd0e7264deb50eba1b75c8a4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:56 +0000
Subject: [PATCH 31/37] fix: a new inner machine takes the least free index

---
 pvm/pvm-host/src/context/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pvm/pvm-host/src/context/mod.rs b/pvm/pvm-host/src/context/mod.rs
index 4318b07..23df079 100644
--- a/pvm/pvm-host/src/context/mod.rs
+++ b/pvm/pvm-host/src/context/mod.rs
@@ -526,11 +526,15 @@ impl RefineHostContext {
     pub(crate) fn add_pvm_instance(&mut self, pvm: InnerPVM) -> usize {
         let id = self.next_instance_id;
         self.pvm_instances.insert(id, pvm);
-        self.next_instance_id += 1;
+        while self.pvm_instances.contains_key(&self.next_instance_id) {
+            self.next_instance_id += 1;
+        }
         id
     }
 
     pub(crate) fn remove_pvm_instance(&mut self, id: usize) {
-        self.pvm_instances.remove(&id);
+        if self.pvm_instances.remove(&id).is_some() {
+            self.next_instance_id = self.next_instance_id.min(id);
+        }
     }
 }
-- 
2.43.0


From 0749c87efd647c2d1074ee8605a21d04210e1c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:46 +0000
Subject: [PATCH 32/37] fix: an inner machine takes any gas limit

---
 pvm/pvm-host/src/host_functions/refine/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pvm/pvm-host/src/host_functions/refine/mod.rs b/pvm/pvm-host/src/host_functions/refine/mod.rs
index 32fb162..d35680f 100644
--- a/pvm/pvm-host/src/host_functions/refine/mod.rs
+++ b/pvm/pvm-host/src/host_functions/refine/mod.rs
@@ -448,14 +448,15 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
 
         // --- PVM Invocation
 
+        // The part of the limit beyond the range of the gas counter stays unspent
+        let spendable_gas = gas_limit.min(SignedGas::MAX as UnsignedGas);
+
         // Construct a new `VMState` and `ProgramState` for the general invocation function.
         let mut inner_vm_state_copy = VMState {
             regs,
             memory: std::mem::take(&mut inner_vm_mut.memory),
             pc: inner_vm_mut.pc,
-            gas_counter: gas_limit
-                .try_into()
-                .map_err(|_| HostCallError::GasLimitOverflow(gas_limit))?,
+            gas_counter: spendable_gas as SignedGas,
         };
 
         // Load program and invoke the PVM.
@@ -471,7 +472,9 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
 
         // 112-byte mem write
         let mut host_buf = vec![];
-        (inner_vm_state_copy.gas_counter as UnsignedGas).encode_to_fixed(&mut host_buf, 8)?;
+        let gas_left = (inner_vm_state_copy.gas_counter as UnsignedGas)
+            .wrapping_add(gas_limit - spendable_gas);
+        gas_left.encode_to_fixed(&mut host_buf, 8)?;
         for reg in inner_vm_state_copy.regs {
             reg.encode_to_fixed(&mut host_buf, 8)?;
         }
-- 
2.43.0


From e7c52e35b3aded6c9aff4ad59a580629980e912c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:54 +0000
Subject: [PATCH 33/37] fix: a provided preimage outlives the merge of its
 service

---
 pvm/pvm-invocation/src/accumulate/pipeline.rs | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pvm/pvm-invocation/src/accumulate/pipeline.rs b/pvm/pvm-invocation/src/accumulate/pipeline.rs
index 8bc5fd1..c2e9e81 100644
--- a/pvm/pvm-invocation/src/accumulate/pipeline.rs
+++ b/pvm/pvm-invocation/src/accumulate/pipeline.rs
@@ -501,6 +501,7 @@ async fn accumulate_parallel(
     let mut service_gas_pairs = Vec::new();
     let mut service_output_pairs = BTreeSet::new();
     let mut new_deferred_transfers = Vec::new();
+    let mut provided_preimages = HashSet::new();
 
     // Concurrent accumulate invocations grouped by service ids.
     let mut handles = Vec::with_capacity(all_service_ids.len());
@@ -568,18 +569,21 @@ async fn accumulate_parallel(
                 // Add deferred transfers
                 new_deferred_transfers.extend(accumulate_result.deferred_transfers);
 
-                // Add provided preimages
-                add_provided_preimages(
-                    state_manager.clone(),
-                    partial_state_union,
-                    accumulate_result.provided_preimages,
-                    curr_timeslot_index,
-                )
-                .await?;
+                // Collect provided preimages
+                provided_preimages.extend(accumulate_result.provided_preimages);
             }
         }
     }
 
+    // Add provided preimages, after the changes of every service in this round are merged
+    add_provided_preimages(
+        state_manager.clone(),
+        partial_state_union,
+        provided_preimages,
+        curr_timeslot_index,
+    )
+    .await?;
+
     // Multiple services that are accumulated in the same `Δ*` round can produce conflicting
     // changes to the privileged services: assigners, designate and registrar.
     // So at this point, `partial_state_union` may hold `Some` variants for both `change_by_bless`
-- 
2.43.0


From 3150773b12b18d546a489f03fb39405ffda4df50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:54 +0000
Subject: [PATCH 34/37] fix: an assigner keeps its change on a core the manager
 left alone

---
 pvm/pvm-invocation/src/accumulate/pipeline.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pvm/pvm-invocation/src/accumulate/pipeline.rs b/pvm/pvm-invocation/src/accumulate/pipeline.rs
index c2e9e81..b60ff92 100644
--- a/pvm/pvm-invocation/src/accumulate/pipeline.rs
+++ b/pvm/pvm-invocation/src/accumulate/pipeline.rs
@@ -600,15 +600,19 @@ async fn accumulate_parallel(
         &partial_state_union.assign_services.change_by_bless
     {
         partial_state_union.assign_services.last_confirmed = new_assign_services_by_manager.clone();
-    } else {
-        for (core_idx, new_assign_service_by_self) in
-            &partial_state_union.assign_services.change_by_self
-        {
-            if let Some(assign) = partial_state_union
+    }
+    for (core_idx, new_assign_service_by_self) in
+        &partial_state_union.assign_services.change_by_self
+    {
+        if let (Some(assign), Some(prev_assign)) = (
+            partial_state_union
                 .assign_services
                 .last_confirmed
-                .get_mut(*core_idx as usize)
-            {
+                .get_mut(*core_idx as usize),
+            prev_assigns.get(*core_idx as usize),
+        ) {
+            // The manager left this core as it was
+            if assign == prev_assign {
                 *assign = *new_assign_service_by_self;
             }
         }
-- 
2.43.0


From 3a140578e408880474ce446b60e83dd93ef681a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:07 +0000
Subject: [PATCH 35/37] fix: ejecting an account updated in the same block
 removes it

---
 pvm/pvm-host/src/context/partial_state.rs | 26 +++++++++++++++--------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/pvm/pvm-host/src/context/partial_state.rs b/pvm/pvm-host/src/context/partial_state.rs
index 2a5605d..513beae 100644
--- a/pvm/pvm-host/src/context/partial_state.rs
+++ b/pvm/pvm-host/src/context/partial_state.rs
@@ -392,16 +392,24 @@ impl<S: HostStateProvider> AccountsSandboxMap<S> {
         state_provider: Arc<S>,
         service_id: ServiceId,
     ) -> Result<Option<AccountMetadata>, PartialStateError> {
-        let sandbox =
-            if let Some(sandbox) = self.get_account_sandbox(state_provider, service_id).await? {
-                sandbox
-            } else {
-                return Ok(None);
-            };
-        if let SandboxEntryStatus::Clean = sandbox.metadata.entry.status {
-            Ok(sandbox.metadata.entry.value.clone())
+        let sandbox = if let Some(sandbox) = self
+            .get_account_sandbox(state_provider.clone(), service_id)
+            .await?
+        {
+            sandbox
         } else {
-            Ok(sandbox.metadata.clean_snapshot.clone())
+            return Ok(None);
+        };
+        match (
+            &sandbox.metadata.entry.status,
+            &sandbox.metadata.clean_snapshot,
+        ) {
+            (SandboxEntryStatus::Clean, _) => Ok(sandbox.metadata.entry.value.clone()),
+            // Loaded from the global state and updated in place
+            (SandboxEntryStatus::Updated, None) => {
+                Ok(state_provider.get_account_metadata(service_id).await?)
+            }
+            (_, clean_snapshot) => Ok(clean_snapshot.clone()),
         }
     }
 
-- 
2.43.0


From 8096bcc1a0c1c129299a252571449163b392d9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:24 +0000
Subject: [PATCH 36/37] fix: running past the end of the code charges gas for
 the trap

---
 pvm/pvm-core/src/interpreter/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pvm/pvm-core/src/interpreter/mod.rs b/pvm/pvm-core/src/interpreter/mod.rs
index 91dd8d9..7213eb1 100644
--- a/pvm/pvm-core/src/interpreter/mod.rs
+++ b/pvm/pvm-core/src/interpreter/mod.rs
@@ -49,13 +49,14 @@ impl Interpreter {
         vm_state: &mut VMState,
         program_state: &ProgramState,
     ) -> Result<ExitReason, VMCoreError> {
+        // The code is followed by zeros
+        let trap = Instruction::trap();
         loop {
             let curr_pc = vm_state.pc;
             let program_state_ref: &ProgramState = program_state;
-            let Some(inst) = program_state_ref.instruction_at(curr_pc as usize) else {
-                tracing::warn!("Ψ Panic: Failed to extract instruction. PC={curr_pc}");
-                return Ok(ExitReason::Panic);
-            };
+            let inst = program_state_ref
+                .instruction_at(curr_pc as usize)
+                .unwrap_or(&trap);
 
             let single_invocation_result =
                 Self::invoke_single_step(vm_state, program_state_ref, inst)?;
-- 
2.43.0


From dc96405e52018184039164461efa9529507a2016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:57 +0000
Subject: [PATCH 37/37] fix: a failed state read in a general host call is an
 error, not an absent entry

---
 pvm/pvm-host/src/host_functions/general/mod.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pvm/pvm-host/src/host_functions/general/mod.rs b/pvm/pvm-host/src/host_functions/general/mod.rs
index 68c3431..4ac9481 100644
--- a/pvm/pvm-host/src/host_functions/general/mod.rs
+++ b/pvm/pvm-host/src/host_functions/general/mod.rs
@@ -272,9 +272,9 @@ impl<S: HostStateProvider> GeneralHostFunction<S> {
             };
             service_id_reg
         };
-        let Ok(Some(entry)) = accounts_sandbox
+        let Some(entry) = accounts_sandbox
             .get_account_preimages_entry(state_provider, service_id, &hash)
-            .await
+            .await?
         else {
             continue_none!()
         };
@@ -349,9 +349,9 @@ impl<S: HostStateProvider> GeneralHostFunction<S> {
             };
             service_id_reg
         };
-        let Ok(Some(entry)) = accounts_sandbox
+        let Some(entry) = accounts_sandbox
             .get_account_storage_entry(state_provider, service_id, &storage_key)
-            .await
+            .await?
         else {
             continue_none!()
         };
@@ -431,9 +431,7 @@ impl<S: HostStateProvider> GeneralHostFunction<S> {
         // Threshold balance change simulation
         let maybe_prev_storage_entry = accounts_sandbox
             .get_account_storage_entry(state_provider.clone(), service_id, &storage_key)
-            .await
-            .ok()
-            .flatten();
+            .await?;
 
         let new_storage_entry = if value_size == 0 {
             None
@@ -545,9 +543,9 @@ impl<S: HostStateProvider> GeneralHostFunction<S> {
             };
             service_id_reg
         };
-        let Ok(Some(metadata)) = accounts_sandbox
+        let Some(metadata) = accounts_sandbox
             .get_account_metadata(state_provider, service_id)
-            .await
+            .await?
         else {
             continue_none!()
         };
-- 
2.43.0

