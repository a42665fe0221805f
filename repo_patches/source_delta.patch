From ca3d7f0b1698f156fb0045efd1539557af9bdeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:08 +0000
Subject: [PATCH 01/37] fix: derive block positions from the rope when reading
 blocks

Text edits skip the stored document_position refresh for rope-clean
documents, but most use cases (formatting, lists, replace, paste) read that
stored field: after typing in one paragraph, an operation on a later one was
applied to the wrong paragraph. Correct the position on every block read.
---
 crates/common/src/database/rope_helpers.rs    | 19 ++++++++++
 .../src/direct_access/block/block_table.rs    | 37 ++++++++++++++-----
 .../src/use_cases/insert_table_uc.rs          |  5 +--
 3 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index 7f715c4..6806efb 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -105,6 +105,25 @@ pub fn rope_positions_match_flow(store: &Store) -> bool {
     indexed_block_count == total_block_count
 }
 
+/// Bring `Block.document_position` of freshly read blocks in line with the
+/// rope. Text edits skip the stored-position refresh for rope-clean
+/// documents, so the stored field may be stale; the block table calls this
+/// on every read so that no reader sees a stale position. No-op when the
+/// stored field is authoritative (see [`rope_positions_match_flow`]) and for
+/// blocks not registered in the index.
+pub fn refresh_block_positions<'b>(blocks: impl Iterator<Item = &'b mut Block>, store: &Store) {
+    if !rope_positions_match_flow(store) {
+        return;
+    }
+    let offsets = store.block_offsets.read().unwrap();
+    let rope = store.rope.read().unwrap();
+    for block in blocks {
+        if let Some((byte_start, _)) = offsets.range_of_block(block.id) {
+            block.document_position = rope.byte_to_char(byte_start as usize) as i64;
+        }
+    }
+}
+
 /// Locate which block contains a given absolute char position in the
 /// document, returning `(block_id, char_offset_in_block, block_char_start)`
 /// in O(log n) using the rope + `BlockOffsetIndex` instead of an O(N)
diff --git a/crates/common/src/direct_access/block/block_table.rs b/crates/common/src/direct_access/block/block_table.rs
index 9c0233b..e0b1787 100644
--- a/crates/common/src/direct_access/block/block_table.rs
+++ b/crates/common/src/direct_access/block/block_table.rs
@@ -12,6 +12,7 @@ use std::collections::HashMap as StdHashMap;
 use super::block_repository::BlockRelationshipField;
 use super::block_repository::BlockTable;
 use super::block_repository::BlockTableRO;
+use crate::database::rope_helpers::refresh_block_positions;
 
 fn read_field(block: &Block, field: &BlockRelationshipField) -> Vec<EntityId> {
     match field {
@@ -69,23 +70,31 @@ impl<'a> BlockTable for BlockHashMapTable<'a> {
     }
 
     fn get(&self, id: &EntityId) -> Result<Option<Block>, RepositoryError> {
-        Ok(self.store.blocks.read().unwrap().get(id).cloned())
+        let mut block = self.store.blocks.read().unwrap().get(id).cloned();
+        refresh_block_positions(block.iter_mut(), self.store);
+        Ok(block)
     }
 
     fn get_multi(&self, ids: &[EntityId]) -> Result<Vec<Option<Block>>, RepositoryError> {
-        let map = self.store.blocks.read().unwrap();
-        Ok(ids.iter().map(|id| map.get(id).cloned()).collect())
+        let mut blocks: Vec<Option<Block>> = {
+            let map = self.store.blocks.read().unwrap();
+            ids.iter().map(|id| map.get(id).cloned()).collect()
+        };
+        refresh_block_positions(blocks.iter_mut().flatten(), self.store);
+        Ok(blocks)
     }
 
     fn get_all(&self) -> Result<Vec<Block>, RepositoryError> {
-        Ok(self
+        let mut blocks: Vec<Block> = self
             .store
             .blocks
             .read()
             .unwrap()
             .values()
             .cloned()
-            .collect())
+            .collect();
+        refresh_block_positions(blocks.iter_mut(), self.store);
+        Ok(blocks)
     }
 
     fn update(&mut self, entity: &Block) -> Result<Block, RepositoryError> {
@@ -333,23 +342,31 @@ impl<'a> BlockHashMapTableRO<'a> {
 
 impl<'a> BlockTableRO for BlockHashMapTableRO<'a> {
     fn get(&self, id: &EntityId) -> Result<Option<Block>, RepositoryError> {
-        Ok(self.store.blocks.read().unwrap().get(id).cloned())
+        let mut block = self.store.blocks.read().unwrap().get(id).cloned();
+        refresh_block_positions(block.iter_mut(), self.store);
+        Ok(block)
     }
 
     fn get_multi(&self, ids: &[EntityId]) -> Result<Vec<Option<Block>>, RepositoryError> {
-        let map = self.store.blocks.read().unwrap();
-        Ok(ids.iter().map(|id| map.get(id).cloned()).collect())
+        let mut blocks: Vec<Option<Block>> = {
+            let map = self.store.blocks.read().unwrap();
+            ids.iter().map(|id| map.get(id).cloned()).collect()
+        };
+        refresh_block_positions(blocks.iter_mut().flatten(), self.store);
+        Ok(blocks)
     }
 
     fn get_all(&self) -> Result<Vec<Block>, RepositoryError> {
-        Ok(self
+        let mut blocks: Vec<Block> = self
             .store
             .blocks
             .read()
             .unwrap()
             .values()
             .cloned()
-            .collect())
+            .collect();
+        refresh_block_positions(blocks.iter_mut(), self.store);
+        Ok(blocks)
     }
 
     fn get_relationship(
diff --git a/crates/document_editing/src/use_cases/insert_table_uc.rs b/crates/document_editing/src/use_cases/insert_table_uc.rs
index 7c93ca3..29cc177 100644
--- a/crates/document_editing/src/use_cases/insert_table_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_uc.rs
@@ -109,10 +109,7 @@ fn execute_insert_table(
             let blocks_opt = uow.get_block_multi(&ids)?;
             let mut updates: Vec<Block> = Vec::new();
             for ((_, fresh_pos), maybe_b) in catchup.into_iter().zip(blocks_opt) {
-                if let Some(b) = maybe_b
-                    && b.document_position != fresh_pos
-                {
-                    let mut ub = b;
+                if let Some(mut ub) = maybe_b {
                     ub.document_position = fresh_pos;
                     ub.updated_at = chrono::Utc::now();
                     updates.push(ub);
-- 
2.43.0


From 632a7906a278d325e71fc9a1c60f3b58e05fad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:08 +0000
Subject: [PATCH 02/37] fix: keep the replaced selection when merging typed
 text for redo

Typing over a selection and then typing on merged into one command whose
anchor was reset, so redo inserted the text without removing the selection.
---
 crates/document_editing/src/use_cases/insert_text_uc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/document_editing/src/use_cases/insert_text_uc.rs b/crates/document_editing/src/use_cases/insert_text_uc.rs
index da5cfed..a22f7da 100644
--- a/crates/document_editing/src/use_cases/insert_text_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_text_uc.rs
@@ -642,8 +642,9 @@ impl UndoRedoCommand for InsertTextUseCase {
         };
 
         if let (Some(self_dto), Some(other_dto)) = (&mut self.last_dto, &other_cmd.last_dto) {
+            // `anchor` is left alone: when `self` replaced a selection, redo
+            // has to remove that selection again.
             self_dto.text.push_str(&other_dto.text);
-            self_dto.anchor = self_dto.position;
         }
         if let Some(other_result) = &other_cmd.last_result {
             self.last_result = Some(other_result.clone());
-- 
2.43.0


From 30909c8f8b6ae9a309b395f468bc8e851b226ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:08 +0000
Subject: [PATCH 03/37] fix: report case-insensitive matches at their position
 in the text
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Lowercasing can change the number of chars ('İ'), and match positions were
taken from the lowercased text: every match after such a char was shifted,
and a replacement hit the wrong text.
---
 .../src/use_cases/search_helpers.rs           | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/crates/document_search/src/use_cases/search_helpers.rs b/crates/document_search/src/use_cases/search_helpers.rs
index 4828477..7929080 100644
--- a/crates/document_search/src/use_cases/search_helpers.rs
+++ b/crates/document_search/src/use_cases/search_helpers.rs
@@ -125,6 +125,22 @@ pub fn find_all_matches(
             return Ok(results);
         }
 
+        // Lowercasing can turn one char into several ('İ'), so map each char
+        // of the search text back to the char of `full_text` it came from.
+        let mut origin: Vec<usize> = Vec::with_capacity(char_indices.len() + 1);
+        let mut full_char_len = 0;
+        for c in full_text.chars() {
+            let width = if case_sensitive {
+                1
+            } else {
+                c.to_lowercase().count()
+            };
+            origin.resize(origin.len() + width, full_char_len);
+            full_char_len += 1;
+        }
+        origin.push(full_char_len);
+        let starts_char = |i: usize| i == 0 || origin[i] != origin[i - 1];
+
         let mut char_pos = 0;
         while char_pos + query_char_len <= char_indices.len() {
             let byte_start = char_indices[char_pos];
@@ -134,13 +150,18 @@ pub fn find_all_matches(
                 search_text.len()
             };
 
-            if search_text[byte_start..byte_end] == search_query[..] {
+            let end_pos = char_pos + query_char_len;
+            if search_text[byte_start..byte_end] == search_query[..]
+                && starts_char(char_pos)
+                && starts_char(end_pos)
+            {
+                let (start, end) = (origin[char_pos], origin[end_pos]);
                 if let Some(ref wb) = word_boundaries {
-                    if wb.contains(&char_pos) && wb.contains(&(char_pos + query_char_len)) {
-                        results.push((char_pos, query_char_len));
+                    if wb.contains(&start) && wb.contains(&end) {
+                        results.push((start, end - start));
                     }
                 } else {
-                    results.push((char_pos, query_char_len));
+                    results.push((start, end - start));
                 }
             }
             char_pos += 1;
-- 
2.43.0


From c290a489a880e8f72a2405f1a4634fa73cb47b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:08 +0000
Subject: [PATCH 04/37] fix: PreviousBlock stops at an empty previous block

Moving to the previous block looked two positions back and so skipped an
empty paragraph.
---
 crates/public_api/src/cursor.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 8d7be8e..71e9964 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -2135,16 +2135,21 @@ impl TextCursor {
                     document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
                         .map(|info| to_usize(info.block_start))
                         .unwrap_or(pos);
-                if block_start >= 2 {
-                    // Skip past the block separator (which maps to the current block)
+                let start_of_block_at = |p: usize| {
                     let prev_dto = frontend::document_inspection::GetBlockAtPositionDto {
-                        position: to_i64(block_start - 2),
+                        position: to_i64(p),
                     };
                     document_inspection_commands::get_block_at_position(&inner.ctx, &prev_dto)
                         .map(|info| to_usize(info.block_start))
                         .unwrap_or(0)
+                };
+                // The separator before `block_start` maps to the current
+                // block, unless the previous block is empty.
+                let prev_start = start_of_block_at(block_start.saturating_sub(1));
+                if prev_start < block_start {
+                    prev_start
                 } else {
-                    0
+                    start_of_block_at(block_start.saturating_sub(2))
                 }
             }
             MoveOperation::NextWord | MoveOperation::EndOfWord | MoveOperation::WordRight => {
-- 
2.43.0


From 0e482934be13c027c4c4e85e5c0daefca2d2300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:31 +0000
Subject: [PATCH 05/37] fix: mirror the paragraph created by insert_list into
 the rope

The new list item was unknown to the rope: text typed into it was lost, and
positions of the following paragraphs drifted.
---
 .../document_editing/src/use_cases/insert_list_uc.rs  | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/document_editing/src/use_cases/insert_list_uc.rs b/crates/document_editing/src/use_cases/insert_list_uc.rs
index 5a7d74d..a177ece 100644
--- a/crates/document_editing/src/use_cases/insert_list_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_list_uc.rs
@@ -3,7 +3,7 @@ use crate::InsertListDto;
 use crate::InsertListResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
-use common::database::rope_helpers::block_char_length;
+use common::database::rope_helpers::{block_char_length, block_content_via_store, rope_split_block};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -133,8 +133,17 @@ fn execute_insert_list(
     };
 
     let insert_index = (block_idx + 1) as i32;
+    let current_byte_len = blocks
+        .get(block_idx)
+        .map(|b| block_content_via_store(b, &store).len() as u32);
     let created_block = uow.create_block(&new_block, frame_id, insert_index)?;
 
+    // Mirror the new empty block into the rope, right after the current one;
+    // a block unknown to the rope would drop whatever is typed into it.
+    if let Some(byte_len) = current_byte_len {
+        rope_split_block(&store, blocks[block_idx].id, byte_len, created_block.id);
+    }
+
     // Update frame's child_order
     let mut updated_frame = frame.clone();
     let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
-- 
2.43.0


From 6722a62507bc04499845f1725af616b9c8a9a41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:31 +0000
Subject: [PATCH 06/37] fix: undo of typed text moves later paragraphs back in
 documents with tables

In a document with tables the insertion shifts the stored position of every
later block, but undo left the shift in place: after undo and redo the
positions of the later paragraphs had drifted.
---
 .../src/use_cases/insert_text_uc.rs           | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/crates/document_editing/src/use_cases/insert_text_uc.rs b/crates/document_editing/src/use_cases/insert_text_uc.rs
index a22f7da..a5ffe47 100644
--- a/crates/document_editing/src/use_cases/insert_text_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_text_uc.rs
@@ -58,6 +58,10 @@ struct UndoData {
     /// undo to delete those bytes from the rope.
     inserted_byte_offset: u32,
     inserted_byte_len: u32,
+    /// Blocks whose stored `document_position` the insertion moved by
+    /// `shifted_by` (only when the rope can't derive flow positions).
+    shifted_block_ids: Vec<EntityId>,
+    shifted_by: i64,
 }
 
 enum InsertTextUndo {
@@ -383,6 +387,7 @@ fn execute_insert_simple(
     // walk here is unnecessary and dominated per-keystroke cost on
     // /large/1000para benches. The catch-up logic in `insert_table_uc`
     // brings stored values back into sync if a table is later added.
+    let mut shifted_block_ids: Vec<EntityId> = Vec::new();
     if !common::database::rope_helpers::rope_positions_match_flow(&store) {
         let frame_ids =
             uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
@@ -397,6 +402,7 @@ fn execute_insert_simple(
         let mut blocks_to_update: Vec<Block> = Vec::new();
         for b in all_blocks {
             if b.id != block.id && b.document_position > block.document_position {
+                shifted_block_ids.push(b.id);
                 let mut ub = b;
                 ub.document_position += inserted_char_len;
                 ub.updated_at = chrono::Utc::now();
@@ -422,6 +428,8 @@ fn execute_insert_simple(
         original_character_count: document.character_count,
         inserted_byte_offset: byte_offset,
         inserted_byte_len,
+        shifted_block_ids,
+        shifted_by: inserted_char_len,
     };
 
     Ok((
@@ -556,6 +564,21 @@ impl UndoRedoCommand for InsertTextUseCase {
                     );
                 }
 
+                // Move the blocks after the insertion back.
+                let mut shifted_back: Vec<Block> = Vec::new();
+                for mut b in uow
+                    .get_block_multi(&data.shifted_block_ids)?
+                    .into_iter()
+                    .flatten()
+                {
+                    b.document_position -= data.shifted_by;
+                    b.updated_at = chrono::Utc::now();
+                    shifted_back.push(b);
+                }
+                if !shifted_back.is_empty() {
+                    uow.update_block_multi(&shifted_back)?;
+                }
+
                 let mut doc = uow
                     .get_document(&data.doc_id)?
                     .ok_or_else(|| anyhow!("Document not found"))?;
@@ -661,6 +684,7 @@ impl UndoRedoCommand for InsertTextUseCase {
             (&mut self.undo_data, &other_cmd.undo_data)
         {
             self_undo.inserted_byte_len += other_undo.inserted_byte_len;
+            self_undo.shifted_by += other_undo.shifted_by;
         }
 
         true
-- 
2.43.0


From afc692d1474b5cb92e52ba29a80095fa7d6b4b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:05 +0000
Subject: [PATCH 07/37] fix: literal search reports non-overlapping matches,
 like regex search

Replacing "aa" by "xyz" in "aaaa" replaced three overlapping matches one
over the other and gave "xyzyzyz" instead of "xyzxyz".
---
 crates/document_search/src/use_cases/search_helpers.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/document_search/src/use_cases/search_helpers.rs b/crates/document_search/src/use_cases/search_helpers.rs
index 7929080..8aa80cd 100644
--- a/crates/document_search/src/use_cases/search_helpers.rs
+++ b/crates/document_search/src/use_cases/search_helpers.rs
@@ -159,9 +159,13 @@ pub fn find_all_matches(
                 if let Some(ref wb) = word_boundaries {
                     if wb.contains(&start) && wb.contains(&end) {
                         results.push((start, end - start));
+                        char_pos = end_pos;
+                        continue;
                     }
                 } else {
                     results.push((start, end - start));
+                    char_pos = end_pos;
+                    continue;
                 }
             }
             char_pos += 1;
-- 
2.43.0


From 25b5edb8b8eecad734e46abf2364e26dc87a9c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:57 +0000
Subject: [PATCH 08/37] fix: block formatting applies to the paragraph whose
 end the cursor is at

---
 .../src/use_cases/set_block_format_uc.rs             | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/document_formatting/src/use_cases/set_block_format_uc.rs b/crates/document_formatting/src/use_cases/set_block_format_uc.rs
index 207a689..2f871d6 100644
--- a/crates/document_formatting/src/use_cases/set_block_format_uc.rs
+++ b/crates/document_formatting/src/use_cases/set_block_format_uc.rs
@@ -92,14 +92,10 @@ fn execute_set_block_format(
         let block_start = block.document_position;
         let block_end = block_start + block_char_length(block, &store);
 
-        // Block overlaps the range if its text interval [block_start, block_end)
-        // intersects [range_start, range_end].  Empty blocks (text_length == 0)
-        // are included when their position falls inside the range.
-        let overlaps = if block_char_length(block, &store) > 0 {
-            block_start <= range_end && block_end > range_start
-        } else {
-            block_start >= range_start && block_start <= range_end
-        };
+        // A block is in range if [block_start, block_end] touches
+        // [range_start, range_end]: a caret at the end of a block's text is
+        // still inside that block.
+        let overlaps = block_start <= range_end && block_end >= range_start;
         if overlaps {
             let mut updated = block.clone();
             if let Some(ref a) = dto.alignment {
-- 
2.43.0


From 963c7ae269862fca54ca74485f8bf1029007592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:57 +0000
Subject: [PATCH 09/37] fix: count the text after the caret when pasting
 paragraphs

---
 .../src/use_cases/insert_fragment_uc.rs            | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index c2d7ec0..2b7bbd0 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -1894,6 +1894,10 @@ fn execute_insert_fragment(
         if merge_last {
             total_new_chars += last_chars;
         }
+        if merge_first || overwrite_head {
+            // `head_delta` subtracted the text that moves to the tail.
+            total_new_chars += text_after_chars + right_image_count;
+        }
 
         let tail_chars = tail_plain.chars().count() as i64;
         let tail_image_count = tail_images.len() as i64;
@@ -2194,7 +2198,8 @@ fn execute_insert_fragment(
 
                 let created_tail =
                     uow.create_block(&tail_block, frame_id, (block_idx + 1) as i32)?;
-                tail_text_len = block_char_length(&created_tail, &store);
+                // The rope mirror runs later: the tail's content is `text_after`.
+                tail_text_len = text_after_chars + right_image_count;
                 blocks_added = 1;
                 created_tail_id_overwrite = Some(created_tail.id);
                 write_block_state(
@@ -2267,7 +2272,9 @@ fn execute_insert_fragment(
                 uow.update_block_multi(&blocks_to_update)?;
             }
 
-            let char_delta = block_text_len - original_current_char_length;
+            // The text after the caret moved to the tail block, it did not go away.
+            let char_delta = block_text_len + text_after_chars + right_image_count
+                - original_current_char_length;
             let mut updated_doc = document.clone();
             updated_doc.block_count += blocks_added;
             updated_doc.character_count += char_delta;
@@ -2294,8 +2301,9 @@ fn execute_insert_fragment(
                 left_images.clone(),
             );
 
+            // The rope mirror runs later: the head will keep `text_before` only.
             let mut running_position =
-                current_block.document_position + block_char_length(&updated_current, &store) + 1;
+                current_block.document_position + text_before_chars + left_image_count + 1;
 
             let list_id = if let Some(ref frag_list) = frag_block.list {
                 let list = frag_list.to_entity();
-- 
2.43.0


From 9d0a0bd04f019a567bb7f6a07b5e41a99d6e3855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:12 +0000
Subject: [PATCH 10/37] fix: reject an empty fragment before deleting the
 selection it would replace

---
 crates/public_api/src/cursor.rs   | 4 ++++
 crates/public_api/src/fragment.rs | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 71e9964..a37c2de 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -585,6 +585,10 @@ impl TextCursor {
     /// Insert a document fragment at the cursor. Replaces selection if any.
     pub fn insert_fragment(&self, fragment: &DocumentFragment) -> Result<()> {
         let (pos, anchor) = self.read_cursor();
+        if pos != anchor && !fragment.has_content() {
+            // Fail before the selection is deleted, not after.
+            return Err(anyhow::anyhow!("Fragment contains no blocks or tables"));
+        }
         let queued = {
             let mut inner = self.doc.lock();
 
diff --git a/crates/public_api/src/fragment.rs b/crates/public_api/src/fragment.rs
index 7544acd..e317461 100644
--- a/crates/public_api/src/fragment.rs
+++ b/crates/public_api/src/fragment.rs
@@ -327,6 +327,12 @@ impl DocumentFragment {
         self.plain_text.is_empty()
     }
 
+    /// Whether there is anything for `insert_fragment` to insert.
+    pub(crate) fn has_content(&self) -> bool {
+        serde_json::from_str::<FragmentData>(&self.data)
+            .is_ok_and(|d| !d.blocks.is_empty() || !d.tables.is_empty())
+    }
+
     /// Returns the serialized internal representation.
     pub(crate) fn raw_data(&self) -> &str {
         &self.data
-- 
2.43.0


From fca0908d0eee6d50445ff3029bb97c0e34af7fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:02 +0000
Subject: [PATCH 11/37] fix: redo of commands that create paragraphs, lists or
 tables keeps their ids

Later commands in the history address lists, blocks and tables by id. Running the
creating command again on redo allocated new ids, so redoing the next command failed.
---
 .../src/use_cases/create_list_uc.rs            | 17 +++++++++--------
 .../src/use_cases/insert_block_uc.rs           | 17 +++++++++--------
 .../src/use_cases/insert_fragment_uc.rs        | 17 +++++++++--------
 .../src/use_cases/insert_frame_uc.rs           | 17 +++++++++--------
 .../use_cases/insert_html_at_position_uc.rs    | 17 +++++++++--------
 .../src/use_cases/insert_list_uc.rs            | 17 +++++++++--------
 .../insert_markdown_at_position_uc.rs          | 17 +++++++++--------
 .../src/use_cases/insert_table_column_uc.rs    | 18 ++++++++++--------
 .../src/use_cases/insert_table_row_uc.rs       | 18 ++++++++++--------
 .../src/use_cases/insert_table_uc.rs           | 17 +++++++++--------
 .../src/use_cases/split_table_cell_uc.rs       | 18 ++++++++++--------
 11 files changed, 102 insertions(+), 88 deletions(-)

diff --git a/crates/document_editing/src/use_cases/create_list_uc.rs b/crates/document_editing/src/use_cases/create_list_uc.rs
index 53f7842..90a97f4 100644
--- a/crates/document_editing/src/use_cases/create_list_uc.rs
+++ b/crates/document_editing/src/use_cases/create_list_uc.rs
@@ -36,7 +36,7 @@ pub trait CreateListUnitOfWorkTrait: CommandUnitOfWork {}
 pub struct CreateListUseCase {
     uow_factory: Box<dyn CreateListUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
-    last_dto: Option<CreateListDto>,
+    redo_snapshot: Option<EntityTreeSnapshot>,
 }
 
 /// Convert from crate's ListStyle to common::entities::ListStyle
@@ -132,7 +132,7 @@ impl CreateListUseCase {
         CreateListUseCase {
             uow_factory,
             undo_snapshot: None,
-            last_dto: None,
+            redo_snapshot: None,
         }
     }
 
@@ -142,7 +142,6 @@ impl CreateListUseCase {
 
         let (result, snapshot) = execute_create_list(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
-        self.last_dto = Some(dto.clone());
 
         uow.commit()?;
         Ok(result)
@@ -159,22 +158,24 @@ impl UndoRedoCommand for CreateListUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        let dto = self
-            .last_dto
+        // Bring back the state the undo left, rather than running the command again:
+        // later commands refer to the entities it created by id.
+        let snapshot = self
+            .redo_snapshot
             .as_ref()
-            .ok_or_else(|| anyhow!("No DTO available for redo"))?
+            .ok_or_else(|| anyhow!("No snapshot available for redo"))?
             .clone();
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
-        let (_, snapshot) = execute_create_list(&mut uow, &dto)?;
-        self.undo_snapshot = Some(snapshot);
+        uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/insert_block_uc.rs b/crates/document_editing/src/use_cases/insert_block_uc.rs
index a5c0266..8266011 100644
--- a/crates/document_editing/src/use_cases/insert_block_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_block_uc.rs
@@ -45,7 +45,7 @@ pub trait InsertBlockUnitOfWorkTrait: CommandUnitOfWork {}
 pub struct InsertBlockUseCase {
     uow_factory: Box<dyn InsertBlockUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
-    last_dto: Option<InsertBlockDto>,
+    redo_snapshot: Option<EntityTreeSnapshot>,
 }
 
 fn execute_insert_block(
@@ -267,7 +267,7 @@ impl InsertBlockUseCase {
         InsertBlockUseCase {
             uow_factory,
             undo_snapshot: None,
-            last_dto: None,
+            redo_snapshot: None,
         }
     }
 
@@ -277,7 +277,6 @@ impl InsertBlockUseCase {
 
         let (result, snapshot) = execute_insert_block(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
-        self.last_dto = Some(dto.clone());
 
         uow.commit()?;
         Ok(result)
@@ -294,22 +293,24 @@ impl UndoRedoCommand for InsertBlockUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        let dto = self
-            .last_dto
+        // Bring back the state the undo left, rather than running the command again:
+        // later commands refer to the entities it created by id.
+        let snapshot = self
+            .redo_snapshot
             .as_ref()
-            .ok_or_else(|| anyhow!("No DTO available for redo"))?
+            .ok_or_else(|| anyhow!("No snapshot available for redo"))?
             .clone();
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
-        let (_, snapshot) = execute_insert_block(&mut uow, &dto)?;
-        self.undo_snapshot = Some(snapshot);
+        uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index 2b7bbd0..acb3105 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -2466,7 +2466,7 @@ fn execute_insert_fragment(
 pub struct InsertFragmentUseCase {
     uow_factory: Box<dyn InsertFragmentUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
-    last_dto: Option<InsertFragmentDto>,
+    redo_snapshot: Option<EntityTreeSnapshot>,
 }
 
 impl InsertFragmentUseCase {
@@ -2474,7 +2474,7 @@ impl InsertFragmentUseCase {
         InsertFragmentUseCase {
             uow_factory,
             undo_snapshot: None,
-            last_dto: None,
+            redo_snapshot: None,
         }
     }
 
@@ -2484,7 +2484,6 @@ impl InsertFragmentUseCase {
 
         let (result, snapshot) = execute_insert_fragment(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
-        self.last_dto = Some(dto.clone());
 
         uow.commit()?;
         Ok(result)
@@ -2501,22 +2500,24 @@ impl UndoRedoCommand for InsertFragmentUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        let dto = self
-            .last_dto
+        // Bring back the state the undo left, rather than running the command again:
+        // later commands refer to the entities it created by id.
+        let snapshot = self
+            .redo_snapshot
             .as_ref()
-            .ok_or_else(|| anyhow!("No DTO available for redo"))?
+            .ok_or_else(|| anyhow!("No snapshot available for redo"))?
             .clone();
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
-        let (_, snapshot) = execute_insert_fragment(&mut uow, &dto)?;
-        self.undo_snapshot = Some(snapshot);
+        uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/insert_frame_uc.rs b/crates/document_editing/src/use_cases/insert_frame_uc.rs
index 26ef850..32e4b23 100644
--- a/crates/document_editing/src/use_cases/insert_frame_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_frame_uc.rs
@@ -35,7 +35,7 @@ pub trait InsertFrameUnitOfWorkTrait: CommandUnitOfWork {}
 pub struct InsertFrameUseCase {
     uow_factory: Box<dyn InsertFrameUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
-    last_dto: Option<InsertFrameDto>,
+    redo_snapshot: Option<EntityTreeSnapshot>,
 }
 
 /// Find which frame contains the given document position by walking
@@ -213,7 +213,7 @@ impl InsertFrameUseCase {
         InsertFrameUseCase {
             uow_factory,
             undo_snapshot: None,
-            last_dto: None,
+            redo_snapshot: None,
         }
     }
 
@@ -223,7 +223,6 @@ impl InsertFrameUseCase {
 
         let (result, snapshot) = execute_insert_frame(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
-        self.last_dto = Some(dto.clone());
 
         uow.commit()?;
         Ok(result)
@@ -240,22 +239,24 @@ impl UndoRedoCommand for InsertFrameUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        let dto = self
-            .last_dto
+        // Bring back the state the undo left, rather than running the command again:
+        // later commands refer to the entities it created by id.
+        let snapshot = self
+            .redo_snapshot
             .as_ref()
-            .ok_or_else(|| anyhow!("No DTO available for redo"))?
+            .ok_or_else(|| anyhow!("No snapshot available for redo"))?
             .clone();
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
-        let (_, snapshot) = execute_insert_frame(&mut uow, &dto)?;
-        self.undo_snapshot = Some(snapshot);
+        uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/insert_html_at_position_uc.rs b/crates/document_editing/src/use_cases/insert_html_at_position_uc.rs
index ec4c598..f6c0266 100644
--- a/crates/document_editing/src/use_cases/insert_html_at_position_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_html_at_position_uc.rs
@@ -940,7 +940,7 @@ fn execute_insert_html(
 pub struct InsertHtmlAtPositionUseCase {
     uow_factory: Box<dyn InsertHtmlAtPositionUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
-    last_dto: Option<InsertHtmlAtPositionDto>,
+    redo_snapshot: Option<EntityTreeSnapshot>,
 }
 
 impl InsertHtmlAtPositionUseCase {
@@ -948,7 +948,7 @@ impl InsertHtmlAtPositionUseCase {
         InsertHtmlAtPositionUseCase {
             uow_factory,
             undo_snapshot: None,
-            last_dto: None,
+            redo_snapshot: None,
         }
     }
 
@@ -961,7 +961,6 @@ impl InsertHtmlAtPositionUseCase {
 
         let (result, snapshot) = execute_insert_html(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
-        self.last_dto = Some(dto.clone());
 
         uow.commit()?;
         Ok(result)
@@ -978,22 +977,24 @@ impl UndoRedoCommand for InsertHtmlAtPositionUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        let dto = self
-            .last_dto
+        // Bring back the state the undo left, rather than running the command again:
+        // later commands refer to the entities it created by id.
+        let snapshot = self
+            .redo_snapshot
             .as_ref()
-            .ok_or_else(|| anyhow!("No DTO available for redo"))?
+            .ok_or_else(|| anyhow!("No snapshot available for redo"))?
             .clone();
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
-        let (_, snapshot) = execute_insert_html(&mut uow, &dto)?;
-        self.undo_snapshot = Some(snapshot);
+        uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/insert_list_uc.rs b/crates/document_editing/src/use_cases/insert_list_uc.rs
index a177ece..461726f 100644
--- a/crates/document_editing/src/use_cases/insert_list_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_list_uc.rs
@@ -39,7 +39,7 @@ pub trait InsertListUnitOfWorkTrait: CommandUnitOfWork {}
 pub struct InsertListUseCase {
     uow_factory: Box<dyn InsertListUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
-    last_dto: Option<InsertListDto>,
+    redo_snapshot: Option<EntityTreeSnapshot>,
 }
 
 /// Convert from crate's ListStyle to common::entities::ListStyle
@@ -187,7 +187,7 @@ impl InsertListUseCase {
         InsertListUseCase {
             uow_factory,
             undo_snapshot: None,
-            last_dto: None,
+            redo_snapshot: None,
         }
     }
 
@@ -197,7 +197,6 @@ impl InsertListUseCase {
 
         let (result, snapshot) = execute_insert_list(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
-        self.last_dto = Some(dto.clone());
 
         uow.commit()?;
         Ok(result)
@@ -214,22 +213,24 @@ impl UndoRedoCommand for InsertListUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        let dto = self
-            .last_dto
+        // Bring back the state the undo left, rather than running the command again:
+        // later commands refer to the entities it created by id.
+        let snapshot = self
+            .redo_snapshot
             .as_ref()
-            .ok_or_else(|| anyhow!("No DTO available for redo"))?
+            .ok_or_else(|| anyhow!("No snapshot available for redo"))?
             .clone();
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
-        let (_, snapshot) = execute_insert_list(&mut uow, &dto)?;
-        self.undo_snapshot = Some(snapshot);
+        uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/insert_markdown_at_position_uc.rs b/crates/document_editing/src/use_cases/insert_markdown_at_position_uc.rs
index 7590d02..306aa37 100644
--- a/crates/document_editing/src/use_cases/insert_markdown_at_position_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_markdown_at_position_uc.rs
@@ -655,7 +655,7 @@ fn execute_insert_markdown(
 pub struct InsertMarkdownAtPositionUseCase {
     uow_factory: Box<dyn InsertMarkdownAtPositionUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
-    last_dto: Option<InsertMarkdownAtPositionDto>,
+    redo_snapshot: Option<EntityTreeSnapshot>,
 }
 
 impl InsertMarkdownAtPositionUseCase {
@@ -663,7 +663,7 @@ impl InsertMarkdownAtPositionUseCase {
         InsertMarkdownAtPositionUseCase {
             uow_factory,
             undo_snapshot: None,
-            last_dto: None,
+            redo_snapshot: None,
         }
     }
 
@@ -676,7 +676,6 @@ impl InsertMarkdownAtPositionUseCase {
 
         let (result, snapshot) = execute_insert_markdown(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
-        self.last_dto = Some(dto.clone());
 
         uow.commit()?;
         Ok(result)
@@ -693,22 +692,24 @@ impl UndoRedoCommand for InsertMarkdownAtPositionUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        let dto = self
-            .last_dto
+        // Bring back the state the undo left, rather than running the command again:
+        // later commands refer to the entities it created by id.
+        let snapshot = self
+            .redo_snapshot
             .as_ref()
-            .ok_or_else(|| anyhow!("No DTO available for redo"))?
+            .ok_or_else(|| anyhow!("No snapshot available for redo"))?
             .clone();
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
-        let (_, snapshot) = execute_insert_markdown(&mut uow, &dto)?;
-        self.undo_snapshot = Some(snapshot);
+        uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/insert_table_column_uc.rs b/crates/document_editing/src/use_cases/insert_table_column_uc.rs
index dc92612..6b857c0 100644
--- a/crates/document_editing/src/use_cases/insert_table_column_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_column_uc.rs
@@ -48,7 +48,7 @@ impl_cell_block_reader!(dyn InsertTableColumnUnitOfWorkTrait);
 pub struct InsertTableColumnUseCase {
     uow_factory: Box<dyn InsertTableColumnUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
-    last_dto: Option<InsertTableColumnDto>,
+    redo_snapshot: Option<EntityTreeSnapshot>,
 }
 
 fn execute_insert_table_column(
@@ -226,7 +226,7 @@ impl InsertTableColumnUseCase {
         InsertTableColumnUseCase {
             uow_factory,
             undo_snapshot: None,
-            last_dto: None,
+            redo_snapshot: None,
         }
     }
 
@@ -235,7 +235,6 @@ impl InsertTableColumnUseCase {
         uow.begin_transaction()?;
         let (result, snapshot) = execute_insert_table_column(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
-        self.last_dto = Some(dto.clone());
         uow.commit()?;
         Ok(result)
     }
@@ -250,21 +249,24 @@ impl UndoRedoCommand for InsertTableColumnUseCase {
             .clone();
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        let dto = self
-            .last_dto
+        // Bring back the state the undo left, rather than running the command again:
+        // later commands refer to the entities it created by id.
+        let snapshot = self
+            .redo_snapshot
             .as_ref()
-            .ok_or_else(|| anyhow!("No DTO for redo"))?
+            .ok_or_else(|| anyhow!("No snapshot available for redo"))?
             .clone();
+
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
-        let (_, snapshot) = execute_insert_table_column(&mut uow, &dto)?;
-        self.undo_snapshot = Some(snapshot);
+        uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/insert_table_row_uc.rs b/crates/document_editing/src/use_cases/insert_table_row_uc.rs
index 88a858c..8571b12 100644
--- a/crates/document_editing/src/use_cases/insert_table_row_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_row_uc.rs
@@ -48,7 +48,7 @@ impl_cell_block_reader!(dyn InsertTableRowUnitOfWorkTrait);
 pub struct InsertTableRowUseCase {
     uow_factory: Box<dyn InsertTableRowUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
-    last_dto: Option<InsertTableRowDto>,
+    redo_snapshot: Option<EntityTreeSnapshot>,
 }
 
 fn execute_insert_table_row(
@@ -224,7 +224,7 @@ impl InsertTableRowUseCase {
         InsertTableRowUseCase {
             uow_factory,
             undo_snapshot: None,
-            last_dto: None,
+            redo_snapshot: None,
         }
     }
 
@@ -233,7 +233,6 @@ impl InsertTableRowUseCase {
         uow.begin_transaction()?;
         let (result, snapshot) = execute_insert_table_row(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
-        self.last_dto = Some(dto.clone());
         uow.commit()?;
         Ok(result)
     }
@@ -248,21 +247,24 @@ impl UndoRedoCommand for InsertTableRowUseCase {
             .clone();
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        let dto = self
-            .last_dto
+        // Bring back the state the undo left, rather than running the command again:
+        // later commands refer to the entities it created by id.
+        let snapshot = self
+            .redo_snapshot
             .as_ref()
-            .ok_or_else(|| anyhow!("No DTO for redo"))?
+            .ok_or_else(|| anyhow!("No snapshot available for redo"))?
             .clone();
+
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
-        let (_, snapshot) = execute_insert_table_row(&mut uow, &dto)?;
-        self.undo_snapshot = Some(snapshot);
+        uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/insert_table_uc.rs b/crates/document_editing/src/use_cases/insert_table_uc.rs
index 29cc177..1b650b8 100644
--- a/crates/document_editing/src/use_cases/insert_table_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_uc.rs
@@ -47,7 +47,7 @@ impl_cell_frame_creator!(dyn InsertTableUnitOfWorkTrait);
 pub struct InsertTableUseCase {
     uow_factory: Box<dyn InsertTableUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
-    last_dto: Option<InsertTableDto>,
+    redo_snapshot: Option<EntityTreeSnapshot>,
 }
 
 fn execute_insert_table(
@@ -533,7 +533,7 @@ impl InsertTableUseCase {
         InsertTableUseCase {
             uow_factory,
             undo_snapshot: None,
-            last_dto: None,
+            redo_snapshot: None,
         }
     }
 
@@ -543,7 +543,6 @@ impl InsertTableUseCase {
 
         let (result, snapshot) = execute_insert_table(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
-        self.last_dto = Some(dto.clone());
 
         uow.commit()?;
         Ok(result)
@@ -560,22 +559,24 @@ impl UndoRedoCommand for InsertTableUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        let dto = self
-            .last_dto
+        // Bring back the state the undo left, rather than running the command again:
+        // later commands refer to the entities it created by id.
+        let snapshot = self
+            .redo_snapshot
             .as_ref()
-            .ok_or_else(|| anyhow!("No DTO available for redo"))?
+            .ok_or_else(|| anyhow!("No snapshot available for redo"))?
             .clone();
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
-        let (_, snapshot) = execute_insert_table(&mut uow, &dto)?;
-        self.undo_snapshot = Some(snapshot);
+        uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/split_table_cell_uc.rs b/crates/document_editing/src/use_cases/split_table_cell_uc.rs
index e13859a..22883e2 100644
--- a/crates/document_editing/src/use_cases/split_table_cell_uc.rs
+++ b/crates/document_editing/src/use_cases/split_table_cell_uc.rs
@@ -48,7 +48,7 @@ impl_cell_block_reader!(dyn SplitTableCellUnitOfWorkTrait);
 pub struct SplitTableCellUseCase {
     uow_factory: Box<dyn SplitTableCellUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
-    last_dto: Option<SplitTableCellDto>,
+    redo_snapshot: Option<EntityTreeSnapshot>,
 }
 
 fn execute_split_table_cell(
@@ -271,7 +271,7 @@ impl SplitTableCellUseCase {
         SplitTableCellUseCase {
             uow_factory,
             undo_snapshot: None,
-            last_dto: None,
+            redo_snapshot: None,
         }
     }
 
@@ -280,7 +280,6 @@ impl SplitTableCellUseCase {
         uow.begin_transaction()?;
         let (result, snapshot) = execute_split_table_cell(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
-        self.last_dto = Some(dto.clone());
         uow.commit()?;
         Ok(result)
     }
@@ -295,21 +294,24 @@ impl UndoRedoCommand for SplitTableCellUseCase {
             .clone();
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        let dto = self
-            .last_dto
+        // Bring back the state the undo left, rather than running the command again:
+        // later commands refer to the entities it created by id.
+        let snapshot = self
+            .redo_snapshot
             .as_ref()
-            .ok_or_else(|| anyhow!("No DTO for redo"))?
+            .ok_or_else(|| anyhow!("No snapshot available for redo"))?
             .clone();
+
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
-        let (_, snapshot) = execute_split_table_cell(&mut uow, &dto)?;
-        self.undo_snapshot = Some(snapshot);
+        uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
-- 
2.43.0


From 5804085559231256f5437df252d3fe8ceee0fc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:28 +0000
Subject: [PATCH 12/37] fix: PreviousWord leaves the start of a paragraph for
 the word before it

At a paragraph start the backward scan met the separator, which reports the word
that follows it, so the cursor stayed where it was.
---
 crates/public_api/src/cursor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index a37c2de..944bdc4 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -2201,7 +2201,8 @@ impl TextCursor {
                     let mut search = pos - 1;
                     loop {
                         let (ws, we) = self.find_word_boundaries(search);
-                        if ws < we {
+                        // A separator reports the word after it: skip that one.
+                        if ws < we && ws < pos {
                             // Found a word; return its start
                             break ws;
                         }
-- 
2.43.0


From 3f1ddf430b441e2830f17c17a2f6792b5b4ff153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:51 +0000
Subject: [PATCH 13/37] fix: NextWord steps over an underscore that stands
 alone

The scan took the underscore for the start of a word, found no word there and
returned the cursor's own position, so the cursor never got past it.
---
 crates/public_api/src/cursor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 944bdc4..61a3bf4 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -2177,8 +2177,10 @@ impl TextCursor {
                         document_inspection_commands::get_text_at_position(&inner.ctx, &dto)
                     {
                         for (i, ch) in r.text.chars().enumerate() {
-                            if ch.is_alphanumeric() || ch == '_' {
-                                // Found start of next word, find its end
+                            // An underscore on its own is not a word; next to a
+                            // word it is part of it.
+                            if ch.is_alphanumeric() {
+                                // Found the next word, find its end
                                 let word_pos = pos + i;
                                 drop(inner);
                                 let (_, word_end) = self.find_word_boundaries(word_pos);
-- 
2.43.0


From c29558bb29cec23a87d3ddafa5d191e94f7d9a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:56 +0000
Subject: [PATCH 14/37] fix: replace_text moves live cursors with the text

Cursors kept their old offsets, so one could end up past the end of the document.
---
 crates/public_api/src/document.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 1fdd02d..e8dd5d5 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -701,11 +701,17 @@ impl TextDocument {
         let (count, queued) = {
             let mut inner = self.inner.lock();
             let dto = options.to_replace_dto(query, replacement, replace_all);
+            let text_before = build_doc_text(&capture_block_state(&inner));
             let result =
                 document_search_commands::replace_text(&inner.ctx, Some(inner.stack_id), &dto)?;
             let count = to_usize(result.replacements_count);
             inner.invalidate_text_cache();
             if count > 0 {
+                let text_after = build_doc_text(&capture_block_state(&inner));
+                let (edit_offset, removed, added) = compute_text_edit(&text_before, &text_after);
+                if removed > 0 || added > 0 {
+                    inner.adjust_cursors(edit_offset, removed, added);
+                }
                 inner.modified = true;
                 inner.rehighlight_all();
                 // Replacements are scattered across the document — we can't
-- 
2.43.0


From 3d7320f1aee31561129a0f27ca02ebeaf980af61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:15 +0000
Subject: [PATCH 15/37] fix: report the paragraphs removed when typing over a
 selection

Typed text, formatted text and images that replace a selection spanning
paragraphs removed flow elements without FlowElementsRemoved.
---
 crates/public_api/src/cursor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 61a3bf4..af17f3f 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -446,7 +446,7 @@ impl TextCursor {
                 removed,
                 to_usize(result.new_position),
                 to_usize(result.blocks_affected),
-                false,
+                removed > 0,
             )
         };
         crate::inner::dispatch_queued_events(queued);
@@ -512,7 +512,7 @@ impl TextCursor {
                 removed,
                 to_usize(result.new_position),
                 1,
-                false,
+                removed > 0,
             )
         };
         crate::inner::dispatch_queued_events(queued);
@@ -733,7 +733,7 @@ impl TextCursor {
                 removed,
                 to_usize(result.new_position),
                 1,
-                false,
+                removed > 0,
             )
         };
         crate::inner::dispatch_queued_events(queued);
-- 
2.43.0


From 40e2e93cd5d373caa794ed362d1bbf8e1de24933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:15 +0000
Subject: [PATCH 16/37] fix: insert_list reports the paragraph break it
 inserts, where it inserts it

The edit was reported from the caret to the new paragraph, which moved live
cursors wrongly, and the new flow element was not reported.
---
 crates/public_api/src/cursor.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index af17f3f..cf4fc48 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -1700,16 +1700,10 @@ impl TextCursor {
             };
             let result =
                 document_editing_commands::insert_list(&inner.ctx, Some(inner.stack_id), &dto)?;
-            let edit_pos = pos.min(anchor);
-            let removed = pos.max(anchor) - edit_pos;
-            self.finish_edit_ext(
-                &mut inner,
-                edit_pos,
-                removed,
-                to_usize(result.new_position),
-                1,
-                false,
-            )
+            // The new paragraph follows the current one: the only text inserted
+            // is the separator between them, and no selection is removed.
+            let new_pos = to_usize(result.new_position);
+            self.finish_edit(&mut inner, new_pos.saturating_sub(1), 0, new_pos, 1)
         };
         crate::inner::dispatch_queued_events(queued);
         Ok(())
-- 
2.43.0


From fa1359fcc5952febe3fcbb8c588de7e85c2058f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:33 +0000
Subject: [PATCH 17/37] fix: undo, redo and replace report the exact change of
 the text

Undo and redo reported block extents that missed separators and blocks that
moved, and replace_text reported an empty change, so a listener could not
follow the text.
---
 crates/public_api/src/document.rs | 43 +++++++------------------------
 1 file changed, 10 insertions(+), 33 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index e8dd5d5..4ee6a20 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -714,14 +714,12 @@ impl TextDocument {
                 }
                 inner.modified = true;
                 inner.rehighlight_all();
-                // Replacements are scattered across the document — we can't
-                // provide a single position/chars delta. Signal "content changed
-                // from position 0, affecting `count` sites" so the consumer
-                // knows to re-read.
+                // Replacements are scattered across the document: report the
+                // smallest region that covers them all.
                 inner.queue_event(DocumentEvent::ContentsChanged {
-                    position: 0,
-                    chars_removed: 0,
-                    chars_added: 0,
+                    position: edit_offset,
+                    chars_removed: removed,
+                    chars_added: added,
                     blocks_affected: count,
                 });
                 inner.check_block_count_changed();
@@ -1112,11 +1110,7 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
     let after_map: std::collections::HashMap<u64, &UndoBlockState> =
         after.iter().map(|s| (s.id, s)).collect();
 
-    // Track the affected content region (earliest position, total old/new length).
     let mut content_changed = false;
-    let mut earliest_pos: Option<usize> = None;
-    let mut old_end: usize = 0;
-    let mut new_end: usize = 0;
     let mut blocks_affected: usize = 0;
 
     let mut format_only_changes: Vec<(usize, usize)> = Vec::new(); // (position, length)
@@ -1131,13 +1125,6 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
             if text_changed {
                 content_changed = true;
                 blocks_affected += 1;
-                let pos = after_state.position.max(0) as usize;
-                earliest_pos = Some(earliest_pos.map_or(pos, |p: usize| p.min(pos)));
-                old_end = old_end.max(
-                    before_state.position.max(0) as usize
-                        + before_state.text_length.max(0) as usize,
-                );
-                new_end = new_end.max(pos + after_state.text_length.max(0) as usize);
             } else if format_changed {
                 let pos = after_state.position.max(0) as usize;
                 let len = after_state.text_length.max(0) as usize;
@@ -1147,9 +1134,6 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
             // Block exists in after but not in before — new block from undo/redo.
             content_changed = true;
             blocks_affected += 1;
-            let pos = after_state.position.max(0) as usize;
-            earliest_pos = Some(earliest_pos.map_or(pos, |p: usize| p.min(pos)));
-            new_end = new_end.max(pos + after_state.text_length.max(0) as usize);
         }
     }
 
@@ -1158,19 +1142,12 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
         if !after_map.contains_key(&before_state.id) {
             content_changed = true;
             blocks_affected += 1;
-            let pos = before_state.position.max(0) as usize;
-            earliest_pos = Some(earliest_pos.map_or(pos, |p: usize| p.min(pos)));
-            old_end = old_end.max(pos + before_state.text_length.max(0) as usize);
         }
     }
 
     if content_changed {
-        let position = earliest_pos.unwrap_or(0);
-        let chars_removed = old_end.saturating_sub(position);
-        let chars_added = new_end.saturating_sub(position);
-
-        // Use a precise text-level diff for cursor adjustment so cursors land
-        // at the actual edit point rather than the end of the affected block.
+        // Use a precise text-level diff, so that cursors land at the actual edit
+        // point and the event describes the change of the text exactly.
         let before_text = build_doc_text(before);
         let after_text = build_doc_text(&after);
         let (edit_offset, precise_removed, precise_added) =
@@ -1180,9 +1157,9 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
         }
 
         inner.queue_event(DocumentEvent::ContentsChanged {
-            position,
-            chars_removed,
-            chars_added,
+            position: edit_offset,
+            chars_removed: precise_removed,
+            chars_added: precise_added,
             blocks_affected,
         });
     }
-- 
2.43.0


From 1f7275a51844aee14e665fe9db3d7df77c7089b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:59 +0000
Subject: [PATCH 18/37] fix: undo and redo report changes of character formats
 and lists

Only block formats were compared, so undoing bold or a list emitted nothing.
---
 crates/public_api/src/document.rs | 37 +++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 4ee6a20..f12b5fe 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -9,9 +9,11 @@ use base64::Engine;
 use base64::engine::general_purpose::STANDARD as BASE64;
 
 use crate::{ResourceType, TextDirection, WrapMode};
+use frontend::common::format_runs::{FormatRun, ImageAnchor};
+use frontend::list::dtos::ListDto;
 use frontend::commands::{
     block_commands, document_commands, document_inspection_commands, document_io_commands,
-    document_search_commands, frame_commands, resource_commands, table_cell_commands,
+    document_search_commands, frame_commands, list_commands, resource_commands, table_cell_commands,
     table_commands, undo_redo_commands,
 };
 
@@ -1031,6 +1033,9 @@ struct UndoBlockState {
     text_length: i64,
     plain_text: String,
     format: BlockFormat,
+    list: Option<ListDto>,
+    runs: Vec<FormatRun>,
+    images: Vec<ImageAnchor>,
 }
 
 /// Capture the state of all blocks, sorted by document_position.
@@ -1047,12 +1052,20 @@ fn capture_block_state(inner: &TextDocumentInner) -> Vec<UndoBlockState> {
             let plain_text =
                 common::database::rope_helpers::block_content_via_store(&entity, store);
             let text_length = common::database::rope_helpers::block_char_length(&entity, store);
+            let list = b
+                .list
+                .and_then(|id| list_commands::get_list(&inner.ctx, &id).ok().flatten());
+            let runs = store.format_runs.read().unwrap().get(&b.id).cloned();
+            let images = store.block_images.read().unwrap().get(&b.id).cloned();
             UndoBlockState {
                 id: b.id,
                 position: b.document_position,
                 text_length,
                 plain_text,
                 format,
+                list,
+                runs: runs.unwrap_or_default(),
+                images: images.unwrap_or_default(),
             }
         })
         .collect();
@@ -1113,22 +1126,32 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
     let mut content_changed = false;
     let mut blocks_affected: usize = 0;
 
-    let mut format_only_changes: Vec<(usize, usize)> = Vec::new(); // (position, length)
+    // (position, length, kind)
+    let mut format_only_changes: Vec<(usize, usize, FormatChangeKind)> = Vec::new();
 
     // Check blocks present in both before and after.
     for after_state in &after {
         if let Some(before_state) = before_map.get(&after_state.id) {
             let text_changed = before_state.plain_text != after_state.plain_text
                 || before_state.text_length != after_state.text_length;
-            let format_changed = before_state.format != after_state.format;
+            let mut kinds = Vec::new();
+            if before_state.format != after_state.format {
+                kinds.push(FormatChangeKind::Block);
+            }
+            if before_state.list != after_state.list {
+                kinds.push(FormatChangeKind::List);
+            }
+            if before_state.runs != after_state.runs || before_state.images != after_state.images {
+                kinds.push(FormatChangeKind::Character);
+            }
 
             if text_changed {
                 content_changed = true;
                 blocks_affected += 1;
-            } else if format_changed {
+            } else {
                 let pos = after_state.position.max(0) as usize;
                 let len = after_state.text_length.max(0) as usize;
-                format_only_changes.push((pos, len));
+                format_only_changes.extend(kinds.into_iter().map(|kind| (pos, len, kind)));
             }
         } else {
             // Block exists in after but not in before — new block from undo/redo.
@@ -1165,11 +1188,11 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
     }
 
     // Emit FormatChanged for blocks where only formatting changed (not content).
-    for (position, length) in format_only_changes {
+    for (position, length, kind) in format_only_changes {
         inner.queue_event(DocumentEvent::FormatChanged {
             position,
             length,
-            kind: FormatChangeKind::Block,
+            kind,
         });
     }
 }
-- 
2.43.0


From c992f33b64f0f9d3abc408baa5949ac0abfcf8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:36 +0000
Subject: [PATCH 19/37] fix: case-insensitive search folds every char the same
 in all contexts

---
 .../document_search/src/use_cases/search_helpers.rs   | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/document_search/src/use_cases/search_helpers.rs b/crates/document_search/src/use_cases/search_helpers.rs
index 8aa80cd..0d5002a 100644
--- a/crates/document_search/src/use_cases/search_helpers.rs
+++ b/crates/document_search/src/use_cases/search_helpers.rs
@@ -63,6 +63,15 @@ pub fn build_word_boundary_set(text: &str) -> HashSet<usize> {
     set
 }
 
+/// Lowercase char by char. Unlike `str::to_lowercase`, a char folds the same
+/// wherever it stands: both forms of the Greek small sigma become 'σ'.
+fn fold_case(text: &str) -> String {
+    text.chars()
+        .flat_map(char::to_lowercase)
+        .map(|c| if c == 'ς' { 'σ' } else { c })
+        .collect()
+}
+
 /// Find all occurrences of the query in the text, respecting search options.
 /// All positions are in char indices (not byte offsets).
 /// Returns a vec of `(char_position, char_length)` for each match.
@@ -114,7 +123,7 @@ pub fn find_all_matches(
         let (search_text, search_query) = if case_sensitive {
             (full_text.to_string(), query.to_string())
         } else {
-            (full_text.to_lowercase(), query.to_lowercase())
+            (fold_case(full_text), fold_case(query))
         };
 
         // Build a char-index → byte-offset mapping for the search text
-- 
2.43.0


From b059a293a71c34699fc515b62e56cd071898e3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:36 +0000
Subject: [PATCH 20/37] fix: re-highlighting goes on past newly inserted
 paragraphs

---
 crates/public_api/src/highlight.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/public_api/src/highlight.rs b/crates/public_api/src/highlight.rs
index ac3b79a..f518047 100644
--- a/crates/public_api/src/highlight.rs
+++ b/crates/public_api/src/highlight.rs
@@ -540,7 +540,7 @@ impl TextDocumentInner {
                 .unwrap()
                 .blocks
                 .get(&bid)
-                .map_or(-1, |d| d.state);
+                .map(|d| d.state);
 
             let mut ctx = HighlightContext::new(bid, previous_state, user_data);
             highlighter.highlight_block(text, &mut ctx);
@@ -557,8 +557,9 @@ impl TextDocumentInner {
             );
 
             // If we are past the initial block and the state didn't change,
-            // stop cascading.
-            if i > start_idx && state == old_state {
+            // stop cascading. A block highlighted for the first time has no
+            // old state: the block after it must be re-highlighted.
+            if i > start_idx && old_state == Some(state) {
                 break;
             }
         }
-- 
2.43.0


From bf519323fc16317c747ec55ee209d95cf76893c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:36 +0000
Subject: [PATCH 21/37] fix: highlight spans may extend past any end without
 overflowing

---
 crates/public_api/src/highlight.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/public_api/src/highlight.rs b/crates/public_api/src/highlight.rs
index f518047..508a648 100644
--- a/crates/public_api/src/highlight.rs
+++ b/crates/public_api/src/highlight.rs
@@ -327,7 +327,7 @@ pub(crate) fn merge_highlight_spans(
                 boundaries.push(frag_end);
 
                 for span in spans {
-                    let span_end = span.start + span.length;
+                    let span_end = span.start.saturating_add(span.length);
                     // Does this span overlap the fragment?
                     if span.start < frag_end && span_end > offset {
                         if span.start > offset && span.start < frag_end {
@@ -356,7 +356,7 @@ pub(crate) fn merge_highlight_spans(
                     let active: Vec<&HighlightSpan> = spans
                         .iter()
                         .filter(|s| {
-                            let s_end = s.start + s.length;
+                            let s_end = s.start.saturating_add(s.length);
                             s.start < sub_end && s_end > sub_start
                         })
                         .collect();
@@ -408,7 +408,7 @@ pub(crate) fn merge_highlight_spans(
                 let active: Vec<&HighlightSpan> = spans
                     .iter()
                     .filter(|s| {
-                        let s_end = s.start + s.length;
+                        let s_end = s.start.saturating_add(s.length);
                         s.start < offset + 1 && s_end > offset
                     })
                     .collect();
-- 
2.43.0


From ef321bfef93bbb787cc77b82565cee09a7d1c39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:34 +0000
Subject: [PATCH 22/37] fix: loading or clearing a document moves live cursors
 into it

---
 crates/public_api/src/document.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index f12b5fe..f7d2e93 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -171,6 +171,8 @@ impl TextDocument {
             };
             document_io_commands::import_plain_text(&inner.ctx, &dto)?;
             undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);
+            // The whole text was replaced: cursors cannot stay where they were.
+            inner.adjust_cursors(0, usize::MAX, 0);
             inner.invalidate_text_cache();
             inner.rehighlight_all();
             inner.queue_event(DocumentEvent::DocumentReset);
@@ -304,6 +306,8 @@ impl TextDocument {
             };
             document_io_commands::import_plain_text(&inner.ctx, &dto)?;
             undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);
+            // The whole text was replaced: cursors cannot stay where they were.
+            inner.adjust_cursors(0, usize::MAX, 0);
             inner.invalidate_text_cache();
             inner.rehighlight_all();
             inner.queue_event(DocumentEvent::DocumentReset);
-- 
2.43.0


From 1b48a6a67fd731d8fdee4a200decbc3f31d50a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:38 +0000
Subject: [PATCH 23/37] fix: pasting a formatted paragraph before text leaves
 the caret behind its break

---
 crates/document_editing/src/use_cases/insert_fragment_uc.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index acb3105..b0f4da3 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -2281,7 +2281,10 @@ fn execute_insert_fragment(
             updated_doc.updated_at = now;
             uow.update_document(&updated_doc)?;
 
-            let new_position = current_block.document_position + block_text_len;
+            // Like the other paths: behind the inserted text, which ends with a
+            // paragraph break when the text after the caret got its own paragraph.
+            let new_position =
+                current_block.document_position + block_text_len + if skip_tail { 0 } else { 1 };
             Ok((
                 InsertFragmentResultDto {
                     new_position,
-- 
2.43.0


From e38f1f041b18d4da40a50ef68788c83765265b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:23 +0000
Subject: [PATCH 24/37] fix: default-format text gets no run when pasted or
 formatted

---
 .../src/use_cases/insert_fragment_uc.rs        | 18 +++++++++++-------
 .../src/use_cases/merge_text_format_uc.rs      | 13 +++++++++----
 .../src/use_cases/set_text_format_uc.rs        | 13 +++++++++----
 3 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index b0f4da3..38fac1b 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -17,8 +17,8 @@ use common::direct_access::root::root_repository::RootRelationshipField;
 use common::direct_access::table::TableRelationshipField;
 use common::entities::{Block, Document, Frame, List, Root, Table, TableCell};
 use common::format_runs::{
-    FormatRun, ImageAnchor, InlineSegment, character_format_from_segment, coalesce_in_place,
-    logical_offset_to_byte, split_images_at, split_runs_at,
+    CharacterFormat, FormatRun, ImageAnchor, InlineSegment, character_format_from_segment,
+    coalesce_in_place, logical_offset_to_byte, split_images_at, split_runs_at,
 };
 
 use common::parser_tools::fragment_schema::{FragmentBlock, FragmentData, FragmentTable};
@@ -103,11 +103,15 @@ fn frag_block_state(fb: &FragmentBlock) -> (Vec<FormatRun>, Vec<ImageAnchor>) {
             InlineContent::Text(s) => {
                 let len = s.len() as u32;
                 if len > 0 {
-                    runs.push(FormatRun {
-                        byte_start: byte_offset,
-                        byte_end: byte_offset + len,
-                        format: fmt,
-                    });
+                    // Unformatted text has no run, as everywhere else: a run with
+                    // the default format would not join with its neighbours.
+                    if fmt != CharacterFormat::default() {
+                        runs.push(FormatRun {
+                            byte_start: byte_offset,
+                            byte_end: byte_offset + len,
+                            format: fmt,
+                        });
+                    }
                     byte_offset += len;
                 }
             }
diff --git a/crates/document_formatting/src/use_cases/merge_text_format_uc.rs b/crates/document_formatting/src/use_cases/merge_text_format_uc.rs
index ce8672c..9af8bd7 100644
--- a/crates/document_formatting/src/use_cases/merge_text_format_uc.rs
+++ b/crates/document_formatting/src/use_cases/merge_text_format_uc.rs
@@ -72,17 +72,22 @@ fn build_replacement_runs(
 ) -> Vec<FormatRun> {
     let mut out: Vec<FormatRun> = Vec::new();
     let mut cursor = byte_start;
+    // Text between runs has the default format; it stays without a run when the
+    // dto leaves that format as it is (a default-format run would not join with
+    // its unformatted neighbours).
+    let gap_format = merge_dto(&CharacterFormat::default(), dto);
+    let gap_changes = gap_format != CharacterFormat::default();
     for run in existing_runs {
         if run.byte_end <= byte_start || run.byte_start >= byte_end {
             continue;
         }
         let overlap_start = std::cmp::max(run.byte_start, byte_start);
         let overlap_end = std::cmp::min(run.byte_end, byte_end);
-        if overlap_start > cursor {
+        if gap_changes && overlap_start > cursor {
             out.push(FormatRun {
                 byte_start: cursor,
                 byte_end: overlap_start,
-                format: merge_dto(&CharacterFormat::default(), dto),
+                format: gap_format.clone(),
             });
         }
         out.push(FormatRun {
@@ -92,11 +97,11 @@ fn build_replacement_runs(
         });
         cursor = overlap_end;
     }
-    if cursor < byte_end {
+    if gap_changes && cursor < byte_end {
         out.push(FormatRun {
             byte_start: cursor,
             byte_end,
-            format: merge_dto(&CharacterFormat::default(), dto),
+            format: gap_format,
         });
     }
     out
diff --git a/crates/document_formatting/src/use_cases/set_text_format_uc.rs b/crates/document_formatting/src/use_cases/set_text_format_uc.rs
index 1295fea..03d5024 100644
--- a/crates/document_formatting/src/use_cases/set_text_format_uc.rs
+++ b/crates/document_formatting/src/use_cases/set_text_format_uc.rs
@@ -143,17 +143,22 @@ fn build_replacement_runs(
 ) -> Vec<FormatRun> {
     let mut out: Vec<FormatRun> = Vec::new();
     let mut cursor = byte_start;
+    // Text between runs has the default format; it stays without a run when the
+    // dto leaves that format as it is (a default-format run would not join with
+    // its unformatted neighbours).
+    let gap_format = merge_dto(&CharacterFormat::default(), dto);
+    let gap_changes = gap_format != CharacterFormat::default();
     for run in existing_runs {
         if run.byte_end <= byte_start || run.byte_start >= byte_end {
             continue;
         }
         let overlap_start = std::cmp::max(run.byte_start, byte_start);
         let overlap_end = std::cmp::min(run.byte_end, byte_end);
-        if overlap_start > cursor {
+        if gap_changes && overlap_start > cursor {
             out.push(FormatRun {
                 byte_start: cursor,
                 byte_end: overlap_start,
-                format: merge_dto(&CharacterFormat::default(), dto),
+                format: gap_format.clone(),
             });
         }
         out.push(FormatRun {
@@ -163,11 +168,11 @@ fn build_replacement_runs(
         });
         cursor = overlap_end;
     }
-    if cursor < byte_end {
+    if gap_changes && cursor < byte_end {
         out.push(FormatRun {
             byte_start: cursor,
             byte_end,
-            format: merge_dto(&CharacterFormat::default(), dto),
+            format: gap_format,
         });
     }
     out
-- 
2.43.0


From 9bc9f9f6bd0bd14e1e628409ba0fc97ef921de57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:23 +0000
Subject: [PATCH 25/37] fix: a resource name gives the last one added, also
 after undo and redo

---
 crates/public_api/src/document.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index f7d2e93..7214f80 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -9,13 +9,13 @@ use base64::Engine;
 use base64::engine::general_purpose::STANDARD as BASE64;
 
 use crate::{ResourceType, TextDirection, WrapMode};
-use frontend::common::format_runs::{FormatRun, ImageAnchor};
-use frontend::list::dtos::ListDto;
 use frontend::commands::{
     block_commands, document_commands, document_inspection_commands, document_io_commands,
-    document_search_commands, frame_commands, list_commands, resource_commands, table_cell_commands,
-    table_commands, undo_redo_commands,
+    document_search_commands, frame_commands, list_commands, resource_commands,
+    table_cell_commands, table_commands, undo_redo_commands,
 };
+use frontend::common::format_runs::{FormatRun, ImageAnchor};
+use frontend::list::dtos::ListDto;
 
 use crate::convert::{self, to_i64, to_usize};
 use crate::cursor::TextCursor;
@@ -789,12 +789,11 @@ impl TextDocument {
 
         // Slow path: linear scan, then populate cache for the match.
         let all = resource_commands::get_all_resource(&inner.ctx)?;
-        for r in &all {
-            if r.name == name {
-                inner.resource_cache.insert(name.to_string(), r.id);
-                let bytes = BASE64.decode(&r.data_base64)?;
-                return Ok(Some(bytes));
-            }
+        // Several resources may share the name: the last one added counts.
+        if let Some(r) = all.iter().filter(|r| r.name == name).max_by_key(|r| r.id) {
+            inner.resource_cache.insert(name.to_string(), r.id);
+            let bytes = BASE64.decode(&r.data_base64)?;
+            return Ok(Some(bytes));
         }
         Ok(None)
     }
@@ -808,6 +807,7 @@ impl TextDocument {
             let before = capture_block_state(&inner);
             let result = undo_redo_commands::undo(&inner.ctx, Some(inner.stack_id));
             inner.invalidate_text_cache();
+            inner.resource_cache.clear();
             result?;
             inner.rehighlight_all();
             emit_undo_redo_change_events(&mut inner, &before);
@@ -829,6 +829,7 @@ impl TextDocument {
             let before = capture_block_state(&inner);
             let result = undo_redo_commands::redo(&inner.ctx, Some(inner.stack_id));
             inner.invalidate_text_cache();
+            inner.resource_cache.clear();
             result?;
             inner.rehighlight_all();
             emit_undo_redo_change_events(&mut inner, &before);
-- 
2.43.0


From 2f5457ce93e385a626d1073e8d68652e9b57a1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:57 +0000
Subject: [PATCH 26/37] fix: deleting text in a document with tables keeps the
 positions after a table

---
 .../src/use_cases/delete_text_uc.rs           | 24 -------------------
 1 file changed, 24 deletions(-)

diff --git a/crates/document_editing/src/use_cases/delete_text_uc.rs b/crates/document_editing/src/use_cases/delete_text_uc.rs
index 57fa641..efb653d 100644
--- a/crates/document_editing/src/use_cases/delete_text_uc.rs
+++ b/crates/document_editing/src/use_cases/delete_text_uc.rs
@@ -181,30 +181,6 @@ fn execute_delete(
     let blocks_opt = uow.get_block_multi(&all_block_ids)?;
     let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
 
-    // Refresh stored block positions from child_order + text_length, since
-    // insert_text's fast path leaves them stale. Cell-frame blocks remain
-    // in their cell-local position space.
-    let root_frame = uow
-        .get_frame(&frame_id)?
-        .ok_or_else(|| anyhow!("Root frame not found"))?;
-    let mut running: i64 = 0;
-    let mut blocks_to_refresh: Vec<Block> = Vec::new();
-    for &entry in &root_frame.child_order {
-        if entry <= 0 {
-            continue;
-        }
-        let id = entry as EntityId;
-        if let Some(b) = blocks.iter_mut().find(|b| b.id == id) {
-            if b.document_position != running {
-                b.document_position = running;
-                blocks_to_refresh.push(b.clone());
-            }
-            running += block_char_length(b, &store) + 1;
-        }
-    }
-    if !blocks_to_refresh.is_empty() {
-        uow.update_block_multi(&blocks_to_refresh)?;
-    }
     blocks.sort_by_key(|b| b.document_position);
 
     let (start_block, start_block_idx, start_offset) =
-- 
2.43.0


From da2cfa42949799620eeae238496ff25dc52ae83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:57 +0000
Subject: [PATCH 27/37] fix: breaking a paragraph in a table cell keeps the new
 paragraph in the cell

---
 .../document_editing/src/use_cases/insert_block_uc.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/document_editing/src/use_cases/insert_block_uc.rs b/crates/document_editing/src/use_cases/insert_block_uc.rs
index 8266011..687cb95 100644
--- a/crates/document_editing/src/use_cases/insert_block_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_block_uc.rs
@@ -195,7 +195,16 @@ fn execute_insert_block(
         }
         Ok(None)
     }
-    let owner_frame_id = find_owner_frame(&**uow, &frame_id, current_block.id)?.unwrap_or(frame_id);
+    // A table's anchor frame has no child_order of its own, so blocks inside
+    // cells are not reachable from the top frame: look through every frame
+    // of the document before falling back to the top one.
+    let mut owner_frame_id = frame_id;
+    for candidate in &frame_ids {
+        if let Some(owner) = find_owner_frame(&**uow, candidate, current_block.id)? {
+            owner_frame_id = owner;
+            break;
+        }
+    }
 
     let created_block = uow.create_block(&new_block, owner_frame_id, -1)?;
 
-- 
2.43.0


From 7014313a79a74320b50f38a6906f78b63038378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:11 +0000
Subject: [PATCH 28/37] fix: merging refuses a range that cuts through a merged
 cell

---
 crates/document_editing/src/use_cases/merge_table_cells_uc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/document_editing/src/use_cases/merge_table_cells_uc.rs b/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
index 84d5215..dff18de 100644
--- a/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
+++ b/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
@@ -111,9 +111,9 @@ fn execute_merge_table_cells(
     let cells_in_range: Vec<&TableCell> = cells
         .iter()
         .filter(|c| {
-            c.row >= dto.start_row
+            c.row + c.row_span > dto.start_row
                 && c.row <= dto.end_row
-                && c.column >= dto.start_column
+                && c.column + c.column_span > dto.start_column
                 && c.column <= dto.end_column
         })
         .collect();
-- 
2.43.0


From 6d9d940d76befa76d263f7fdf9eaf64b8db6ff8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:33 +0000
Subject: [PATCH 29/37] fix: a row or column inserted through a merged cell
 adds no cell under it

---
 .../src/use_cases/insert_table_column_uc.rs         | 13 +++++++++++--
 .../src/use_cases/insert_table_row_uc.rs            | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_table_column_uc.rs b/crates/document_editing/src/use_cases/insert_table_column_uc.rs
index 6b857c0..3ea338a 100644
--- a/crates/document_editing/src/use_cases/insert_table_column_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_column_uc.rs
@@ -117,6 +117,15 @@ fn execute_insert_table_column(
     // graph is in place.
     let mut new_cell_blocks: Vec<Block> = Vec::with_capacity(table.rows as usize);
     for r in 0..table.rows {
+        // An expanded cell already covers this place.
+        if cells.iter().any(|x| {
+            x.column < dto.column_index
+                && x.column + x.column_span > dto.column_index
+                && x.row <= r
+                && r < x.row + x.row_span
+        }) {
+            continue;
+        }
         let (cell_frame_id, created_block) = create_cell_frame(&mut *uow, doc_id, now)?;
         new_cell_blocks.push(created_block);
 
@@ -181,7 +190,7 @@ fn execute_insert_table_column(
     }
 
     // Shift non-table blocks after the table
-    let added_cells = table.rows;
+    let added_cells = new_cell_blocks.len() as i64;
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let cell_frame_set: std::collections::HashSet<EntityId> = cell_frame_ids.into_iter().collect();
     let mut shifted_blocks: Vec<Block> = Vec::new();
@@ -209,7 +218,7 @@ fn execute_insert_table_column(
 
     // Update Document stats
     let mut updated_doc = document.clone();
-    updated_doc.block_count += table.rows;
+    updated_doc.block_count += new_cell_blocks.len() as i64;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
diff --git a/crates/document_editing/src/use_cases/insert_table_row_uc.rs b/crates/document_editing/src/use_cases/insert_table_row_uc.rs
index 8571b12..aea6e1d 100644
--- a/crates/document_editing/src/use_cases/insert_table_row_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_row_uc.rs
@@ -117,6 +117,15 @@ fn execute_insert_table_row(
     // graph is in place.
     let mut new_cell_blocks: Vec<Block> = Vec::with_capacity(table.columns as usize);
     for c in 0..table.columns {
+        // An expanded cell already covers this place.
+        if cells.iter().any(|x| {
+            x.row < dto.row_index
+                && x.row + x.row_span > dto.row_index
+                && x.column <= c
+                && c < x.column + x.column_span
+        }) {
+            continue;
+        }
         let (cell_frame_id, created_block) = create_cell_frame(&mut *uow, doc_id, now)?;
         new_cell_blocks.push(created_block);
 
@@ -179,7 +188,7 @@ fn execute_insert_table_row(
     }
 
     // Shift non-table blocks after the table
-    let added_cells = table.columns;
+    let added_cells = new_cell_blocks.len() as i64;
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let cell_frame_set: std::collections::HashSet<EntityId> = cell_frame_ids.into_iter().collect();
     let mut shifted_blocks: Vec<Block> = Vec::new();
@@ -207,7 +216,7 @@ fn execute_insert_table_row(
 
     // Update Document stats
     let mut updated_doc = document.clone();
-    updated_doc.block_count += table.columns;
+    updated_doc.block_count += new_cell_blocks.len() as i64;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
-- 
2.43.0


From aa0ee9d55525bc4fed2575fdcb3a86432d0dc869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:39 +0000
Subject: [PATCH 30/37] fix: table structure edits count the text of cells in
 positions and statistics

---
 .../src/use_cases/editing_helpers.rs          | 25 ++++++++++++++++---
 .../src/use_cases/insert_table_column_uc.rs   | 13 +++++-----
 .../src/use_cases/insert_table_row_uc.rs      | 13 +++++-----
 .../src/use_cases/merge_table_cells_uc.rs     | 17 +++++++------
 .../src/use_cases/remove_table_column_uc.rs   | 14 ++++++-----
 .../src/use_cases/remove_table_row_uc.rs      | 14 ++++++-----
 .../src/use_cases/remove_table_uc.rs          |  6 ++++-
 .../src/use_cases/split_table_cell_uc.rs      | 12 +++++----
 8 files changed, 73 insertions(+), 41 deletions(-)

diff --git a/crates/document_editing/src/use_cases/editing_helpers.rs b/crates/document_editing/src/use_cases/editing_helpers.rs
index 85b5671..d8d22d2 100644
--- a/crates/document_editing/src/use_cases/editing_helpers.rs
+++ b/crates/document_editing/src/use_cases/editing_helpers.rs
@@ -101,13 +101,31 @@ macro_rules! impl_cell_block_reader {
 
 pub(crate) use impl_cell_block_reader;
 
-/// Compute the minimum document_position across all blocks in the given cell frames.
+/// Number of positions the blocks of the given cell frames take up: each block
+/// counts its characters and its separator.
+pub fn compute_table_extent(
+    uow: &dyn CellBlockReader,
+    cell_frame_ids: &[EntityId],
+    store: &Store,
+) -> Result<i64> {
+    let mut extent: i64 = 0;
+    for cf_id in cell_frame_ids {
+        let block_ids = uow.cbr_get_frame_relationship(cf_id, &FrameRelationshipField::Blocks)?;
+        let blocks_opt = uow.cbr_get_block_multi(&block_ids)?;
+        for block in blocks_opt.into_iter().flatten() {
+            extent += block_char_length(&block, store) + 1;
+        }
+    }
+    Ok(extent)
+}
+
 /// Reassign document_position for all blocks across table cells in row-major order.
-/// Returns the blocks that need updating and the total block count.
+/// Returns the blocks that need updating and the number of positions they take up.
 pub fn reassign_cell_block_positions(
     uow: &dyn CellBlockReader,
     cells: &[common::entities::TableCell],
     base_pos: i64,
+    store: &Store,
     now: chrono::DateTime<chrono::Utc>,
 ) -> Result<(Vec<Block>, i64)> {
     let mut blocks_to_update: Vec<Block> = Vec::new();
@@ -122,14 +140,15 @@ pub fn reassign_cell_block_positions(
             for mut block in blocks {
                 block.document_position = base_pos + running_pos;
                 block.updated_at = now;
+                running_pos += block_char_length(&block, store) + 1;
                 blocks_to_update.push(block);
-                running_pos += 1;
             }
         }
     }
     Ok((blocks_to_update, running_pos))
 }
 
+/// Compute the minimum document_position across all blocks in the given cell frames.
 pub fn compute_table_base_pos(
     uow: &dyn CellBlockReader,
     cell_frame_ids: &[EntityId],
diff --git a/crates/document_editing/src/use_cases/insert_table_column_uc.rs b/crates/document_editing/src/use_cases/insert_table_column_uc.rs
index 3ea338a..2e4e3f2 100644
--- a/crates/document_editing/src/use_cases/insert_table_column_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_column_uc.rs
@@ -1,6 +1,7 @@
 use super::editing_helpers::{
-    CellBlockReader, CellFrameCreator, compute_table_base_pos, create_cell_frame,
-    impl_cell_block_reader, impl_cell_frame_creator, reassign_cell_block_positions,
+    CellBlockReader, CellFrameCreator, compute_table_base_pos, compute_table_extent,
+    create_cell_frame, impl_cell_block_reader, impl_cell_frame_creator,
+    reassign_cell_block_positions,
 };
 use crate::InsertTableColumnDto;
 use crate::InsertTableColumnResultDto;
@@ -91,6 +92,7 @@ fn execute_insert_table_column(
     let existing_cell_frame_ids: Vec<EntityId> =
         cells.iter().filter_map(|c| c.cell_frame).collect();
     let base_pos = compute_table_base_pos(&*uow, &existing_cell_frame_ids)?;
+    let old_extent = compute_table_extent(&*uow, &existing_cell_frame_ids, &uow.store())?;
 
     let mut cells_to_update: Vec<TableCell> = Vec::new();
     for cell in &cells {
@@ -183,14 +185,13 @@ fn execute_insert_table_column(
     let cell_frame_ids: Vec<EntityId> = all_cells.iter().filter_map(|c| c.cell_frame).collect();
 
     // Assign positions in row-major order (handles multi-block cells)
-    let (cell_blocks_to_update, _) =
-        reassign_cell_block_positions(&*uow, &all_cells, base_pos, now)?;
+    let (cell_blocks_to_update, new_extent) =
+        reassign_cell_block_positions(&*uow, &all_cells, base_pos, &uow.store(), now)?;
     if !cell_blocks_to_update.is_empty() {
         uow.update_block_multi(&cell_blocks_to_update)?;
     }
 
     // Shift non-table blocks after the table
-    let added_cells = new_cell_blocks.len() as i64;
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let cell_frame_set: std::collections::HashSet<EntityId> = cell_frame_ids.into_iter().collect();
     let mut shifted_blocks: Vec<Block> = Vec::new();
@@ -206,7 +207,7 @@ fn execute_insert_table_column(
         for block in blocks_opt.into_iter().flatten() {
             if block.document_position >= base_pos {
                 let mut shifted = block;
-                shifted.document_position += added_cells;
+                shifted.document_position += new_extent - old_extent;
                 shifted.updated_at = now;
                 shifted_blocks.push(shifted);
             }
diff --git a/crates/document_editing/src/use_cases/insert_table_row_uc.rs b/crates/document_editing/src/use_cases/insert_table_row_uc.rs
index aea6e1d..4495420 100644
--- a/crates/document_editing/src/use_cases/insert_table_row_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_row_uc.rs
@@ -1,6 +1,7 @@
 use super::editing_helpers::{
-    CellBlockReader, CellFrameCreator, compute_table_base_pos, create_cell_frame,
-    impl_cell_block_reader, impl_cell_frame_creator, reassign_cell_block_positions,
+    CellBlockReader, CellFrameCreator, compute_table_base_pos, compute_table_extent,
+    create_cell_frame, impl_cell_block_reader, impl_cell_frame_creator,
+    reassign_cell_block_positions,
 };
 use crate::InsertTableRowDto;
 use crate::InsertTableRowResultDto;
@@ -91,6 +92,7 @@ fn execute_insert_table_row(
     let existing_cell_frame_ids: Vec<EntityId> =
         cells.iter().filter_map(|c| c.cell_frame).collect();
     let base_pos = compute_table_base_pos(&*uow, &existing_cell_frame_ids)?;
+    let old_extent = compute_table_extent(&*uow, &existing_cell_frame_ids, &uow.store())?;
 
     let mut cells_to_update: Vec<TableCell> = Vec::new();
     for cell in &cells {
@@ -181,14 +183,13 @@ fn execute_insert_table_row(
     let cell_frame_ids: Vec<EntityId> = all_cells.iter().filter_map(|c| c.cell_frame).collect();
 
     // Assign positions in row-major order (handles multi-block cells)
-    let (cell_blocks_to_update, _) =
-        reassign_cell_block_positions(&*uow, &all_cells, base_pos, now)?;
+    let (cell_blocks_to_update, new_extent) =
+        reassign_cell_block_positions(&*uow, &all_cells, base_pos, &uow.store(), now)?;
     if !cell_blocks_to_update.is_empty() {
         uow.update_block_multi(&cell_blocks_to_update)?;
     }
 
     // Shift non-table blocks after the table
-    let added_cells = new_cell_blocks.len() as i64;
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let cell_frame_set: std::collections::HashSet<EntityId> = cell_frame_ids.into_iter().collect();
     let mut shifted_blocks: Vec<Block> = Vec::new();
@@ -204,7 +205,7 @@ fn execute_insert_table_row(
         for block in blocks_opt.into_iter().flatten() {
             if block.document_position >= base_pos {
                 let mut shifted = block;
-                shifted.document_position += added_cells;
+                shifted.document_position += new_extent - old_extent;
                 shifted.updated_at = now;
                 shifted_blocks.push(shifted);
             }
diff --git a/crates/document_editing/src/use_cases/merge_table_cells_uc.rs b/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
index dff18de..6ae302d 100644
--- a/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
+++ b/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
@@ -1,5 +1,6 @@
 use super::editing_helpers::{
-    CellBlockReader, compute_table_base_pos, impl_cell_block_reader, reassign_cell_block_positions,
+    CellBlockReader, compute_table_base_pos, compute_table_extent, impl_cell_block_reader,
+    reassign_cell_block_positions,
 };
 use crate::MergeTableCellsDto;
 use crate::MergeTableCellsResultDto;
@@ -154,12 +155,11 @@ fn execute_merge_table_cells(
         .copied()
         .collect();
 
-    let removed_cell_count = cells_to_remove.len() as i64;
-
     // Find base_pos from existing cell blocks BEFORE any mutation
     let existing_cell_frame_ids: Vec<EntityId> =
         cells.iter().filter_map(|c| c.cell_frame).collect();
     let base_pos = compute_table_base_pos(&*uow, &existing_cell_frame_ids)?;
+    let old_extent = compute_table_extent(&*uow, &existing_cell_frame_ids, &uow.store())?;
 
     // Remove the other cells' frames (cascade removes blocks/elements) and the cell entities.
     // Before removal, collect the block IDs owned by those cell frames so we
@@ -209,13 +209,13 @@ fn execute_merge_table_cells(
         .collect();
 
     // Assign positions in row-major order (handles multi-block cells)
-    let (cell_blocks_to_update, _) =
-        reassign_cell_block_positions(&*uow, &remaining_cells, base_pos, now)?;
+    let (cell_blocks_to_update, new_extent) =
+        reassign_cell_block_positions(&*uow, &remaining_cells, base_pos, &uow.store(), now)?;
     if !cell_blocks_to_update.is_empty() {
         uow.update_block_multi(&cell_blocks_to_update)?;
     }
 
-    // Shift non-table blocks after the table (reduce by number of removed cells)
+    // Shift non-table blocks after the table (by the positions the removed cells took)
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let cell_frame_set: std::collections::HashSet<EntityId> =
         remaining_frame_ids.into_iter().collect();
@@ -232,7 +232,7 @@ fn execute_merge_table_cells(
         for block in blocks_opt.into_iter().flatten() {
             if block.document_position >= base_pos {
                 let mut shifted = block;
-                shifted.document_position -= removed_cell_count;
+                shifted.document_position += new_extent - old_extent;
                 shifted.updated_at = now;
                 shifted_blocks.push(shifted);
             }
@@ -244,7 +244,8 @@ fn execute_merge_table_cells(
 
     // Update Document.block_count
     let mut updated_doc = document.clone();
-    updated_doc.block_count -= removed_cell_count;
+    updated_doc.block_count -= removed_cell_block_ids.len() as i64;
+    updated_doc.character_count += new_extent - old_extent + removed_cell_block_ids.len() as i64;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
diff --git a/crates/document_editing/src/use_cases/remove_table_column_uc.rs b/crates/document_editing/src/use_cases/remove_table_column_uc.rs
index 5651273..20fb2c1 100644
--- a/crates/document_editing/src/use_cases/remove_table_column_uc.rs
+++ b/crates/document_editing/src/use_cases/remove_table_column_uc.rs
@@ -1,5 +1,6 @@
 use super::editing_helpers::{
-    CellBlockReader, compute_table_base_pos, impl_cell_block_reader, reassign_cell_block_positions,
+    CellBlockReader, compute_table_base_pos, compute_table_extent, impl_cell_block_reader,
+    reassign_cell_block_positions,
 };
 use crate::RemoveTableColumnDto;
 use crate::RemoveTableColumnResultDto;
@@ -106,6 +107,7 @@ fn execute_remove_table_column(
     // position is correct even when the first column is being removed.
     let all_cell_frame_ids: Vec<EntityId> = cells.iter().filter_map(|c| c.cell_frame).collect();
     let base_pos = compute_table_base_pos(&*uow, &all_cell_frame_ids)?;
+    let old_extent = compute_table_extent(&*uow, &all_cell_frame_ids, &uow.store())?;
 
     for cell in &cells {
         if cell.column == column_index && cell.column_span == 1 {
@@ -190,14 +192,13 @@ fn execute_remove_table_column(
         .collect();
 
     // Assign positions in row-major order (handles multi-block cells)
-    let (cell_blocks_to_update, _) =
-        reassign_cell_block_positions(&*uow, &remaining_cells, base_pos, now)?;
+    let (cell_blocks_to_update, new_extent) =
+        reassign_cell_block_positions(&*uow, &remaining_cells, base_pos, &uow.store(), now)?;
     if !cell_blocks_to_update.is_empty() {
         uow.update_block_multi(&cell_blocks_to_update)?;
     }
 
     // Shift non-table blocks after the table
-    let removed_cells = cells_to_remove.len() as i64;
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let cell_frame_set: std::collections::HashSet<EntityId> =
         remaining_cell_frame_ids.into_iter().collect();
@@ -214,7 +215,7 @@ fn execute_remove_table_column(
         for block in blocks_opt.into_iter().flatten() {
             if block.document_position >= base_pos {
                 let mut shifted = block;
-                shifted.document_position -= removed_cells;
+                shifted.document_position += new_extent - old_extent;
                 shifted.updated_at = now;
                 shifted_blocks.push(shifted);
             }
@@ -226,7 +227,8 @@ fn execute_remove_table_column(
 
     // Update Document.block_count
     let mut updated_doc = document.clone();
-    updated_doc.block_count -= removed_cells;
+    updated_doc.block_count -= removed_cell_block_ids.len() as i64;
+    updated_doc.character_count += new_extent - old_extent + removed_cell_block_ids.len() as i64;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
diff --git a/crates/document_editing/src/use_cases/remove_table_row_uc.rs b/crates/document_editing/src/use_cases/remove_table_row_uc.rs
index 6852055..ac257dd 100644
--- a/crates/document_editing/src/use_cases/remove_table_row_uc.rs
+++ b/crates/document_editing/src/use_cases/remove_table_row_uc.rs
@@ -1,5 +1,6 @@
 use super::editing_helpers::{
-    CellBlockReader, compute_table_base_pos, impl_cell_block_reader, reassign_cell_block_positions,
+    CellBlockReader, compute_table_base_pos, compute_table_extent, impl_cell_block_reader,
+    reassign_cell_block_positions,
 };
 use crate::RemoveTableRowDto;
 use crate::RemoveTableRowResultDto;
@@ -104,6 +105,7 @@ fn execute_remove_table_row(
     // position is correct even when the first row is being removed.
     let all_cell_frame_ids: Vec<EntityId> = cells.iter().filter_map(|c| c.cell_frame).collect();
     let base_pos = compute_table_base_pos(&*uow, &all_cell_frame_ids)?;
+    let old_extent = compute_table_extent(&*uow, &all_cell_frame_ids, &uow.store())?;
 
     for cell in &cells {
         if cell.row == dto.row_index && cell.row_span == 1 {
@@ -183,14 +185,13 @@ fn execute_remove_table_row(
         .collect();
 
     // Assign positions in row-major order (handles multi-block cells)
-    let (cell_blocks_to_update, _) =
-        reassign_cell_block_positions(&*uow, &remaining_cells, base_pos, now)?;
+    let (cell_blocks_to_update, new_extent) =
+        reassign_cell_block_positions(&*uow, &remaining_cells, base_pos, &uow.store(), now)?;
     if !cell_blocks_to_update.is_empty() {
         uow.update_block_multi(&cell_blocks_to_update)?;
     }
 
     // Shift non-table blocks after the table
-    let removed_cells = cells_to_remove.len() as i64;
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let cell_frame_set: std::collections::HashSet<EntityId> =
         remaining_frame_ids.into_iter().collect();
@@ -207,7 +208,7 @@ fn execute_remove_table_row(
         for block in blocks_opt.into_iter().flatten() {
             if block.document_position >= base_pos {
                 let mut shifted = block;
-                shifted.document_position -= removed_cells;
+                shifted.document_position += new_extent - old_extent;
                 shifted.updated_at = now;
                 shifted_blocks.push(shifted);
             }
@@ -219,7 +220,8 @@ fn execute_remove_table_row(
 
     // Update Document stats
     let mut updated_doc = document.clone();
-    updated_doc.block_count -= removed_cells;
+    updated_doc.block_count -= removed_cell_block_ids.len() as i64;
+    updated_doc.character_count += new_extent - old_extent + removed_cell_block_ids.len() as i64;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
diff --git a/crates/document_editing/src/use_cases/remove_table_uc.rs b/crates/document_editing/src/use_cases/remove_table_uc.rs
index 0abf111..f19e122 100644
--- a/crates/document_editing/src/use_cases/remove_table_uc.rs
+++ b/crates/document_editing/src/use_cases/remove_table_uc.rs
@@ -1,6 +1,7 @@
 use crate::RemoveTableDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
+use common::database::rope_helpers::block_char_length;
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -82,6 +83,7 @@ fn execute_remove_table(
     // remember each cell-block id so we can detach them from the
     // global rope before the entity cascade below.
     let mut total_cell_blocks: i64 = 0;
+    let mut table_extent: i64 = 0;
     let mut min_cell_position: Option<i64> = None;
     let mut cell_block_ids: Vec<EntityId> = Vec::new();
     for fid in &cell_frame_ids {
@@ -90,6 +92,7 @@ fn execute_remove_table(
             let blocks_opt = uow.get_block_multi(&block_ids)?;
             for block in blocks_opt.into_iter().flatten() {
                 total_cell_blocks += 1;
+                table_extent += block_char_length(&block, &uow.store()) + 1;
                 cell_block_ids.push(block.id);
                 match min_cell_position {
                     None => min_cell_position = Some(block.document_position),
@@ -167,7 +170,7 @@ fn execute_remove_table(
                 for block in blocks_opt.into_iter().flatten() {
                     if block.document_position >= table_start_pos {
                         let mut shifted = block;
-                        shifted.document_position -= total_cell_blocks;
+                        shifted.document_position -= table_extent;
                         shifted.updated_at = now;
                         blocks_to_shift.push(shifted);
                     }
@@ -182,6 +185,7 @@ fn execute_remove_table(
     // Update Document stats
     let mut updated_doc = document.clone();
     updated_doc.block_count -= total_cell_blocks;
+    updated_doc.character_count -= table_extent - total_cell_blocks;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
diff --git a/crates/document_editing/src/use_cases/split_table_cell_uc.rs b/crates/document_editing/src/use_cases/split_table_cell_uc.rs
index 22883e2..4f8d16d 100644
--- a/crates/document_editing/src/use_cases/split_table_cell_uc.rs
+++ b/crates/document_editing/src/use_cases/split_table_cell_uc.rs
@@ -1,6 +1,7 @@
 use super::editing_helpers::{
-    CellBlockReader, CellFrameCreator, compute_table_base_pos, create_cell_frame,
-    impl_cell_block_reader, impl_cell_frame_creator, reassign_cell_block_positions,
+    CellBlockReader, CellFrameCreator, compute_table_base_pos, compute_table_extent,
+    create_cell_frame, impl_cell_block_reader, impl_cell_frame_creator,
+    reassign_cell_block_positions,
 };
 use crate::SplitTableCellDto;
 use crate::SplitTableCellResultDto;
@@ -127,6 +128,7 @@ fn execute_split_table_cell(
     let existing_cell_frame_ids: Vec<EntityId> =
         cells.iter().filter_map(|c| c.cell_frame).collect();
     let base_pos = compute_table_base_pos(&*uow, &existing_cell_frame_ids)?;
+    let old_extent = compute_table_extent(&*uow, &existing_cell_frame_ids, &uow.store())?;
 
     // Calculate sub-cell spans
     let base_row_span = cell.row_span / dto.split_rows;
@@ -215,8 +217,8 @@ fn execute_split_table_cell(
 
     let cell_frame_ids: Vec<EntityId> = all_cells.iter().filter_map(|c| c.cell_frame).collect();
 
-    let (cell_blocks_to_update, _) =
-        reassign_cell_block_positions(&*uow, &all_cells, base_pos, now)?;
+    let (cell_blocks_to_update, new_extent) =
+        reassign_cell_block_positions(&*uow, &all_cells, base_pos, &uow.store(), now)?;
     if !cell_blocks_to_update.is_empty() {
         uow.update_block_multi(&cell_blocks_to_update)?;
     }
@@ -241,7 +243,7 @@ fn execute_split_table_cell(
             for block in blocks_opt.into_iter().flatten() {
                 if block.document_position >= base_pos {
                     let mut shifted = block;
-                    shifted.document_position += added_cells;
+                    shifted.document_position += new_extent - old_extent;
                     shifted.updated_at = now;
                     shifted_blocks.push(shifted);
                 }
-- 
2.43.0


From fb70d3135e70b72554334088c77cd612ef2558f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:04 +0000
Subject: [PATCH 31/37] fix: importing HTML keeps empty paragraphs and list
 items

---
 crates/common/src/parser_tools/content_parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/parser_tools/content_parser.rs b/crates/common/src/parser_tools/content_parser.rs
index 690fc98..9b6f327 100644
--- a/crates/common/src/parser_tools/content_parser.rs
+++ b/crates/common/src/parser_tools/content_parser.rs
@@ -840,7 +840,12 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
                         0
                     };
 
-                    if !spans.is_empty() || heading_level.is_some() {
+                    // A paragraph or list item without content is still one:
+                    // the exporter writes empty blocks as `<p></p>`.
+                    let is_empty_block =
+                        matches!(tag, "p" | "li" | "pre") && nested_elements.is_empty();
+
+                    if !spans.is_empty() || heading_level.is_some() || is_empty_block {
                         elements.push(ParsedElement::Block(ParsedBlock {
                             spans,
                             heading_level,
-- 
2.43.0


From 3eef4c6fde88ed37cc7d89a091bf651725301d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:04 +0000
Subject: [PATCH 32/37] fix: Markdown export escapes backticks, angle brackets
 and ampersands

---
 crates/document_io/src/use_cases/export_markdown_uc.rs | 4 ++--
 crates/public_api/src/fragment.rs                      | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_markdown_uc.rs b/crates/document_io/src/use_cases/export_markdown_uc.rs
index 44056cf..24d0e9e 100644
--- a/crates/document_io/src/use_cases/export_markdown_uc.rs
+++ b/crates/document_io/src/use_cases/export_markdown_uc.rs
@@ -514,8 +514,8 @@ fn escape_markdown(s: &str) -> String {
     let mut result = String::with_capacity(s.len());
     for c in s.chars() {
         match c {
-            '\\' | '*' | '_' | '{' | '}' | '[' | ']' | '(' | ')' | '#' | '+' | '-' | '.' | '!'
-            | '|' | '~' | '>' => {
+            '\\' | '`' | '*' | '_' | '{' | '}' | '[' | ']' | '(' | ')' | '#' | '+' | '-' | '.'
+            | '!' | '|' | '~' | '<' | '>' | '&' => {
                 result.push('\\');
                 result.push(c);
             }
diff --git a/crates/public_api/src/fragment.rs b/crates/public_api/src/fragment.rs
index e317461..372b24f 100644
--- a/crates/public_api/src/fragment.rs
+++ b/crates/public_api/src/fragment.rs
@@ -531,6 +531,7 @@ fn escape_markdown(s: &str) -> String {
                 | '~'
                 | '<'
                 | '>'
+                | '&'
         ) {
             out.push('\\');
         }
-- 
2.43.0


From 7e5e086f517b044375396c8c6b04126c57404f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:04 +0000
Subject: [PATCH 33/37] fix: Markdown code spans can hold backticks and
 neighbouring runs stay apart

---
 .../src/use_cases/export_markdown_uc.rs       | 49 ++++++++++++++-
 crates/public_api/src/fragment.rs             | 62 +++++++++++++++++--
 2 files changed, 105 insertions(+), 6 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_markdown_uc.rs b/crates/document_io/src/use_cases/export_markdown_uc.rs
index 24d0e9e..10cc013 100644
--- a/crates/document_io/src/use_cases/export_markdown_uc.rs
+++ b/crates/document_io/src/use_cases/export_markdown_uc.rs
@@ -358,7 +358,7 @@ impl ExportMarkdownUseCase {
     /// Render inline segments into markdown text with formatting.
     fn render_inline_segments(&self, elements: &[InlineSegment]) -> Result<String> {
         let mut inline_md = String::new();
-        for elem in elements {
+        for elem in &merge_alike(elements) {
             let is_code = elem.fmt_font_family.as_deref() == Some("monospace");
             let text = match &elem.content {
                 InlineContent::Text(t) => {
@@ -382,7 +382,7 @@ impl ExportMarkdownUseCase {
 
             // Apply formatting (innermost first)
             if elem.fmt_font_family.as_deref() == Some("monospace") {
-                formatted = format!("`{}`", formatted);
+                formatted = code_span(&formatted);
             }
             if elem.fmt_font_strikeout == Some(true) {
                 formatted = format!("~~{}~~", formatted);
@@ -510,6 +510,51 @@ fn prefix_lines(text: &str, prefix: &str) -> String {
         .join("\n")
 }
 
+/// Join neighbouring text segments that Markdown renders alike: delimiters
+/// written back to back between them (`` `a``b` ``, `**a****b**`) would not be
+/// read as delimiters.
+fn merge_alike(elements: &[InlineSegment]) -> Vec<InlineSegment> {
+    let mut merged: Vec<InlineSegment> = Vec::new();
+    for elem in elements {
+        if let Some(last) = merged.last_mut()
+            && let (InlineContent::Text(t), InlineContent::Text(next)) =
+                (&mut last.content, &elem.content)
+            && (last.fmt_font_family.as_deref() == Some("monospace"))
+                == (elem.fmt_font_family.as_deref() == Some("monospace"))
+            && (last.fmt_font_strikeout == Some(true)) == (elem.fmt_font_strikeout == Some(true))
+            && (last.fmt_font_bold == Some(true)) == (elem.fmt_font_bold == Some(true))
+            && (last.fmt_font_italic == Some(true)) == (elem.fmt_font_italic == Some(true))
+            && last.fmt_anchor_href == elem.fmt_anchor_href
+        {
+            t.push_str(next);
+        } else {
+            merged.push(elem.clone());
+        }
+    }
+    merged
+}
+
+/// An inline code span around `s`: delimited by more backticks than any run in
+/// `s`, and padded where `s` itself could be taken for delimiter or padding.
+fn code_span(s: &str) -> String {
+    let fence = "`".repeat(longest_backtick_run(s) + 1);
+    let padded = s.starts_with('`')
+        || s.ends_with('`')
+        || (s.starts_with(' ') && s.ends_with(' ') && s.chars().any(|c| c != ' '));
+    let pad = if padded { " " } else { "" };
+    format!("{fence}{pad}{s}{pad}{fence}")
+}
+
+fn longest_backtick_run(s: &str) -> usize {
+    let mut longest = 0;
+    let mut run = 0;
+    for c in s.chars() {
+        run = if c == '`' { run + 1 } else { 0 };
+        longest = longest.max(run);
+    }
+    longest
+}
+
 fn escape_markdown(s: &str) -> String {
     let mut result = String::with_capacity(s.len());
     for c in s.chars() {
diff --git a/crates/public_api/src/fragment.rs b/crates/public_api/src/fragment.rs
index 372b24f..98e7001 100644
--- a/crates/public_api/src/fragment.rs
+++ b/crates/public_api/src/fragment.rs
@@ -540,9 +540,65 @@ fn escape_markdown(s: &str) -> String {
     out
 }
 
+/// Join neighbouring text elements that Markdown renders alike: delimiters
+/// written back to back between them (`` `a``b` ``, `**a****b**`) would not be
+/// read as delimiters.
+fn merge_alike(elements: &[FragmentElement]) -> Vec<FragmentElement> {
+    fn is_code(e: &FragmentElement) -> bool {
+        e.fmt_font_family.as_deref() == Some("monospace")
+    }
+    fn look(e: &FragmentElement) -> (bool, bool, bool, Option<&str>) {
+        (
+            e.fmt_font_bold.unwrap_or(false),
+            e.fmt_font_italic.unwrap_or(false),
+            e.fmt_font_strikeout.unwrap_or(false),
+            e.fmt_is_anchor
+                .unwrap_or(false)
+                .then(|| e.fmt_anchor_href.as_deref().unwrap_or("")),
+        )
+    }
+    let mut merged: Vec<FragmentElement> = Vec::new();
+    for elem in elements {
+        let alike = merged.last().is_some_and(|last| {
+            is_code(last) == is_code(elem) && (is_code(elem) || look(last) == look(elem))
+        });
+        if alike
+            && let Some(last) = merged.last_mut()
+            && let (InlineContent::Text(t), InlineContent::Text(next)) =
+                (&mut last.content, &elem.content)
+        {
+            t.push_str(next);
+        } else {
+            merged.push(elem.clone());
+        }
+    }
+    merged
+}
+
+/// An inline code span around `s`: delimited by more backticks than any run in
+/// `s`, and padded where `s` itself could be taken for delimiter or padding.
+fn code_span(s: &str) -> String {
+    let fence = "`".repeat(longest_backtick_run(s) + 1);
+    let padded = s.starts_with('`')
+        || s.ends_with('`')
+        || (s.starts_with(' ') && s.ends_with(' ') && s.chars().any(|c| c != ' '));
+    let pad = if padded { " " } else { "" };
+    format!("{fence}{pad}{s}{pad}{fence}")
+}
+
+fn longest_backtick_run(s: &str) -> usize {
+    let mut longest = 0;
+    let mut run = 0;
+    for c in s.chars() {
+        run = if c == '`' { run + 1 } else { 0 };
+        longest = longest.max(run);
+    }
+    longest
+}
+
 fn render_inline_markdown(elements: &[FragmentElement]) -> String {
     let mut out = String::new();
-    for elem in elements {
+    for elem in &merge_alike(elements) {
         let raw_text = match &elem.content {
             InlineContent::Text(t) => t.clone(),
             InlineContent::Image { name, .. } => format!("![{}]({})", name, name),
@@ -559,9 +615,7 @@ fn render_inline_markdown(elements: &[FragmentElement]) -> String {
         let is_anchor = elem.fmt_is_anchor.unwrap_or(false);
 
         if is_monospace {
-            out.push('`');
-            out.push_str(&raw_text);
-            out.push('`');
+            out.push_str(&code_span(&raw_text));
         } else {
             let mut text = escape_markdown(&raw_text);
             if is_bold && is_italic {
-- 
2.43.0


From 24c5bd8ef04b3b16d37650c06d3283a788523871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:46 +0000
Subject: [PATCH 34/37] fix: replacing a paragraph's content before an empty
 last paragraph keeps the boundary between them

---
 crates/common/src/database/rope_helpers.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index 6806efb..031e348 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -856,16 +856,15 @@ pub fn rope_remove_block(store: &Store, block_id: EntityId) {
 pub fn rope_replace_block_content(store: &Store, block_id: EntityId, new_text: &str) {
     let (block_byte_start, content_bytes) = {
         let offsets = store.block_offsets.read().unwrap();
-        let Some((start, end)) = offsets.range_of_block(block_id) else {
+        let Some((start, end, has_trailing_boundary)) =
+            offsets.range_with_successor(OffsetMarker::Block(block_id))
+        else {
             return;
         };
-        let total = offsets.total_bytes();
-        // `range_of` extends to the next entry's `byte_start` (or to
-        // `total_bytes`). If there's a following entry, the byte at
-        // `end - 1` is the inter-block boundary `\n` that belongs to
-        // the boundary between this block and the next, not to this
-        // block's content.
-        let has_trailing_boundary = end < total;
+        // If there's a following entry, the byte at `end - 1` is the
+        // inter-block boundary `\n` that belongs to the boundary between
+        // this block and the next, not to this block's content. That holds
+        // even when `end` is the end of the rope (empty last block).
         let content_bytes = if has_trailing_boundary {
             end - start - 1
         } else {
-- 
2.43.0


From dd4babb0dfe54e878e2fc822aa7b2f3b20486ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:43 +0000
Subject: [PATCH 35/37] fix: a table after an empty first paragraph, and
 removing the only table, keep the text in its paragraphs

---
 crates/common/src/database/rope_helpers.rs | 30 +++++++++++++---------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index 031e348..ff00a96 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -384,13 +384,13 @@ pub fn top_level_frame_end_byte(store: &Store, frame_id: EntityId) -> u32 {
 }
 
 /// Append a new empty block to the end of the rope, separating it
-/// from any prior content with a `\n` boundary (only if the rope is
-/// already non-empty). Registers `block_id` at the resulting byte
+/// from any prior entry with a `\n` boundary (an earlier entry may be
+/// an empty block, so an empty rope does not mean there is none). Registers `block_id` at the resulting byte
 /// position. Returns that byte position. Used when `insert_frame_uc`
 /// creates a new top-level frame with a single empty block.
 pub fn rope_append_empty_block(store: &Store, block_id: EntityId) -> u32 {
-    let was_empty = store.rope.read().unwrap().len_bytes() == 0;
-    if !was_empty {
+    let is_first = store.block_offsets.read().unwrap().is_empty();
+    if !is_first {
         rope_insert_block_boundary(store);
     }
     let pos = store.rope.read().unwrap().len_bytes() as u32;
@@ -658,7 +658,9 @@ pub fn rope_insert_table_anchor(
             "\n\u{FFFC}",
             insert_pos + 1,
             target_idx + 1,
-            insert_pos,
+            // Past the target itself, which stays where it is even
+            // when it is empty and starts at `insert_pos`.
+            insert_pos + 1,
             4i32,
         )
     };
@@ -693,20 +695,20 @@ pub fn rope_insert_table_anchor(
 }
 
 /// Append a U+FFFC table-anchor sentinel at the end of the rope and
-/// register a `TableAnchor(table_id)` marker. If the rope is already
-/// non-empty, prepends a `\n` boundary so the sentinel doesn't run
-/// into the previous entry's content.
+/// register a `TableAnchor(table_id)` marker. If there is an earlier
+/// entry (which may be an empty block), prepends a `\n` boundary so
+/// the sentinel doesn't run into the previous entry's content.
 ///
 /// Used by import paths (`import_html_uc`, `import_markdown_uc`)
 /// that process the document linearly and append entities as they
 /// encounter them, rather than inserting relative to an existing
 /// target block.
 pub fn rope_append_table_anchor(store: &Store, table_id: EntityId) {
+    let is_first = store.block_offsets.read().unwrap().is_empty();
     let (anchor_byte_start, new_total) = {
         let mut rope = store.rope.write().unwrap();
-        let was_empty = rope.len_bytes() == 0;
         let char_end = rope.len_chars();
-        let to_insert = if was_empty { "\u{FFFC}" } else { "\n\u{FFFC}" };
+        let to_insert = if is_first { "\u{FFFC}" } else { "\n\u{FFFC}" };
         rope.insert(char_end, to_insert);
         let new_total = rope.len_bytes() as u32;
         // Sentinel is 3 bytes; if a `\n` was prepended that's 1 byte
@@ -747,11 +749,14 @@ pub fn rope_remove_table_anchor(store: &Store, table_id: EntityId) {
 
     // Symmetric to insert_table_anchor. The 4 bytes to remove are:
     // - if anchor is last: [byte_start - 1 .. byte_start + 3) — the
-    //   preceding `\n` + the 3-byte sentinel
+    //   preceding `\n` + the 3-byte sentinel (only the sentinel
+    //   if it is also the first entry)
     // - otherwise: [byte_start .. byte_start + 4) — the sentinel
     //   + the following `\n`
     let (remove_start, remove_end) = if anchor_is_last && has_predecessor {
         (anchor_byte_start - 1, anchor_byte_start + 3)
+    } else if anchor_is_last {
+        (anchor_byte_start, anchor_byte_start + 3)
     } else {
         (anchor_byte_start, anchor_byte_start + 4)
     };
@@ -770,7 +775,8 @@ pub fn rope_remove_table_anchor(store: &Store, table_id: EntityId) {
         .block_offsets
         .write()
         .unwrap()
-        .shift_after(remove_start, -4);
+        // An empty predecessor may start at `remove_start`; it stays.
+        .shift_after(anchor_byte_start, remove_start as i32 - remove_end as i32);
 }
 
 /// Remove a registered block from the rope: drops its content bytes
-- 
2.43.0


From dddee6cb67fae4cea7d49f5ea3fe0c11f37811c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:55 +0000
Subject: [PATCH 36/37] fix: moving to the next word looks beyond 64 characters
 of separators

---
 crates/public_api/src/cursor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index cf4fc48..7e8dabb 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -2159,7 +2159,7 @@ impl TextCursor {
                     let max_pos = document_inspection_commands::get_document_stats(&inner.ctx)
                         .map(|s| max_cursor_position(&s))
                         .unwrap_or(0);
-                    let scan_len = max_pos.saturating_sub(pos).min(64);
+                    let scan_len = max_pos.saturating_sub(pos);
                     if scan_len == 0 {
                         return pos;
                     }
-- 
2.43.0


From 1675c7d6ff4dc8d36cc4fc02694b5fd3d36277f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:53 +0000
Subject: [PATCH 37/37] fix: inserting an empty formatted text stores no empty
 format run

---
 .../src/use_cases/insert_formatted_text_uc.rs | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs b/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
index 0821eff..fc0fb7a 100644
--- a/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
@@ -179,16 +179,19 @@ fn insert_formatted_at(
         let mut runs_map = store.format_runs.write().unwrap();
         let runs = runs_map.entry(block.id).or_default();
         shift_runs_for_insert(runs, byte_offset, inserted_byte_len);
-        let new_run = FormatRun {
-            byte_start: byte_offset,
-            byte_end: byte_offset + inserted_byte_len,
-            format: dto_to_character_format(dto),
-        };
-        splice_range(
-            runs,
-            byte_offset..(byte_offset + inserted_byte_len),
-            vec![new_run],
-        );
+        // No text, no run: an empty run would break the list's invariants.
+        if inserted_byte_len > 0 {
+            let new_run = FormatRun {
+                byte_start: byte_offset,
+                byte_end: byte_offset + inserted_byte_len,
+                format: dto_to_character_format(dto),
+            };
+            splice_range(
+                runs,
+                byte_offset..(byte_offset + inserted_byte_len),
+                vec![new_run],
+            );
+        }
         debug_assert_well_formed(runs, new_plain.len());
     }
     {
-- 
2.43.0

