From de95a835b5eedc3993831c8b6926a0f5ea136bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 01/26] fix: inode checksum of inodes without i_checksum_hi

With 128-byte inodes (or i_extra_isize < 4) only the low 16 bits of the
checksum are stored, and the space after them is not a checksum field.
Such filesystems could not be read at all.
---
 src/inode.rs | 60 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/src/inode.rs b/src/inode.rs
index 15ad801..6db047c 100644
--- a/src/inode.rs
+++ b/src/inode.rs
@@ -119,6 +119,20 @@ impl Inode {
     const L_I_CHECKSUM_LO_OFFSET: usize = 0x74 + 0x8;
     const I_CHECKSUM_HI_OFFSET: usize = 0x82;
 
+    /// Check whether the inode contains the upper half of the checksum.
+    ///
+    /// That field is part of the extra space beyond the original
+    /// 128-byte inode. If it's not present, only the lower 16 bits of
+    /// the checksum are stored.
+    fn has_checksum_hi(data: &[u8]) -> bool {
+        const GOOD_OLD_INODE_SIZE: usize = 128;
+        const I_EXTRA_ISIZE_OFFSET: usize = 0x80;
+
+        data.len() >= Self::I_CHECKSUM_HI_OFFSET + 2
+            && usize::from(read_u16le(data, I_EXTRA_ISIZE_OFFSET))
+                >= Self::I_CHECKSUM_HI_OFFSET + 2 - GOOD_OLD_INODE_SIZE
+    }
+
     /// Load an inode from `bytes`.
     ///
     /// If successful, returns a tuple containing the inode and its
@@ -137,18 +151,6 @@ impl Inode {
             .into());
         }
 
-        // If metadata checksums are enabled, the inode must be big
-        // enough to include the checksum fields.
-        if ext4.has_metadata_checksums()
-            && data.len() < (Self::I_CHECKSUM_HI_OFFSET + 2)
-        {
-            return Err(CorruptKind::InodeTruncated {
-                inode: index,
-                size: data.len(),
-            }
-            .into());
-        }
-
         let i_mode = read_u16le(data, 0x0);
         let i_uid = read_u16le(data, 0x2);
         let i_size_lo = read_u32le(data, 0x4);
@@ -164,7 +166,11 @@ impl Inode {
         {
             (
                 read_u16le(data, Self::L_I_CHECKSUM_LO_OFFSET),
-                read_u16le(data, Self::I_CHECKSUM_HI_OFFSET),
+                if Self::has_checksum_hi(data) {
+                    read_u16le(data, Self::I_CHECKSUM_HI_OFFSET)
+                } else {
+                    0
+                },
             )
         } else {
             // If metadata checksums aren't enabled then these values
@@ -238,19 +244,27 @@ impl Inode {
             // Zero'd field.
             checksum.update_u16_le(0);
 
-            // Up to the i_checksum_hi field.
-            checksum.update(
-                &data[Self::L_I_CHECKSUM_LO_OFFSET + 2
-                    ..Self::I_CHECKSUM_HI_OFFSET],
-            );
+            let actual_checksum = if Self::has_checksum_hi(&data) {
+                // Up to the i_checksum_hi field.
+                checksum.update(
+                    &data[Self::L_I_CHECKSUM_LO_OFFSET + 2
+                        ..Self::I_CHECKSUM_HI_OFFSET],
+                );
 
-            // Zero'd field.
-            checksum.update_u16_le(0);
+                // Zero'd field.
+                checksum.update_u16_le(0);
+
+                // Rest of the inode.
+                checksum.update(&data[Self::I_CHECKSUM_HI_OFFSET + 2..]);
 
-            // Rest of the inode.
-            checksum.update(&data[Self::I_CHECKSUM_HI_OFFSET + 2..]);
+                checksum.finalize()
+            } else {
+                // Rest of the inode.
+                checksum.update(&data[Self::L_I_CHECKSUM_LO_OFFSET + 2..]);
 
-            let actual_checksum = checksum.finalize();
+                // Only the lower 16 bits are stored.
+                checksum.finalize() & 0xffff
+            };
             if actual_checksum != expected_checksum {
                 return Err(CorruptKind::InodeChecksum(inode.index).into());
             }
-- 
2.43.0


From 79d746fcd605904324db0d7bf78bfae9b8517f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:54 +0000
Subject: [PATCH 02/26] fix: read unwritten extents as zeros

---
 src/iters/extents.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/iters/extents.rs b/src/iters/extents.rs
index 4236c8a..58110a3 100644
--- a/src/iters/extents.rs
+++ b/src/iters/extents.rs
@@ -19,6 +19,9 @@ use alloc::vec::Vec;
 /// entry).
 const ENTRY_SIZE_IN_BYTES: usize = 12;
 
+/// Maximum number of blocks in a written (initialized) extent.
+const MAX_WRITTEN_LEN: u16 = 32768;
+
 /// Header at the start of a node in an extent tree.
 ///
 /// An extent tree is made up of nodes. Each node may be internal or
@@ -213,6 +216,13 @@ impl Extents {
             let ee_start_hi = read_u16le(entry, 6);
             let ee_start_low = read_u32le(entry, 8);
 
+            // A length greater than `MAX_WRITTEN_LEN` indicates an
+            // unwritten (preallocated) extent. Unwritten extents read
+            // as zero, so treat them the same as a hole.
+            if ee_len > MAX_WRITTEN_LEN {
+                return Ok(None);
+            }
+
             let start_block =
                 u64_from_hilo(u32::from(ee_start_hi), ee_start_low);
 
-- 
2.43.0


From 2f81eb99569618c4bb0c0258442aa7168d79f908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 03/26] fix: validate the depth of child extent nodes

---
 src/iters/extents.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/iters/extents.rs b/src/iters/extents.rs
index 58110a3..aa75c47 100644
--- a/src/iters/extents.rs
+++ b/src/iters/extents.rs
@@ -210,7 +210,9 @@ impl Extents {
             return Ok(None);
         };
 
-        if item.depth == 0 {
+        let depth = item.depth;
+
+        if depth == 0 {
             let ee_block = read_u32le(entry, 0);
             let ee_len = read_u16le(entry, 4);
             let ee_start_hi = read_u16le(entry, 6);
@@ -281,8 +283,15 @@ impl Extents {
                 }
             }
 
-            self.to_visit
-                .push(ToVisitItem::new(child_node, self.inode)?);
+            let child = ToVisitItem::new(child_node, self.inode)?;
+
+            // The depth must decrease by one at each level. This also
+            // ensures that there are no cycles.
+            if child.depth.checked_add(1) != Some(depth) {
+                return Err(CorruptKind::ExtentDepth(self.inode).into());
+            }
+
+            self.to_visit.push(child);
         }
 
         // This does not indicate end of iteration, we just haven't
-- 
2.43.0


From 6a8ab199c11e696a7ce76b8ba5de95d5a981121d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:40 +0000
Subject: [PATCH 04/26] fix: require extent tree entries to be sorted

---
 src/iters/extents.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/iters/extents.rs b/src/iters/extents.rs
index aa75c47..95a47eb 100644
--- a/src/iters/extents.rs
+++ b/src/iters/extents.rs
@@ -19,6 +19,9 @@ use alloc::vec::Vec;
 /// entry).
 const ENTRY_SIZE_IN_BYTES: usize = 12;
 
+/// Maximum depth of the extent tree.
+const MAX_DEPTH: usize = 5;
+
 /// Maximum number of blocks in a written (initialized) extent.
 const MAX_WRITTEN_LEN: u16 = 32768;
 
@@ -88,7 +91,7 @@ impl NodeHeader {
             return Err(CorruptKind::ExtentMagic(inode).into());
         }
 
-        if eh_depth > 5 {
+        if usize::from(eh_depth) > MAX_DEPTH {
             return Err(CorruptKind::ExtentDepth(inode).into());
         }
 
@@ -157,6 +160,10 @@ pub(crate) struct Extents {
     inode: InodeIndex,
     to_visit: Vec<ToVisitItem>,
     checksum_base: Checksum,
+
+    // For each depth, the minimum file block of the next entry.
+    min_blocks: [u64; MAX_DEPTH + 1],
+
     is_done: bool,
 }
 
@@ -170,6 +177,7 @@ impl Extents {
                 inode.index,
             )?],
             checksum_base: inode.checksum_base.clone(),
+            min_blocks: [0; MAX_DEPTH + 1],
             is_done: false,
         })
     }
@@ -212,6 +220,18 @@ impl Extents {
 
         let depth = item.depth;
 
+        // At each level of the tree, entries must be sorted by file
+        // block. Among other things this ensures that each node with
+        // entries is only visited once.
+        let file_block = read_u32le(entry, 0);
+        // OK to unwrap: depth is at most five.
+        let min_block = self.min_blocks.get_mut(usize::from(depth)).unwrap();
+        if u64::from(file_block) < *min_block {
+            return Err(CorruptKind::ExtentBlock(self.inode).into());
+        }
+        // OK to unwrap: `file_block` is a `u32`.
+        *min_block = u64::from(file_block).checked_add(1).unwrap();
+
         if depth == 0 {
             let ee_block = read_u32le(entry, 0);
             let ee_len = read_u16le(entry, 4);
-- 
2.43.0


From 95c8005d6debcaf99582b60795fe4055590f1931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 05/26] fix: treat missing indirect blocks as holes

---
 src/iters/file_blocks/block_map.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/iters/file_blocks/block_map.rs b/src/iters/file_blocks/block_map.rs
index c9a316b..6e84045 100644
--- a/src/iters/file_blocks/block_map.rs
+++ b/src/iters/file_blocks/block_map.rs
@@ -191,7 +191,13 @@ struct IndirectBlockIter {
 impl IndirectBlockIter {
     fn new(fs: Ext4, block_index: u32) -> Result<Self, Ext4Error> {
         let mut block = vec![0u8; fs.0.superblock.block_size.to_usize()];
-        fs.read_from_block(FsBlockIndex::from(block_index), 0, &mut block)?;
+
+        // A block index of zero indicates a hole. All the blocks that
+        // would be mapped by the indirect block are holes too, so leave
+        // the block filled with zeros.
+        if block_index != 0 {
+            fs.read_from_block(FsBlockIndex::from(block_index), 0, &mut block)?;
+        }
 
         Ok(Self {
             block,
-- 
2.43.0


From f155abccc1786a26c3ab262da8be820371eaad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 06/26] fix: handle errors from the block iterator in File

---
 src/file.rs | 51 ++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index c9e6b7c..7e8f9db 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -8,7 +8,7 @@
 
 use crate::Ext4;
 use crate::block_index::FsBlockIndex;
-use crate::error::Ext4Error;
+use crate::error::{CorruptKind, Ext4Error};
 use crate::inode::Inode;
 use crate::iters::file_blocks::FileBlocks;
 use crate::metadata::Metadata;
@@ -35,6 +35,10 @@ pub struct File {
     /// If `None`, either the next block needs to be fetched from the
     /// `file_blocks` iterator, or the end of the file has been reached.
     block_index: Option<FsBlockIndex>,
+
+    /// Set if `file_blocks` returned an error. In that case the
+    /// iterator must be recreated before the next block is fetched.
+    needs_seek: bool,
 }
 
 impl File {
@@ -65,6 +69,7 @@ impl File {
             file_blocks: FileBlocks::new(fs.clone(), &inode)?,
             inode,
             block_index: None,
+            needs_seek: false,
         })
     }
 
@@ -126,10 +131,16 @@ impl File {
         let block_index = if let Some(block_index) = self.block_index {
             block_index
         } else {
-            // OK to unwrap: already checked that the position is not at
-            // the end of the file, so there must be at least one more
-            // block to read.
-            let block_index = self.file_blocks.next().unwrap()?;
+            // If an earlier read failed, recover by moving the block
+            // iterator back to the current position.
+            if self.needs_seek {
+                self.seek_to(self.position)?;
+            }
+
+            // The position is not at the end of the file, so there must
+            // be at least one more block to read.
+            let block_index = next_block(&mut self.file_blocks)
+                .inspect_err(|_| self.needs_seek = true)?;
 
             self.block_index = Some(block_index);
 
@@ -207,22 +218,40 @@ impl File {
     /// Seeking past the end of the file is allowed.
     pub fn seek_to(&mut self, position: u64) -> Result<(), Ext4Error> {
         // Reset iteration.
-        self.file_blocks = FileBlocks::new(self.fs.clone(), &self.inode)?;
-        self.block_index = None;
+        let mut file_blocks = FileBlocks::new(self.fs.clone(), &self.inode)?;
 
         // Advance the block iterator by the number of whole blocks in
-        // `position`.
-        let num_blocks = position / self.fs.0.superblock.block_size.to_nz_u64();
-        for _ in 0..num_blocks {
-            self.file_blocks.next();
+        // `position`. This is not necessary if at or past the end of
+        // the file, because no more blocks will be read.
+        if position < self.inode.metadata.size_in_bytes {
+            let num_blocks =
+                position / self.fs.0.superblock.block_size.to_nz_u64();
+            for _ in 0..num_blocks {
+                next_block(&mut file_blocks)?;
+            }
         }
 
+        // Only modify `self` after everything that could fail, so that
+        // an error leaves the current position unchanged.
+        self.file_blocks = file_blocks;
+        self.block_index = None;
+        self.needs_seek = false;
         self.position = position;
 
         Ok(())
     }
 }
 
+/// Get the next block from the `file_blocks` iterator.
+///
+/// Returns an error if the iterator is at the end, since that means the
+/// file size is larger than the number of blocks that can be mapped.
+fn next_block(file_blocks: &mut FileBlocks) -> Result<FsBlockIndex, Ext4Error> {
+    file_blocks
+        .next()
+        .unwrap_or_else(|| Err(CorruptKind::TooManyBlocksInFile.into()))
+}
+
 impl Debug for File {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
         f.debug_struct("File")
-- 
2.43.0


From c6d5b6dfb476bdeeda0ad81f6cf8c0d80a2cec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 07/26] fix: htree node count that exceeds the block size

---
 src/dir_block.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/dir_block.rs b/src/dir_block.rs
index b7138ee..1e92099 100644
--- a/src/dir_block.rs
+++ b/src/dir_block.rs
@@ -68,7 +68,7 @@ impl DirBlock<'_> {
         let actual_checksum = if block_type == DirBlockType::Leaf {
             self.calc_leaf_checksum(block)
         } else {
-            self.calc_internal_checksum(block, block_type)
+            self.calc_internal_checksum(block, block_type)?
         };
 
         if actual_checksum.finalize() == expected_checksum {
@@ -105,7 +105,7 @@ impl DirBlock<'_> {
         &self,
         block: &[u8],
         block_type: DirBlockType,
-    ) -> Checksum {
+    ) -> Result<Checksum, Ext4Error> {
         let tail_entry_size = 8;
 
         // OK to unwrap: minimum block size is 1024.
@@ -130,12 +130,17 @@ impl DirBlock<'_> {
             .checked_add(usize::from(count).checked_mul(8).unwrap())
             .unwrap();
 
+        // The entries must not overlap the tail.
+        if num_bytes > tail_entry_offset {
+            return Err(CorruptKind::DirBlockChecksum(self.dir_inode).into());
+        }
+
         let mut checksum = self.checksum_base.clone();
         checksum.update(&block[..num_bytes]);
         checksum.update_u32_le(read_u32le(block, tail_entry_offset));
         checksum.update_u32_le(0);
 
-        checksum
+        Ok(checksum)
     }
 
     fn get_block_type(&self, block: &[u8]) -> DirBlockType {
-- 
2.43.0


From 364377ba9b9ece3f6da7961f3c8539ba3f36002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 08/26] fix: validate the block group descriptor size

---
 src/error.rs      | 6 ++++++
 src/superblock.rs | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index b5efa63..42ac281 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -218,6 +218,9 @@ pub(crate) enum CorruptKind {
         u32,
     ),
 
+    /// Invalid block group descriptor size.
+    BlockGroupDescriptorSize,
+
     /// Invalid block group descriptor.
     BlockGroupDescriptor(
         /// Block group number.
@@ -403,6 +406,9 @@ impl Display for CorruptKind {
             Self::FirstDataBlock(block) => {
                 write!(f, "invalid first data block: {block}")
             }
+            Self::BlockGroupDescriptorSize => {
+                write!(f, "invalid block group descriptor size")
+            }
             Self::BlockGroupDescriptor(block_group_num) => {
                 write!(f, "block group descriptor {block_group_num} is invalid")
             }
diff --git a/src/superblock.rs b/src/superblock.rs
index da99256..aaec96b 100644
--- a/src/superblock.rs
+++ b/src/superblock.rs
@@ -113,6 +113,9 @@ impl Superblock {
 
         let block_group_descriptor_size =
             if incompatible_features.contains(IncompatibleFeatures::IS_64BIT) {
+                if s_desc_size < 64 {
+                    return Err(CorruptKind::BlockGroupDescriptorSize.into());
+                }
                 s_desc_size
             } else {
                 32
-- 
2.43.0


From b4f7a235d587429a2457c9d04b2e002c6885da85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:17 +0000
Subject: [PATCH 09/26] fix: don't preallocate the list of block groups

---
 src/block_group.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/block_group.rs b/src/block_group.rs
index 47be0a7..3f417d4 100644
--- a/src/block_group.rs
+++ b/src/block_group.rs
@@ -12,7 +12,7 @@ use crate::checksum::Checksum;
 use crate::error::{CorruptKind, Ext4Error};
 use crate::features::{IncompatibleFeatures, ReadOnlyCompatibleFeatures};
 use crate::superblock::Superblock;
-use crate::util::{read_u16le, read_u32le, u64_from_hilo, usize_from_u32};
+use crate::util::{read_u16le, read_u32le, u64_from_hilo};
 use alloc::vec;
 use alloc::vec::Vec;
 
@@ -130,8 +130,10 @@ impl BlockGroupDescriptor {
         sb: &Superblock,
         reader: &mut dyn Ext4Read,
     ) -> Result<Vec<Self>, Ext4Error> {
-        let mut block_group_descriptors =
-            Vec::with_capacity(usize_from_u32(sb.num_block_groups));
+        // Don't allocate capacity for `num_block_groups` up front, since
+        // that value has not been validated against the actual size of
+        // the filesystem.
+        let mut block_group_descriptors = Vec::new();
 
         for bgd_index in 0..sb.num_block_groups {
             let bgd = Self::read(sb, reader, bgd_index)?;
-- 
2.43.0


From 8781445c65ee9c56c61ecfdec19b87e55f9dafeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 10/26] fix: reject block sizes larger than 64KiB

---
 src/superblock.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/superblock.rs b/src/superblock.rs
index aaec96b..bf82b68 100644
--- a/src/superblock.rs
+++ b/src/superblock.rs
@@ -79,6 +79,10 @@ impl Superblock {
 
         let block_size = BlockSize::from_superblock_value(s_log_block_size)
             .ok_or(CorruptKind::InvalidBlockSize)?;
+        // The maximum block size is 64KiB.
+        if block_size.to_u32() > 65536 {
+            return Err(CorruptKind::InvalidBlockSize.into());
+        }
 
         if s_magic != 0xef53 {
             return Err(CorruptKind::SuperblockMagic.into());
-- 
2.43.0


From 12eccddba2c7b367471eaf3131f3714da95d955a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 11/26] fix: panic when resolving paths with over 1000
 components

---
 src/resolve.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 4ae6d68..651e985 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -55,8 +55,8 @@ pub(crate) enum FollowSymlinks {
 ///
 /// # Panics
 ///
-/// This function panics if path resolution takes over 1000
-/// iterations. This should never occur in practice due to other
+/// This function panics if path resolution takes more than
+/// `MAX_ITERATIONS` iterations. This should never occur due to other
 /// restrictions, this is just a hedge against unforeseen bugs.
 pub(crate) fn resolve_path(
     fs: &Ext4,
@@ -70,10 +70,12 @@ pub(crate) fn resolve_path(
     // enforce a path length limit, but during path resolution the
     // length can grow quite a bit due to symlinks.
     const MAX_PATH_LEN: usize = 4096;
-    // Maximum number of iterations. This limit should never be reached
-    // in practice, this is just to guard against unknown bugs that
-    // could cause an infinite loop.
-    const MAX_ITERATIONS: usize = 1000;
+    // Maximum number of iterations. Each iteration either resolves at
+    // least one byte of the path, or follows a symlink (after which the
+    // path is at most `MAX_PATH_LEN` bytes). So this limit should never
+    // be reached, this is just to guard against unknown bugs that could
+    // cause an infinite loop.
+    const MAX_ITERATIONS: usize = (MAX_SYMLINKS + 1) * MAX_PATH_LEN;
 
     if !path.is_absolute() {
         return Err(Ext4Error::NotAbsolute);
-- 
2.43.0


From 8c36034043658863574885e70fcf3ddd19101887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:16 +0000
Subject: [PATCH 12/26] fix: apply journal revocations to earlier transactions

---
 src/journal/block_map.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index 95ca2a3..dd61184 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -81,7 +81,8 @@ struct BlockMapLoader<'a> {
     /// Revoked blocks in the current transaction. When a commit block
     /// is reached, any keys in `uncommitted_block_map` that are in this
     /// revoked list will be deleted instead of committing them to
-    /// `block_map`.
+    /// `block_map`. Entries from earlier transactions are deleted from
+    /// `block_map` as well.
     revoked_blocks: Vec<FsBlockIndex>,
 
     /// Iterator over blocks in the journal inode. At construction, the
@@ -230,11 +231,13 @@ impl<'a> BlockMapLoader<'a> {
     fn process_commit_block(&mut self) -> Result<(), Ext4Error> {
         validate_commit_block_checksum(self.superblock, &self.block)?;
 
-        // Remove any revoked blocks from uncommitted blocks.
+        // Remove any revoked blocks, both from uncommitted blocks and
+        // from blocks committed by earlier transactions.
         for block_index in &self.revoked_blocks {
-            // Don't check the `remove` return value, as a revoked block
-            // wasn't necessarily reused later in the transaction.
+            // Don't check the `remove` return values, as a revoked block
+            // wasn't necessarily written by any of these transactions.
             self.uncommitted_block_map.remove(block_index);
+            self.block_map.remove(block_index);
         }
         self.revoked_blocks.clear();
 
-- 
2.43.0


From 7b86adcec70108bf8c392c8c7786836295e3e744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 13/26] fix: allow the journal sequence number to wrap around

---
 src/error.rs             | 6 ------
 src/journal/block_map.rs | 6 ++----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 42ac281..8519fae 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -266,9 +266,6 @@ pub(crate) enum CorruptKind {
     /// Journal revocation block has an invalid table size.
     JournalRevocationBlockInvalidTableSize(usize),
 
-    /// Journal sequence number overflowed.
-    JournalSequenceOverflow,
-
     /// Journal has a truncated descriptor block. Either it is missing a
     /// tag with the `LAST_TAG` flag set, or the final tag does have
     /// that flag set but there are not enough bytes to read the full
@@ -454,9 +451,6 @@ impl Display for CorruptKind {
                     "journal revocation block table size is invalid: {size}"
                 )
             }
-            Self::JournalSequenceOverflow => {
-                write!(f, "journal sequence number overflowed")
-            }
             Self::JournalDescriptorBlockTruncated => {
                 write!(f, "journal descriptor block is truncated")
             }
diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index dd61184..ae23f6c 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -245,10 +245,8 @@ impl<'a> BlockMapLoader<'a> {
         self.block_map.extend(self.uncommitted_block_map.iter());
         self.uncommitted_block_map.clear();
 
-        self.sequence = self
-            .sequence
-            .checked_add(1)
-            .ok_or(CorruptKind::JournalSequenceOverflow)?;
+        // The sequence number wraps around on overflow.
+        self.sequence = self.sequence.wrapping_add(1);
 
         Ok(())
     }
-- 
2.43.0


From b4a003e70c156df9df5da13fa44ae8627d8f28b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 14/26] fix: handle journal logs that wrap around

---
 src/journal/block_map.rs  | 113 ++++++++++++++++++++++++++++++++++----
 src/journal/superblock.rs |  65 ++++++++++++++++++----
 2 files changed, 155 insertions(+), 23 deletions(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index ae23f6c..f6acccb 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -20,12 +20,11 @@ use crate::journal::descriptor_block::{
 use crate::journal::revocation_block::{
     read_revocation_block_table, validate_revocation_block_checksum,
 };
-use crate::journal::superblock::JournalSuperblock;
-use crate::util::usize_from_u32;
+use crate::journal::superblock::{JournalSuperblock, load_log_range};
 use alloc::collections::BTreeMap;
 use alloc::vec;
 use alloc::vec::Vec;
-use core::iter::Skip;
+use core::ops::Range;
 
 /// Map from a block somewhere in the filesystem to a block in the
 /// journal. Both the key and value are absolute block indices.
@@ -37,6 +36,11 @@ pub(super) fn load_block_map(
     superblock: &JournalSuperblock,
     journal_inode: &Inode,
 ) -> Result<BlockMap, Ext4Error> {
+    // A start block of zero indicates that the log is empty.
+    if superblock.start_block == 0 {
+        return Ok(BlockMap::new());
+    }
+
     let mut loader = BlockMapLoader::new(fs, superblock, journal_inode)?;
 
     while let Some(block_index) = loader.journal_block_iter.next() {
@@ -65,6 +69,94 @@ pub(super) fn load_block_map(
 /// Private struct to help create a `BlockMap` from the journal. This is
 /// essentially an iterator, although it does not implement the actual
 /// iterator trait.
+/// Iterator over the absolute block indices of the journal's log.
+///
+/// The log is circular. Iteration starts at the journal superblock's
+/// start block, continues from the beginning of the log when the end of
+/// the log is reached, and ends when each block has been visited once.
+struct LogBlockIter<'a> {
+    fs: &'a Ext4,
+    journal_inode: &'a Inode,
+
+    /// Range of blocks within the journal inode that make up the log.
+    range: Range<u32>,
+
+    /// Iterator over blocks in the journal inode.
+    file_blocks: FileBlocks,
+
+    /// Index within the journal inode of the next block in `file_blocks`.
+    next_index: u32,
+
+    /// Number of blocks that have not yet been visited.
+    num_remaining: u32,
+}
+
+impl<'a> LogBlockIter<'a> {
+    fn new(
+        fs: &'a Ext4,
+        superblock: &JournalSuperblock,
+        journal_inode: &'a Inode,
+    ) -> Result<Self, Ext4Error> {
+        let range = load_log_range(fs, journal_inode)?;
+
+        if !range.contains(&superblock.start_block) {
+            return Err(CorruptKind::JournalSize.into());
+        }
+
+        let mut iter = Self {
+            fs,
+            journal_inode,
+            file_blocks: FileBlocks::new(fs.clone(), journal_inode)?,
+            next_index: 0,
+            // OK to unwrap: the range is not empty.
+            num_remaining: range.end.checked_sub(range.start).unwrap(),
+            range,
+        };
+        iter.skip_to(superblock.start_block)?;
+        Ok(iter)
+    }
+
+    /// Skip forward until the next block is at `index`.
+    fn skip_to(&mut self, index: u32) -> Result<(), Ext4Error> {
+        while self.next_index < index {
+            self.next_file_block()?;
+        }
+        Ok(())
+    }
+
+    /// Get the next block of the journal inode.
+    fn next_file_block(&mut self) -> Result<FsBlockIndex, Ext4Error> {
+        let block_index = self
+            .file_blocks
+            .next()
+            .ok_or(CorruptKind::JournalTruncated)??;
+        // OK to unwrap: there are at most `2^32` blocks in a file.
+        self.next_index = self.next_index.checked_add(1).unwrap();
+        Ok(block_index)
+    }
+
+    fn next_impl(&mut self) -> Result<FsBlockIndex, Ext4Error> {
+        if self.next_index == self.range.end {
+            // Wrap around to the beginning of the log.
+            self.file_blocks =
+                FileBlocks::new(self.fs.clone(), self.journal_inode)?;
+            self.next_index = 0;
+            self.skip_to(self.range.start)?;
+        }
+
+        self.next_file_block()
+    }
+}
+
+impl Iterator for LogBlockIter<'_> {
+    type Item = Result<FsBlockIndex, Ext4Error>;
+
+    fn next(&mut self) -> Option<Self::Item> {
+        self.num_remaining = self.num_remaining.checked_sub(1)?;
+        Some(self.next_impl())
+    }
+}
+
 struct BlockMapLoader<'a> {
     fs: &'a Ext4,
     superblock: &'a JournalSuperblock,
@@ -85,9 +177,9 @@ struct BlockMapLoader<'a> {
     /// `block_map` as well.
     revoked_blocks: Vec<FsBlockIndex>,
 
-    /// Iterator over blocks in the journal inode. At construction, the
-    /// iterator is advanced to the journal start block.
-    journal_block_iter: Skip<FileBlocks>,
+    /// Iterator over blocks in the log. At construction, the iterator is
+    /// advanced to the journal start block.
+    journal_block_iter: LogBlockIter<'a>,
 
     /// Current block index.
     block_index: FsBlockIndex,
@@ -118,14 +210,11 @@ impl<'a> BlockMapLoader<'a> {
     fn new(
         fs: &'a Ext4,
         superblock: &'a JournalSuperblock,
-        journal_inode: &Inode,
+        journal_inode: &'a Inode,
     ) -> Result<Self, Ext4Error> {
-        // Get an iterator over the journal's block indices.
-        let journal_block_iter = FileBlocks::new(fs.clone(), journal_inode)?;
-
-        // Skip forward to the start block.
+        // Get an iterator over the log's block indices.
         let journal_block_iter =
-            journal_block_iter.skip(usize_from_u32(superblock.start_block));
+            LogBlockIter::new(fs, superblock, journal_inode)?;
 
         Ok(Self {
             fs,
diff --git a/src/journal/superblock.rs b/src/journal/superblock.rs
index 9037e63..c84305e 100644
--- a/src/journal/superblock.rs
+++ b/src/journal/superblock.rs
@@ -15,7 +15,9 @@ use crate::journal::block_header::{JournalBlockHeader, JournalBlockType};
 use crate::util::read_u32be;
 use crate::uuid::Uuid;
 use alloc::vec;
+use alloc::vec::Vec;
 use bitflags::bitflags;
+use core::ops::Range;
 
 /// Size in bytes of the journal superblock. (Note that the underlying
 /// block size may be larger, but only the first 1024 bytes are used.)
@@ -25,6 +27,8 @@ const CHECKSUM_TYPE_CRC32C: u8 = 4;
 
 // Field offsets within the superblock.
 const SUPERBLOCK_BLOCKSIZE_OFFSET: usize = 0xc;
+const SUPERBLOCK_MAXLEN_OFFSET: usize = 0x10;
+const SUPERBLOCK_FIRST_OFFSET: usize = 0x14;
 const SUPERBLOCK_SEQUENCE_OFFSET: usize = 0x18;
 const SUPERBLOCK_START_OFFSET: usize = 0x1c;
 const SUPERBLOCK_FEATURE_INCOMPAT_OFFSET: usize = 0x28;
@@ -69,17 +73,7 @@ impl JournalSuperblock {
         fs: &Ext4,
         journal_inode: &Inode,
     ) -> Result<Self, Ext4Error> {
-        // Get an iterator over the journal's block indices.
-        let mut journal_block_iter =
-            FileBlocks::new(fs.clone(), journal_inode)?;
-
-        // Read the first 1024 bytes of the first block. This is the
-        // journal's superblock.
-        let block_index = journal_block_iter
-            .next()
-            .ok_or(CorruptKind::JournalSize)??;
-        let mut block = vec![0; SUPERBLOCK_SIZE];
-        fs.read_from_block(block_index, 0, &mut block)?;
+        let block = read_superblock_data(fs, journal_inode)?;
 
         let superblock = Self::read_bytes(&block)?;
 
@@ -154,6 +148,55 @@ impl JournalSuperblock {
     }
 }
 
+/// Read the raw data of the journal's superblock.
+fn read_superblock_data(
+    fs: &Ext4,
+    journal_inode: &Inode,
+) -> Result<Vec<u8>, Ext4Error> {
+    // Get an iterator over the journal's block indices.
+    let mut journal_block_iter = FileBlocks::new(fs.clone(), journal_inode)?;
+
+    // Read the first 1024 bytes of the first block. This is the
+    // journal's superblock.
+    let block_index = journal_block_iter
+        .next()
+        .ok_or(CorruptKind::JournalSize)??;
+    let mut block = vec![0; SUPERBLOCK_SIZE];
+    fs.read_from_block(block_index, 0, &mut block)?;
+
+    Ok(block)
+}
+
+/// Load the range of journal blocks that make up the log. The range is
+/// relative to the journal superblock.
+///
+/// The log is circular; when the end of this range is reached, the log
+/// continues at the start of the range.
+///
+/// This must only be called after `JournalSuperblock::load` has
+/// validated the superblock. An error is returned if the range is
+/// invalid.
+pub(super) fn load_log_range(
+    fs: &Ext4,
+    journal_inode: &Inode,
+) -> Result<Range<u32>, Ext4Error> {
+    let block = read_superblock_data(fs, journal_inode)?;
+
+    let s_maxlen = read_u32be(&block, SUPERBLOCK_MAXLEN_OFFSET);
+    let s_first = read_u32be(&block, SUPERBLOCK_FIRST_OFFSET);
+
+    // The first block of the journal is the superblock, so it can't be
+    // part of the log.
+    if s_first == 0
+        || s_first >= s_maxlen
+        || s_maxlen > journal_inode.file_size_in_blocks()
+    {
+        return Err(CorruptKind::JournalSize.into());
+    }
+
+    Ok(s_first..s_maxlen)
+}
+
 bitflags! {
     #[derive(Clone, Copy, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
     pub(crate) struct JournalIncompatibleFeatures: u32 {
-- 
2.43.0


From 44226ae38188bca7fd1d3575ecd37c295c47f740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:30 +0000
Subject: [PATCH 15/26] fix: bound the memory used by journal revocations

---
 src/journal/block_map.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index f6acccb..2a0c775 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -21,7 +21,7 @@ use crate::journal::revocation_block::{
     read_revocation_block_table, validate_revocation_block_checksum,
 };
 use crate::journal::superblock::{JournalSuperblock, load_log_range};
-use alloc::collections::BTreeMap;
+use alloc::collections::{BTreeMap, BTreeSet};
 use alloc::vec;
 use alloc::vec::Vec;
 use core::ops::Range;
@@ -175,7 +175,9 @@ struct BlockMapLoader<'a> {
     /// revoked list will be deleted instead of committing them to
     /// `block_map`. Entries from earlier transactions are deleted from
     /// `block_map` as well.
-    revoked_blocks: Vec<FsBlockIndex>,
+    ///
+    /// This is a set so that repeated entries don't use more memory.
+    revoked_blocks: BTreeSet<FsBlockIndex>,
 
     /// Iterator over blocks in the log. At construction, the iterator is
     /// advanced to the journal start block.
@@ -221,7 +223,7 @@ impl<'a> BlockMapLoader<'a> {
             superblock,
             block_map: BlockMap::new(),
             uncommitted_block_map: BlockMap::new(),
-            revoked_blocks: Vec::new(),
+            revoked_blocks: BTreeSet::new(),
             journal_block_iter,
             block_index: 0,
             block: vec![0; fs.0.superblock.block_size.to_usize()],
@@ -308,7 +310,12 @@ impl<'a> BlockMapLoader<'a> {
 
     fn process_revocation_block(&mut self) -> Result<(), Ext4Error> {
         validate_revocation_block_checksum(self.superblock, &self.block)?;
-        read_revocation_block_table(&self.block, &mut self.revoked_blocks)
+
+        let mut table = Vec::new();
+        read_revocation_block_table(&self.block, &mut table)?;
+        self.revoked_blocks.extend(table);
+
+        Ok(())
     }
 
     /// Process a commit block.
-- 
2.43.0


From f81a68812efa2270620181cc74e0d7d4a167a693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 16/26] fix: don't ignore errors when looking up an htree block

---
 src/dir_htree.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/dir_htree.rs b/src/dir_htree.rs
index 8b1457c..718d1ba 100644
--- a/src/dir_htree.rs
+++ b/src/dir_htree.rs
@@ -17,7 +17,7 @@ use crate::inode::{Inode, InodeFlags, InodeIndex};
 use crate::iters::extents::Extents;
 use crate::iters::file_blocks::FileBlocks;
 use crate::path::PathBuf;
-use crate::util::{read_u16le, read_u32le, usize_from_u32};
+use crate::util::{read_u16le, read_u32le};
 use alloc::rc::Rc;
 use alloc::vec;
 
@@ -279,9 +279,14 @@ fn block_from_file_block(
         Ok(absolute_block)
     } else {
         let mut block_map = FileBlocks::new(fs.clone(), inode)?;
-        block_map
-            .nth(usize_from_u32(relative_block))
-            .ok_or(CorruptKind::DirEntry(inode.index))?
+        // Don't use `Iterator::nth` here, because it would ignore errors
+        // in the skipped blocks.
+        for _ in 0..relative_block {
+            block_map
+                .next()
+                .ok_or(CorruptKind::DirEntry(inode.index))??;
+        }
+        block_map.next().ok_or(CorruptKind::DirEntry(inode.index))?
     }
 }
 
-- 
2.43.0


From 9fc650820a0bf3586d1f71972648142edea6bb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 17/26] fix: support unsigned characters in directory hashes

---
 src/dir_entry_hash.rs | 44 +++++++++++++++++++++++++++++++++++++------
 src/dir_htree.rs      |  7 ++++++-
 src/lib.rs            |  5 +++++
 src/superblock.rs     | 15 +++++++++++++++
 4 files changed, 64 insertions(+), 7 deletions(-)

diff --git a/src/dir_entry_hash.rs b/src/dir_entry_hash.rs
index 96710f5..2707690 100644
--- a/src/dir_entry_hash.rs
+++ b/src/dir_entry_hash.rs
@@ -67,10 +67,29 @@ impl HashAlg {
     /// The `seed` value comes from the `s_hash_seed` field of the
     /// superblock. If the `seed` is all zeroes, it's replaced with a
     /// standard default seed.
-    pub(crate) fn hash(
+    ///
+    /// The characters of `name` are treated as signed.
+    pub(crate) fn hash(&self, name: DirEntryName<'_>, seed: &[u32; 4]) -> u32 {
+        self.hash_impl(name, seed, sign_extend_byte_to_u32)
+    }
+
+    /// Same as [`hash`], but the characters of `name` are treated as
+    /// unsigned.
+    ///
+    /// [`hash`]: Self::hash
+    pub(crate) fn hash_unsigned(
+        &self,
+        name: DirEntryName<'_>,
+        seed: &[u32; 4],
+    ) -> u32 {
+        self.hash_impl(name, seed, u32::from)
+    }
+
+    fn hash_impl(
         &self,
         name: DirEntryName<'_>,
         mut seed: &[u32; 4],
+        extend: fn(u8) -> u32,
     ) -> u32 {
         // Replace all-zero seed with a standard default seed.
         if seed == &[0; 4] {
@@ -90,7 +109,7 @@ impl HashAlg {
                 for chunk in
                     name.as_ref().chunks(mem::size_of::<HashBlock<8>>())
                 {
-                    let inp = create_hash_block(chunk);
+                    let inp = create_hash_block_with(chunk, extend);
                     md4_half(&mut state, &inp);
                 }
 
@@ -101,7 +120,7 @@ impl HashAlg {
                 for chunk in
                     name.as_ref().chunks(mem::size_of::<HashBlock<4>>())
                 {
-                    let inp = create_hash_block(chunk);
+                    let inp = create_hash_block_with(chunk, extend);
                     tea(&mut state, &inp);
                 }
 
@@ -213,8 +232,21 @@ fn sign_extend_byte_to_u32(byte: u8) -> u32 {
     sbyte as u32
 }
 
+/// Create the 32-byte block of data that will be hashed, using signed
+/// characters.
+#[cfg(test)]
+fn create_hash_block<const N: usize>(src: &[u8]) -> HashBlock<N> {
+    create_hash_block_with(src, sign_extend_byte_to_u32)
+}
+
 /// Create the 32-byte block of data that will be hashed.
-fn create_hash_block<const N: usize>(mut src: &[u8]) -> HashBlock<N> {
+///
+/// `extend` converts each byte of `src` to a `u32`, either with or
+/// without sign extension.
+fn create_hash_block_with<const N: usize>(
+    mut src: &[u8],
+    extend: fn(u8) -> u32,
+) -> HashBlock<N> {
     let mut dst = [Wu32::default(); N];
 
     // Get padding value. If `src` is smaller than the block size (4 * N
@@ -228,8 +260,8 @@ fn create_hash_block<const N: usize>(mut src: &[u8]) -> HashBlock<N> {
         // Process up to four bytes of `src`.
         for _ in 0..4 {
             if let Some(src_byte) = src.first() {
-                // Sign extend the byte into a `u32`.
-                let src_u32 = sign_extend_byte_to_u32(*src_byte);
+                // Extend the byte into a `u32`.
+                let src_u32 = extend(*src_byte);
                 elem = src_u32.wrapping_add(elem << 8);
 
                 src = &src[1..];
diff --git a/src/dir_htree.rs b/src/dir_htree.rs
index 718d1ba..8e1152f 100644
--- a/src/dir_htree.rs
+++ b/src/dir_htree.rs
@@ -312,7 +312,12 @@ fn find_leaf_node(
     // Get the node structure from the root block.
     let root_node = InternalNode::from_root_block(block, inode.index)?;
 
-    let hash = hash_alg.hash(name, &fs.0.superblock.htree_hash_seed);
+    let seed = &fs.0.superblock.htree_hash_seed;
+    let hash = if fs.0.has_unsigned_htree_hash {
+        hash_alg.hash_unsigned(name, seed)
+    } else {
+        hash_alg.hash(name, seed)
+    };
     let mut child_block_relative = root_node
         .lookup_block_by_hash(hash)
         .ok_or(CorruptKind::DirEntry(inode.index))?;
diff --git a/src/lib.rs b/src/lib.rs
index 7f8aceb..b849bb4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -171,6 +171,10 @@ pub use uuid::Uuid;
 
 struct Ext4Inner {
     superblock: Superblock,
+
+    /// Whether directory htree hashes treat characters as unsigned.
+    has_unsigned_htree_hash: bool,
+
     block_group_descriptors: Vec<BlockGroupDescriptor>,
     journal: Journal,
     block_cache: RefCell<BlockCache>,
@@ -221,6 +225,7 @@ impl Ext4 {
             )?,
             reader: RefCell::new(reader),
             superblock,
+            has_unsigned_htree_hash: Superblock::has_unsigned_htree_hash(&data),
             // Initialize with an empty journal, because loading the
             // journal requires a valid `Ext4` object.
             journal: Journal::empty(),
diff --git a/src/superblock.rs b/src/superblock.rs
index bf82b68..d161860 100644
--- a/src/superblock.rs
+++ b/src/superblock.rs
@@ -39,6 +39,21 @@ impl Superblock {
     /// Size (in bytes) of the superblock on disk.
     pub(crate) const SIZE_IN_BYTES_ON_DISK: usize = 1024;
 
+    /// Check whether directory htree hashes treat characters as unsigned,
+    /// using the raw `bytes` of the superblock.
+    ///
+    /// # Panics
+    ///
+    /// Panics if the length of `bytes` is less than
+    /// [`Self::SIZE_IN_BYTES_ON_DISK`].
+    pub(crate) fn has_unsigned_htree_hash(bytes: &[u8]) -> bool {
+        const UNSIGNED_DIRECTORY_HASH: u32 = 0x2;
+
+        let s_flags = read_u32le(bytes, 0x160);
+
+        s_flags & UNSIGNED_DIRECTORY_HASH != 0
+    }
+
     /// Construct `Superblock` from bytes.
     ///
     /// # Panics
-- 
2.43.0


From d490181b61c9311cbf74a92a161f1145e6788474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 18/26] fix: look up names with colliding hashes in all leaf
 nodes

---
 src/dir_htree.rs | 277 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 199 insertions(+), 78 deletions(-)

diff --git a/src/dir_htree.rs b/src/dir_htree.rs
index 8e1152f..347e287 100644
--- a/src/dir_htree.rs
+++ b/src/dir_htree.rs
@@ -20,6 +20,7 @@ use crate::path::PathBuf;
 use crate::util::{read_u16le, read_u32le};
 use alloc::rc::Rc;
 use alloc::vec;
+use alloc::vec::Vec;
 
 type DirHash = u32;
 
@@ -154,10 +155,18 @@ impl<'a> InternalNode<'a> {
 
     /// Perform a binary search to find the child block index for the
     /// `lookup_hash`.
+    #[cfg(test)]
     fn lookup_block_by_hash(
         &self,
         lookup_hash: DirHash,
     ) -> Option<FileBlockIndex> {
+        let index = self.lookup_index_by_hash(lookup_hash)?;
+        Some(self.get_entry(index).1)
+    }
+
+    /// Perform a binary search to find the index of the entry for the
+    /// `lookup_hash`.
+    fn lookup_index_by_hash(&self, lookup_hash: DirHash) -> Option<usize> {
         // Left/right entry index.
         let mut left = 0;
         let mut right = self.num_entries().checked_sub(1)?;
@@ -172,8 +181,7 @@ impl<'a> InternalNode<'a> {
             }
         }
 
-        let index = left.checked_sub(1)?;
-        Some(self.get_entry(index).1)
+        left.checked_sub(1)
     }
 }
 
@@ -290,69 +298,175 @@ fn block_from_file_block(
     }
 }
 
-/// Traverse the htree to find the leaf node that might contain `name`.
+/// Position within an internal node of an htree.
+struct InternalNodePosition {
+    /// Raw entry data of the node, see [`InternalNode`].
+    entries: Vec<u8>,
+
+    /// Index of the current entry.
+    index: usize,
+}
+
+impl InternalNodePosition {
+    /// Create an `InternalNodePosition` at the entry for `hash`.
+    fn new(
+        node: &InternalNode<'_>,
+        hash: DirHash,
+        inode: InodeIndex,
+    ) -> Result<Self, Ext4Error> {
+        Ok(Self {
+            index: node
+                .lookup_index_by_hash(hash)
+                .ok_or(CorruptKind::DirEntry(inode))?,
+            entries: node.entries.to_vec(),
+        })
+    }
+
+    /// Get the `(hash, block)` of the current entry, or `None` if past
+    /// the last entry.
+    fn current(&self) -> Option<(DirHash, FileBlockIndex)> {
+        let node = InternalNode {
+            entries: &self.entries,
+        };
+        if self.index < node.num_entries() {
+            Some(node.get_entry(self.index))
+        } else {
+            None
+        }
+    }
+}
+
+/// Finds the htree leaf nodes that might contain a name.
 ///
-/// On success, `block` will contain the leaf node's directory block
-/// data.
-fn find_leaf_node(
-    fs: &Ext4,
-    inode: &Inode,
-    name: DirEntryName<'_>,
-    block: &mut [u8],
-) -> Result<(), Ext4Error> {
-    // Read the htree's hash type from the root block.
-    let hash_alg = HashAlg::from_u8(block[0x1c])?;
+/// Usually there is only one such leaf node, but if multiple names have
+/// the same hash, they may be spread across consecutive leaf nodes.
+struct LeafNodes<'a> {
+    fs: &'a Ext4,
+    inode: &'a Inode,
+
+    /// Hash of the name.
+    hash: DirHash,
+
+    /// The htree's depth. The depth is the number of levels in the tree
+    /// excluding the root and leaf levels. So for example, a depth of
+    /// one means there is a root node, one level of internal nodes, and
+    /// one level of leaf nodes.
+    depth: usize,
+
+    /// Position at each level of the tree, starting with the root node.
+    positions: Vec<InternalNodePosition>,
+
+    /// Number of leaf nodes that can still be read. There cannot be
+    /// more leaf nodes than there are blocks in the directory.
+    num_remaining: u32,
+}
 
-    // Read the htree's depth from the root block. The depth is the
-    // number of levels in the tree excluding the root and leaf
-    // levels. So for example, a depth of one means there is a root
-    // node, one level of internal nodes, and one level of leaf nodes.
-    let depth = block[0x1e];
+impl<'a> LeafNodes<'a> {
+    /// Create a `LeafNodes` for `name`. `block` must contain the root
+    /// block.
+    fn new(
+        fs: &'a Ext4,
+        inode: &'a Inode,
+        name: DirEntryName<'_>,
+        block: &[u8],
+    ) -> Result<Self, Ext4Error> {
+        // Read the htree's hash type from the root block.
+        let hash_alg = HashAlg::from_u8(block[0x1c])?;
 
-    // Get the node structure from the root block.
-    let root_node = InternalNode::from_root_block(block, inode.index)?;
+        // Read the htree's depth from the root block.
+        let depth = block[0x1e];
 
-    let seed = &fs.0.superblock.htree_hash_seed;
-    let hash = if fs.0.has_unsigned_htree_hash {
-        hash_alg.hash_unsigned(name, seed)
-    } else {
-        hash_alg.hash(name, seed)
-    };
-    let mut child_block_relative = root_node
-        .lookup_block_by_hash(hash)
-        .ok_or(CorruptKind::DirEntry(inode.index))?;
-
-    // Descend through the tree one level at a time. The first iteration
-    // of the loop goes from the root node to a child. The last
-    // iteration (which may also be the first iteration) will read the
-    // leaf node data into `block`.
-    for level in 0..=depth {
-        // Get the absolute block index and read the block's data.
-        let block_index =
-            block_from_file_block(fs, inode, child_block_relative)?;
-        let dir_block = DirBlock {
-            fs,
-            dir_inode: inode.index,
-            block_index,
-            is_first: false,
-            has_htree: true,
-            checksum_base: inode.checksum_base.clone(),
+        // Get the node structure from the root block.
+        let root_node = InternalNode::from_root_block(block, inode.index)?;
+
+        let seed = &fs.0.superblock.htree_hash_seed;
+        let hash = if fs.0.has_unsigned_htree_hash {
+            hash_alg.hash_unsigned(name, seed)
+        } else {
+            hash_alg.hash(name, seed)
         };
-        dir_block.read(block)?;
-
-        // If the block is an internal node, find the next child
-        // block. Otherwise, we've reached a leaf node and there's
-        // nothing more to do.
-        if level != depth {
-            let inner_node =
-                InternalNode::from_non_root_block(block, inode.index)?;
-            child_block_relative = inner_node
-                .lookup_block_by_hash(hash)
-                .ok_or(CorruptKind::DirEntry(inode.index))?;
+
+        let position =
+            InternalNodePosition::new(&root_node, hash, inode.index)?;
+
+        Ok(Self {
+            fs,
+            inode,
+            hash,
+            depth: usize::from(depth),
+            positions: vec![position],
+            num_remaining: inode.file_size_in_blocks(),
+        })
+    }
+
+    /// Descend from the current position to a leaf node, and read the
+    /// leaf node's directory block data into `block`.
+    fn read_leaf(&mut self, block: &mut [u8]) -> Result<(), Ext4Error> {
+        let corrupt = || CorruptKind::DirEntry(self.inode.index);
+
+        // This also guards against malformed trees in which the same
+        // nodes are used more than once.
+        self.num_remaining =
+            self.num_remaining.checked_sub(1).ok_or_else(corrupt)?;
+
+        loop {
+            let (_, child_block_relative) = self
+                .positions
+                .last()
+                .and_then(|pos| pos.current())
+                .ok_or_else(corrupt)?;
+
+            // Get the absolute block index and read the block's data.
+            let block_index = block_from_file_block(
+                self.fs,
+                self.inode,
+                child_block_relative,
+            )?;
+            let dir_block = DirBlock {
+                fs: self.fs,
+                dir_inode: self.inode.index,
+                block_index,
+                is_first: false,
+                has_htree: true,
+                checksum_base: self.inode.checksum_base.clone(),
+            };
+            dir_block.read(block)?;
+
+            // If the block is an internal node, find the next child
+            // block. Otherwise, we've reached a leaf node and there's
+            // nothing more to do.
+            if self.positions.len() > self.depth {
+                return Ok(());
+            }
+            let node =
+                InternalNode::from_non_root_block(block, self.inode.index)?;
+            self.positions.push(InternalNodePosition::new(
+                &node,
+                self.hash,
+                self.inode.index,
+            )?);
         }
     }
 
-    Ok(())
+    /// Move to the leaf node after the current one.
+    ///
+    /// Returns true if that leaf node is a continuation of the current
+    /// one, i.e. it might also contain the name. Otherwise returns
+    /// false.
+    fn advance(&mut self) -> bool {
+        while let Some(pos) = self.positions.last_mut() {
+            // OK to unwrap: `index` is at most 2^16-1.
+            pos.index = pos.index.checked_add(1).unwrap();
+            if let Some((hash, _)) = pos.current() {
+                // The lowest bit indicates a continuation, it's not part
+                // of the hash.
+                return hash & !1 == self.hash;
+            }
+            // Reached the end of this node, move up a level.
+            self.positions.pop();
+        }
+        false
+    }
 }
 
 /// Find a directory entry via a directory htree. The htree is a tree of
@@ -383,32 +497,39 @@ pub(crate) fn get_dir_entry_via_htree(
         return Ok(entry);
     }
 
-    // Find the leaf node that might contain the entry. This will update
-    // `block` to contain the leaf node's block data.
-    find_leaf_node(fs, inode, name, &mut block)?;
-
     // The entry's `path()` method will not be called, so the value of
     // the base path does not matter.
     let path = Rc::new(PathBuf::empty());
 
-    // Do a linear search through the leaf block for the right entry.
-    let mut offset_within_block = 0;
-    while offset_within_block < block.len() {
-        let (dir_entry, entry_size) = DirEntry::from_bytes(
-            fs.clone(),
-            &block[offset_within_block..],
-            inode.index,
-            path.clone(),
-        )?;
-        offset_within_block = offset_within_block
-            .checked_add(entry_size.get())
-            .ok_or(CorruptKind::DirEntry(inode.index))?;
-        let Some(dir_entry) = dir_entry else {
-            continue;
-        };
+    let mut leaf_nodes = LeafNodes::new(fs, inode, name, &block)?;
+    loop {
+        // Read a leaf node that might contain the entry. This will
+        // update `block` to contain the leaf node's block data.
+        leaf_nodes.read_leaf(&mut block)?;
+
+        // Do a linear search through the leaf block for the right entry.
+        let mut offset_within_block = 0;
+        while offset_within_block < block.len() {
+            let (dir_entry, entry_size) = DirEntry::from_bytes(
+                fs.clone(),
+                &block[offset_within_block..],
+                inode.index,
+                path.clone(),
+            )?;
+            offset_within_block = offset_within_block
+                .checked_add(entry_size.get())
+                .ok_or(CorruptKind::DirEntry(inode.index))?;
+            let Some(dir_entry) = dir_entry else {
+                continue;
+            };
+
+            if dir_entry.file_name() == name {
+                return Ok(dir_entry);
+            }
+        }
 
-        if dir_entry.file_name() == name {
-            return Ok(dir_entry);
+        if !leaf_nodes.advance() {
+            break;
         }
     }
 
-- 
2.43.0


From 895e6ddba45f07885b4c0c973467d3a96d179656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:24 +0000
Subject: [PATCH 19/26] fix: don't treat block zero as initially cached

---
 src/block_cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/block_cache.rs b/src/block_cache.rs
index c1b6b2f..271b10a 100644
--- a/src/block_cache.rs
+++ b/src/block_cache.rs
@@ -103,7 +103,9 @@ impl BlockCache {
 
         let entries = vec![
             CacheEntry {
-                block_index: 0,
+                // Initialize with an invalid block index, so that the
+                // entry doesn't match any block.
+                block_index: FsBlockIndex::MAX,
                 data: vec![0; opts.block_size.to_usize()].into_boxed_slice(),
             };
             opts.num_entries
-- 
2.43.0


From 9e6a5a68da2cda7e4d9bab3b5213f8d9591d8d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 20/26] fix: return an error if a file is too large to allocate

---
 src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b849bb4..0ef3217 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -373,16 +373,20 @@ impl Ext4 {
     /// Holes are filled with zero.
     ///
     /// Fails with `FileTooLarge` if the size of the file is too large
-    /// to fit in a [`usize`].
+    /// to fit in a [`usize`], or if memory for the file contents can't
+    /// be allocated.
     fn read_inode_file(&self, inode: &Inode) -> Result<Vec<u8>, Ext4Error> {
         // Get the file size and initialize the output vector.
         let file_size_in_bytes = usize::try_from(inode.metadata.size_in_bytes)
             .map_err(|_| Ext4Error::FileTooLarge)?;
-        let mut dst = vec![0; file_size_in_bytes];
+        let mut dst = Vec::new();
+        dst.try_reserve_exact(file_size_in_bytes)
+            .map_err(|_| Ext4Error::FileTooLarge)?;
+        dst.resize(file_size_in_bytes, 0);
 
         // Use `File` to read the data in chunks.
         let mut file = File::open_inode(self, inode.clone())?;
-        let mut remaining = dst.as_mut();
+        let mut remaining = dst.as_mut_slice();
         loop {
             let bytes_read = file.read_bytes(remaining)?;
             if bytes_read == 0 {
-- 
2.43.0


From 2940aeafad8171822d93f0c5292b8f688e00b5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 21/26] fix: limit the size of symlink targets

---
 src/inode.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/inode.rs b/src/inode.rs
index 6db047c..3d37755 100644
--- a/src/inode.rs
+++ b/src/inode.rs
@@ -286,6 +286,13 @@ impl Inode {
             return Err(CorruptKind::SymlinkTarget(self.index).into());
         }
 
+        // Linux does not allow symlink targets longer than this. Check
+        // here to avoid reading a very large target into memory.
+        const MAX_SYMLINK_LEN: u64 = 4096;
+        if self.metadata.size_in_bytes > MAX_SYMLINK_LEN {
+            return Err(CorruptKind::SymlinkTarget(self.index).into());
+        }
+
         // Symlink targets of up to 59 bytes are stored inline. Longer
         // targets are stored as regular file data.
         const MAX_INLINE_SYMLINK_LEN: u64 = 59;
-- 
2.43.0


From 126e90d8db63d84058c8bffabd397eaf775a2955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 22/26] fix: return an error when reading encrypted files and
 symlinks

---
 src/file.rs  | 6 +++++-
 src/inode.rs | 7 ++++++-
 src/lib.rs   | 5 +++--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 7e8f9db..36f64f8 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -9,7 +9,7 @@
 use crate::Ext4;
 use crate::block_index::FsBlockIndex;
 use crate::error::{CorruptKind, Ext4Error};
-use crate::inode::Inode;
+use crate::inode::{Inode, InodeFlags};
 use crate::iters::file_blocks::FileBlocks;
 use crate::metadata::Metadata;
 use crate::path::Path;
@@ -63,6 +63,10 @@ impl File {
         fs: &Ext4,
         inode: Inode,
     ) -> Result<Self, Ext4Error> {
+        if inode.flags.contains(InodeFlags::DIRECTORY_ENCRYPTED) {
+            return Err(Ext4Error::Encrypted);
+        }
+
         Ok(Self {
             fs: fs.clone(),
             position: 0,
diff --git a/src/inode.rs b/src/inode.rs
index 3d37755..8c7ead5 100644
--- a/src/inode.rs
+++ b/src/inode.rs
@@ -32,7 +32,8 @@ bitflags! {
         /// File is immutable.
         const IMMUTABLE = 0x10;
 
-        /// Directory is encrypted.
+        /// Inode is encrypted. This includes directories, regular
+        /// files, and symlinks.
         const DIRECTORY_ENCRYPTED = 0x800;
 
         /// Directory has hashed indexes.
@@ -281,6 +282,10 @@ impl Inode {
             return Err(Ext4Error::NotASymlink);
         }
 
+        if self.flags.contains(InodeFlags::DIRECTORY_ENCRYPTED) {
+            return Err(Ext4Error::Encrypted);
+        }
+
         // An empty symlink target is not allowed.
         if self.metadata.size_in_bytes == 0 {
             return Err(CorruptKind::SymlinkTarget(self.index).into());
diff --git a/src/lib.rs b/src/lib.rs
index 0ef3217..416f241 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -376,6 +376,9 @@ impl Ext4 {
     /// to fit in a [`usize`], or if memory for the file contents can't
     /// be allocated.
     fn read_inode_file(&self, inode: &Inode) -> Result<Vec<u8>, Ext4Error> {
+        // Use `File` to read the data in chunks.
+        let mut file = File::open_inode(self, inode.clone())?;
+
         // Get the file size and initialize the output vector.
         let file_size_in_bytes = usize::try_from(inode.metadata.size_in_bytes)
             .map_err(|_| Ext4Error::FileTooLarge)?;
@@ -384,8 +387,6 @@ impl Ext4 {
             .map_err(|_| Ext4Error::FileTooLarge)?;
         dst.resize(file_size_in_bytes, 0);
 
-        // Use `File` to read the data in chunks.
-        let mut file = File::open_inode(self, inode.clone())?;
         let mut remaining = dst.as_mut_slice();
         loop {
             let bytes_read = file.read_bytes(remaining)?;
-- 
2.43.0


From 25af75dc6142adc195d9b7e5c9b5f15a260dfb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 23/26] fix: directory records that cover a 64KiB block

---
 src/dir_block.rs |  3 ++-
 src/dir_entry.rs | 25 +++++++++++++++++++++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/dir_block.rs b/src/dir_block.rs
index 1e92099..9ca1259 100644
--- a/src/dir_block.rs
+++ b/src/dir_block.rs
@@ -9,6 +9,7 @@
 use crate::Ext4;
 use crate::block_index::FsBlockIndex;
 use crate::checksum::Checksum;
+use crate::dir_entry::read_rec_len;
 use crate::error::{CorruptKind, Ext4Error};
 use crate::inode::InodeIndex;
 use crate::util::{read_u16le, read_u32le};
@@ -156,7 +157,7 @@ impl DirBlock<'_> {
 
         // Other internal nodes are identified by the first record
         // having a length equal to the whole block.
-        let first_rec_len = read_u16le(block, 4);
+        let first_rec_len = read_rec_len(self.fs, block);
         if first_rec_len == self.fs.0.superblock.block_size {
             DirBlockType::Internal
         } else {
diff --git a/src/dir_entry.rs b/src/dir_entry.rs
index 36db391..d9c91f4 100644
--- a/src/dir_entry.rs
+++ b/src/dir_entry.rs
@@ -256,8 +256,7 @@ impl DirEntry {
         let points_to_inode = read_u32le(bytes, 0);
 
         // Get the full size of the entry.
-        let rec_len = read_u16le(bytes, 4);
-        let rec_len = usize::from(rec_len);
+        let rec_len = read_rec_len(&fs, bytes);
 
         // Check that the rec_len is somewhat reasonable. Too small a
         // value could indicate the wrong data is being read. And
@@ -351,6 +350,28 @@ impl DirEntry {
     }
 }
 
+/// Read the length of a directory entry record.
+///
+/// The length is a 16-bit field, so a record that covers an entire 64KiB
+/// block needs a special representation. The kernel uses `0xffff` for
+/// this, and also accepts zero.
+///
+/// # Panics
+///
+/// Panics if the length of `bytes` is less than six.
+pub(crate) fn read_rec_len(fs: &Ext4, bytes: &[u8]) -> usize {
+    const MAX_BLOCK_SIZE: usize = 65536;
+
+    let rec_len = read_u16le(bytes, 4);
+    if (rec_len == 0xffff || rec_len == 0)
+        && fs.0.superblock.block_size.to_usize() == MAX_BLOCK_SIZE
+    {
+        MAX_BLOCK_SIZE
+    } else {
+        usize::from(rec_len)
+    }
+}
+
 impl Debug for DirEntry {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
         f.debug_tuple("DirEntry").field(&self.path()).finish()
-- 
2.43.0


From b2725e67b6a9484d42d8dde45b293f155c7ba597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 24/26] fix: journal revocation table size includes the header

---
 src/journal/block_map.rs        |  4 ++--
 src/journal/revocation_block.rs | 29 +++++++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index 2a0c775..86fa771 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -18,7 +18,7 @@ use crate::journal::descriptor_block::{
     DescriptorBlockTagIter, validate_descriptor_block_checksum,
 };
 use crate::journal::revocation_block::{
-    read_revocation_block_table, validate_revocation_block_checksum,
+    read_revocation_block, validate_revocation_block_checksum,
 };
 use crate::journal::superblock::{JournalSuperblock, load_log_range};
 use alloc::collections::{BTreeMap, BTreeSet};
@@ -312,7 +312,7 @@ impl<'a> BlockMapLoader<'a> {
         validate_revocation_block_checksum(self.superblock, &self.block)?;
 
         let mut table = Vec::new();
-        read_revocation_block_table(&self.block, &mut table)?;
+        read_revocation_block(&mut self.block, &mut table)?;
         self.revoked_blocks.extend(table);
 
         Ok(())
diff --git a/src/journal/revocation_block.rs b/src/journal/revocation_block.rs
index 23454cc..5ae3185 100644
--- a/src/journal/revocation_block.rs
+++ b/src/journal/revocation_block.rs
@@ -37,10 +37,35 @@ pub(super) fn validate_revocation_block_checksum(
     }
 }
 
+/// Read the revoked block indices from a revocation block on disk.
+///
+/// On disk, the size field contains the number of bytes used in the
+/// block, which includes the block header and the size field
+/// itself. Convert it in place to the size of the block-index array,
+/// then append the entries to the end of `table`.
+pub(super) fn read_revocation_block(
+    block: &mut [u8],
+    table: &mut Vec<FsBlockIndex>,
+) -> Result<(), Ext4Error> {
+    const TABLE_OFFSET: u32 = 16;
+
+    let num_bytes_used = read_u32be(block, JournalBlockHeader::SIZE);
+    let num_bytes = num_bytes_used.checked_sub(TABLE_OFFSET).ok_or(
+        CorruptKind::JournalRevocationBlockInvalidTableSize(usize_from_u32(
+            num_bytes_used,
+        )),
+    )?;
+    block[JournalBlockHeader::SIZE..usize_from_u32(TABLE_OFFSET)]
+        .copy_from_slice(&num_bytes.to_be_bytes());
+
+    read_revocation_block_table(block, table)
+}
+
 /// Read the revoked block indices from a revocation block.
 ///
-/// The entries are appended to the end of `table`.
-pub(super) fn read_revocation_block_table(
+/// The size field must contain the size (in bytes) of the block-index
+/// array. The entries are appended to the end of `table`.
+fn read_revocation_block_table(
     block: &[u8],
     table: &mut Vec<FsBlockIndex>,
 ) -> Result<(), Ext4Error> {
-- 
2.43.0


From 16bbd37ae4a0e94f497534ae303f5406b4de9918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:20 +0000
Subject: [PATCH 25/26] fix: apply the journal to the superblock and group
 descriptors

---
 src/journal.rs |  5 ++++
 src/lib.rs     | 68 ++++++++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 71 insertions(+), 2 deletions(-)

diff --git a/src/journal.rs b/src/journal.rs
index 6fe4346..0f17a8a 100644
--- a/src/journal.rs
+++ b/src/journal.rs
@@ -53,6 +53,11 @@ impl Journal {
         Ok(Self { block_map })
     }
 
+    /// True if the journal does not contain any replacement blocks.
+    pub(crate) fn is_empty(&self) -> bool {
+        self.block_map.is_empty()
+    }
+
     /// Map from an absolute block index to a block in the journal.
     ///
     /// If the journal does not contain a replacement for the input
diff --git a/src/lib.rs b/src/lib.rs
index 416f241..6ddc31d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -146,9 +146,10 @@ use alloc::vec::Vec;
 use block_cache::BlockCache;
 use block_group::BlockGroupDescriptor;
 use block_index::FsBlockIndex;
+use block_size::BlockSize;
 use core::cell::RefCell;
 use core::fmt::{self, Debug, Formatter};
-use error::CorruptKind;
+use error::{BoxedError, CorruptKind};
 use features::ReadOnlyCompatibleFeatures;
 use inode::{Inode, InodeIndex};
 use journal::Journal;
@@ -194,6 +195,67 @@ struct Ext4Inner {
     reader: RefCell<Box<dyn Ext4Read>>,
 }
 
+impl Ext4Inner {
+    /// Update the superblock and block group descriptors if the journal
+    /// contains newer versions of them.
+    fn reload_from_journal(&mut self) -> Result<(), Ext4Error> {
+        if self.journal.is_empty() {
+            return Ok(());
+        }
+
+        let block_size = self.superblock.block_size;
+        let mut reader = JournaledReader {
+            journal: &self.journal,
+            block_size,
+            reader: &mut **self.reader.get_mut(),
+        };
+
+        let mut data = vec![0; Superblock::SIZE_IN_BYTES_ON_DISK];
+        reader.read(1024, &mut data).map_err(Ext4Error::Io)?;
+        let superblock = Superblock::from_bytes(&data)?;
+        // The journal can't change the block size.
+        if superblock.block_size != block_size {
+            return Err(CorruptKind::InvalidBlockSize.into());
+        }
+
+        self.block_group_descriptors =
+            BlockGroupDescriptor::read_all(&superblock, &mut reader)?;
+        self.block_cache =
+            RefCell::new(BlockCache::new(block_size, superblock.blocks_count)?);
+        self.has_unsigned_htree_hash =
+            Superblock::has_unsigned_htree_hash(&data);
+        self.superblock = superblock;
+
+        Ok(())
+    }
+}
+
+/// Reader that reads blocks from the journal, if present there.
+///
+/// Reads must not cross block boundaries.
+struct JournaledReader<'a> {
+    journal: &'a Journal,
+    block_size: BlockSize,
+    reader: &'a mut dyn Ext4Read,
+}
+
+impl Ext4Read for JournaledReader<'_> {
+    fn read(
+        &mut self,
+        start_byte: u64,
+        dst: &mut [u8],
+    ) -> Result<(), BoxedError> {
+        let block_size = self.block_size.to_nz_u64();
+        let block_index = self.journal.map_block_index(start_byte / block_size);
+        let start_byte = block_index
+            .checked_mul(block_size.get())
+            .and_then(|b| b.checked_add(start_byte % block_size))
+            .ok_or("journal block index is too large")?;
+
+        self.reader.read(start_byte, dst)
+    }
+}
+
 /// Read-only access to an [ext4] filesystem.
 ///
 /// [ext4]: https://en.wikipedia.org/wiki/Ext4
@@ -234,7 +296,9 @@ impl Ext4 {
 
         // Load the actual journal, if present.
         let journal = Journal::load(&fs)?;
-        Rc::get_mut(&mut fs.0).unwrap().journal = journal;
+        let inner = Rc::get_mut(&mut fs.0).unwrap();
+        inner.journal = journal;
+        inner.reload_from_journal()?;
 
         Ok(fs)
     }
-- 
2.43.0


From 0ba2e124dad0a0a2ba0bde3d3f1c07e17a35e615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:53 +0000
Subject: [PATCH 26/26] fix: directory hashes that equal the end-of-directory
 marker

---
 src/dir_entry_hash.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dir_entry_hash.rs b/src/dir_entry_hash.rs
index 2707690..8e1eae2 100644
--- a/src/dir_entry_hash.rs
+++ b/src/dir_entry_hash.rs
@@ -128,8 +128,12 @@ impl HashAlg {
             }
         };
 
-        // Finalize the hash.
-        hash & !1
+        // Finalize the hash. The highest value is reserved as the
+        // end-of-directory marker, so no name ever has it as a hash.
+        match hash & !1 {
+            0xffff_fffe => 0xffff_fffc,
+            hash => hash,
+        }
     }
 }
 
-- 
2.43.0

