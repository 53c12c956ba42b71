From aec3db5e4d9a239b7b74d4fec5abec2d1300fe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 01/27] fix: Don't panic on I/O errors inside structures read
 by binrw

binrw wraps such errors into a backtrace. Mounting an empty or failing device
therefore ended in unreachable!() instead of NtfsError::Io.
---
 src/error.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 5dfe797..7a2f4a3 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -229,11 +229,12 @@ pub enum NtfsError {
 
 impl From<binrw::error::Error> for NtfsError {
     fn from(error: binrw::error::Error) -> Self {
-        if let binrw::error::Error::Io(io_error) = error {
-            Self::Io(io_error)
-        } else {
+        match error {
+            binrw::error::Error::Io(io_error) => Self::Io(io_error),
+            // binrw wraps an I/O error that occurs inside a structure into a backtrace of the structure's fields.
+            binrw::error::Error::Backtrace(backtrace) => Self::from(*backtrace.error),
             // We don't use any binrw attributes that result in other errors.
-            unreachable!("Got a binrw error of unexpected type: {:?}", error);
+            error => unreachable!("Got a binrw error of unexpected type: {:?}", error),
         }
     }
 }
-- 
2.43.0


From 97d93b468e15fe9df4d9019a5d272aaa3df8918b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 02/27] fix: Apply the maximum File Record size to sizes given
 in clusters

A boot sector could make every File Record read allocate up to 254 MiB.
---
 src/boot_sector.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/boot_sector.rs b/src/boot_sector.rs
index 6128e43..d404676 100644
--- a/src/boot_sector.rs
+++ b/src/boot_sector.rs
@@ -98,8 +98,10 @@ impl BiosParameterBlock {
 
         if size_info > 0 {
             // The size field denotes a cluster count.
+            // The same maximum applies to the resulting size.
             cluster_size
                 .checked_mul(size_info as u32)
+                .filter(|record_size| *record_size <= 1 << MAX_EXPONENT)
                 .ok_or(NtfsError::InvalidRecordSizeInfo {
                     size_info,
                     cluster_size,
-- 
2.43.0


From 72de67f6d8eff8d81da4bb946e5991663b51dc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 03/27] fix: Reject Index Entries that are smaller than their
 header

Such an entry made iterators return the same entry forever (length 0) and
underflowed the position of the subnode VCN.
---
 src/index_entry.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/index_entry.rs b/src/index_entry.rs
index 333d1a6..5a46999 100644
--- a/src/index_entry.rs
+++ b/src/index_entry.rs
@@ -285,6 +285,14 @@ where
             });
         }
 
+        if (self.index_entry_length() as usize) < INDEX_ENTRY_HEADER_SIZE {
+            return Err(NtfsError::InvalidIndexEntrySize {
+                position: self.position,
+                expected: INDEX_ENTRY_HEADER_SIZE as u16,
+                actual: self.index_entry_length(),
+            });
+        }
+
         if self.index_entry_length() as usize > self.slice.len() {
             return Err(NtfsError::InvalidIndexEntrySize {
                 position: self.position,
-- 
2.43.0


From 55575cd0f16cb4bfdc6cc540522ca5fda018cc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:09 +0000
Subject: [PATCH 04/27] fix: Validate the sizes of Index Records and Index
 Roots before using them

An Index Record size of less than the headers or a used size below the
entries offset panicked, large sizes overflowed or exhausted the memory.
---
 src/error.rs                        | 13 ++++++++++++
 src/index_record.rs                 | 31 +++++++++++++++++++++++++++--
 src/structured_values/index_root.rs |  8 ++++++++
 3 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 7a2f4a3..7c2cbcc 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -96,6 +96,19 @@ pub enum NtfsError {
         expected: u16,
         actual: u16,
     },
+    /// The NTFS Index Record at byte position {position:#x} indicates that its entries start at offset {expected}, but the Index Record only uses {actual} bytes
+    InvalidIndexRecordEntriesOffset {
+        position: NtfsPosition,
+        expected: u32,
+        actual: u32,
+    },
+    /// The NTFS Index Record at byte position {position:#x} should have a size between {min_size} and {max_size} bytes, but the Index Root indicates {actual} bytes
+    InvalidIndexRecordSize {
+        position: NtfsPosition,
+        min_size: u32,
+        max_size: u32,
+        actual: u32,
+    },
     /// The NTFS index root at byte position {position:#x} indicates that its entries start at offset {expected}, but the index root only has a size of {actual} bytes
     InvalidIndexRootEntriesOffset {
         position: NtfsPosition,
diff --git a/src/index_record.rs b/src/index_record.rs
index 0ca2216..d426a7f 100644
--- a/src/index_record.rs
+++ b/src/index_record.rs
@@ -20,6 +20,13 @@ use crate::types::{NtfsPosition, Vcn};
 /// Size of all [`IndexRecordHeader`] fields.
 const INDEX_RECORD_HEADER_SIZE: u32 = 24;
 
+/// The smallest possible size of an Index Record, consisting of just the headers.
+const INDEX_RECORD_MIN_SIZE: u32 = INDEX_RECORD_HEADER_SIZE + INDEX_NODE_HEADER_SIZE as u32;
+
+/// An Index Record is usually 4096 bytes long or occupies a single cluster if clusters are larger.
+/// Hence, it never exceeds the maximum cluster size (2 MiB).
+const INDEX_RECORD_MAX_SIZE: u32 = 2 * 1024 * 1024;
+
 #[repr(C, packed)]
 struct IndexRecordHeader {
     record_header: RecordHeader,
@@ -66,6 +73,16 @@ impl NtfsIndexRecord {
     {
         let data_position = value.data_position();
 
+        // The size comes straight from the filesystem, so check it before allocating memory for the record.
+        if !(INDEX_RECORD_MIN_SIZE..=INDEX_RECORD_MAX_SIZE).contains(&index_record_size) {
+            return Err(NtfsError::InvalidIndexRecordSize {
+                position: data_position,
+                min_size: INDEX_RECORD_MIN_SIZE,
+                max_size: INDEX_RECORD_MAX_SIZE,
+                actual: index_record_size,
+            });
+        }
+
         let mut data = vec![0; index_record_size as usize];
         value.read_exact(fs, &mut data)?;
 
@@ -153,7 +170,7 @@ impl NtfsIndexRecord {
 
         // The total size allocated for this Index Record must not be larger than
         // the size defined for all index records of this index.
-        let total_allocated_size = INDEX_RECORD_HEADER_SIZE + self.index_allocated_size();
+        let total_allocated_size = INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_allocated_size());
         if total_allocated_size > index_record_size {
             return Err(NtfsError::InvalidIndexAllocatedSize {
                 position: self.record.position(),
@@ -164,7 +181,7 @@ impl NtfsIndexRecord {
 
         // Furthermore, the total used size for this Index Record must not be
         // larger than the total allocated size.
-        let total_data_size = INDEX_RECORD_HEADER_SIZE + self.index_data_size();
+        let total_data_size = INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_data_size());
         if total_data_size > total_allocated_size {
             return Err(NtfsError::InvalidIndexUsedSize {
                 position: self.record.position(),
@@ -173,6 +190,16 @@ impl NtfsIndexRecord {
             });
         }
 
+        // Finally, the index entries must begin within the used size.
+        let entries_start = INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_entries_offset());
+        if entries_start > total_data_size {
+            return Err(NtfsError::InvalidIndexRecordEntriesOffset {
+                position: self.record.position(),
+                expected: entries_start,
+                actual: total_data_size,
+            });
+        }
+
         Ok(())
     }
 
diff --git a/src/structured_values/index_root.rs b/src/structured_values/index_root.rs
index 7a7b6f3..a8b84b9 100644
--- a/src/structured_values/index_root.rs
+++ b/src/structured_values/index_root.rs
@@ -153,6 +153,14 @@ impl<'f> NtfsIndexRoot<'f> {
             });
         }
 
+        if entries_range.start > entries_range.end {
+            return Err(NtfsError::InvalidIndexRootEntriesOffset {
+                position: self.position,
+                expected: entries_range.start,
+                actual: entries_range.end,
+            });
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 078d9922cfa2efe1a234fdad3f5f3ffa6fb73296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 05/27] fix: Find Index Records that are smaller than a cluster

VCNs of an index are based on 512-byte blocks if the Index Record size is
smaller than the cluster size. Such a large directory could not be listed
beyond its first Index Record.
---
 src/record.rs                             |  2 +-
 src/structured_values/index_allocation.rs | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/record.rs b/src/record.rs
index 08b5295..8f8d8ee 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -10,7 +10,7 @@ use memoffset::{offset_of, span_of};
 use crate::error::{NtfsError, Result};
 use crate::types::NtfsPosition;
 
-const NTFS_BLOCK_SIZE: usize = 512;
+pub(crate) const NTFS_BLOCK_SIZE: usize = 512;
 
 #[repr(C, packed)]
 pub(crate) struct RecordHeader {
diff --git a/src/structured_values/index_allocation.rs b/src/structured_values/index_allocation.rs
index a5c72d6..3d372cd 100644
--- a/src/structured_values/index_allocation.rs
+++ b/src/structured_values/index_allocation.rs
@@ -10,6 +10,7 @@ use crate::attribute_value::NtfsAttributeValue;
 use crate::error::{NtfsError, Result};
 use crate::index_record::NtfsIndexRecord;
 use crate::ntfs::Ntfs;
+use crate::record::NTFS_BLOCK_SIZE;
 use crate::structured_values::NtfsStructuredValue;
 use crate::traits::NtfsReadSeek;
 use crate::types::Vcn;
@@ -54,7 +55,15 @@ impl<'n, 'f> NtfsIndexAllocation<'n, 'f> {
     {
         // Seek to the byte offset of the given VCN.
         let mut value = self.value.clone();
-        let offset = vcn.offset(self.ntfs)?;
+        let offset = if self.ntfs.cluster_size() > index_record_size {
+            // A cluster holds multiple Index Records.
+            // In this case, VCNs in an index are not based on clusters, but on blocks of 512 bytes.
+            vcn.value()
+                .checked_mul(NTFS_BLOCK_SIZE as i64)
+                .ok_or(NtfsError::VcnTooBig { vcn })?
+        } else {
+            vcn.offset(self.ntfs)?
+        };
         value.seek(fs, SeekFrom::Current(offset))?;
 
         if value.stream_position() >= value.len() {
-- 
2.43.0


From c0f4318e6898f9653c4f9260b94fc6c592d300bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 06/27] fix: Don't skip a subnode of an index after failing to
 read it

When reading a subnode failed, the iterator had already advanced past the
entry. The next call silently continued with the following entry and lost
the entire subnode along with its parent entry.
---
 src/index.rs        | 69 +++++++++++++++++++++------------------------
 src/index_entry.rs  |  6 ++++
 src/index_record.rs |  3 +-
 3 files changed, 40 insertions(+), 38 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 02e0ff3..3bbc388 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -15,7 +15,7 @@ use crate::index_entry::{
 };
 use crate::indexes::NtfsIndexEntryType;
 use crate::structured_values::{NtfsIndexAllocation, NtfsIndexRoot};
-use crate::types::NtfsPosition;
+use crate::types::{NtfsPosition, Vcn};
 
 /// Helper structure to iterate over all entries of an index or find a specific one.
 ///
@@ -90,6 +90,25 @@ where
     pub fn finder<'i>(&'i self) -> NtfsIndexFinder<'n, 'f, 'i, E> {
         NtfsIndexFinder::new(self)
     }
+
+    /// Reads the subnode with the given VCN from the filesystem and returns an iterator for its entries.
+    fn subnode_entry_ranges<T>(&self, fs: &mut T, vcn: Vcn) -> Result<IndexNodeEntryRanges<E>>
+    where
+        T: Read + Seek,
+    {
+        let index_allocation_item =
+            self.index_allocation_item
+                .as_ref()
+                .ok_or(NtfsError::MissingIndexAllocation {
+                    position: self.index_root_position,
+                })?;
+        let index_allocation_attribute = index_allocation_item.to_attribute()?;
+        let index_allocation =
+            index_allocation_attribute.structured_value::<_, NtfsIndexAllocation>(fs)?;
+
+        let subnode = index_allocation.record_from_vcn(fs, self.index_record_size, vcn)?;
+        Ok(subnode.into_entry_ranges())
+    }
 }
 
 /// Iterator over
@@ -160,27 +179,18 @@ where
 
                 // Does this entry have a subnode that needs to be iterated first?
                 if let Some(subnode_vcn) = entry.subnode_vcn() {
-                    let subnode_vcn = iter_try!(subnode_vcn);
-
                     // Read the subnode from the filesystem and get an iterator for it.
-                    let index_allocation_item =
-                        iter_try!(self.index.index_allocation_item.as_ref().ok_or(
-                            NtfsError::MissingIndexAllocation {
-                                position: self.index.index_root_position,
-                            }
-                        ));
-                    let index_allocation_attribute =
-                        iter_try!(index_allocation_item.to_attribute());
-                    let index_allocation =
-                        iter_try!(index_allocation_attribute
-                            .structured_value::<_, NtfsIndexAllocation>(fs));
-
-                    let subnode = iter_try!(index_allocation.record_from_vcn(
-                        fs,
-                        self.index.index_record_size,
-                        subnode_vcn
-                    ));
-                    let subnode_iter = subnode.into_entry_ranges();
+                    let subnode_iter = match subnode_vcn
+                        .and_then(|vcn| self.index.subnode_entry_ranges(fs, vcn))
+                    {
+                        Ok(subnode_iter) => subnode_iter,
+                        Err(e) => {
+                            // We got nothing from this entry and its subnode yet.
+                            // A subsequent call shall try again.
+                            iter.put_back(&entry_range);
+                            return Some(Err(e));
+                        }
+                    };
 
                     let following_entry = if !is_last_entry {
                         // This entry comes after the subnode lexicographically, so save it.
@@ -300,22 +310,7 @@ where
             // it comes lexicographically AFTER what we're looking for.
             // In both cases, we have to continue iterating in the subnode of this entry (if there is any).
             let subnode_vcn = iter_try!(entry.subnode_vcn()?);
-            let index_allocation_item = iter_try!(self.index.index_allocation_item.as_ref().ok_or(
-                NtfsError::MissingIndexAllocation {
-                    position: self.index.index_root_position,
-                }
-            ));
-            let index_allocation_attribute = iter_try!(index_allocation_item.to_attribute());
-            let index_allocation = iter_try!(
-                index_allocation_attribute.structured_value::<_, NtfsIndexAllocation>(fs)
-            );
-
-            let subnode = iter_try!(index_allocation.record_from_vcn(
-                fs,
-                self.index.index_record_size,
-                subnode_vcn
-            ));
-            self.inner_iterator = subnode.into_entry_ranges();
+            self.inner_iterator = iter_try!(self.index.subnode_entry_ranges(fs, subnode_vcn));
         }
     }
 }
diff --git a/src/index_entry.rs b/src/index_entry.rs
index 5a46999..8a9a5cf 100644
--- a/src/index_entry.rs
+++ b/src/index_entry.rs
@@ -335,6 +335,12 @@ where
     pub(crate) fn data(&self) -> &[u8] {
         &self.data
     }
+
+    /// Lets the next call to [`Iterator::next`] return the given entry (previously returned by this iterator) again.
+    pub(crate) fn put_back(&mut self, entry_range: &IndexEntryRange<E>) {
+        self.range.start = entry_range.range.start;
+        self.position = entry_range.position;
+    }
 }
 
 impl<E> Iterator for IndexNodeEntryRanges<E>
diff --git a/src/index_record.rs b/src/index_record.rs
index d426a7f..8d2adc2 100644
--- a/src/index_record.rs
+++ b/src/index_record.rs
@@ -170,7 +170,8 @@ impl NtfsIndexRecord {
 
         // The total size allocated for this Index Record must not be larger than
         // the size defined for all index records of this index.
-        let total_allocated_size = INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_allocated_size());
+        let total_allocated_size =
+            INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_allocated_size());
         if total_allocated_size > index_record_size {
             return Err(NtfsError::InvalidIndexAllocatedSize {
                 position: self.record.position(),
-- 
2.43.0


From ec51c3b634e26bcbaee7a85a0bf72ca6aeeb2fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 07/27] fix: Detect subnodes that are referenced more than once
 in an index

A corrupted index whose subnodes reference each other was iterated and
searched endlessly, with the iterator exhausting the memory.
---
 src/error.rs |  2 ++
 src/index.rs | 34 +++++++++++++++++++++++++++++-----
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 7c2cbcc..e01e640 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -29,6 +29,8 @@ pub enum NtfsError {
     },
     /// The given buffer should have at least {expected} bytes, but it only has {actual} bytes
     BufferTooSmall { expected: usize, actual: usize },
+    /// The index with its NTFS Index Root at byte position {position:#x} references the subnode with VCN {vcn} more than once
+    DuplicateIndexSubnode { position: NtfsPosition, vcn: Vcn },
     /// The NTFS Attribute at byte position {position:#x} has a length of {expected} bytes, but only {actual} bytes are left in the record
     InvalidAttributeLength {
         position: NtfsPosition,
diff --git a/src/index.rs b/src/index.rs
index 3bbc388..335dc94 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -4,6 +4,7 @@
 use core::cmp::Ordering;
 use core::marker::PhantomData;
 
+use alloc::collections::BTreeSet;
 use alloc::vec;
 use alloc::vec::Vec;
 use binrw::io::{Read, Seek};
@@ -92,7 +93,15 @@ where
     }
 
     /// Reads the subnode with the given VCN from the filesystem and returns an iterator for its entries.
-    fn subnode_entry_ranges<T>(&self, fs: &mut T, vcn: Vcn) -> Result<IndexNodeEntryRanges<E>>
+    ///
+    /// Every subnode of a B-tree is referenced exactly once.
+    /// Already visited subnodes are kept in `visited_subnodes` to protect against cycles in a corrupted index.
+    fn subnode_entry_ranges<T>(
+        &self,
+        fs: &mut T,
+        vcn: Vcn,
+        visited_subnodes: &mut BTreeSet<Vcn>,
+    ) -> Result<IndexNodeEntryRanges<E>>
     where
         T: Read + Seek,
     {
@@ -107,6 +116,13 @@ where
             index_allocation_attribute.structured_value::<_, NtfsIndexAllocation>(fs)?;
 
         let subnode = index_allocation.record_from_vcn(fs, self.index_record_size, vcn)?;
+        if !visited_subnodes.insert(vcn) {
+            return Err(NtfsError::DuplicateIndexSubnode {
+                position: self.index_root_position,
+                vcn,
+            });
+        }
+
         Ok(subnode.into_entry_ranges())
     }
 }
@@ -125,6 +141,7 @@ where
     index: &'i NtfsIndex<'n, 'f, E>,
     inner_iterators: Vec<IndexNodeEntryRanges<E>>,
     following_entries: Vec<Option<IndexEntryRange<E>>>,
+    visited_subnodes: BTreeSet<Vcn>,
 }
 
 impl<'n, 'f, 'i, E> NtfsIndexEntries<'n, 'f, 'i, E>
@@ -134,11 +151,13 @@ where
     fn new(index: &'i NtfsIndex<'n, 'f, E>) -> Self {
         let inner_iterators = vec![index.index_root_entry_ranges.clone()];
         let following_entries = Vec::new();
+        let visited_subnodes = BTreeSet::new();
 
         Self {
             index,
             inner_iterators,
             following_entries,
+            visited_subnodes,
         }
     }
 
@@ -180,9 +199,10 @@ where
                 // Does this entry have a subnode that needs to be iterated first?
                 if let Some(subnode_vcn) = entry.subnode_vcn() {
                     // Read the subnode from the filesystem and get an iterator for it.
-                    let subnode_iter = match subnode_vcn
-                        .and_then(|vcn| self.index.subnode_entry_ranges(fs, vcn))
-                    {
+                    let subnode_iter = match subnode_vcn.and_then(|vcn| {
+                        self.index
+                            .subnode_entry_ranges(fs, vcn, &mut self.visited_subnodes)
+                    }) {
                         Ok(subnode_iter) => subnode_iter,
                         Err(e) => {
                             // We got nothing from this entry and its subnode yet.
@@ -273,6 +293,7 @@ where
     {
         // Always (re)start by iterating through the Index Root entry ranges.
         self.inner_iterator = self.index.index_root_entry_ranges.clone();
+        let mut visited_subnodes = BTreeSet::new();
 
         loop {
             // Get the next entry.
@@ -310,7 +331,10 @@ where
             // it comes lexicographically AFTER what we're looking for.
             // In both cases, we have to continue iterating in the subnode of this entry (if there is any).
             let subnode_vcn = iter_try!(entry.subnode_vcn()?);
-            self.inner_iterator = iter_try!(self.index.subnode_entry_ranges(fs, subnode_vcn));
+            self.inner_iterator =
+                iter_try!(self
+                    .index
+                    .subnode_entry_ranges(fs, subnode_vcn, &mut visited_subnodes));
         }
     }
 }
-- 
2.43.0


From 31fa7c0ad1e78502e0339fbc4607932f73c5fd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 08/27] fix: Don't treat Data Runs at the previous LCN as
 sparse

A Data Run is only sparse if its header has no LCN bytes at all. $Boot is
located at LCN 0 and was read as zeros.
---
 src/attribute_value/non_resident.rs | 33 +++++++++++++++++------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index bdc7f56..9b5bde6 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -400,8 +400,9 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
             self.read_variable_length_signed_integer(&mut cursor, vcn_byte_count)
         ));
 
-        // The VCN may either indicate "real" data or a sparse Data Run.
-        let position = if vcn.value() != 0 {
+        // A missing VCN indicates a sparse Data Run.
+        // Note that a VCN of zero is "real" data at the previous LCN (e.g. at LCN 0 for $Boot).
+        let position = if vcn_byte_count != 0 {
             // This Data Run contains "real" data.
             // Turn the read VCN into an absolute LCN.
             let new_lcn = iter_try!(self.state.previous_lcn.checked_add(vcn).ok_or(
@@ -412,10 +413,11 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
                 }
             ));
             self.state.previous_lcn = new_lcn;
-            iter_try!(new_lcn.position(self.ntfs))
+            let position = iter_try!(new_lcn.position(self.ntfs));
+            Some(position.value().map_or(0, |position| position.get()))
         } else {
             // This is a sparse Data Run.
-            NtfsPosition::none()
+            None
         };
 
         // Only advance after having checked for success.
@@ -444,8 +446,9 @@ pub(crate) struct DataRunsState {
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub struct NtfsDataRun {
     /// Absolute position of the Data Run within the filesystem, in bytes.
-    /// This may be `NtfsPosition(None)` if this is a "sparse" Data Run.
-    position: NtfsPosition,
+    /// This is `None` if this is a "sparse" Data Run.
+    /// Note that a Data Run may also be at position 0, which an `NtfsPosition` couldn't represent.
+    position: Option<u64>,
     /// Total allocated size of the Data Run, in bytes.
     /// The actual size used by data may be lower, but a Data Run does not know about that.
     allocated_size: u64,
@@ -454,7 +457,7 @@ pub struct NtfsDataRun {
 }
 
 impl NtfsDataRun {
-    pub(crate) fn new(position: NtfsPosition, allocated_size: u64) -> Self {
+    pub(crate) fn new(position: Option<u64>, allocated_size: u64) -> Self {
         Self {
             position,
             allocated_size,
@@ -470,12 +473,14 @@ impl NtfsDataRun {
     /// Returns the absolute current data seek position within the filesystem, in bytes.
     /// This may be `None` if:
     ///   * The current seek position is outside the valid range, or
-    ///   * The Data Run is a "sparse" Data Run
+    ///   * The Data Run is a "sparse" Data Run, or
+    ///   * The current seek position is the very first byte of the filesystem
     pub fn data_position(&self) -> NtfsPosition {
-        if self.stream_position <= self.allocated_size() {
-            self.position + self.stream_position
-        } else {
-            NtfsPosition::none()
+        match self.position {
+            Some(position) if self.stream_position <= self.allocated_size() => {
+                NtfsPosition::new(position.wrapping_add(self.stream_position))
+            }
+            _ => NtfsPosition::none(),
         }
     }
 
@@ -496,9 +501,9 @@ impl NtfsReadSeek for NtfsDataRun {
         let bytes_to_read = usize::min(buf.len(), self.remaining_len() as usize);
         let work_slice = &mut buf[..bytes_to_read];
 
-        let bytes_read = if let Some(position) = self.position.value() {
+        let bytes_read = if let Some(position) = self.position {
             // This Data Run contains "real" data.
-            fs.seek(SeekFrom::Start(position.get() + self.stream_position))?;
+            fs.seek(SeekFrom::Start(position + self.stream_position))?;
             fs.read(work_slice)?
         } else {
             // This is a sparse Data Run.
-- 
2.43.0


From c52ea081fc8ae6c3a4c05bd5388c085ed8a5dd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 09/27] fix: Reject Data Runs that exceed the address space

Reading such a Data Run overflowed the position. Also don't change the state
of the iterator when an error is returned, as already promised.
---
 src/attribute_value/non_resident.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 9b5bde6..0e9ed0f 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -402,6 +402,7 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
 
         // A missing VCN indicates a sparse Data Run.
         // Note that a VCN of zero is "real" data at the previous LCN (e.g. at LCN 0 for $Boot).
+        let mut previous_lcn = self.state.previous_lcn;
         let position = if vcn_byte_count != 0 {
             // This Data Run contains "real" data.
             // Turn the read VCN into an absolute LCN.
@@ -412,9 +413,19 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
                     previous_lcn: self.state.previous_lcn,
                 }
             ));
-            self.state.previous_lcn = new_lcn;
             let position = iter_try!(new_lcn.position(self.ntfs));
-            Some(position.value().map_or(0, |position| position.get()))
+            let position = position.value().map_or(0, |position| position.get());
+
+            // The entire Data Run must be addressable.
+            if position.checked_add(allocated_size).is_none() {
+                return Some(Err(NtfsError::InvalidClusterCountInDataRunHeader {
+                    position: NtfsDataRuns::position(self),
+                    cluster_count,
+                }));
+            }
+
+            previous_lcn = new_lcn;
+            Some(position)
         } else {
             // This is a sparse Data Run.
             None
@@ -424,6 +435,7 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
         // In case of an error, a subsequent call shall output the same error again.
         let bytes_to_advance = cursor.stream_position().unwrap() as usize;
         self.state.offset += bytes_to_advance;
+        self.state.previous_lcn = previous_lcn;
 
         let data_run = NtfsDataRun::new(position, allocated_size);
         Some(Ok(data_run))
-- 
2.43.0


From 4dca2488bbc7e61b9feaf00790f83135284c342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 10/27] fix: Don't continue with the next Data Run when the
 filesystem ends early

When a Data Run exceeded the filesystem (e.g. a truncated image), the value
reader moved on to the next Data Run and returned its data at the position
of the missing data.
---
 src/attribute_value/non_resident.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 0e9ed0f..db47381 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -506,7 +506,7 @@ impl NtfsReadSeek for NtfsDataRun {
     where
         T: Read + Seek,
     {
-        if self.remaining_len() == 0 {
+        if self.remaining_len() == 0 || buf.is_empty() {
             return Ok(0);
         }
 
@@ -516,7 +516,17 @@ impl NtfsReadSeek for NtfsDataRun {
         let bytes_read = if let Some(position) = self.position {
             // This Data Run contains "real" data.
             fs.seek(SeekFrom::Start(position + self.stream_position))?;
-            fs.read(work_slice)?
+            let bytes_read = fs.read(work_slice)?;
+            if bytes_read == 0 {
+                // The filesystem ends before the Data Run does.
+                // This must not be confused with having reached the end of the Data Run.
+                return Err(NtfsError::Io(io::Error::new(
+                    io::ErrorKind::UnexpectedEof,
+                    "the Data Run exceeds the filesystem",
+                )));
+            }
+
+            bytes_read
         } else {
             // This is a sparse Data Run.
             work_slice.fill(0);
-- 
2.43.0


From d8e7ab80ebf0c0681dd20e71ec99171ef74c9629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 11/27] fix: Don't lose data when a read fails halfway

A read over multiple Data Runs returned an error and nonetheless advanced the
position by the bytes it had already read. Return these bytes instead.
---
 .../attribute_list_non_resident.rs            | 46 +++++++++++--------
 src/attribute_value/non_resident.rs           | 35 +++++++++-----
 2 files changed, 51 insertions(+), 30 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 564169b..f89ea10 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -176,6 +176,26 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         self.ntfs
     }
 
+    /// Reads from the current Data Run or moves to the next one (possibly of the next connected attribute).
+    /// Returns whether there may be more to read.
+    fn read_some<T>(&mut self, fs: &mut T, buf: &mut [u8], bytes_read: &mut usize) -> Result<bool>
+    where
+        T: Read + Seek,
+    {
+        // Read from the current Data Run if there is one.
+        if self.stream_state.read_data_run(fs, buf, bytes_read)? {
+            return Ok(true);
+        }
+
+        // Move to the next Data Run of the current attribute.
+        if self.next_data_run()? {
+            return Ok(true);
+        }
+
+        // Move to the first Data Run of the next connected attribute.
+        self.next_attribute(fs)
+    }
+
     /// Rewinds this value reader to the very beginning.
     fn rewind<T>(&mut self, fs: &mut T) -> Result<()>
     where
@@ -198,25 +218,15 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
         let mut bytes_read = 0usize;
 
         while bytes_read < buf.len() {
-            // Read from the current Data Run if there is one.
-            if self.stream_state.read_data_run(fs, buf, &mut bytes_read)? {
-                // We read something, so check the loop condition again if we need to read more.
-                continue;
-            }
-
-            // Move to the next Data Run of the current attribute.
-            if self.next_data_run()? {
-                // We got another Data Run of the current attribute, so read again.
-                continue;
-            }
-
-            // Move to the first Data Run of the next connected attribute.
-            if self.next_attribute(fs)? {
-                // We got another attribute, so read again.
-                continue;
-            } else {
+            match self.read_some(fs, buf, &mut bytes_read) {
+                // We may be able to read more, so check the loop condition again.
+                Ok(true) => continue,
                 // We read everything we could.
-                break;
+                Ok(false) => break,
+                // Don't lose the bytes we have already read.
+                // A subsequent call starts where the error occurred and returns it if it persists.
+                Err(_) if bytes_read > 0 => break,
+                Err(e) => return Err(e),
             }
         }
 
diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index db47381..c9754e2 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -109,6 +109,21 @@ impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
         self.ntfs
     }
 
+    /// Reads from the current Data Run or moves to the next one.
+    /// Returns whether there may be more to read.
+    fn read_some<T>(&mut self, fs: &mut T, buf: &mut [u8], bytes_read: &mut usize) -> Result<bool>
+    where
+        T: Read + Seek,
+    {
+        // Read from the current Data Run if there is one.
+        if self.stream_state.read_data_run(fs, buf, bytes_read)? {
+            return Ok(true);
+        }
+
+        // Move to the next Data Run.
+        self.next_data_run()
+    }
+
     /// Rewinds this value reader to the very beginning.
     fn rewind(&mut self) -> Result<()> {
         self.stream_data_runs = self.data_runs();
@@ -127,19 +142,15 @@ impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
         let mut bytes_read = 0usize;
 
         while bytes_read < buf.len() {
-            // Read from the current Data Run if there is one.
-            if self.stream_state.read_data_run(fs, buf, &mut bytes_read)? {
-                // We read something, so check the loop condition again if we need to read more.
-                continue;
-            }
-
-            // Move to the next Data Run.
-            if self.next_data_run()? {
-                // We got another Data Run, so read again.
-                continue;
-            } else {
+            match self.read_some(fs, buf, &mut bytes_read) {
+                // We may be able to read more, so check the loop condition again.
+                Ok(true) => continue,
                 // We read everything we could.
-                break;
+                Ok(false) => break,
+                // Don't lose the bytes we have already read.
+                // A subsequent call starts where the error occurred and returns it if it persists.
+                Err(_) if bytes_read > 0 => break,
+                Err(e) => return Err(e),
             }
         }
 
-- 
2.43.0


From 4f1ae510bd0dc7d1ff9e145e2749033b84efab39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 12/27] fix: Don't skip a connected attribute after failing to
 read it

When the File Record of a connected attribute could not be read, the reader
had already advanced. The next read silently continued with the attribute
after that and returned its data at the wrong position.
---
 .../attribute_list_non_resident.rs            | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index f89ea10..a1f1911 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -94,7 +94,8 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         };
 
         // Get the state of the `NtfsDataRuns` iterator of that attribute.
-        let data_runs_state = match attribute_state.data_runs_state.take() {
+        // It is cloned to keep it if an error occurs.
+        let data_runs_state = match attribute_state.data_runs_state.clone() {
             Some(data_runs_state) => data_runs_state,
             None => return Ok(false),
         };
@@ -112,13 +113,16 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         // Do we have a next Data Run? Save that.
         let stream_data_run = match stream_data_runs.next() {
             Some(stream_data_run) => stream_data_run,
-            None => return Ok(false),
+            None => {
+                // We have fully iterated this iterator (and hence also the attribute and file).
+                attribute_state.data_runs_state = None;
+                return Ok(false);
+            }
         };
         let stream_data_run = stream_data_run?;
         self.stream_state.set_stream_data_run(Some(stream_data_run));
 
         // We got another Data Run, so serialize the updated `NtfsDataRuns` state for the next iteration.
-        // This step is skipped when we got no Data Run, because it means we have fully iterated this iterator (and hence also the attribute and file).
         attribute_state.data_runs_state = Some(stream_data_runs.into_state());
 
         Ok(true)
@@ -126,6 +130,21 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
 
     /// Advances to the next attribute and returns whether we got another connected attribute.
     fn next_attribute<T>(&mut self, fs: &mut T) -> Result<bool>
+    where
+        T: Read + Seek,
+    {
+        // Keep the current entry to try it again if an error occurs.
+        let connected_entries = self.connected_entries.clone();
+
+        let result = self.try_next_attribute(fs);
+        if result.is_err() {
+            self.connected_entries = connected_entries;
+        }
+
+        result
+    }
+
+    fn try_next_attribute<T>(&mut self, fs: &mut T) -> Result<bool>
     where
         T: Read + Seek,
     {
-- 
2.43.0


From fead12e9928b928163c73b98fea7b0f1dc3fade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:03 +0000
Subject: [PATCH 13/27] fix: Keep the position when a seek fails

A seek in a non-resident attribute value that failed to read a connected
attribute or Data Run left the reader between two positions. Subsequent reads
returned wrong data.
---
 .../attribute_list_non_resident.rs            | 65 ++++++++++++-------
 src/attribute_value/non_resident.rs           | 65 ++++++++++++-------
 2 files changed, 80 insertions(+), 50 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index a1f1911..d388422 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -227,32 +227,8 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
 
         Ok(())
     }
-}
-
-impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
-    fn read<T>(&mut self, fs: &mut T, buf: &mut [u8]) -> Result<usize>
-    where
-        T: Read + Seek,
-    {
-        let mut bytes_read = 0usize;
-
-        while bytes_read < buf.len() {
-            match self.read_some(fs, buf, &mut bytes_read) {
-                // We may be able to read more, so check the loop condition again.
-                Ok(true) => continue,
-                // We read everything we could.
-                Ok(false) => break,
-                // Don't lose the bytes we have already read.
-                // A subsequent call starts where the error occurred and returns it if it persists.
-                Err(_) if bytes_read > 0 => break,
-                Err(e) => return Err(e),
-            }
-        }
 
-        Ok(bytes_read)
-    }
-
-    fn seek<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
+    fn seek_data_runs<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
     where
         T: Read + Seek,
     {
@@ -304,6 +280,45 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
 
         Ok(self.stream_position())
     }
+}
+
+impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
+    fn read<T>(&mut self, fs: &mut T, buf: &mut [u8]) -> Result<usize>
+    where
+        T: Read + Seek,
+    {
+        let mut bytes_read = 0usize;
+
+        while bytes_read < buf.len() {
+            match self.read_some(fs, buf, &mut bytes_read) {
+                // We may be able to read more, so check the loop condition again.
+                Ok(true) => continue,
+                // We read everything we could.
+                Ok(false) => break,
+                // Don't lose the bytes we have already read.
+                // A subsequent call starts where the error occurred and returns it if it persists.
+                Err(_) if bytes_read > 0 => break,
+                Err(e) => return Err(e),
+            }
+        }
+
+        Ok(bytes_read)
+    }
+
+    fn seek<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
+    where
+        T: Read + Seek,
+    {
+        // A failed seek must not leave us somewhere between the old and the new position.
+        let previous = self.clone();
+
+        let result = self.seek_data_runs(fs, pos);
+        if result.is_err() {
+            *self = previous;
+        }
+
+        result
+    }
 
     fn stream_position(&self) -> u64 {
         self.stream_state.stream_position()
diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index c9754e2..f54752f 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -132,32 +132,8 @@ impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
 
         Ok(())
     }
-}
 
-impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
-    fn read<T>(&mut self, fs: &mut T, buf: &mut [u8]) -> Result<usize>
-    where
-        T: Read + Seek,
-    {
-        let mut bytes_read = 0usize;
-
-        while bytes_read < buf.len() {
-            match self.read_some(fs, buf, &mut bytes_read) {
-                // We may be able to read more, so check the loop condition again.
-                Ok(true) => continue,
-                // We read everything we could.
-                Ok(false) => break,
-                // Don't lose the bytes we have already read.
-                // A subsequent call starts where the error occurred and returns it if it persists.
-                Err(_) if bytes_read > 0 => break,
-                Err(e) => return Err(e),
-            }
-        }
-
-        Ok(bytes_read)
-    }
-
-    fn seek<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
+    fn seek_data_runs<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
     where
         T: Read + Seek,
     {
@@ -203,6 +179,45 @@ impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
 
         Ok(self.stream_position())
     }
+}
+
+impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
+    fn read<T>(&mut self, fs: &mut T, buf: &mut [u8]) -> Result<usize>
+    where
+        T: Read + Seek,
+    {
+        let mut bytes_read = 0usize;
+
+        while bytes_read < buf.len() {
+            match self.read_some(fs, buf, &mut bytes_read) {
+                // We may be able to read more, so check the loop condition again.
+                Ok(true) => continue,
+                // We read everything we could.
+                Ok(false) => break,
+                // Don't lose the bytes we have already read.
+                // A subsequent call starts where the error occurred and returns it if it persists.
+                Err(_) if bytes_read > 0 => break,
+                Err(e) => return Err(e),
+            }
+        }
+
+        Ok(bytes_read)
+    }
+
+    fn seek<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
+    where
+        T: Read + Seek,
+    {
+        // A failed seek must not leave us somewhere between the old and the new position.
+        let previous = self.clone();
+
+        let result = self.seek_data_runs(fs, pos);
+        if result.is_err() {
+            *self = previous;
+        }
+
+        result
+    }
 
     fn stream_position(&self) -> u64 {
         self.stream_state.stream_position()
-- 
2.43.0


From eaeeafb007cad3ab379b3cc93c435254bfa4800d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 14/27] fix: Keep the current Data Run when reading at the end
 of the data

Such a read moved to the next allocated Data Run without changing the
position. The reader then reported wrong data positions.
---
 src/attribute_value/attribute_list_non_resident.rs | 3 ++-
 src/attribute_value/non_resident.rs                | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index d388422..a44f1b2 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -289,7 +289,8 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
     {
         let mut bytes_read = 0usize;
 
-        while bytes_read < buf.len() {
+        // Stop at the end of the data to not skip Data Runs that are only allocated.
+        while bytes_read < buf.len() && self.stream_position() < self.len() {
             match self.read_some(fs, buf, &mut bytes_read) {
                 // We may be able to read more, so check the loop condition again.
                 Ok(true) => continue,
diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index f54752f..20ed4b7 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -188,7 +188,8 @@ impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
     {
         let mut bytes_read = 0usize;
 
-        while bytes_read < buf.len() {
+        // Stop at the end of the data to not skip Data Runs that are only allocated.
+        while bytes_read < buf.len() && self.stream_position() < self.len() {
             match self.read_some(fs, buf, &mut bytes_read) {
                 // We may be able to read more, so check the loop condition again.
                 Ok(true) => continue,
-- 
2.43.0


From 151c1c07659ad9d221b95d3c5a746e7f8f9d12bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 15/27] fix: Return zeros for data that has not been
 initialized

Data between the initialized size and the data size has only been allocated.
The bytes on the filesystem belonged to previous, unrelated files.
---
 src/attribute.rs                              |  8 ++++
 .../attribute_list_non_resident.rs            |  5 ++-
 src/attribute_value/non_resident.rs           | 44 +++++++++++++++----
 3 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index 4cb34cf..6da77d9 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -288,6 +288,7 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
             data,
             position,
             self.non_resident_value_data_size(),
+            self.non_resident_value_initialized_size(),
         )
     }
 
@@ -312,6 +313,12 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
         LittleEndian::read_u64(&self.file.record_data()[start..])
     }
 
+    fn non_resident_value_initialized_size(&self) -> u64 {
+        debug_assert!(!self.is_resident());
+        let start = self.offset + offset_of!(NtfsNonResidentAttributeHeader, initialized_size);
+        LittleEndian::read_u64(&self.file.record_data()[start..])
+    }
+
     fn non_resident_value_data_runs_offset(&self) -> u16 {
         debug_assert!(!self.is_resident());
         let start = self.offset + offset_of!(NtfsNonResidentAttributeHeader, data_runs_offset);
@@ -512,6 +519,7 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
                 self.instance(),
                 self.ty()?,
                 data_size,
+                self.non_resident_value_initialized_size(),
             )?;
             Ok(NtfsAttributeValue::AttributeListNonResident(value))
         } else if self.is_resident() {
diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index a44f1b2..b882842 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -46,13 +46,14 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         instance: u16,
         ty: NtfsAttributeType,
         data_size: u64,
+        initialized_size: u64,
     ) -> Result<Self>
     where
         T: Read + Seek,
     {
         let connected_entries =
             AttributeListConnectedEntries::new(attribute_list_entries.clone(), instance, ty);
-        let stream_state = StreamState::new(data_size);
+        let stream_state = StreamState::new(data_size, initialized_size);
 
         let mut value = Self {
             ntfs,
@@ -222,7 +223,7 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
     {
         self.connected_entries.attribute_list_entries =
             Some(self.initial_attribute_list_entries.clone());
-        self.stream_state = StreamState::new(self.len());
+        self.stream_state.rewind();
         self.next_attribute(fs)?;
 
         Ok(())
diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 20ed4b7..45aba8a 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -40,9 +40,10 @@ impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
         data: &'f [u8],
         position: NtfsPosition,
         data_size: u64,
+        initialized_size: u64,
     ) -> Result<Self> {
         let stream_data_runs = NtfsDataRuns::new(ntfs, data, position);
-        let stream_state = StreamState::new(data_size);
+        let stream_state = StreamState::new(data_size, initialized_size);
 
         let mut value = Self {
             ntfs,
@@ -127,7 +128,7 @@ impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
     /// Rewinds this value reader to the very beginning.
     fn rewind(&mut self) -> Result<()> {
         self.stream_data_runs = self.data_runs();
-        self.stream_state = StreamState::new(self.len());
+        self.stream_state.rewind();
         self.next_data_run()?;
 
         Ok(())
@@ -523,6 +524,15 @@ impl NtfsDataRun {
         }
     }
 
+    /// Advances by up to the length of the given buffer and fills that part with zeros instead of reading it.
+    fn read_zeros(&mut self, buf: &mut [u8]) -> usize {
+        let bytes_to_fill = usize::min(buf.len(), self.remaining_len() as usize);
+        buf[..bytes_to_fill].fill(0);
+
+        self.stream_position += bytes_to_fill as u64;
+        bytes_to_fill
+    }
+
     pub(crate) fn remaining_len(&self) -> u64 {
         self.allocated_size().saturating_sub(self.stream_position)
     }
@@ -556,8 +566,7 @@ impl NtfsReadSeek for NtfsDataRun {
             bytes_read
         } else {
             // This is a sparse Data Run.
-            work_slice.fill(0);
-            work_slice.len()
+            return Ok(self.read_zeros(work_slice));
         };
 
         self.stream_position += bytes_read as u64;
@@ -585,17 +594,26 @@ pub(crate) struct StreamState {
     stream_position: u64,
     /// Total (used) data size, in bytes.
     data_size: u64,
+    /// Size of the data that has been written to the filesystem, in bytes.
+    /// All data from here up to `data_size` has only been allocated and is read as zeros.
+    initialized_size: u64,
 }
 
 impl StreamState {
-    pub(crate) const fn new(data_size: u64) -> Self {
+    pub(crate) const fn new(data_size: u64, initialized_size: u64) -> Self {
         Self {
             stream_data_run: None,
             stream_position: 0,
             data_size,
+            initialized_size,
         }
     }
 
+    /// Returns to the initial state.
+    pub(crate) fn rewind(&mut self) {
+        *self = Self::new(self.data_size, self.initialized_size);
+    }
+
     /// Returns the absolute current data seek position within the filesystem, in bytes.
     /// This may be `None` if:
     ///   * The current seek position is outside the valid range, or
@@ -704,10 +722,20 @@ impl StreamState {
         // Read up to the buffer length or up to the (used) data size, whatever comes first.
         let start = *bytes_read;
         let remaining_buf_len = buf.len() - start;
-        let end = start + usize::min(remaining_buf_len, remaining_data_size as usize);
+        let mut end = start + usize::min(remaining_buf_len, remaining_data_size as usize);
 
-        // Perform the actual read.
-        let bytes_read_in_data_run = data_run.read(fs, &mut buf[start..end])?;
+        let remaining_initialized_size = self.initialized_size.saturating_sub(self.stream_position);
+        let bytes_read_in_data_run = if remaining_initialized_size == 0 {
+            // This part of the data has never been written, so it consists of zeros.
+            data_run.read_zeros(&mut buf[start..end])
+        } else {
+            // Perform the actual read, but not beyond the initialized size.
+            end = usize::min(
+                end,
+                start.saturating_add(remaining_initialized_size as usize),
+            );
+            data_run.read(fs, &mut buf[start..end])?
+        };
         if bytes_read_in_data_run == 0 {
             return Ok(false);
         }
-- 
2.43.0


From 23b7c1e879670036ca1a42245d9d4c0023f4f720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:26 +0000
Subject: [PATCH 16/27] fix: Reject attributes that are smaller than their
 header

Only the common part of the header was checked. Getting the length or value of
such an attribute at the end of a File Record panicked.
---
 src/attribute.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/attribute.rs b/src/attribute.rs
index 6da77d9..fe1a62a 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -439,6 +439,20 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
             });
         }
 
+        // The attribute must also be long enough for the additional fields of its particular header.
+        let header_size = if self.is_resident() {
+            mem::size_of::<NtfsResidentAttributeHeader>()
+        } else {
+            mem::size_of::<NtfsNonResidentAttributeHeader>()
+        };
+        if attribute_length < header_size {
+            return Err(NtfsError::InvalidAttributeLength {
+                position: self.position(),
+                expected: header_size,
+                actual: attribute_length,
+            });
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From ce904eb1842e9fc884115f23efe786410203e5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:04 +0000
Subject: [PATCH 17/27] fix: Connect attributes by type, name, and VCN instead
 of the instance

Instance numbers are only unique within a single File Record. Attributes of
the same stream in different File Records usually differ in their instance,
so that large streams were cut off. On the other hand, different streams with
the same instance were concatenated.
---
 src/attribute.rs                              | 15 ++--------
 .../attribute_list_non_resident.rs            | 30 +++++++++++++------
 src/structured_values/attribute_list.rs       |  6 ++--
 3 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index fe1a62a..71831f9 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -530,8 +530,8 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
                 self.file.ntfs(),
                 fs,
                 list_entries.clone(),
-                self.instance(),
                 self.ty()?,
+                self.name()?,
                 data_size,
                 self.non_resident_value_initialized_size(),
             )?;
@@ -569,7 +569,6 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
 pub struct NtfsAttributes<'n, 'f> {
     raw_iter: NtfsAttributesRaw<'n, 'f>,
     list_entries: Option<NtfsAttributeListEntries<'n, 'f>>,
-    list_skip_info: Option<(u16, NtfsAttributeType)>,
 }
 
 impl<'n, 'f> NtfsAttributes<'n, 'f> {
@@ -577,7 +576,6 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
         Self {
             raw_iter: NtfsAttributesRaw::new(file),
             list_entries: None,
-            list_skip_info: None,
         }
     }
 
@@ -611,9 +609,7 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
                         Some(Err(e)) => return Some(Err(e)),
                         None => break,
                     };
-                    let entry_instance = entry.instance();
                     let entry_record_number = entry.base_file_reference().file_record_number();
-                    let entry_ty = iter_try!(entry.ty());
 
                     // Ignore all Attribute List entries that just repeat attributes of the raw iterator.
                     if entry_record_number == self.raw_iter.file.file_record_number() {
@@ -621,15 +617,11 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
                     }
 
                     // Ignore all Attribute List entries that are connected attributes of a previous one.
-                    if let Some((skip_instance, skip_ty)) = self.list_skip_info {
-                        if entry_instance == skip_instance && entry_ty == skip_ty {
-                            continue;
-                        }
+                    if entry.lowest_vcn().value() != 0 {
+                        continue;
                     }
 
                     // We found an attribute that we want to return.
-                    self.list_skip_info = None;
-
                     let ntfs = self.raw_iter.file.ntfs();
                     let entry_file = iter_try!(entry.to_file(ntfs, fs));
                     let entry_attribute = iter_try!(entry.to_attribute(&entry_file));
@@ -638,7 +630,6 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
                     let mut list_entries = None;
                     if !entry_attribute.is_resident() {
                         list_entries = Some(attribute_list_entries_clone);
-                        self.list_skip_info = Some((entry_instance, entry_ty));
                     }
 
                     let item = NtfsAttributeItem {
diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index b882842..4822ed3 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -7,6 +7,7 @@
 // We have to go down to the Data Run level to get trustable lengths again, and this is what `NtfsAttributeListNonResidentAttributeValue` does here.
 
 use binrw::io::{Read, Seek, SeekFrom};
+use nt_string::u16strle::U16StrLe;
 
 use super::{DataRunsState, NtfsDataRuns, StreamState};
 use crate::attribute::{NtfsAttribute, NtfsAttributeType};
@@ -43,8 +44,8 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         ntfs: &'n Ntfs,
         fs: &mut T,
         attribute_list_entries: NtfsAttributeListEntries<'n, 'f>,
-        instance: u16,
         ty: NtfsAttributeType,
+        name: U16StrLe<'f>,
         data_size: u64,
         initialized_size: u64,
     ) -> Result<Self>
@@ -52,7 +53,7 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         T: Read + Seek,
     {
         let connected_entries =
-            AttributeListConnectedEntries::new(attribute_list_entries.clone(), instance, ty);
+            AttributeListConnectedEntries::new(attribute_list_entries.clone(), ty, name);
         let stream_state = StreamState::new(data_size, initialized_size);
 
         let mut value = Self {
@@ -221,8 +222,11 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
     where
         T: Read + Seek,
     {
-        self.connected_entries.attribute_list_entries =
-            Some(self.initial_attribute_list_entries.clone());
+        self.connected_entries = AttributeListConnectedEntries::new(
+            self.initial_attribute_list_entries.clone(),
+            self.connected_entries.ty,
+            self.connected_entries.name.clone(),
+        );
         self.stream_state.rewind();
         self.next_attribute(fs)?;
 
@@ -330,20 +334,22 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
 #[derive(Clone, Debug)]
 struct AttributeListConnectedEntries<'n, 'f> {
     attribute_list_entries: Option<NtfsAttributeListEntries<'n, 'f>>,
-    instance: u16,
     ty: NtfsAttributeType,
+    name: U16StrLe<'f>,
+    is_first: bool,
 }
 
 impl<'n, 'f> AttributeListConnectedEntries<'n, 'f> {
     fn new(
         attribute_list_entries: NtfsAttributeListEntries<'n, 'f>,
-        instance: u16,
         ty: NtfsAttributeType,
+        name: U16StrLe<'f>,
     ) -> Self {
         Self {
             attribute_list_entries: Some(attribute_list_entries),
-            instance,
             ty,
+            name,
+            is_first: true,
         }
     }
 
@@ -352,9 +358,15 @@ impl<'n, 'f> AttributeListConnectedEntries<'n, 'f> {
         T: Read + Seek,
     {
         let attribute_list_entries = self.attribute_list_entries.as_mut()?;
-
         let entry = iter_try!(attribute_list_entries.next(fs)?);
-        if entry.instance() == self.instance && iter_try!(entry.ty()) == self.ty {
+
+        // All connected attributes share the same type and name, and only the first one starts at VCN 0.
+        // Instance numbers can't be used here, because they are only unique within a single File Record.
+        if (entry.lowest_vcn().value() == 0) == self.is_first
+            && matches!(entry.ty(), Ok(ty) if ty == self.ty)
+            && entry.name() == self.name
+        {
+            self.is_first = false;
             Some(Ok(entry))
         } else {
             self.attribute_list_entries = None;
diff --git a/src/structured_values/attribute_list.rs b/src/structured_values/attribute_list.rs
index e9c7e05..1060daa 100644
--- a/src/structured_values/attribute_list.rs
+++ b/src/structured_values/attribute_list.rs
@@ -206,9 +206,6 @@ impl NtfsAttributeListEntry {
     /// Returns the instance number of this attribute list entry.
     ///
     /// An instance number is unique within a single NTFS File Record.
-    ///
-    /// Multiple entries of the same type and instance number form a connected attribute,
-    /// meaning an attribute whose value is stretched over multiple attributes.
     pub fn instance(&self) -> u16 {
         self.header.instance
     }
@@ -223,6 +220,9 @@ impl NtfsAttributeListEntry {
     /// This is zero for all unconnected attributes and for the first attribute of a connected attribute.
     /// For subsequent attributes of a connected attribute, this value is nonzero.
     ///
+    /// Multiple adjacent entries of the same type and name, of which only the first one has a lowest VCN of zero,
+    /// form a connected attribute, meaning an attribute whose value is stretched over multiple attributes.
+    ///
     /// The lowest_vcn + data length of one attribute equal the lowest_vcn of its following connected attribute.
     pub fn lowest_vcn(&self) -> Vcn {
         self.header.lowest_vcn
-- 
2.43.0


From 287edf3b4c3424c766a27c80ddc4dd4d4c8a853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:44 +0000
Subject: [PATCH 18/27] fix: Continue attributes of the base File Record in
 other File Records

When an Attribute List connects an attribute in the base File Record to others,
only the data of the former was available and the stream was cut off.
---
 src/attribute.rs | 68 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 67 insertions(+), 1 deletion(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index 71831f9..0a02e30 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -280,6 +280,14 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
         name_length_in_characters as usize * mem::size_of::<u16>()
     }
 
+    /// Returns the Virtual Cluster Number (VCN) at which the non-resident value of this attribute begins.
+    /// This is only nonzero if this attribute continues a previous one.
+    fn lowest_vcn(&self) -> Vcn {
+        debug_assert!(!self.is_resident());
+        let start = self.offset + offset_of!(NtfsNonResidentAttributeHeader, lowest_vcn);
+        Vcn::from(LittleEndian::read_i64(&self.file.record_data()[start..]))
+    }
+
     pub(crate) fn non_resident_value(&self) -> Result<NtfsNonResidentAttributeValue<'n, 'f>> {
         let (data, position) = self.non_resident_value_data_and_position()?;
 
@@ -568,6 +576,7 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
 #[derive(Clone, Debug)]
 pub struct NtfsAttributes<'n, 'f> {
     raw_iter: NtfsAttributesRaw<'n, 'f>,
+    attribute_list: Option<NtfsAttributeList<'n, 'f>>,
     list_entries: Option<NtfsAttributeListEntries<'n, 'f>>,
 }
 
@@ -575,10 +584,52 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
     pub(crate) fn new(file: &'f NtfsFile<'n>) -> Self {
         Self {
             raw_iter: NtfsAttributesRaw::new(file),
+            attribute_list: None,
             list_entries: None,
         }
     }
 
+    /// Looks up an attribute of the base File Record in the Attribute List.
+    /// Returns the list entries beginning with that attribute if it is continued by connected attributes.
+    fn connected_list_entries<T>(
+        attribute_list: &NtfsAttributeList<'n, 'f>,
+        attribute: &NtfsAttribute<'n, 'f>,
+        fs: &mut T,
+    ) -> Result<Option<NtfsAttributeListEntries<'n, 'f>>>
+    where
+        T: Read + Seek,
+    {
+        let ty = match attribute.ty() {
+            Ok(ty) => ty,
+            Err(_) => return Ok(None),
+        };
+        let mut list_entries = attribute_list.entries();
+
+        loop {
+            let list_entries_clone = list_entries.clone();
+
+            let entry = match list_entries.next(fs) {
+                Some(entry) => entry?,
+                None => return Ok(None),
+            };
+
+            let entry_record_number = entry.base_file_reference().file_record_number();
+            if entry_record_number != attribute.file.file_record_number()
+                || entry.instance() != attribute.instance()
+                || !matches!(entry.ty(), Ok(entry_ty) if entry_ty == ty)
+            {
+                continue;
+            }
+
+            // The list is sorted, so any connected attribute comes directly after this one.
+            let is_continued = match list_entries.next(fs) {
+                Some(next_entry) => next_entry?.lowest_vcn().value() != 0,
+                None => false,
+            };
+            return Ok(is_continued.then_some(list_entries_clone));
+        }
+    }
+
     /// Returns a variant of this iterator that implements [`Iterator`] and [`FusedIterator`]
     /// by mutably borrowing the filesystem reader.
     pub fn attach<'a, T>(self, fs: &'a mut T) -> NtfsAttributesAttached<'n, 'f, 'a, T>
@@ -647,12 +698,27 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
                 let attribute_list =
                     iter_try!(attribute.structured_value::<T, NtfsAttributeList>(fs));
                 self.list_entries = Some(attribute_list.entries());
+                self.attribute_list = Some(attribute_list);
             } else {
+                let mut list_entries = None;
+                if let Some(attribute_list) = &self.attribute_list {
+                    if !attribute.is_resident() {
+                        // Ignore all attributes that are connected attributes of a previous one.
+                        if attribute.lowest_vcn().value() != 0 {
+                            continue;
+                        }
+
+                        // This attribute may be continued by connected attributes in other File Records.
+                        list_entries =
+                            iter_try!(Self::connected_list_entries(attribute_list, &attribute, fs));
+                    }
+                }
+
                 let item = NtfsAttributeItem {
                     attribute_file: self.raw_iter.file,
                     attribute_value_file: None,
                     attribute_offset: attribute.offset(),
-                    list_entries: None,
+                    list_entries,
                 };
                 return Some(Ok(item));
             }
-- 
2.43.0


From 722c43699040e4733906f8331d8e68554af53846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 19/27] fix: Don't skip an attribute after failing to read its
 File Record

The iterator had already advanced in the Attribute List when reading the File
Record failed. The next call silently continued with the following attribute.
---
 src/attribute.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/attribute.rs b/src/attribute.rs
index 0a02e30..4e91feb 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -641,6 +641,21 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
 
     /// See [`Iterator::next`].
     pub fn next<T>(&mut self, fs: &mut T) -> Option<Result<NtfsAttributeItem<'n, 'f>>>
+    where
+        T: Read + Seek,
+    {
+        // In case of an error, a subsequent call shall try to get the same attribute again.
+        let previous = self.clone();
+
+        let item = self.try_next(fs);
+        if let Some(Err(_)) = item {
+            *self = previous;
+        }
+
+        item
+    }
+
+    fn try_next<T>(&mut self, fs: &mut T) -> Option<Result<NtfsAttributeItem<'n, 'f>>>
     where
         T: Read + Seek,
     {
-- 
2.43.0


From 3bf2db6df3131479ef0cdb27e964dce916f04e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 20/27] fix: Report the position of a resident value instead of
 its attribute

The position of every resident value and of all structures in it was off by
the size of the attribute header.
---
 src/attribute.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index 4e91feb..8bb2e3f 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -375,7 +375,8 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
         let end = start + self.resident_value_length() as usize;
         let data = &self.file.record_data()[start..end];
 
-        Ok(NtfsResidentAttributeValue::new(data, self.position()))
+        let position = self.file.position() + start;
+        Ok(NtfsResidentAttributeValue::new(data, position))
     }
 
     fn resident_value_length(&self) -> u32 {
-- 
2.43.0


From 7622b6a8dcb683a83a4e1332c10bc6d45de5ae68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 21/27] fix: Report an Attribute List entry that exceeds the
 Attribute List

The iterator silently ended and thereby hid the attribute.
---
 src/structured_values/attribute_list.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/structured_values/attribute_list.rs b/src/structured_values/attribute_list.rs
index 1060daa..8def156 100644
--- a/src/structured_values/attribute_list.rs
+++ b/src/structured_values/attribute_list.rs
@@ -147,6 +147,7 @@ impl<'n, 'f> NtfsAttributeListEntries<'n, 'f> {
         let entry = iter_try!(NtfsAttributeListEntry::new(&mut value_attached, position));
 
         // Advance our iterator to the next entry.
+        iter_try!(entry.validate_remaining_length(value.len() - value.stream_position()));
         iter_try!(value.seek(fs, SeekFrom::Current(entry.list_entry_length() as i64)));
 
         Some(Ok(entry))
@@ -165,8 +166,9 @@ impl<'n, 'f> NtfsAttributeListEntries<'n, 'f> {
         let entry = iter_try!(NtfsAttributeListEntry::new(&mut cursor, *position));
 
         // Advance our iterator to the next entry.
+        iter_try!(entry.validate_remaining_length(slice.len() as u64));
         let bytes_to_advance = entry.list_entry_length() as usize;
-        *slice = slice.get(bytes_to_advance..)?;
+        *slice = &slice[bytes_to_advance..];
         *position += bytes_to_advance;
         Some(Ok(entry))
     }
@@ -298,6 +300,20 @@ impl NtfsAttributeListEntry {
         })
     }
 
+    /// Validates that the entry doesn't exceed the remaining length of the Attribute List.
+    fn validate_remaining_length(&self, remaining_length: u64) -> Result<()> {
+        if self.list_entry_length() as u64 > remaining_length {
+            return Err(NtfsError::InvalidStructuredValueSize {
+                position: self.position(),
+                ty: NtfsAttributeType::AttributeList,
+                expected: self.list_entry_length() as u64,
+                actual: remaining_length,
+            });
+        }
+
+        Ok(())
+    }
+
     fn validate_entry_and_name_length(&self) -> Result<()> {
         let total_size = ATTRIBUTE_LIST_ENTRY_HEADER_SIZE + self.name_length();
 
-- 
2.43.0


From f2168cc7436ad0472b049d22246fa351c1274b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 22/27] fix: Don't read File Records beyond the end of the MFT

The allocated but unused part of the MFT may contain stale File Records.
---
 src/ntfs.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ntfs.rs b/src/ntfs.rs
index e560032..50f1d4e 100644
--- a/src/ntfs.rs
+++ b/src/ntfs.rs
@@ -89,6 +89,9 @@ impl Ntfs {
         let offset = file_record_number
             .checked_mul(self.file_record_size as u64)
             .ok_or(NtfsError::InvalidFileRecordNumber { file_record_number })?;
+        let end = offset
+            .checked_add(self.file_record_size as u64)
+            .ok_or(NtfsError::InvalidFileRecordNumber { file_record_number })?;
 
         // The MFT may be split into multiple data runs, referenced by its $DATA attribute.
         // We therefore read it just like any other non-resident attribute value.
@@ -100,6 +103,12 @@ impl Ntfs {
             mft.find_resident_attribute(NtfsAttributeType::Data, None, None)?;
         let mut mft_data_value = mft_data_attribute.value(fs)?;
 
+        // The last Data Run usually has more space allocated than is used by the MFT.
+        // Don't read any stale data from there.
+        if end > mft_data_value.len() {
+            return Err(NtfsError::InvalidFileRecordNumber { file_record_number });
+        }
+
         mft_data_value.seek(fs, SeekFrom::Start(offset))?;
         let position = mft_data_value
             .data_position()
-- 
2.43.0


From 51ec48f1e2b276443cccc931417155de12935cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:47 +0000
Subject: [PATCH 23/27] fix: Read File Records that are split over multiple
 Data Runs

With clusters smaller than a File Record, a File Record may be located at the
end of one Data Run of the MFT and the beginning of the next one.
---
 src/file.rs | 10 ++++++++++
 src/ntfs.rs |  7 ++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/file.rs b/src/file.rs
index b0bc5fc..d454bcf 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -6,6 +6,7 @@ use core::fmt;
 use core::num::NonZeroU64;
 
 use alloc::vec;
+use alloc::vec::Vec;
 use binrw::io::{Read, Seek, SeekFrom};
 use bitflags::bitflags;
 use byteorder::{ByteOrder, LittleEndian};
@@ -144,6 +145,15 @@ impl<'n> NtfsFile<'n> {
         fs.seek(SeekFrom::Start(position.get()))?;
         fs.read_exact(&mut data)?;
 
+        Self::from_data(ntfs, data, position, file_record_number)
+    }
+
+    pub(crate) fn from_data(
+        ntfs: &'n Ntfs,
+        data: Vec<u8>,
+        position: NonZeroU64,
+        file_record_number: u64,
+    ) -> Result<Self> {
         let mut record = Record::new(data, position.into());
         Self::validate_signature(&record)?;
         record.fixup()?;
diff --git a/src/ntfs.rs b/src/ntfs.rs
index 50f1d4e..9d6d6c3 100644
--- a/src/ntfs.rs
+++ b/src/ntfs.rs
@@ -1,6 +1,7 @@
 // Copyright 2021-2023 Colin Finck <colin@reactos.org>
 // SPDX-License-Identifier: MIT OR Apache-2.0
 
+use alloc::vec;
 use binrw::io::{Read, Seek, SeekFrom};
 use binrw::BinReaderExt;
 
@@ -115,7 +116,11 @@ impl Ntfs {
             .value()
             .ok_or(NtfsError::InvalidFileRecordNumber { file_record_number })?;
 
-        NtfsFile::new(self, fs, position, file_record_number)
+        // A File Record may be larger than a cluster and therefore be stored in multiple data runs, too.
+        let mut data = vec![0; self.file_record_size as usize];
+        mft_data_value.read_exact(fs, &mut data)?;
+
+        NtfsFile::from_data(self, data, position, file_record_number)
     }
 
     /// Returns the size of a File Record of this NTFS filesystem, in bytes.
-- 
2.43.0


From 57243748e38e061564a7256556b65de9af68890c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 24/27] fix: Don't overflow with an Update Sequence offset of
 65534 or 65535

---
 src/record.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/record.rs b/src/record.rs
index 8f8d8ee..73ae4cf 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -39,7 +39,7 @@ impl Record {
         let update_sequence_number = self.update_sequence_number()?;
         let array_count = self.update_sequence_array_count()?;
 
-        let mut array_position = self.update_sequence_array_start() as usize;
+        let mut array_position = self.update_sequence_array_start();
         let array_end =
             self.update_sequence_offset() as usize + self.update_sequence_size() as usize;
         let sectors_end = array_count as usize * NTFS_BLOCK_SIZE;
@@ -119,9 +119,9 @@ impl Record {
             })
     }
 
-    fn update_sequence_array_start(&self) -> u16 {
+    fn update_sequence_array_start(&self) -> usize {
         // The Update Sequence Number (USN) comes first and the array begins right after that.
-        self.update_sequence_offset() + mem::size_of::<u16>() as u16
+        self.update_sequence_offset() as usize + mem::size_of::<u16>()
     }
 
     fn update_sequence_number(&self) -> Result<[u8; 2]> {
-- 
2.43.0


From 7cc23d36c574807fc56430e34184afcf4d038c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 25/27] fix: Pad the fields of a GUID with zeros instead of
 spaces

---
 src/guid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/guid.rs b/src/guid.rs
index db3e8f7..59c3e9e 100644
--- a/src/guid.rs
+++ b/src/guid.rs
@@ -21,7 +21,7 @@ impl fmt::Display for NtfsGuid {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(
             f,
-            "{:8X}-{:4X}-{:4X}-{:2X}{:2X}-{:2X}{:2X}{:2X}{:2X}{:2X}{:2X}",
+            "{:08X}-{:04X}-{:04X}-{:02X}{:02X}-{:02X}{:02X}{:02X}{:02X}{:02X}{:02X}",
             self.data1,
             self.data2,
             self.data3,
-- 
2.43.0


From 496bb814081b7669634e6441d3fe1c67f645f509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:51 +0000
Subject: [PATCH 26/27] fix: Report the position of the mismatching bytes in
 UpdateSequenceNumberMismatch

---
 src/record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/record.rs b/src/record.rs
index 73ae4cf..f3ca3db 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -69,7 +69,7 @@ impl Record {
             let bytes_to_update = &mut self.data[sector_position..sector_position_end];
             if bytes_to_update != update_sequence_number {
                 return Err(NtfsError::UpdateSequenceNumberMismatch {
-                    position: self.position + array_position,
+                    position: self.position + sector_position,
                     expected: update_sequence_number,
                     actual: (&*bytes_to_update).try_into().unwrap(),
                 });
-- 
2.43.0


From c1bc4cb942fd472b243f6cd2caa648858cdb8729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 27/27] fix: Report the true position of an invalid boot sector
 signature

The boot sector structures had Rust's field order and alignment,
so offset_of! did not return the on-disk offset of the signature.
---
 src/boot_sector.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/boot_sector.rs b/src/boot_sector.rs
index d404676..c58aa13 100644
--- a/src/boot_sector.rs
+++ b/src/boot_sector.rs
@@ -16,6 +16,7 @@ use crate::types::{Lcn, NtfsPosition};
 // - The iBored tool from https://apps.tempel.org/iBored/
 #[allow(unused)]
 #[derive(BinRead)]
+#[repr(C, packed)]
 pub(crate) struct BiosParameterBlock {
     sector_size: u16,
     sectors_per_cluster: u8,
@@ -73,8 +74,9 @@ impl BiosParameterBlock {
 
     /// Returns the Logical Cluster Number (LCN) to the beginning of the Master File Table (MFT).
     pub(crate) fn mft_lcn(&self) -> Result<Lcn> {
-        if self.mft_lcn.value() > 0 {
-            Ok(self.mft_lcn)
+        let mft_lcn = self.mft_lcn;
+        if mft_lcn.value() > 0 {
+            Ok(mft_lcn)
         } else {
             Err(NtfsError::InvalidMftLcn)
         }
@@ -132,15 +134,16 @@ impl BiosParameterBlock {
 
         const SECTOR_SIZE_RANGE: RangeInclusive<u16> = MIN_SECTOR_SIZE..=MAX_SECTOR_SIZE;
 
-        if !SECTOR_SIZE_RANGE.contains(&self.sector_size) || !self.sector_size.is_power_of_two() {
+        let sector_size = self.sector_size;
+        if !SECTOR_SIZE_RANGE.contains(&sector_size) || !sector_size.is_power_of_two() {
             return Err(NtfsError::UnsupportedSectorSize {
                 min: MIN_SECTOR_SIZE,
                 max: MAX_SECTOR_SIZE,
-                actual: self.sector_size,
+                actual: sector_size,
             });
         }
 
-        Ok(self.sector_size)
+        Ok(sector_size)
     }
 
     fn sectors_per_cluster(&self) -> Result<u16> {
@@ -191,6 +194,7 @@ impl BiosParameterBlock {
 
 #[allow(unused)]
 #[derive(BinRead)]
+#[repr(C, packed)]
 pub(crate) struct BootSector {
     bootjmp: [u8; 3],
     oem_name: [u8; 8],
-- 
2.43.0

