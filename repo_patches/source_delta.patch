From 0327cdc9c8fd3782cbf019693c6af70ab51a3733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:13 +0000
Subject: [PATCH 01/17] fix: read segments without a metadata section

A segment whose ToC says it contains no metadata was still parsed as if it
did, so files written with repeated writes of the same shape (which elide
the metadata) could not be opened again.
---
 src/io/reader.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/io/reader.rs b/src/io/reader.rs
index 7d200b7..28d8cda 100644
--- a/src/io/reader.rs
+++ b/src/io/reader.rs
@@ -46,14 +46,17 @@ pub trait TdmsReader<R: Read + Seek>: Sized {
         let next_segment_offset = self.read_value()?;
         let raw_data_offset = self.read_value()?;
 
-        //todo handle no meta data mode.
-        let meta_data = self.read_meta()?;
+        let meta_data = if toc.contains_meta_data {
+            Some(self.read_meta()?)
+        } else {
+            None
+        };
 
         Ok(Segment {
             toc,
             next_segment_offset,
             raw_data_offset,
-            meta_data: Some(meta_data),
+            meta_data,
         })
     }
 }
-- 
2.43.0


From 6eb8d4ca75637ac73e69ec6590e98a1f60523e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:39 +0000
Subject: [PATCH 02/17] fix: only omit channel metadata when the whole channel
 list and formats match

The check for an unchanged channel list compared only the common prefix of
the old and new lists, and a changed length or data type was ignored, so
samples were attributed to the wrong channels or lost.
---
 src/file/file_writer.rs | 9 +++++++--
 src/index/writing.rs    | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index 05d9b4b..d81b013 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -2,7 +2,7 @@ use crate::error::TdmsError;
 use crate::index::{DataFormat, Index};
 use crate::io::data_types::TdmsStorageType;
 use crate::io::writer::TdmsWriter;
-use crate::meta_data::{MetaData, ObjectMetaData, Segment, ToC};
+use crate::meta_data::{MetaData, ObjectMetaData, RawDataIndex, Segment, ToC};
 use crate::paths::ChannelPath;
 use crate::raw_data::{MultiChannelSlice, WriteBlock};
 use crate::{DataLayout, PropertyPath, PropertyValue};
@@ -129,7 +129,12 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
 
         let (matches_live, channels) = index.check_write_values(channels);
 
-        let meta = if matches_live {
+        // The metadata can only be omitted if the formats are also unchanged.
+        let formats_unchanged = channels
+            .iter()
+            .all(|(_, raw_index)| *raw_index == RawDataIndex::MatchPrevious);
+
+        let meta = if matches_live && formats_unchanged {
             None
         } else {
             let objects: Vec<ObjectMetaData> = channels
diff --git a/src/index/writing.rs b/src/index/writing.rs
index 4ad8ed3..9f4c3a7 100644
--- a/src/index/writing.rs
+++ b/src/index/writing.rs
@@ -14,7 +14,8 @@ impl Index {
         &self,
         objects: Vec<(&'b str, DataFormat)>,
     ) -> (bool, Vec<(&'b str, RawDataIndex)>) {
-        let live_matches = if !self.active_objects.is_empty() {
+        let same_length = self.active_objects.len() == objects.len();
+        let live_matches = if same_length && !self.active_objects.is_empty() {
             self.active_objects
                 .iter()
                 .zip(objects.iter())
-- 
2.43.0


From c0e4ed0a773cc4bfce5595ab7a22f417ac181d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 03/17] fix: writing zero samples must not create an unreadable
 data block

The segment claimed raw data of zero length, which is rejected by the index
and prevents the file from ever being opened again.
---
 src/io/writer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/io/writer.rs b/src/io/writer.rs
index 873e740..80eaf33 100644
--- a/src/io/writer.rs
+++ b/src/io/writer.rs
@@ -41,8 +41,10 @@ pub trait TdmsWriter<W: Write>: Sized {
         };
 
         let data_bytes = if let Some(data) = &data {
-            toc.contains_raw_data = true;
-            data.size()
+            // A block with no samples must not be marked as a data block.
+            let size = data.size();
+            toc.contains_raw_data = size > 0;
+            size
         } else {
             toc.contains_raw_data = false;
             0
-- 
2.43.0


From ba21197211ca10bb2810e02a99d5db56f8219155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:43 +0000
Subject: [PATCH 04/17] fix: timestamps are 16 bytes wide

Chunk counts were computed with 8 bytes, doubling channel lengths and
misplacing the other channels of the segment.
---
 src/io/data_types/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/data_types/mod.rs b/src/io/data_types/mod.rs
index cf11837..d84a6d9 100644
--- a/src/io/data_types/mod.rs
+++ b/src/io/data_types/mod.rs
@@ -79,7 +79,7 @@ impl DataType {
             DataType::ExtendedFloatWithUnit => 16,
             DataType::TdmsString => 0,
             DataType::Boolean => 1,
-            DataType::Timestamp => 8,
+            DataType::Timestamp => 16,
             DataType::FixedPoint => 8,
             DataType::ComplexSingleFloat => 8,
             DataType::ComplexDoubleFloat => 16,
-- 
2.43.0


From 3d081d8ebcd5bfa972bf747970b1c68a6a255754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 05/17] fix: extended floats are 10 bytes wide in the file

10 bytes are read and written per value but 16 were accounted for, so
segments holding them had wrong offsets and chunk counts.
---
 src/io/data_types/extended.rs | 3 +++
 src/io/data_types/mod.rs      | 4 ++--
 src/raw_data/write.rs         | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/io/data_types/extended.rs b/src/io/data_types/extended.rs
index 33d11ef..63fd55a 100644
--- a/src/io/data_types/extended.rs
+++ b/src/io/data_types/extended.rs
@@ -33,6 +33,9 @@ impl TdmsStorageType for ExtendedRaw {
 
     const NATURAL_TYPE: DataType = DataType::ExtendedFloat;
 
+    // Stored as 10 bytes, unlike the in memory representation.
+    const SIZE_BYTES: usize = EXT_SIZE;
+
     fn read_le(reader: &mut impl Read) -> StorageResult<Self> {
         let mut buffer = [0u8; U128_SIZE];
         reader.read_exact(&mut buffer[0..EXT_SIZE])?;
diff --git a/src/io/data_types/mod.rs b/src/io/data_types/mod.rs
index d84a6d9..791c610 100644
--- a/src/io/data_types/mod.rs
+++ b/src/io/data_types/mod.rs
@@ -73,10 +73,10 @@ impl DataType {
             DataType::I64 | DataType::U64 => 8,
             DataType::SingleFloat => 4,
             DataType::DoubleFloat => 8,
-            DataType::ExtendedFloat => 16,
+            DataType::ExtendedFloat => 10,
             DataType::SingleFloatWithUnit => 4,
             DataType::DoubleFloatWithUnit => 8,
-            DataType::ExtendedFloatWithUnit => 16,
+            DataType::ExtendedFloatWithUnit => 10,
             DataType::TdmsString => 0,
             DataType::Boolean => 1,
             DataType::Timestamp => 16,
diff --git a/src/raw_data/write.rs b/src/raw_data/write.rs
index 4650416..c6e5a54 100644
--- a/src/raw_data/write.rs
+++ b/src/raw_data/write.rs
@@ -33,7 +33,7 @@ impl<D: TdmsStorageType> WriteBlock for &[D] {
     }
 
     fn size(&self) -> usize {
-        std::mem::size_of_val(*self)
+        self.len() * D::SIZE_BYTES
     }
 }
 
-- 
2.43.0


From a038b330b7750a3da2a6de51dc14923da8bdef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:09 +0000
Subject: [PATCH 06/17] fix: track read progress separately for each channel

The progress of every channel was advanced by the number of samples read for
the last one, so reading channels with different buffer lengths, different
skips or different blocks gave wrong or missing samples.
---
 src/file/channel_reader.rs | 62 ++++++++++++++++++++++++++------------
 src/raw_data/mod.rs        |  8 +++++
 2 files changed, 50 insertions(+), 20 deletions(-)

diff --git a/src/file/channel_reader.rs b/src/file/channel_reader.rs
index 60b9d93..7674a6a 100644
--- a/src/file/channel_reader.rs
+++ b/src/file/channel_reader.rs
@@ -38,6 +38,10 @@ impl ChannelProgress {
         self.samples_read >= self.samples_target
     }
 
+    fn remaining(&self) -> usize {
+        self.samples_target.saturating_sub(self.samples_read)
+    }
+
     fn add_samples(&mut self, samples: usize) {
         self.samples_read += samples;
     }
@@ -169,26 +173,40 @@ impl<F: std::io::Read + std::io::Seek> TdmsFile<F> {
                     )
                 })?;
 
+            // Each channel has its own number of samples to read from this block.
+            let block_samples = location
+                .channel_indexes
+                .iter()
+                .zip(channel_progress.iter())
+                .map(|(plan, progress)| match plan {
+                    Some(plan) => {
+                        let available = block
+                            .channel_samples(plan.index)?
+                            .saturating_sub(plan.samples_to_skip);
+                        Ok(progress.remaining().min(available as usize))
+                    }
+                    None => Ok(0),
+                })
+                .collect::<Result<Vec<usize>, TdmsError>>()?;
+
             // Use fast path if no skip needed, slow path otherwise
-            let location_samples_read = if any_skip_needed {
-                let mut channels_with_skip =
-                    get_block_read_data_with_skip(&location, output, &channel_progress);
-                block.read_with_per_channel_skip(&mut self.file, &mut channels_with_skip)?
+            if any_skip_needed {
+                let mut channels_with_skip = get_block_read_data_with_skip(
+                    &location,
+                    output,
+                    &channel_progress,
+                    &block_samples,
+                );
+                block.read_with_per_channel_skip(&mut self.file, &mut channels_with_skip)?;
             } else {
                 let mut channels_to_read =
-                    get_block_read_data(&location, output, &channel_progress);
-                block.read(&mut self.file, &mut channels_to_read)?
+                    get_block_read_data(&location, output, &channel_progress, &block_samples);
+                block.read(&mut self.file, &mut channels_to_read)?;
             };
 
             // Update progress
-            for (plan, progress) in location
-                .channel_indexes
-                .iter()
-                .zip(channel_progress.iter_mut())
-            {
-                if plan.is_some() {
-                    progress.add_samples(location_samples_read);
-                }
+            for (samples, progress) in block_samples.into_iter().zip(channel_progress.iter_mut()) {
+                progress.add_samples(samples);
             }
 
             if all_channels_complete(&channel_progress) {
@@ -205,18 +223,21 @@ fn get_block_read_data<'a, 'b: 'o, 'c: 'o, 'o, D: TdmsStorageType>(
     location: &'a BlockRead,
     output: &'b mut [&'c mut [D]],
     channel_progress: &[ChannelProgress],
+    block_samples: &[usize],
 ) -> Vec<(usize, &'o mut [D])> {
     location
         .channel_indexes
         .iter()
         .zip(output.iter_mut())
-        .zip(channel_progress.iter())
-        .filter_map(|((plan, output), progress)| {
+        .zip(channel_progress.iter().zip(block_samples))
+        .filter_map(|((plan, output), (progress, samples))| {
             match (plan, progress) {
                 // If we have hit our target, ignore this channel.
                 (Some(_), progress) if progress.is_complete() => None,
                 // More to read - include this channel.
-                (Some(plan), progress) => Some((plan.index, &mut output[progress.samples_read..])),
+                (Some(plan), progress) => {
+                    Some((plan.index, &mut output[progress.samples_read..][..*samples]))
+                }
                 _ => None,
             }
         })
@@ -228,20 +249,21 @@ fn get_block_read_data_with_skip<'a, 'b: 'o, 'c: 'o, 'o, D: TdmsStorageType>(
     location: &'a BlockRead,
     output: &'b mut [&'c mut [D]],
     channel_progress: &[ChannelProgress],
+    block_samples: &[usize],
 ) -> Vec<BlockReadChannelConfig<'b, D>> {
     location
         .channel_indexes
         .iter()
         .zip(output.iter_mut())
-        .zip(channel_progress.iter())
-        .filter_map(|((plan, output), progress)| {
+        .zip(channel_progress.iter().zip(block_samples))
+        .filter_map(|((plan, output), (progress, samples))| {
             match (plan, progress) {
                 // If we have hit our target, ignore this channel.
                 (Some(_), progress) if progress.is_complete() => None,
                 // More to read - include this channel with its skip amount.
                 (Some(plan), progress) => Some(BlockReadChannelConfig {
                     channel_index: plan.index,
-                    output: &mut output[progress.samples_read..],
+                    output: &mut output[progress.samples_read..][..*samples],
                     samples_to_skip: plan.samples_to_skip,
                 }),
                 _ => None,
diff --git a/src/raw_data/mod.rs b/src/raw_data/mod.rs
index a437311..7d1e1e5 100644
--- a/src/raw_data/mod.rs
+++ b/src/raw_data/mod.rs
@@ -186,6 +186,14 @@ impl DataBlock {
         Ok(chunk_count)
     }
 
+    /// The number of samples this block holds for the channel at the index.
+    pub fn channel_samples(&self, channel_index: usize) -> Result<u64, TdmsError> {
+        self.channels[channel_index]
+            .number_of_values
+            .checked_mul(self.number_of_chunks()? as u64)
+            .ok_or(TdmsError::ChunkSizeOverflow)
+    }
+
     /// Read the data from the block for the channels specified into the output slices.
     ///
     /// We assume all channels in the block have the same length and so return the maximum
-- 
2.43.0


From 9021657a00cf17632da7618116e69696dee36abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 07/17] fix: apply skips per channel when reading from an
 offset

Skips were applied in request order rather than block order, held back all
channels until the last one was due, ended early in interleaved data, and
divided by zero when the first channel of the block was empty. Sub-blocks are
now skipped at once and reading stops when all outputs are complete.
---
 src/raw_data/contigious_multi_channel_read.rs | 137 ++++--------------
 .../interleaved_multi_channel_read.rs         |   9 +-
 src/raw_data/mod.rs                           |   3 +
 src/raw_data/records.rs                       |  33 +++++
 4 files changed, 74 insertions(+), 108 deletions(-)

diff --git a/src/raw_data/contigious_multi_channel_read.rs b/src/raw_data/contigious_multi_channel_read.rs
index a724010..f3e9a51 100644
--- a/src/raw_data/contigious_multi_channel_read.rs
+++ b/src/raw_data/contigious_multi_channel_read.rs
@@ -57,50 +57,10 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
         mut channels: RecordPlan<D>,
         start_sample: u64,
     ) -> Result<usize, TdmsError> {
-        self.reader.to_file_position(self.block_start)?;
-
-        let total_sub_blocks = self.block_size.get() / channels.block_size() as u64;
-
-        // Calculate how many complete sub-blocks to skip and the remainder
-        let sub_block_length = channels.read_instructions()[0].length as u64;
-        let sub_blocks_to_skip = start_sample / sub_block_length;
-        let remainder_skip = start_sample % sub_block_length;
-
-        let mut length = 0;
-
-        for sub_block_idx in 0..total_sub_blocks {
-            if sub_block_idx < sub_blocks_to_skip {
-                // Skip entire sub-block by seeking past it
-                let skip_bytes = channels.block_size() as i64;
-                self.reader.move_position(skip_bytes)?;
-            } else if sub_block_idx == sub_blocks_to_skip {
-                // First sub-block to read - apply remainder skip
-                for channel in channels.read_instructions() {
-                    if let RecordEntryPlan::Read {
-                        block_skip: skip_first_samples,
-                        ..
-                    } = &mut channel.plan
-                    {
-                        *skip_first_samples = remainder_skip;
-                    }
-                }
-                length += self.read_sub_block(&mut channels)?;
-            } else {
-                for channel in channels.read_instructions() {
-                    if let RecordEntryPlan::Read {
-                        block_skip: skip_first_samples,
-                        ..
-                    } = &mut channel.plan
-                    {
-                        *skip_first_samples = 0;
-                    }
-                }
-                // Subsequent sub-blocks - no skip
-                length += self.read_sub_block(&mut channels)?;
-            }
+        for channel_skip in channels.block_skips_mut() {
+            *channel_skip = start_sample;
         }
-
-        Ok(length)
+        self.read_sub_blocks(channels)
     }
 
     /// Read the data from the block with per-channel skip amounts.
@@ -111,83 +71,46 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
         mut channels: RecordPlan<D>,
         skip_amounts: &[u64],
     ) -> Result<usize, TdmsError> {
-        self.reader.to_file_position(self.block_start)?;
+        for (channel_skip, skip_amount) in channels.block_skips_mut().zip(skip_amounts) {
+            *channel_skip = *skip_amount;
+        }
+        self.read_sub_blocks(channels)
+    }
 
-        let total_sub_blocks = self.block_size.get() / channels.block_size() as u64;
+    /// Work through the sub-blocks until all outputs are complete.
+    ///
+    /// Each channel skips the samples set in the plan across the sub-blocks.
+    fn read_sub_blocks<D: TdmsStorageType>(
+        &mut self,
+        mut channels: RecordPlan<D>,
+    ) -> Result<usize, TdmsError> {
+        let sub_block_size = channels.block_size() as u64;
+        let total_sub_blocks = match sub_block_size {
+            0 => 0,
+            size => self.block_size.get() / size,
+        };
 
-        // Calculate per-channel sub-blocks to skip and remainders
-        let sub_block_length = channels.read_instructions()[0].length as u64;
-        let sub_blocks_to_skip: Vec<u64> = skip_amounts
-            .iter()
-            .map(|&skip| skip / sub_block_length)
-            .collect();
-        let remainder_skips: Vec<u64> = skip_amounts
-            .iter()
-            .map(|&skip| skip % sub_block_length)
-            .collect();
+        self.reader.to_file_position(self.block_start)?;
 
         let mut length = 0;
+        let mut sub_block_idx = 0;
 
-        for sub_block_idx in 0..total_sub_blocks {
-            // Check if any channel needs to read from this sub-block
-            let any_channel_reads = sub_blocks_to_skip.iter().all(|&skip| sub_block_idx >= skip);
-
-            if !any_channel_reads {
-                // Skip entire sub-block
-                let skip_bytes = channels.block_size() as i64;
+        while sub_block_idx < total_sub_blocks && !channels.outputs_complete() {
+            let skipped = channels.skip_sub_blocks(total_sub_blocks - sub_block_idx);
+            if skipped > 0 {
+                // Skip entire sub-blocks by seeking past them
+                let skip_bytes = (skipped * sub_block_size) as i64;
                 self.reader.move_position(skip_bytes)?;
+                sub_block_idx += skipped;
             } else {
-                // Build skip amounts for this sub-block
-                let channel_skip_values =
-                    channels
-                        .read_instructions()
-                        .iter_mut()
-                        .filter_map(|instruction| {
-                            if let RecordEntryPlan::Read {
-                                block_skip: skip_first_samples,
-                                ..
-                            } = &mut instruction.plan
-                            {
-                                Some(skip_first_samples)
-                            } else {
-                                None
-                            }
-                        });
-                for ((blocks_to_skip, remainder_skip), sub_block_skip) in sub_blocks_to_skip
-                    .iter()
-                    .zip(remainder_skips.iter())
-                    .zip(channel_skip_values)
-                {
-                    *sub_block_skip = Self::calculate_skip_for_this_block(
-                        sub_block_idx,
-                        *blocks_to_skip,
-                        *remainder_skip,
-                    );
-                }
                 length += self.read_sub_block(&mut channels)?;
+                sub_block_idx += 1;
             }
         }
 
         Ok(length)
     }
 
-    fn calculate_skip_for_this_block(
-        sub_block_idx: u64,
-        blocks_to_skip: u64,
-        remainder_skip: u64,
-    ) -> u64 {
-        if sub_block_idx == blocks_to_skip {
-            // First sub-block to read for this channel - use remainder
-            remainder_skip
-        } else if sub_block_idx > blocks_to_skip {
-            // Subsequent sub-blocks - no skip
-            0
-        } else {
-            // Should not happen if any_channel_reads is correct
-            0
-        }
-    }
-
     fn read_sub_block<D: TdmsStorageType>(
         &mut self,
         channels: &mut RecordPlan<'_, D>,
@@ -202,6 +125,8 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
                 } => {
                     let skip = (*skip_first_samples).min(read_instruction.length as u64) as usize;
 
+                    *skip_first_samples -= skip as u64;
+
                     let samples_to_read = read_instruction.length.saturating_sub(skip);
 
                     // Skip samples by seeking
diff --git a/src/raw_data/interleaved_multi_channel_read.rs b/src/raw_data/interleaved_multi_channel_read.rs
index e39e548..80312ec 100644
--- a/src/raw_data/interleaved_multi_channel_read.rs
+++ b/src/raw_data/interleaved_multi_channel_read.rs
@@ -68,6 +68,7 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelInterleavedReader<R, T> {
         let mut samples_read = 0;
         for row in 0..rows_to_process {
             let mut any_values_read = false;
+            let mut outputs_complete = true;
             for read_instruction in channels.read_instructions().iter_mut() {
                 match &mut read_instruction.plan {
                     RecordEntryPlan::Read { output, block_skip } => {
@@ -80,16 +81,20 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelInterleavedReader<R, T> {
                             *value = read_value;
                             any_values_read = true;
                         }
+                        outputs_complete &= output.len() == 0;
                     }
                     RecordEntryPlan::Skip(bytes) => {
                         self.reader.move_position(*bytes)?;
                     }
                 };
             }
-            if !any_values_read {
+            // Some rows may only hold values that still need to be skipped.
+            if any_values_read {
+                samples_read += 1;
+            }
+            if outputs_complete {
                 break;
             }
-            samples_read += 1;
         }
 
         Ok(samples_read)
diff --git a/src/raw_data/mod.rs b/src/raw_data/mod.rs
index 7d1e1e5..bb3a513 100644
--- a/src/raw_data/mod.rs
+++ b/src/raw_data/mod.rs
@@ -331,6 +331,9 @@ impl DataBlock {
         reader: &mut (impl Read + Seek),
         channels_to_read: &'b mut [BlockReadChannelConfig<'b, D>],
     ) -> Result<usize, TdmsError> {
+        // The skips are applied in the order of the channels in the block.
+        channels_to_read.sort_by_key(|config| config.channel_index);
+
         // Extract skip amounts first (before mutable borrow)
         let skip_amounts: Vec<u64> = channels_to_read
             .iter()
diff --git a/src/raw_data/records.rs b/src/raw_data/records.rs
index 913cd21..e3e4de8 100644
--- a/src/raw_data/records.rs
+++ b/src/raw_data/records.rs
@@ -92,6 +92,39 @@ impl<'o, 'b: 'o, T: TdmsStorageType> RecordPlan<'o, T> {
         })
     }
 
+    /// Are there no more values required for any of the outputs.
+    pub fn outputs_complete(&self) -> bool {
+        self.0.iter().all(|entry| match &entry.plan {
+            RecordEntryPlan::Read { output, .. } => output.len() == 0,
+            RecordEntryPlan::Skip(_) => true,
+        })
+    }
+
+    /// Skip as many complete sub-blocks (up to the limit) as all of the incomplete
+    /// outputs allow, reducing their remaining skips. Returns the number skipped.
+    pub fn skip_sub_blocks(&mut self, limit: u64) -> u64 {
+        let sub_blocks = self
+            .0
+            .iter()
+            .filter_map(|entry| match &entry.plan {
+                RecordEntryPlan::Read { output, block_skip } if output.len() > 0 => {
+                    block_skip.checked_div(entry.length as u64)
+                }
+                _ => None,
+            })
+            .min()
+            .unwrap_or(0)
+            .min(limit);
+
+        for entry in self.0.iter_mut() {
+            if let RecordEntryPlan::Read { block_skip, .. } = &mut entry.plan {
+                let samples = sub_blocks.saturating_mul(entry.length as u64);
+                *block_skip = block_skip.saturating_sub(samples);
+            }
+        }
+        sub_blocks
+    }
+
     /// Get the size of a single record in bytes.
     ///
     /// ## Panics
-- 
2.43.0


From be02c8420576daedb79f3393642cda965547bb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 08/17] fix: parse object paths by their quoted names

Names containing the separator were split apart, so their groups and channels
were not listed and asking for the channel name panicked, as did parsing a
path with a lone quote.
---
 src/paths.rs | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/paths.rs b/src/paths.rs
index f22f764..cd0867f 100644
--- a/src/paths.rs
+++ b/src/paths.rs
@@ -33,9 +33,7 @@ fn parse_path(path: ObjectPath<'_>) -> Result<(Option<&str>, Option<&str>), Tdms
         return Ok((None, None));
     }
 
-    let mut parts = path
-        .split('/')
-        .skip(1)
+    let mut parts = split_path(path)
         .map(|p| parse_name(p).ok_or_else(|| TdmsError::InvalidObjectPath(path.to_string())));
     let group = invert(parts.next())?;
     let channel = invert(parts.next())?;
@@ -48,13 +46,30 @@ fn parse_path(path: ObjectPath<'_>) -> Result<(Option<&str>, Option<&str>), Tdms
     Ok((group, channel))
 }
 
+/// Split the path into its quoted names.
+///
+/// A separator inside of the quotes is part of the name.
+fn split_path(path: ObjectPath<'_>) -> impl Iterator<Item = &str> {
+    let mut in_quotes = false;
+    path.split(move |c| {
+        if c == '\'' {
+            in_quotes = !in_quotes;
+        }
+        c == '/' && !in_quotes
+    })
+    .skip(1)
+}
+
 //expects name with quotes and removes the quotes.
 fn parse_name(name: &str) -> Option<&str> {
-    if !name.starts_with('\'') || !name.ends_with('\'') {
+    let name = name.strip_prefix('\'')?.strip_suffix('\'')?;
+
+    // Any quotes in the name itself must be doubled.
+    if name.split("''").any(|part| part.contains('\'')) {
         return None;
     }
 
-    Some(&name[1..name.len() - 1])
+    Some(name)
 }
 
 /// Get the group name for the path, if one exists.
@@ -118,13 +133,7 @@ impl PropertyPath {
 
     /// Get the levels of the path structure
     fn path_levels(&self) -> impl Iterator<Item = &str> {
-        self.0.split('/').skip(1).filter_map(|value| {
-            if value.starts_with("'") && value.ends_with("'") {
-                Some(&value[1..value.len() - 1])
-            } else {
-                None
-            }
-        })
+        split_path(&self.0).filter_map(parse_name)
     }
 
     /// Get the group name from the path, if there is one.
@@ -164,7 +173,7 @@ impl PropertyPath {
     }
 
     fn path_depth(&self) -> usize {
-        self.0.chars().filter(|c| *c == '/').count()
+        self.path_levels().count()
     }
 
     fn is_channel(&self) -> bool {
-- 
2.43.0


From 1b0913c72030c983121d9bbace9acd0639eda5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:58 +0000
Subject: [PATCH 09/17] fix: keep the exact text when converting an object path

The names were escaped a second time, so channels listed from files that
contain escaped quotes could not be found again.
---
 src/paths.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/paths.rs b/src/paths.rs
index cd0867f..5fc24a1 100644
--- a/src/paths.rs
+++ b/src/paths.rs
@@ -197,13 +197,9 @@ impl<'a> TryFrom<ObjectPath<'a>> for PropertyPath {
     type Error = TdmsError;
 
     fn try_from(value: ObjectPath) -> Result<Self, Self::Error> {
-        let parsed = parse_path(value)?;
-        match parsed {
-            (None, None) => Ok(Self::file()),
-            (Some(group), None) => Ok(Self::group(group)),
-            (Some(group), Some(channel)) => Ok(Self::channel(group, channel)),
-            _ => unreachable!(),
-        }
+        // The names in an object path are already escaped so must be kept as they are.
+        parse_path(value)?;
+        Ok(Self(value.to_string()))
     }
 }
 
-- 
2.43.0


From 29a78a32071f80eac9194952342cacef2c5b5600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:01 +0000
Subject: [PATCH 10/17] fix: do not list channels of groups that merely share a
 path prefix

---
 src/file/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/file/mod.rs b/src/file/mod.rs
index 7f37a88..86202c6 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -147,7 +147,12 @@ impl<F: Read + Seek> TdmsFile<F> {
         &'a self,
         group: &'b PropertyPath,
     ) -> impl Iterator<Item = ChannelPath> + 'c {
-        let paths = self.index.paths_starting_with(group.path());
+        // The prefix alone can also match a longer group name with an escaped quote.
+        let paths = self.index.paths_starting_with(group.path()).filter(|path| {
+            group
+                .group_name()
+                .is_none_or(|name| path_group_name(path) == Some(name))
+        });
         paths.filter_map(|path| ChannelPath::try_from(path).ok())
     }
 }
-- 
2.43.0


From 9574fdd81d3654cd372d79737109ca2a563d3676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 11/17] fix: write new segments where the index expects them

When the last segment is incomplete the end of the file is not where the next
segment has to start, so appended data was lost or could not be opened.
---
 src/file/mod.rs  | 6 ++++--
 src/index/mod.rs | 5 +++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/file/mod.rs b/src/file/mod.rs
index 86202c6..5a4788d 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -184,8 +184,10 @@ impl<F: Write + Read + Seek> TdmsFile<F> {
     pub fn writer(
         &mut self,
     ) -> Result<TdmsFileWriter<'_, F, LittleEndianWriter<&mut F>>, TdmsError> {
-        //make sure we are at the end.
-        self.file.seek(SeekFrom::End(0))?;
+        //make sure we are at the end of the segments. The end of the file may differ
+        //if the last segment was not completely written.
+        self.file
+            .seek(SeekFrom::Start(self.index.next_segment_start()))?;
         Ok(TdmsFileWriter::new(
             &mut self.index,
             LittleEndianWriter::from_writer(&mut self.file),
diff --git a/src/index/mod.rs b/src/index/mod.rs
index e79241b..034cb09 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -126,6 +126,11 @@ impl Index {
         Self::default()
     }
 
+    /// The position in the file at which the next segment starts.
+    pub fn next_segment_start(&self) -> u64 {
+        self.next_segment_start
+    }
+
     /// Get all of the properties for the given object.
     ///
     /// Returns none if the object does not exist.
-- 
2.43.0


From 09ef8204e19c5c87d0347fe57cdbdfa9564ad469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 12/17] fix: check block addresses and lengths of corrupt files
 for overflow

---
 src/index/mod.rs                               |  2 +-
 src/raw_data/interleaved_multi_channel_read.rs |  5 ++++-
 src/raw_data/mod.rs                            | 14 +++++++++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index 034cb09..515d005 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -177,7 +177,7 @@ impl Index {
                 .data_locations
                 .iter()
                 .map(|location| location.number_of_samples)
-                .sum()
+                .fold(0, u64::saturating_add)
         })
     }
 
diff --git a/src/raw_data/interleaved_multi_channel_read.rs b/src/raw_data/interleaved_multi_channel_read.rs
index 80312ec..f205345 100644
--- a/src/raw_data/interleaved_multi_channel_read.rs
+++ b/src/raw_data/interleaved_multi_channel_read.rs
@@ -53,7 +53,10 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelInterleavedReader<R, T> {
 
         // Skip entire rows
         if min_skip > 0 {
-            let skip_bytes = min_skip as i64 * channels.row_size() as i64;
+            let skip_bytes = i64::try_from(min_skip)
+                .ok()
+                .and_then(|skip| skip.checked_mul(channels.row_size() as i64))
+                .ok_or(TdmsError::SegmentAddressOverflow)?;
             self.reader.move_position(skip_bytes)?;
         }
 
diff --git a/src/raw_data/mod.rs b/src/raw_data/mod.rs
index bb3a513..2b44829 100644
--- a/src/raw_data/mod.rs
+++ b/src/raw_data/mod.rs
@@ -142,8 +142,20 @@ impl DataBlock {
             return Err(TdmsError::NoActiveChannelsInDataBlock);
         }
 
+        let start = segment
+            .raw_data_offset
+            .checked_add(LEAD_IN_BYTES)
+            .and_then(|offset| offset.checked_add(segment_start))
+            .ok_or(TdmsError::SegmentAddressOverflow)?;
+
+        // Seeking is limited to signed positions so no file can extend beyond this.
+        match start.checked_add(length.get()) {
+            Some(end) if i64::try_from(end).is_ok() => {}
+            _ => return Err(TdmsError::SegmentAddressOverflow),
+        }
+
         Ok(DataBlock {
-            start: segment.raw_data_offset + LEAD_IN_BYTES + segment_start,
+            start,
             length,
             layout,
             channels: active_channels_meta,
-- 
2.43.0


From 80252d0db7ccc63d21b2adefd5f2273996e35efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 13/17] fix: refuse to write string samples instead of
 corrupting the file

---
 src/file/file_writer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index d81b013..d521594 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -1,6 +1,6 @@
 use crate::error::TdmsError;
 use crate::index::{DataFormat, Index};
-use crate::io::data_types::TdmsStorageType;
+use crate::io::data_types::{DataType, TdmsStorageType};
 use crate::io::writer::TdmsWriter;
 use crate::meta_data::{MetaData, ObjectMetaData, RawDataIndex, Segment, ToC};
 use crate::paths::ChannelPath;
@@ -114,6 +114,10 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
         values: &'b [D],
         layout: DataLayout,
     ) -> Result<Self, TdmsError> {
+        // The string layout (offsets and total size) is not supported for channel data.
+        if D::NATURAL_TYPE == DataType::TdmsString {
+            return Err(TdmsError::UnsupportedType(D::NATURAL_TYPE));
+        }
         let channel_count = NonZeroUsize::new(channels.len()).ok_or(TdmsError::NoChannels)?;
         let raw_data = MultiChannelSlice::from_slice(values, channel_count)?;
         let data_structures = raw_data
-- 
2.43.0


From cd0e24f4a8e2ba603c8118ffbebdec1578eaf150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 14/17] fix: parse the total size of string channels and refuse
 to read around them

String channels have an extra size field in their raw data index. It was not
consumed, so the rest of the metadata was misread. Their data is still not
supported, so reading segments that contain them is an error.
---
 src/meta_data.rs        | 6 +++++-
 src/raw_data/records.rs | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/meta_data.rs b/src/meta_data.rs
index c6138c4..69b355e 100644
--- a/src/meta_data.rs
+++ b/src/meta_data.rs
@@ -286,10 +286,14 @@ impl TdmsMetaData for RawDataIndex {
                 let data_type: DataType = reader.read_meta()?;
                 let _array_dims: u32 = reader.read_value()?; //always 1.
                 let number_of_values: u64 = reader.read_value()?;
+                let total_size_bytes = match data_type {
+                    DataType::TdmsString => Some(reader.read_value()?),
+                    _ => None,
+                };
                 let meta = RawDataMeta {
                     data_type,
                     number_of_values,
-                    total_size_bytes: None,
+                    total_size_bytes,
                 };
                 RawDataIndex::RawData(meta)
             }
diff --git a/src/raw_data/records.rs b/src/raw_data/records.rs
index e3e4de8..5871d10 100644
--- a/src/raw_data/records.rs
+++ b/src/raw_data/records.rs
@@ -57,6 +57,11 @@ impl<'o, 'b: 'o, T: TdmsStorageType> RecordPlan<'o, T> {
         channels: &[RawDataMeta],
         outputs: &'b mut [(usize, &'b mut [T])],
     ) -> Result<RecordPlan<'o, T>, TdmsError> {
+        // The positions are unknown when there are values of variable length.
+        if let Some(variable) = channels.iter().find(|c| c.total_size_bytes.is_some()) {
+            return Err(TdmsError::UnsupportedType(variable.data_type));
+        }
+
         let mut plan = Self::build_base_record(channels);
 
         validate_types_match(outputs, channels)?;
-- 
2.43.0


From a8163d7136ae3eef5fb9be6e1377dcea9287c993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:51 +0000
Subject: [PATCH 15/17] fix: use the codes of the format for floats with unit

The codes follow 0x19 (single float with unit): 0x1A for doubles and 0x1B for
extended floats. Files with them were refused as having an unknown type.
---
 src/io/data_types/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/data_types/mod.rs b/src/io/data_types/mod.rs
index 791c610..14c7c4d 100644
--- a/src/io/data_types/mod.rs
+++ b/src/io/data_types/mod.rs
@@ -51,8 +51,8 @@ pub enum DataType {
     DoubleFloat = 10,
     ExtendedFloat = 11,
     SingleFloatWithUnit = 0x19,
-    DoubleFloatWithUnit = 12,
-    ExtendedFloatWithUnit = 13,
+    DoubleFloatWithUnit = 0x1A,
+    ExtendedFloatWithUnit = 0x1B,
     TdmsString = 0x20,
     Boolean = 0x21,
     Timestamp = 0x44,
-- 
2.43.0


From b8fddade2cf004d696c6f706ec539da854f9cfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 16/17] fix: report failing seeks while opening a file

---
 src/file/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/file/mod.rs b/src/file/mod.rs
index 5a4788d..547b047 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -5,7 +5,7 @@ mod file_writer;
 
 use std::{
     fs::File,
-    io::{Read, Seek, SeekFrom, Write},
+    io::{ErrorKind, Read, Seek, SeekFrom, Write},
     path::Path,
 };
 
@@ -63,8 +63,11 @@ fn build_index(file: &mut (impl Read + Seek)) -> Result<Index, TdmsError> {
         match Segment::read(file) {
             Ok(segment) => {
                 let next_segment = index.add_segment(segment)?;
-                if file.seek(SeekFrom::Start(next_segment)).is_err() {
-                    break;
+                match file.seek(SeekFrom::Start(next_segment)) {
+                    Ok(_) => {}
+                    // Beyond what the stream can address so nothing can follow.
+                    Err(e) if e.kind() == ErrorKind::InvalidInput => break,
+                    Err(e) => return Err(e.into()),
                 }
             }
             Err(TdmsError::EndOfFile) => break,
-- 
2.43.0


From 83f1cd48cb5fabcfadf193f29ab709ba1277d058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:53 +0000
Subject: [PATCH 17/17] fix: fill every buffer when a channel is read into
 several at once

---
 src/file/channel_reader.rs | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/file/channel_reader.rs b/src/file/channel_reader.rs
index 7674a6a..56604e8 100644
--- a/src/file/channel_reader.rs
+++ b/src/file/channel_reader.rs
@@ -1,6 +1,7 @@
 use crate::paths::ChannelPath;
 use crate::raw_data::BlockReadChannelConfig;
 use crate::{TdmsFile, error::TdmsError, index::DataLocation, io::data_types::TdmsStorageType};
+use std::collections::HashSet;
 
 #[derive(Eq, PartialEq, Clone, Debug)]
 struct ChannelReadPlan {
@@ -136,10 +137,34 @@ impl<F: std::io::Read + std::io::Seek> TdmsFile<F> {
             })
             .collect::<Result<Vec<&[DataLocation]>, TdmsError>>()?;
 
-        let start_skips: Vec<u64> = vec![start; channels.len()];
-        let plan = read_plan(&channel_positions[..], &start_skips);
+        // A block is read into a single output per channel so any repeats of a
+        // channel are read on their own afterwards.
+        let mut seen = HashSet::new();
+        let mut unique_positions = Vec::new();
+        let mut unique_output = Vec::new();
+        let mut repeated = Vec::new();
+        for ((channel, positions), output) in channels
+            .iter()
+            .zip(channel_positions)
+            .zip(output.iter_mut())
+        {
+            if seen.insert(channel.as_ref().path()) {
+                unique_positions.push(positions);
+                unique_output.push(&mut **output);
+            } else {
+                repeated.push((channel.as_ref(), &mut **output));
+            }
+        }
 
-        self.execute_read_plan(plan, output)
+        let start_skips: Vec<u64> = vec![start; unique_positions.len()];
+        let plan = read_plan(&unique_positions[..], &start_skips);
+
+        self.execute_read_plan(plan, &mut unique_output)?;
+
+        for (channel, output) in repeated {
+            self.read_channel_from(channel, start, output)?;
+        }
+        Ok(())
     }
 
     /// Execute a read plan, reading data from blocks into the output slices.
-- 
2.43.0

