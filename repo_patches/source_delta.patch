From 3eb00b63f6585efa2b23bc8534a2fd92272f5b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 01/20] fix: do not panic on file leaf blocks without filesize

A leaf without the optional filesize was accepted and its end computed from
the data, but its file size was then unwrapped.
---
 src/file/reader.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/file/reader.rs b/src/file/reader.rs
index f23f419..5523d7a 100644
--- a/src/file/reader.rs
+++ b/src/file/reader.rs
@@ -130,10 +130,11 @@ impl<'a> FileReader<'a> {
                 .into());
             }
 
+            // can unwrap because `data` is all of the data when there are no links
+            let file_size = inner.data.filesize.unwrap_or(data.len() as u64);
+
             let end = if inner.links.is_empty() {
-                // can unwrap because `data` is all of the data
-                let filesize = inner.data.filesize.unwrap_or(data.len() as u64);
-                Ending::Chunk(offset + filesize)
+                Ending::Chunk(offset + file_size)
             } else {
                 match inner.data.filesize {
                     Some(filesize) => Ending::TreeCoverage(offset + filesize),
@@ -148,7 +149,7 @@ impl<'a> FileReader<'a> {
                 data,
                 blocksizes: inner.data.blocksizes,
                 metadata,
-                file_size: inner.data.filesize.unwrap(),
+                file_size,
             })
         }
     }
-- 
2.43.0


From f48bc09f3ee7c1b8ac916718984728894d432866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 02/20] fix: reject file blocks whose declared sizes overflow
 u64

Offsets were summed from untrusted filesize and blocksizes without checking,
which panics (or wraps around in release builds).
---
 src/file/reader.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/file/reader.rs b/src/file/reader.rs
index 5523d7a..1c00c99 100644
--- a/src/file/reader.rs
+++ b/src/file/reader.rs
@@ -133,11 +133,23 @@ impl<'a> FileReader<'a> {
             // can unwrap because `data` is all of the data when there are no links
             let file_size = inner.data.filesize.unwrap_or(data.len() as u64);
 
+            // the range of this block and the ranges of its links must be representable
+            let covered = offset
+                .checked_add(file_size)
+                .ok_or(FileError::TreeExpandsOnLinks)?;
+
+            inner
+                .data
+                .blocksizes
+                .iter()
+                .try_fold(offset, |base, size| base.checked_add(*size))
+                .ok_or(FileError::TreeExpandsOnLinks)?;
+
             let end = if inner.links.is_empty() {
-                Ending::Chunk(offset + file_size)
+                Ending::Chunk(covered)
             } else {
                 match inner.data.filesize {
-                    Some(filesize) => Ending::TreeCoverage(offset + filesize),
+                    Some(_) => Ending::TreeCoverage(covered),
                     None => return Err(FileError::IntermediateNodeWithoutFileSize.into()),
                 }
             };
-- 
2.43.0


From 10fc5c2754a88fed927c08e52fcaa9190238b5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 03/20] fix: do not slice past the end of a file block shorter
 than declared

The target range was translated using the range the parent block declares, which
can be longer than the content of the leaf.
---
 src/file/visit.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file/visit.rs b/src/file/visit.rs
index 4d96275..cbac433 100644
--- a/src/file/visit.rs
+++ b/src/file/visit.rs
@@ -273,7 +273,8 @@ fn target_slice<'a>(content: &'a [u8], block: &Range<u64>, target: &Range<u64>)
             end = start + (target.end - target.start) as usize;
         }
 
-        &content[start..end]
+        // the block can have less content than the parent block declared for it
+        &content[min(start, content.len())..min(end, content.len())]
     }
 }
 
-- 
2.43.0


From 579b0335139333a9d147da72a3535772484983e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 04/20] fix: end the file visit when no links are left to be
 visited

When the last pending block only had links outside of the target range the
returned FileVisit had no pending links, and its pending_links panicked.
---
 src/file/visit.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/file/visit.rs b/src/file/visit.rs
index cbac433..c53b69e 100644
--- a/src/file/visit.rs
+++ b/src/file/visit.rs
@@ -189,8 +189,14 @@ impl FileVisit {
                 // reverse to keep the next link we need to traverse as last, where pop() operates.
                 (&mut self.pending[before..]).reverse();
 
-                self.state = traversal;
-                Ok((&[][..], Some(self)))
+                if !self.pending.is_empty() {
+                    self.state = traversal;
+                    Ok((&[][..], Some(self)))
+                } else {
+                    // none of the links were in the target range
+                    *cache = Some(self.pending.into());
+                    Ok((&[][..], None))
+                }
             }
         }
     }
-- 
2.43.0


From b17f8366b5f5ff0c9efbedf3900e25eedd7112ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 05/20] fix: return an error when a later block of a file
 cannot be parsed

FileVisit::continue_walk parses the blocks after the first one, so the conversion
of its parsing failures was reachable and panicked the Walker.
---
 src/walk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/walk.rs b/src/walk.rs
index a3daa93..e011bd1 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -689,7 +689,8 @@ impl From<FileReadFailed> for Error {
         match e {
             File(e) => Error::File(e),
             UnexpectedType(ut) => Error::UnexpectedType(ut),
-            Read(_) => unreachable!("FileVisit does not parse any blocks"),
+            Read(Some(e)) => Error::UnixFsParsingFailed(e),
+            Read(None) => Error::EmptyDagPbNode,
             InvalidCid(l) => Error::InvalidCid(l),
         }
     }
-- 
2.43.0


From 49e0291c08ac30dc696b55cb1a1666bc78ceb46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 06/20] fix: report the Cid of the bucket directly following
 the root bucket

The Bucket event had the Cid of the root of the walk instead.
---
 src/walk.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/walk.rs b/src/walk.rs
index e011bd1..4eb438b 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -466,6 +466,7 @@ impl InnerEntry {
         use InnerKind::*;
         match self.kind {
             BucketAtRoot => {
+                self.cid = cid;
                 assert_eq!(self.depth, depth, "{:?}", self.path);
             }
             RootBucket | Bucket | File(None, _) | Symlink => {
-- 
2.43.0


From e590e299e09dfab6ef162a9c11057e88ee317872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 07/20] fix: allow a bucket to follow a directory inside a
 sharded directory

Walking a HAMT sharded directory which has a plain directory linked before a bucket
panicked with unreachable code.
---
 src/walk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/walk.rs b/src/walk.rs
index 4eb438b..754434d 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -469,7 +469,7 @@ impl InnerEntry {
                 self.cid = cid;
                 assert_eq!(self.depth, depth, "{:?}", self.path);
             }
-            RootBucket | Bucket | File(None, _) | Symlink => {
+            RootBucket | Bucket | Directory | File(None, _) | Symlink => {
                 self.cid = cid;
                 self.kind = Bucket;
 
-- 
2.43.0


From b74d389a61de1c7355dbfd834f11afcc347b5c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 08/20] fix: wrap_node_data with an empty Data at the end of
 the block

The range of such empty slice starts at the end of the block, which was not
accepted as being inside of it.
---
 src/dagpb.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dagpb.rs b/src/dagpb.rs
index 6d24139..40d9b2a 100644
--- a/src/dagpb.rs
+++ b/src/dagpb.rs
@@ -50,7 +50,9 @@ fn subslice_to_range(full: &[u8], sub: &[u8]) -> Option<Range<usize>> {
         //
         // if there are two slices of a continuous chunk, [A|B] we need to make sure B will not be
         // calculated as subslice of A
-        .and_then(|start| if start >= max { None } else { Some(start) })
+        //
+        // the start can be at the end of the full slice only for an empty slice
+        .and_then(|start| if start > max - amt { None } else { Some(start) })
         .map(|start| start..(start + amt))
 }
 
-- 
2.43.0


From 8db74f950764a3bb128bb4f4b101b3b4ce880b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 09/20] fix: do not panic on sharded links without an ascii
 prefix

The name of a link can have a character crossing the byte offset 2.
---
 src/dir/sharded_lookup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dir/sharded_lookup.rs b/src/dir/sharded_lookup.rs
index 57aceb1..75a3e16 100644
--- a/src/dir/sharded_lookup.rs
+++ b/src/dir/sharded_lookup.rs
@@ -169,7 +169,7 @@ impl<'needle> ShardedLookup<'needle> {
         for (i, link) in iter.enumerate() {
             let name = link.Name.as_deref().unwrap_or_default();
 
-            if name.len() > 2 && &name[2..] == needle {
+            if name.len() > 2 && name.get(2..) == Some(needle) {
                 if let Some(first) = found.take() {
                     return Err(MultipleMatchingLinks::from((first, (i, link))).into());
                 } else {
-- 
2.43.0


From f8963481da1d4e622648d2371372f042e7c22da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 10/20] fix: end the tree iteration after a failed directory

Continuing the iteration after an error panicked on the missing link in the parent.
---
 src/dir/builder/iter.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dir/builder/iter.rs b/src/dir/builder/iter.rs
index ee18b25..6222f56 100644
--- a/src/dir/builder/iter.rs
+++ b/src/dir/builder/iter.rs
@@ -235,7 +235,11 @@ impl PostOrderIterator {
                         &self.opts.block_size_limit,
                     ) {
                         Ok(leaf) => leaf,
-                        Err(e) => return Some(Err(e)),
+                        Err(e) => {
+                            // the parents cannot be constructed without this directory
+                            self.pending.clear();
+                            return Some(Err(e));
+                        }
                     };
 
                     self.cid = Some(leaf.link);
@@ -282,7 +286,11 @@ impl PostOrderIterator {
                         &self.opts.block_size_limit,
                     ) {
                         Ok(leaf) => leaf,
-                        Err(e) => return Some(Err(e)),
+                        Err(e) => {
+                            // the parents cannot be constructed without this directory
+                            self.pending.clear();
+                            return Some(Err(e));
+                        }
                     };
 
                     self.cid = Some(leaf.link);
-- 
2.43.0


From e7fbcb14774dc02644bea99fd9c52cfe2e59913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 11/20] fix: allow setting metadata for the existing root level
 entry

set_metadata on the already existing only root level directory was reported as
TooManyRootLevelEntries and a repeated put_link to it was not as DuplicatePath.
---
 src/dir/builder/buffered.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dir/builder/buffered.rs b/src/dir/builder/buffered.rs
index 4ef7f94..decb960 100644
--- a/src/dir/builder/buffered.rs
+++ b/src/dir/builder/buffered.rs
@@ -122,7 +122,10 @@ impl BufferingTreeBuilder {
             }
 
             // our first level can be full, depending on the options given
-            let full = depth == 0 && !self.opts.wrap_with_directory && !dir_builder.is_empty();
+            let full = depth == 0
+                && !self.opts.wrap_with_directory
+                && !dir_builder.is_empty()
+                && !dir_builder.nodes.contains_key(next);
 
             if last {
                 let mut next_id = Some(*counter);
-- 
2.43.0


From ea3b6d5fb17007ffad542f1bf14260ea7aca7773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 12/20] fix: deny balanced collectors with the branching factor
 of one

Finishing such import of more than one chunk never completed.
---
 src/file/adder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file/adder.rs b/src/file/adder.rs
index 3ab0384..0b9c5e9 100644
--- a/src/file/adder.rs
+++ b/src/file/adder.rs
@@ -424,7 +424,8 @@ impl From<BalancedCollector> for Collector {
 impl BalancedCollector {
     /// Configure Balanced collector with the given branching factor.
     pub fn with_branching_factor(branching_factor: usize) -> Self {
-        assert!(branching_factor > 0);
+        // with a single link per block the number of links would never decrease
+        assert!(branching_factor > 1);
 
         Self {
             branching_factor,
-- 
2.43.0


From e4f2feb146fbaf2b3403fdcf948e9f546b63436e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 13/20] fix: return an error for directory links which cannot
 be path segments

Walking a directory or a HAMT shard linking with an empty name, a name containing a
slash or, for shards, a name without the two character prefix panicked. A link named
as a single dot does not extend the path, which confused the paths of its siblings.
---
 src/walk.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/walk.rs b/src/walk.rs
index 754434d..d9f1c63 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -33,18 +33,18 @@ fn convert_link(
     nested_depth: usize,
     nth: usize,
     link: PBLink<'_>,
-) -> Result<(Cid, String, usize), InvalidCidInLink> {
+) -> Result<(Cid, String, usize), Error> {
     let hash = link.Hash.as_deref().unwrap_or_default();
     let cid = match Cid::try_from(hash) {
         Ok(cid) => cid,
-        Err(e) => return Err(InvalidCidInLink::from((nth, link, e))),
+        Err(e) => return Err(InvalidCidInLink::from((nth, link, e)).into()),
     };
     let name = match link.Name {
-        Some(Cow::Borrowed(s)) if !s.is_empty() => s.to_owned(),
-        None | Some(Cow::Borrowed(_)) => todo!("link cannot be empty"),
+        Some(Cow::Borrowed(s)) if is_path_segment(s) => s.to_owned(),
+        None => return Err(Error::InvalidLinkName(nth, String::new())),
+        Some(Cow::Borrowed(s)) => return Err(Error::InvalidLinkName(nth, s.to_owned())),
         Some(Cow::Owned(_s)) => unreachable!("FlatUnixFs is never transformed to owned"),
     };
-    assert!(!name.contains('/'));
     Ok((cid, name, nested_depth))
 }
 
@@ -54,22 +54,29 @@ fn convert_sharded_link(
     sibling_depth: usize,
     nth: usize,
     link: PBLink<'_>,
-) -> Result<(Cid, String, usize), InvalidCidInLink> {
+) -> Result<(Cid, String, usize), Error> {
     let hash = link.Hash.as_deref().unwrap_or_default();
     let cid = match Cid::try_from(hash) {
         Ok(cid) => cid,
-        Err(e) => return Err(InvalidCidInLink::from((nth, link, e))),
+        Err(e) => return Err(InvalidCidInLink::from((nth, link, e)).into()),
     };
     let (depth, name) = match link.Name {
-        Some(Cow::Borrowed(s)) if s.len() > 2 => (nested_depth, s[2..].to_owned()),
         Some(Cow::Borrowed(s)) if s.len() == 2 => (sibling_depth, String::from("")),
-        None | Some(Cow::Borrowed(_)) => todo!("link cannot be empty"),
+        None => return Err(Error::InvalidLinkName(nth, String::new())),
+        Some(Cow::Borrowed(s)) => match s.get(2..) {
+            Some(name) if is_path_segment(name) => (nested_depth, name.to_owned()),
+            _ => return Err(Error::InvalidLinkName(nth, s.to_owned())),
+        },
         Some(Cow::Owned(_s)) => unreachable!("FlatUnixFs is never transformed to owned"),
     };
-    assert!(!name.contains('/'));
     Ok((cid, name, depth))
 }
 
+/// Returns `true` if the name extends a path with a single component.
+fn is_path_segment(name: &str) -> bool {
+    !name.is_empty() && name != "." && !name.contains('/')
+}
+
 impl Walker {
     /// Returns a new instance of a walker, ready to start from the given `Cid`.
     pub fn new(cid: Cid, root_name: String) -> Walker {
@@ -657,6 +664,9 @@ pub enum Error {
     /// dag-pb link could not be converted to a Cid
     InvalidCid(InvalidCidInLink),
 
+    /// Name of the nth directory or HAMT shard link cannot be used as a path segment
+    InvalidLinkName(usize, String),
+
     /// A File has an invalid structure
     File(FileError),
 
@@ -720,6 +730,7 @@ impl fmt::Display for Error {
             UnixFsParsingFailed(e) => write!(fmt, "failed to parse the inner UnixFs: {}", e),
             EmptyDagPbNode => write!(fmt, "failed to parse the inner UnixFs: no data"),
             InvalidCid(e) => write!(fmt, "link contained an invalid Cid: {}", e),
+            InvalidLinkName(nth, name) => write!(fmt, "invalid name in link #{}: {:?}", nth, name),
             File(e) => write!(fmt, "invalid file: {}", e),
             UnsupportedDirectory(udp) => write!(fmt, "unsupported directory: {}", udp),
             UnsupportedHAMTShard(se) => write!(fmt, "unsupported hamtshard: {}", se),
-- 
2.43.0


From bddf470f8708763408cdea84f307ac41913bed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 14/20] fix: return an error for bucket links to other than
 HAMT shards

These panicked or were reported with the path of the wrong directory.
---
 src/walk.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/walk.rs b/src/walk.rs
index d9f1c63..62eff0f 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -160,6 +160,13 @@ impl Walker {
         let flat = FlatUnixFs::try_from(bytes)?;
         let metadata = Metadata::from(&flat.data);
 
+        // below the root only the buckets have an empty name
+        let is_bucket = current.is_some() && matches!(next, Some((_, name, _)) if name.is_empty());
+
+        if is_bucket && flat.data.Type != UnixFsType::HAMTShard {
+            return Err(Error::UnexpectedType(flat.data.Type.into()));
+        }
+
         match flat.data.Type {
             UnixFsType::Directory => {
                 let flat = crate::dir::check_directory_supported(flat)?;
-- 
2.43.0


From ce682584ae3552ab2e27612d7588b5f3399d4cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 15/20] fix: write the metadata of directories set on the tree
 builder

The metadata given to BufferingTreeBuilder::set_metadata was stored but never ended
up in the directory blocks.
---
 src/dir/builder/dir_builder.rs |  2 +-
 src/dir/builder/iter.rs        | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/dir/builder/dir_builder.rs b/src/dir/builder/dir_builder.rs
index 406b74e..12b7910 100644
--- a/src/dir/builder/dir_builder.rs
+++ b/src/dir/builder/dir_builder.rs
@@ -12,7 +12,7 @@ pub(super) struct DirBuilder {
     /// Immediate files, symlinks or directories in this directory
     pub nodes: BTreeMap<String, Entry>,
     /// Metadata for this directory
-    metadata: Metadata,
+    pub metadata: Metadata,
     /// Id of the parent; None for the root node
     pub parent_id: Option<u64>,
     /// Internal id, used for propagating Cids back from children during post order visit.
diff --git a/src/dir/builder/iter.rs b/src/dir/builder/iter.rs
index 6222f56..ea0f9d6 100644
--- a/src/dir/builder/iter.rs
+++ b/src/dir/builder/iter.rs
@@ -1,4 +1,5 @@
 use crate::pb::DAG_PB;
+use crate::Metadata;
 
 use super::{
     CustomFlatUnixFs, DirBuilder, Entry, Leaf, NamedLeaf, TreeConstructionFailed, TreeOptions,
@@ -58,6 +59,7 @@ enum Visited {
         /// Leaves will be stored directly in this field when there are no DirBuilder descendants,
         /// in the `PostOrderIterator::persisted_cids` otherwise.
         leaves: LeafStorage,
+        metadata: Metadata,
     },
     PostRoot {
         leaves: LeafStorage,
@@ -82,10 +84,11 @@ impl PostOrderIterator {
 
     fn render_directory(
         links: &[Option<NamedLeaf>],
+        metadata: &Metadata,
         buffer: &mut Vec<u8>,
         block_size_limit: &Option<u64>,
     ) -> Result<Leaf, TreeConstructionFailed> {
-        use crate::pb::{UnixFs, UnixFsType};
+        use crate::pb::{unixfs::UnixTime, UnixFs, UnixFsType};
         use quick_protobuf::{BytesWriter, MessageWrite, Writer};
 
         // FIXME: ideas on how to turn this into a HAMT sharding on some heuristic. we probably
@@ -106,6 +109,11 @@ impl PostOrderIterator {
             links,
             data: UnixFs {
                 Type: UnixFsType::Directory,
+                mode: metadata.mode(),
+                mtime: metadata.mtime().map(|(seconds, nanos)| UnixTime {
+                    Seconds: seconds,
+                    FractionalNanoseconds: Some(nanos).filter(|nanos| *nanos != 0),
+                }),
                 ..Default::default()
             },
         };
@@ -214,6 +222,7 @@ impl PostOrderIterator {
                         name,
                         depth,
                         leaves,
+                        metadata: node.metadata,
                         index,
                     });
 
@@ -223,6 +232,7 @@ impl PostOrderIterator {
                     parent_id,
                     name,
                     leaves,
+                    metadata,
                     index,
                     ..
                 } => {
@@ -231,6 +241,7 @@ impl PostOrderIterator {
 
                     let leaf = match Self::render_directory(
                         &leaves,
+                        &metadata,
                         buffer,
                         &self.opts.block_size_limit,
                     ) {
@@ -282,6 +293,8 @@ impl PostOrderIterator {
 
                     let leaf = match Self::render_directory(
                         &leaves,
+                        // the wrapping directory cannot be named for set_metadata
+                        &Metadata::default(),
                         buffer,
                         &self.opts.block_size_limit,
                     ) {
-- 
2.43.0


From 89f2f60c0dc345510bca4e5f16b102b895b09ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 16/20] fix: keep reporting the total file size during a file
 visit

After continuing to a block FileVisit::file_size returned the filesize of that
subtree or leaf instead of the documented total size of the file.
---
 src/file/reader.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/file/reader.rs b/src/file/reader.rs
index 1c00c99..ceb8341 100644
--- a/src/file/reader.rs
+++ b/src/file/reader.rs
@@ -96,7 +96,13 @@ impl<'a> FileReader<'a> {
             return Err(FileError::NonRootDefinesMetadata(metadata).into());
         }
 
-        Self::from_parts(inner, offset, traversal.metadata)
+        let reader = Self::from_parts(inner, offset, traversal.metadata)?;
+
+        Ok(Self {
+            // this is the size of the whole file, not of the current subtree
+            file_size: traversal.file_size,
+            ..reader
+        })
     }
 
     fn from_parts(
-- 
2.43.0


From 217b5cbca698ee419acf28292fcb47ae6ced267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 17/20] fix: walk under a root name of multiple components

---
 src/walk.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/walk.rs b/src/walk.rs
index 62eff0f..fe7a269 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -80,8 +80,8 @@ fn is_path_segment(name: &str) -> bool {
 impl Walker {
     /// Returns a new instance of a walker, ready to start from the given `Cid`.
     pub fn new(cid: Cid, root_name: String) -> Walker {
-        // 1 == Path::ancestors().count() for an empty path
-        let depth = if root_name.is_empty() { 1 } else { 2 };
+        // 1 for an empty path, 2 for a single component; the name can have multiple
+        let depth = Path::new(&root_name).ancestors().count();
         let next = Some((cid, root_name, depth));
 
         Walker {
-- 
2.43.0


From 9c473a9440f96128069b7173af9d467bc3488490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:42 +0000
Subject: [PATCH 18/20] fix: do not overflow when skipping over unknown
 protobuf fields

BytesReader::read_unknown adds the length of an unknown length-delimited field to
the current offset unchecked: with lengths close to u64::MAX this panics when
overflow checks are enabled, otherwise it goes back in the input and reading of
the block might never end.
---
 src/pb.rs           | 22 ++++++++++++++++++++++
 src/pb/merkledag.rs |  4 ++--
 src/pb/unixfs.rs    |  6 +++---
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/pb.rs b/src/pb.rs
index 1206990..979b291 100644
--- a/src/pb.rs
+++ b/src/pb.rs
@@ -82,6 +82,28 @@ impl<'a> TryFrom<&'a [u8]> for merkledag::PBNode<'a> {
     }
 }
 
+/// Skips over the value of an unknown field.
+///
+/// `BytesReader::read_unknown` adds any length to the current offset without looking at the input,
+/// which overflows (or goes back to a field already read) on lengths close to `u64::MAX`.
+pub(crate) fn skip_unknown(
+    reader: &mut quick_protobuf::BytesReader,
+    bytes: &[u8],
+    tag: u32,
+) -> ProtobufResult<()> {
+    const LENGTH_DELIMITED: u32 = 2;
+
+    if tag & 0x7 != LENGTH_DELIMITED {
+        return reader.read_unknown(bytes, tag);
+    }
+
+    // this will fail at the end of the input at the latest
+    for _ in 0..reader.read_varint64(bytes)? {
+        reader.read_u8(bytes)?;
+    }
+    Ok(())
+}
+
 /// Combined dag-pb (or MerkleDAG) with UnixFs payload.
 #[derive(Debug)]
 pub struct FlatUnixFs<'a> {
diff --git a/src/pb/merkledag.rs b/src/pb/merkledag.rs
index e55e5de..07df01d 100644
--- a/src/pb/merkledag.rs
+++ b/src/pb/merkledag.rs
@@ -30,7 +30,7 @@ impl<'a> MessageRead<'a> for PBLink<'a> {
                 Ok(18) => msg.Name = Some(r.read_string(bytes).map(Cow::Borrowed)?),
                 Ok(24) => msg.Tsize = Some(r.read_uint64(bytes)?),
                 Ok(t) => {
-                    r.read_unknown(bytes, t)?;
+                    skip_unknown(r, bytes, t)?;
                 }
                 Err(e) => return Err(e),
             }
@@ -73,7 +73,7 @@ impl<'a> MessageRead<'a> for PBNode<'a> {
                 Ok(18) => msg.Links.push(r.read_message::<PBLink<'a>>(bytes)?),
                 Ok(10) => msg.Data = Some(r.read_bytes(bytes).map(Cow::Borrowed)?),
                 Ok(t) => {
-                    r.read_unknown(bytes, t)?;
+                    skip_unknown(r, bytes, t)?;
                 }
                 Err(e) => return Err(e),
             }
diff --git a/src/pb/unixfs.rs b/src/pb/unixfs.rs
index 0027a29..1fda0f2 100644
--- a/src/pb/unixfs.rs
+++ b/src/pb/unixfs.rs
@@ -41,7 +41,7 @@ impl<'a> MessageRead<'a> for Data<'a> {
                 Ok(56) => msg.mode = Some(r.read_uint32(bytes)?),
                 Ok(66) => msg.mtime = Some(r.read_message::<UnixTime>(bytes)?),
                 Ok(t) => {
-                    r.read_unknown(bytes, t)?;
+                    skip_unknown(r, bytes, t)?;
                 }
                 Err(e) => return Err(e),
             }
@@ -173,7 +173,7 @@ impl<'a> MessageRead<'a> for UnixTime {
                 Ok(8) => msg.Seconds = r.read_int64(bytes)?,
                 Ok(21) => msg.FractionalNanoseconds = Some(r.read_fixed32(bytes)?),
                 Ok(t) => {
-                    r.read_unknown(bytes, t)?;
+                    skip_unknown(r, bytes, t)?;
                 }
                 Err(e) => return Err(e),
             }
@@ -206,7 +206,7 @@ impl<'a> MessageRead<'a> for Metadata<'a> {
             match r.next_tag(bytes) {
                 Ok(10) => msg.MimeType = Some(r.read_string(bytes).map(Cow::Borrowed)?),
                 Ok(t) => {
-                    r.read_unknown(bytes, t)?;
+                    skip_unknown(r, bytes, t)?;
                 }
                 Err(e) => return Err(e),
             }
-- 
2.43.0


From 46088743547aef0845fa1f63e0b89f4b4f8f6f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:00 +0000
Subject: [PATCH 19/20] fix: total size of a directory overflowed when sizes of
 links given to put_link add up beyond 64 bits

---
 src/dir/builder.rs      | 3 +++
 src/dir/builder/iter.rs | 8 +++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/dir/builder.rs b/src/dir/builder.rs
index 45e5f2c..7930a8b 100644
--- a/src/dir/builder.rs
+++ b/src/dir/builder.rs
@@ -132,6 +132,8 @@ pub enum TreeConstructionFailed {
     /// The resulting directory would be too large and HAMT sharding is yet to be implemented or
     /// denied.
     TooLargeBlock(u64),
+    /// The total size of the directory and everything it links to cannot be represented.
+    TotalSizeOverflow,
 }
 
 impl fmt::Display for TreeConstructionFailed {
@@ -141,6 +143,7 @@ impl fmt::Display for TreeConstructionFailed {
         match self {
             Protobuf(e) => write!(fmt, "serialization failed: {}", e),
             TooLargeBlock(size) => write!(fmt, "attempted to create block of {} bytes", size),
+            TotalSizeOverflow => write!(fmt, "the total size of the tree does not fit in 64 bits"),
         }
     }
 }
diff --git a/src/dir/builder/iter.rs b/src/dir/builder/iter.rs
index ea0f9d6..c2561ae 100644
--- a/src/dir/builder/iter.rs
+++ b/src/dir/builder/iter.rs
@@ -154,18 +154,20 @@ impl PostOrderIterator {
         let mh = Code::Sha2_256.digest(buffer);
         let cid = Cid::new_v1(DAG_PB, mh);
 
-        let combined_from_links = links
+        // the sizes of the links are given by the user
+        let total_size = links
             .iter()
             .map(|opt| {
                 opt.as_ref()
                     .map(|NamedLeaf(_, _, total_size)| total_size)
                     .unwrap()
             })
-            .sum::<u64>();
+            .try_fold(buffer.len() as u64, |sum, size| sum.checked_add(*size))
+            .ok_or(TreeConstructionFailed::TotalSizeOverflow)?;
 
         Ok(Leaf {
             link: cid,
-            total_size: buffer.len() as u64 + combined_from_links,
+            total_size,
         })
     }
 
-- 
2.43.0


From bd2fec7b7b335a052602caf3c44e829e8e9ff586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:44 +0000
Subject: [PATCH 20/20] fix: do not panic on chunk sizes and branching factors
 too large to reserve memory for

---
 src/file/adder.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/file/adder.rs b/src/file/adder.rs
index 0b9c5e9..41a1f26 100644
--- a/src/file/adder.rs
+++ b/src/file/adder.rs
@@ -5,6 +5,9 @@ use libipld::multihash::{Code, MultihashDigest};
 use libipld::Cid;
 use quick_protobuf::{MessageWrite, Writer};
 
+/// Upper limit for the initial capacity of the buffer used for an incomplete chunk.
+const MAX_RESERVED_BUFFER: usize = 1024 * 1024;
+
 /// File tree builder. Implements [`core::default::Default`] which tracks the recent defaults.
 ///
 /// Custom file tree builder can be created with [`FileAdder::builder()`] and configuring the
@@ -179,8 +182,9 @@ impl FileAdder {
 
             if self.block_buffer.capacity() == 0 {
                 // delay the internal buffer creation until this point, as the caller clearly wants
-                // to use it.
-                self.block_buffer.reserve(self.size_hint());
+                // to use it. a very large chunk is buffered as it grows.
+                self.block_buffer
+                    .reserve(self.size_hint().min(MAX_RESERVED_BUFFER));
             }
 
             self.block_buffer.extend_from_slice(accepted);
@@ -489,14 +493,14 @@ impl BalancedCollector {
         let mut reused_links = core::mem::take(&mut self.reused_links);
         let mut reused_blocksizes = core::mem::take(&mut self.reused_blocksizes);
 
-        if let Some(need) = self.branching_factor.checked_sub(reused_links.capacity()) {
+        // there cannot be more links in a block than there are pending
+        let max_links = self.branching_factor.min(pending.len());
+
+        if let Some(need) = max_links.checked_sub(reused_links.capacity()) {
             reused_links.reserve(need);
         }
 
-        if let Some(need) = self
-            .branching_factor
-            .checked_sub(reused_blocksizes.capacity())
-        {
+        if let Some(need) = max_links.checked_sub(reused_blocksizes.capacity()) {
             reused_blocksizes.reserve(need);
         }
 
-- 
2.43.0

