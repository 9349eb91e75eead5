import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":x,"meaning":x} for x in state]
    if obs: a["observe_at"]=obs
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
ADD="src/file/adder.rs"; VIS="src/file/visit.rs"; RD="src/file/reader.rs"; WK="src/walk.rs"; PB="src/pb.rs"
p("C01","Importing a file and reading it back returns exactly the original bytes",
 "For every content, chunk size >= 1, branching factor >= 2 and split of the content into pushes, walking the emitted blocks from the last emitted block (with IdleFileVisit/FileVisit or with Walker) returns exactly the original bytes, in order, once. The reported file size equals the content length, only emitted blocks are ever requested, and the walk ends with its last content block.",
 ["inputs","histories"],"all contents x chunk sizes x branching factors x push splits, read by both readers",
 "The unit tests import three or four fixed texts; the collector's level arithmetic and the reader's link stack interact differently for every leaf count around each power of the branching factor.",
 [ADD,VIS,RD,WK],[("FileAdder::push/finish","src/file/adder.rs"),("BalancedCollector::flush_links","src/file/adder.rs"),("FileVisit::continue_walk","src/file/visit.rs"),("Walker::next","src/walk.rs")],
 ["buffered bytes","unflushed links per level","pending links of the visit"],["blocks returned by push/finish","bytes and file size returned by the readers"])
p("C02","Imported blocks do not depend on how the content was split into pushes",
 "Each push consumes a non-empty prefix of a non-empty input, never crosses a chunk boundary (it consumes min(input length, chunk size - buffered)), and yields at most two blocks; size_hint is the chunk size. The concatenation of all blocks from pushes and finish, and so the root CID, depends only on the content, the chunk size and the branching factor, never on the sizes of the pushes (including empty pushes).",
 ["inputs","histories"],"all sequences of push lengths (0 and larger than a chunk included) for the same content",
 "Tests use two or three fixed amounts per push; the guarantee is about all histories of buffer fill levels.",
 [ADD],[("FileAdder::push","src/file/adder.rs"),("Chunker::accept","src/file/adder.rs")],["block_buffer length","unflushed_links"],["consumed count and blocks of every push"])
p("C03","Import layout is balanced: full chunks, equal depth, bounded fan-out",
 "In the DAG emitted for a content of n > 0 bytes every leaf but the last holds exactly one chunk, the leaves in link order hold the content, all leaves are at the same depth, which is the least depth that branching factor allows, and every link node has between 1 and branching-factor links with every node off the right edge completely full. A content of at most one chunk is a single leaf without a link node and the empty content is one empty File leaf; every block is emitted after all blocks it links to and the root is the last block emitted.",
 ["inputs","histories"],"all content lengths x chunk sizes x branching factors x push splits",
 "Two-level trees with a couple of branching factors are sampled by tests; the partial right edge differs for every leaf count.",
 [ADD],[("BalancedCollector::flush_links","src/file/adder.rs"),("FileAdder::flush_buffered_leaf","src/file/adder.rs")],["unflushed_links with depth"],["links of the emitted blocks"])
p("C04","Size bookkeeping of imported files: filesize, blocksizes and Tsize are exact",
 "In every emitted block UnixFS filesize equals the number of content bytes under it (a leaf has it equal to its data length and has no blocksizes), a link node has one blocksize per link, equal to the filesize of the linked block, and their sum is its filesize. Every link's Tsize equals the serialized size of the linked block plus the Tsizes of that block's own links.",
 ["inputs"],"all blocks of all imports, all content lengths x chunk sizes x branching factors",
 "Tests compare CIDs of a few fixed imports; sizes accumulate over levels and saturate varint lengths only at particular sizes.",
 [ADD],[("render_and_hash","src/file/adder.rs"),("partition_point/Link accumulate","src/file/adder.rs")],["Link{depth,target,total_size,file_size}"],["decoded emitted blocks"])
p("C05","Ranged reads return exactly the range and load only blocks touching it",
 "For every well-formed file DAG (any depth and fan-out, File or Raw leaves, repeated blocks) and every range a..b, a visit with that target range returns exactly the bytes of content[a..b] cut at the end of the file (nothing when a is past the end) and reports the full file size. Every block requested spans bytes overlapping or touching a..b, blocks overlapping it are all requested, in file order, and a visit which has a continuation always has a next pending link.",
 ["inputs","histories"],"all well-formed DAG shapes x all ranges (empty, inverted, past the end, up to u64::MAX)",
 "Tests check a handful of ranges over one sample DAG; correctness is an off-by-one per boundary between ranges, chunks and subtrees.",
 [VIS,RD,PB],[("block_is_in_target_range / maybe_target_slice","src/file/visit.rs"),("RangeLinks","src/pb.rs"),("FileVisit::continue_walk","src/file/visit.rs")],["pending (Cid, range) stack"],["bytes, pending_links and file_size after each block"])
p("C06","Inconsistent file DAGs are reported as errors, not as wrong bytes",
 "A file visit returns the documented error when a block is reached whose links and blocksizes differ in number, which has links but no filesize, declares a nonzero filesize but has neither data nor links, carries directory-only properties, defines mode/mtime below the root or is not a File/Raw node, or whose position leaves a hole, goes backwards, overlaps or exceeds (also by u64 overflow) the range its parent or predecessor ended at. When none of these hold the block is accepted, and after an error no further bytes are produced.",
 ["inputs","histories"],"all file DAGs with any combination of declared sizes, positions, types and properties (u64-wide)",
 "Existing tests use one malformed sample per error; the checks run between consecutive blocks of a traversal and depend on the whole history of offsets.",
 [RD,VIS,"src/file.rs"],[("FileReader::from_parts","src/file/reader.rs"),("Ending::check_is_suitable_next","src/file/reader.rs")],["last_ending, last_offset"],["Result of start/continue_walk"])
p("C07","A built directory tree contains exactly the accepted entries, whatever the order",
 "After any sequence of put_link and set_metadata calls, the tree built consists of exactly the accepted links (same path, CID and total size) plus the directories on their paths and those created by accepted set_metadata calls, and nothing else. A rejected call leaves the tree unchanged, and any two sequences with the same accepted effects produce the same blocks, CIDs and sizes.",
 ["inputs","histories"],"all sequences of builder operations, accepted and rejected, in all orders",
 "Tests build a few trees in one or two orders and never mix failures into successful histories.",
 ["src/dir/builder/buffered.rs","src/dir/builder/dir_builder.rs","src/dir/builder/iter.rs"],[("BufferingTreeBuilder::put_link/set_metadata/modify_with","src/dir/builder/buffered.rs"),("DirBuilder::put_leaf/add_or_get_node","src/dir/builder/dir_builder.rs")],["DirBuilder nodes map"],["results of calls, TreeNodes of the iterator"])
p("C08","The tree builder accepts exactly the well-formed, non-conflicting paths",
 "put_link and set_metadata fail with RootedPath, RepeatSlashes or PathEndsInSlash for paths which start with, repeat or end in a slash, with DuplicatePath when put_link targets an existing entry, with LeafAsDirectory when a link would be used as a directory, and (unless wrapping) with TooManyRootLevelEntries when a second root level name would be needed; every other call succeeds. The error names the offending path.",
 ["inputs","histories"],"all paths (any bytes, slashes anywhere, prefix conflicts) x all builder states x wrap option",
 "The verdict depends on the whole history of earlier operations; tests have one example per error.",
 ["src/dir/builder/buffered.rs","src/dir/builder.rs"],[("modify_with path checks","src/dir/builder/buffered.rs"),("TreeConstructionFailed","src/dir/builder.rs")],["DirBuilder nodes map","options.wrap_with_directory"],["Result of put_link/set_metadata"])
p("C09","Tree building emits each directory once, children first, exact CID and sizes",
 "The post-order iterator emits exactly one TreeNode per directory (including the root only when wrapping), each after all directories below it, whose CID is the hash of its block, whose links are sorted bytewise by name and carry each entry's CID and total size, and whose total size is the block length plus the sum of its links' total sizes. If a directory block exceeds the block size limit, TooLargeBlock with that size is returned exactly then (TotalSizeOverflow if only its total size exceeds 64 bits) and the iteration ends; the owned and borrowed iterations agree.",
 ["inputs"],"all trees x names x child total sizes x CID kinds x block size limits",
 "Sizes, orders and limits vary with each tree; tests pin CIDs of a few trees and one limit.",
 ["src/dir/builder/iter.rs","src/dir/builder/custom_pb.rs"],[("PostOrderIterator::next_borrowed/render_directory","src/dir/builder/iter.rs"),("CustomFlatUnixFs","src/dir/builder/custom_pb.rs")],["pending visits, persisted_cids"],["TreeNode{path,cid,total_size,block}"])
p("C10","A walk visits every entry exactly once with the right path and contents",
 "For every DAG of directories, HAMT-sharded directories, files and symlinks, Walker yields one event per block in depth-first link order, each reported with the CID of the loaded block, its full path below the root name and the right kind (the start directory as root directory, HAMT sub-shards as buckets of the directory they belong to). File segments carry that block's bytes, flag exactly the first and the last block of each file and report its size; symlinks carry their target.",
 ["inputs","histories"],"all DAG shapes mixing plain and sharded directories, files and symlinks, shared blocks and names",
 "Path and depth tracking across arbitrary sequences of kinds (e.g. a sub-shard after a plain directory inside a shard) is a history property; tests walk a few fixed DAGs.",
 [WK],[("Walker::next","src/walk.rs"),("InnerEntry::as_*/set_path","src/walk.rs"),("convert_link/convert_sharded_link","src/walk.rs")],["current entry, next, pending stack"],["ContinuedWalk events"])
p("C11","pending_links names next block and prefetch list; should_continue is exact",
 "At every step of a Walker or FileVisit the first pending link is the block the next step consumes and the remaining links are exactly the already discovered blocks still to be loaded, in the order in which they will be loaded. should_continue is true if and only if another block remains to be loaded; it becomes false after the last block and after any error.",
 ["inputs","histories"],"all DAGs and all points of all walks over them",
 "The pending list is the product of every block seen so far; tests only compare the order of visited paths.",
 [WK,VIS],[("Walker::pending_links/should_continue","src/walk.rs"),("FileVisit::pending_links","src/file/visit.rs")],["next, pending, FileVisit.pending"],["pending_links() and should_continue() after each step"])
p("C12","Resolving a name in a directory block finds exactly the link with that name",
 "For every plain directory block and plain dag-pb block, resolve returns Found with the CID of the single link whose name equals the needle byte for byte and NotFound if there is none, regardless of link order and number. Two or more links with the name, or an invalid CID in the one matched, are reported as errors naming the links; invalid CIDs in other links do not matter.",
 ["inputs"],"all directory blocks (any link order, duplicates, missing names, invalid hashes) x all needles",
 "Tests resolve a few names in fixed blocks; duplicates and invalid neighbours at every position are not sampled.",
 ["src/dir/directory.rs","src/dir.rs"],[("resolve","src/dir.rs"),("try_convert_cid / find link","src/dir.rs")],None,["MaybeResolved / ResolveError"])
p("C13","HAMT lookup finds a name wherever it is in the shard tree, breadth first",
 "For every tree of HAMT shard blocks a lookup requests the shard blocks breadth first in link order, finds the entry whose link name is a two character prefix followed by the needle in whichever shard it is, and answers NotFound only after every shard reachable has been searched; pending_links names the next block to load and the queued ones in order. Two matching links in one block, invalid matching or bucket CIDs, non-HAMT buckets and unsupported fanout, hash type or size properties are reported as errors.",
 ["inputs","histories"],"all shard trees x needles x link orders, including entries with two character names and mixed depths",
 "Tests look up names in one sharded directory fixture.",
 ["src/dir/sharded_lookup.rs"],[("ShardedLookup::lookup/partition/continue_walk","src/dir/sharded_lookup.rs"),("check_hamtshard_supported","src/dir.rs")],["links queue"],["MaybeResolved, pending_links, LookupError"])
p("C14","Reusing caches never changes any result",
 "Any Walker, FileVisit, resolve or ShardedLookup run gives identical events, bytes, pending links, results and errors whether it is passed no cache, a fresh cache, or a cache left over from any sequence of earlier complete, failed or abandoned walks and lookups.",
 ["histories"],"all sequences of walks/lookups sharing a cache variable",
 "A leak of stale links through a recycled vector only shows in a particular sequence of operations; tests almost always pass &mut None or use a cache once.",
 [VIS,WK,"src/dir/sharded_lookup.rs","src/dir.rs"],[("visit::Cache From<Vec>","src/file/visit.rs"),("dir::Cache / ShardedLookup::from cache","src/dir.rs")],["Cache.inner","Cache.buffer"],["all results with differing cache histories"])
p("C15","Produced blocks are canonical dag-pb/UnixFS and CIDs hash exactly those bytes",
 "Every block produced by FileAdder, the tree builder and serialize_symlink_block is exactly the canonical encoding (links before data, protobuf fields in ascending order, minimal varints, only the required fields) of a node of the right UnixFS type, and re-parsing it gives that node back. Its CID is CIDv1, dag-pb, sha2-256 over exactly the returned bytes; serialize_symlink_block appends the node for exactly the given target and leaves earlier buffer contents alone.",
 ["inputs"],"all contents, targets, names, sizes and CID kinds, across every varint length boundary",
 "Canonical length prefixes must agree at every size boundary; tests pin a few blocks.",
 ["src/pb/merkledag.rs","src/pb/unixfs.rs","src/dir/builder/custom_pb.rs","src/symlink.rs",ADD],[("MessageWrite for PBNode/PBLink/UnixFs","src/pb"),("CustomFlatUnixFs/WriteableCid","src/dir/builder/custom_pb.rs"),("render_and_hash","src/file/adder.rs"),("serialize_symlink_block","src/symlink.rs")],None,["block bytes and CIDs"])
p("C16","dagpb helpers return exactly the Data field of a dag-pb node",
 "For every block, node_data returns the bytes of the dag-pb Data field, None when the field is absent or an error when the block is not dag-pb; wrap_node_data returns the same for every owned or borrowed block type with get_ref/into_inner giving the original block back unchanged. Present but empty data is reported as present and empty.",
 ["inputs"],"all dag-pb nodes: data absent/empty/any bytes/any length, before or after any links, in Vec/Box/slice",
 "The helper recovers an index range by pointer arithmetic; tests use one block with and one without data.",
 ["src/dagpb.rs"],[("wrap_node_data/subslice_to_range","src/dagpb.rs"),("node_data","src/dagpb.rs")],None,["NodeData::node_data, get_ref, into_inner"])
p("C17","No block contents can make a reader panic or enter an unusable state",
 "For every byte sequence fed as a block to IdleFileVisit, FileVisit, Walker, resolve, ShardedLookup, node_data or wrap_node_data, in any sequence of calls which follows should_continue/pending_links, the call returns a value or an error without panicking or overflowing. A value which offers a continuation always has a next pending link, and an error ends the walk.",
 ["inputs","histories"],"all byte strings and all DAGs of them: truncated, mutated, mistyped, with adversarial sizes, names and CIDs",
 "Blocks come from untrusted peers; tests feed only a few malformed blocks and none combining kinds.",
 [WK,VIS,RD,"src/dir/sharded_lookup.rs","src/dir.rs","src/dagpb.rs",PB],[("Walker::next","src/walk.rs"),("FlatUnixFs::try_parse","src/pb.rs"),("ShardedLookup::partition","src/dir/sharded_lookup.rs"),("subslice_to_range","src/dagpb.rs")],None,["outcome of every call (value, error, panic)"])
p("C18","Mode and mtime are reported for the entry they belong to and written as given",
 "Every file, directory, HAMT directory and symlink event, and a file visit at every step, reports exactly the mode and mtime of that entry's root block (none when absent) for the whole file; seconds, fractional nanoseconds and the FileTime conversion agree with the encoded values. Metadata given to set_metadata is written in that directory's block, and only there.",
 ["inputs","histories"],"all combinations of mode/mtime/nanoseconds presence and values x kinds x positions in a walk or tree",
 "Metadata is carried through long walks and recycled entries; tests check one file with metadata.",
 ["src/file.rs",WK,VIS,"src/dir/builder/buffered.rs","src/dir/builder/iter.rs"],[("Metadata::from(&UnixFs)","src/file.rs"),("InnerEntry.metadata","src/walk.rs"),("set_metadata","src/dir/builder/buffered.rs")],["Metadata of entry/traversal/directory"],["AsRef<Metadata>, ContinuedWalk metadata, directory blocks"])
p("C19","Unsupported or mistyped nodes are refused with an error carrying the actual type",
 "Walker refuses Metadata nodes, files refuse non-File/Raw blocks, resolve refuses File/Raw/Symlink/Metadata nodes and sharded lookup refuses non-HAMT buckets, each with an error carrying the actual node type; directories with file-only or HAMT-only properties and HAMT shards with unsupported fanout, hash type or sizes are refused by both Walker and resolve with those values. Supported nodes are never refused.",
 ["inputs"],"all node types (also undefined type numbers) x all property combinations x all entry points and positions",
 "The combinations of type, properties and entry point are far more than the tests sample.",
 ["src/dir.rs",WK,RD,"src/dir/sharded_lookup.rs","src/lib.rs"],[("check_directory_supported/check_hamtshard_supported","src/dir.rs"),("UnexpectedNodeType","src/lib.rs"),("Walker::next type dispatch","src/walk.rs")],None,["errors returned"])
p("C20","Trees built with the crate walk and resolve back to the same entries",
 "For every set of files imported with FileAdder and symlinks put under distinct paths without empty or \".\" components in a tree builder, walking the built root with Walker yields exactly those paths with the same bytes and targets plus their parent directories, once each. Resolving each path component by component with dir::resolve from the root leads to the same CIDs and any other name is NotFound.",
 ["inputs","histories"],"all sets of paths x file contents x import parameters x insertion orders x wrap option",
 "Only the composition of importer, builder, encoder, parser, walker and resolver gives this guarantee; no test composes them.",
 ["src/dir/builder",WK,"src/dir.rs",ADD],[("BufferingTreeBuilder + FileAdder","src/dir/builder/buffered.rs, src/file/adder.rs"),("Walker","src/walk.rs"),("resolve","src/dir.rs")],None,["walk events and resolve results over built blocks"])
p("C21","The node types read exactly the encoded fields and write canonical bytes",
 "For every byte string which is a dag-pb node (with UnixFS data), PBNode, UnixFs and FlatUnixFs::try_parse give its links in order and every field of links, node and UnixFS data (presence and value) exactly as encoded, and refuse all others naming the layer at fault (dag-pb, no data, UnixFS). Writing any PBNode, PBLink, UnixFs or FlatUnixFs value gives its canonical encoding of exactly get_size bytes, and reading it back gives the same value.",
 ["inputs"],"all byte strings; all values of the node types: any subset of fields, any lengths and numbers up to u64::MAX",
 "Presence, varint boundaries and field order combine far beyond the few fixed blocks of the tests, which never write mode, mtime or hash types.",
 ["src/pb.rs","src/pb/merkledag.rs","src/pb/unixfs.rs"],[("FlatUnixFs::try_parse/write_message","src/pb.rs"),("PBNode/PBLink from_reader, get_size, write_message","src/pb/merkledag.rs"),("Data/UnixTime from_reader, get_size, write_message","src/pb/unixfs.rs")],None,["fields of the values read, bytes written, get_size"])
p("C22","Walker, name resolution, file visits and node types agree on every DAG",
 "For every DAG a Walker walks to its end: for each directory told (plain or HAMT) and every name, resolve with ShardedLookup finds a CID only if the walk told an entry of that name in that directory with that CID, gives NotFound only if it told none, and errs only for several links of that name. For each file told, a full IdleFileVisit/FileVisit gives the same bytes, size and metadata; each root block read as FlatUnixFs has that kind and metadata. A file the Walker refuses is refused by the visit too; files and symlinks are never looked into.",
 ["inputs","histories"],"all DAGs, well-formed or accepted nevertheless, and all of their entries and names",
 "cat, get and resolve must not tell different things about the same CID; each reader has its own parsing, name handling and queue, and no test runs two of them on one DAG.",
 [WK,VIS,RD,"src/dir.rs","src/dir/sharded_lookup.rs","src/pb.rs"],[("Walker::next","src/walk.rs"),("resolve","src/dir.rs"),("ShardedLookup","src/dir/sharded_lookup.rs"),("FileVisit::continue_walk","src/file/visit.rs")],None,["entries of the walk, results of lookups and visits"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
