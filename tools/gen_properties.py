#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the single source of the property texts).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","No panic or abort on any image bytes",
 "Whatever bytes the underlying storage returns, every public operation (loading, path operations, directory iteration, file reads and seeks, and Debug/Display of every returned value) either returns a value or returns an error; it never panics, overflows the stack or aborts the process.",
 ["inputs","histories"],"all image contents (arbitrary, truncated, structurally mutated with or without repaired checksums) x all sequences of public API calls",
 "Tests feed a handful of corrupt inputs to single functions; the state space of hostile images and call sequences is unbounded.",
 ["src/lib.rs","src/superblock.rs","src/block_group.rs","src/inode.rs","src/iters/extents.rs","src/iters/file_blocks/block_map.rs","src/iters/file_blocks/extents_blocks.rs","src/dir_block.rs","src/dir_entry.rs","src/dir_htree.rs","src/file.rs","src/resolve.rs","src/journal/block_map.rs"],
 [("length-checked field reads","src/util.rs"),("checked arithmetic and CorruptKind errors","src/error.rs"),("block bounds checks in read_from_block","src/lib.rs")],
 ["return of every public method","panic hook","process exit status"])
p("C02","Every operation terminates with bounded work",
 "Every public operation terminates for every image, however hostile (cyclic or self-referencing extent trees, indirect blocks, htree nodes, directory records, symlinks and journals), and every iterator it returns ends. The work done is bounded by a modest function of the size of the volume, the number of blocks in the file concerned and the length of the path; it is never exponential in, or independent of, those.",
 ["inputs","histories"],"all image contents x all operations and iterators, seeks to any 64-bit position included",
 "Tests never build cyclic or adversarially shared metadata and have no notion of a work budget.",
 ["src/iters/extents.rs","src/iters/file_blocks/block_map.rs","src/dir_htree.rs","src/dir_entry.rs","src/resolve.rs","src/file.rs","src/journal/block_map.rs","src/iters.rs"],
 [("extent depth validation","src/iters/extents.rs"),("minimum directory record length","src/dir_entry.rs"),("symlink and path length limits","src/resolve.rs"),("is_done fuse","src/iters.rs")],
 ["basic-block counter of the instrumented library","bytes requested from the reader","CPU time of the worker"])
p("C03","Memory use is bounded on hostile images",
 "No size, count or length stored in the image can make the library allocate memory out of proportion to the volume: apart from returning the full contents of a file the caller asked for, the memory in use by any operation stays within a fixed bound. Reading a whole file whose contents cannot be allocated returns an error such as FileTooLarge and never aborts the process.",
 ["inputs"],"all values of size/count fields in superblock, group descriptors, inodes, extents, htree nodes and journal x all operations",
 "Allocation failure aborts the process, so unit tests cannot even express it; they use only sane sizes.",
 ["src/block_cache.rs","src/block_group.rs","src/lib.rs","src/inode.rs","src/superblock.rs","src/block_size.rs","src/journal/block_map.rs"],
 [("block size limit","src/block_size.rs"),("read_inode_file","src/lib.rs"),("extent node size check","src/iters/extents.rs"),("fixed-size block cache","src/block_cache.rs")],
 ["global allocator: peak bytes and refused requests per operation"])
p("C04","File contents are exactly what the filesystem stores",
 "Reading a regular file returns exactly its size in bytes, each byte equal to the byte stored in the data block mapped at that offset, with holes and unwritten (preallocated) extents reading as zeros. This holds for every extent tree shape and every ext2/ext3 block map shape, including sparse maps at every indirection level, every supported block size, and blocks located anywhere in a volume of up to 2^48 blocks.",
 ["inputs","configurations"],"all files, mapping shapes, sizes, block sizes and feature combinations",
 "The test images hold a few files of one or two shapes; no test has unwritten extents, sparse indirect blocks, deep trees or high block numbers.",
 ["src/iters/extents.rs","src/iters/file_blocks/extents_blocks.rs","src/iters/file_blocks/block_map.rs","src/file.rs","src/lib.rs","src/inode.rs"],
 [("extent tree walk","src/iters/extents.rs"),("hole synthesis","src/iters/file_blocks/extents_blocks.rs"),("indirect block iteration","src/iters/file_blocks/block_map.rs"),("read_inode_file","src/lib.rs")],
 ["Ext4::read","Ext4::read_to_string","File::read_bytes"])
p("C05","An open file behaves as a cursor over fixed contents",
 "For any sequence of reads with any buffer sizes and any seeks (relative, absolute, from the end, past the end, 64-bit extremes, empty buffers), an open file returns the bytes at its current position, advances by exactly the number of bytes returned, and returns zero bytes only for an empty buffer or at or past the end of the file; an invalid seek is an error that leaves the position unchanged. Handles are independent of each other, and the std Read/Seek traits agree with read_bytes/seek_to/position.",
 ["histories","inputs"],"all operation sequences on all files",
 "Tests check a few fixed read/seek sequences on one file; the interaction of block iterator, cached block and position depends on the whole history.",
 ["src/file.rs","src/iters/file_blocks.rs","src/iters/file_blocks/extents_blocks.rs","src/iters/file_blocks/block_map.rs"],
 [("position / block_index / file_blocks kept in step","src/file.rs"),("seek restarts block iteration","src/file.rs")],
 ["File::read_bytes","File::seek_to","File::position","std::io::Read","std::io::Seek"],
 [("position","current byte offset","src/file.rs"),("block_index","current block or none","src/file.rs")])
p("C06","Directory listing is complete and exact",
 "Listing a directory yields every live entry exactly once, including . and .., each with exactly its stored name, its stored file type and a path equal to the listed path joined with the name, and yields nothing else (no deleted entries, padding, checksum tails or hash-tree internals). This holds for linear and hash-tree directories of any size, block size and mapping; after the end or an error the iterator yields nothing more.",
 ["inputs","configurations"],"all directory layouts (deleted entries, slack, multi-block, htree depth, checksums on/off, block sizes up to 64 KiB)",
 "Test images contain only directories written by mkfs-time tools with uniform names; deleted entries, slack, collisions, 64 KiB blocks never occur.",
 ["src/iters/read_dir.rs","src/dir_entry.rs","src/dir_block.rs","src/iters.rs"],
 [("record walking","src/iters/read_dir.rs"),("record decoding","src/dir_entry.rs")],
 ["Ext4::read_dir","ReadDir::next","DirEntry accessors"])
p("C07","Name lookup agrees with the directory contents",
 "Resolving a name in a directory finds an entry if and only if the directory contains that exact name, and then reaches the inode that entry points to; any other valid name is reported as NotFound. This holds for linear and hash-tree directories of every depth, for every supported hash function with signed or unsigned characters and any hash seed, for names of any bytes and length, and for names whose hashes collide across leaf blocks.",
 ["inputs","configurations"],"all directories x all names, present and absent",
 "Tests look up a few ASCII names in one htree; hash signedness, collisions spanning leaves and multi-level trees need specific constructed directories.",
 ["src/dir.rs","src/dir_htree.rs","src/dir_entry_hash.rs","src/superblock.rs","src/dir_block.rs"],
 [("htree descent and binary search","src/dir_htree.rs"),("half-MD4 and TEA hashes","src/dir_entry_hash.rs"),("linear scan","src/dir.rs")],
 ["Ext4::exists","Ext4::symlink_metadata","Ext4::metadata"])
p("C08","Path resolution follows Unix semantics",
 "For every absolute path, resolution gives the same result as Unix pathname resolution on the same tree: ., .., repeated and trailing separators, relative and absolute symlinks (chained, through directories, with . and .. in targets) are handled component by component, at most 40 symlinks are followed, and paths that grow past 4096 bytes are refused. canonicalize returns the unique absolute path without ., .., symlinks or redundant separators that names the same file, and returning an error instead for paths that do not resolve.",
 ["inputs"],"all directory trees with symlinks x all paths",
 "Tests check tens of hand-written paths on one tree; combinations of dot-dot, symlink splicing and trailing separators are unbounded.",
 ["src/resolve.rs","src/lib.rs","src/path.rs"],
 [("path splicing loop","src/resolve.rs"),("MAX_SYMLINKS and MAX_PATH_LEN","src/resolve.rs")],
 ["Ext4::canonicalize","Ext4::metadata","Ext4::symlink_metadata","Ext4::read_link","Ext4::exists"])
p("C09","Metadata, symlink targets, label and UUID are faithful",
 "For every inode, the reported type, permission bits, size, owner and group equal what the inode stores (including the high halves of size, uid and gid), whichever way the inode is reached: metadata, symlink_metadata, a directory entry or an open file. read_link returns exactly the stored target bytes for inline and block-stored targets that are valid paths, of any length up to 4095 bytes, and label and UUID equal the stored bytes.",
 ["inputs","configurations"],"all inodes, inode sizes, group layouts and superblocks",
 "Tests check a few inodes with small ids on a few images; inode location, group and width boundaries vary with configuration.",
 ["src/inode.rs","src/metadata.rs","src/file_type.rs","src/block_group.rs","src/superblock.rs","src/label.rs","src/uuid.rs","src/dir_entry.rs"],
 [("inode location","src/inode.rs"),("inode field decoding","src/inode.rs"),("symlink_target","src/inode.rs")],
 ["Ext4::metadata","Ext4::symlink_metadata","DirEntry::metadata","File::metadata","Ext4::read_link","Ext4::label","Ext4::uuid"])
p("C10","Committed journal transactions are applied",
 "When a filesystem needs recovery, everything visible through the API (names, metadata, contents, targets, the label, and what lies in groups added by a resize) is as if every committed journal transaction had been applied in order: the latest committed version of each block is seen, a block revoked by a transaction is not overwritten from that or any earlier transaction, and a block written again after a revocation is seen. This holds for any number of transactions, descriptor and revocation blocks, tag layouts, log start positions including a log that wraps around its end, and any sequence numbers including wrap-around; when recovery is not needed the journal is ignored.",
 ["histories","inputs"],"all journal histories over all filesystems",
 "One test image with one journal; no test has revocations across transactions, rewrites, wrap-around or several descriptors.",
 ["src/journal.rs","src/journal/block_map.rs","src/journal/descriptor_block.rs","src/journal/revocation_block.rs","src/journal/superblock.rs","src/lib.rs"],
 [("load_block_map","src/journal/block_map.rs"),("map_block_index on every block read","src/lib.rs")],
 ["all read APIs on a filesystem needing recovery"],
 [("block_map","fs block -> journal block","src/journal/block_map.rs"),("revoked_blocks","revocations","src/journal/block_map.rs")])
p("C11","A torn or damaged journal yields a committed prefix",
 "Wherever a crash cuts the journal (in a descriptor, data, revocation or commit block, with arbitrary stale or torn contents after the cut, older generations of the log included), loading either yields exactly the state after some prefix of the committed transactions - for a clean cut all transactions whose commit block is intact - or fails with an error; a clean cut always loads. No uncommitted or partially applied transaction, and no data from a stale log generation, is ever visible.",
 ["crash_points","histories"],"every block boundary and random sub-block tears of every generated log x stale log tails",
 "The tests never cut or damage a journal; the number of crash points and stale tails is unbounded.",
 ["src/journal/block_map.rs","src/journal/commit_block.rs","src/journal/descriptor_block.rs","src/journal/revocation_block.rs","src/journal/block_header.rs","src/journal/superblock.rs"],
 [("uncommitted map merged only at commit","src/journal/block_map.rs"),("sequence and checksum validation","src/journal/block_map.rs")],
 ["Ext4::load","all read APIs after load"])
p("C12","Corruption of checksummed metadata is always detected",
 "On a filesystem with metadata checksums (which its superblock still declares), if any bytes of the superblock, a group descriptor, an inode, an extent node, a directory block or a hash-tree node differ from what was written, every operation either returns exactly the result it returns on the intact filesystem or fails with a Corrupt or Incompatible error. It never returns wrong data, and never reports an existing name as missing. Nor is damage passed over where it happens to do no harm: loading fails if the superblock or any group descriptor is damaged, and so does any operation that has to rely on the damaged structure (metadata or existence of the damaged inode, reading through the damaged extent node, listing the directory that holds the damaged block).",
 ["inputs","fault_sequences"],"all single- and multi-byte corruptions of all checksummed structures x all operations",
 "Tests flip one field of a couple of structures; coverage of every byte of every structure in every layout is not expressible as examples.",
 ["src/checksum.rs","src/superblock.rs","src/block_group.rs","src/inode.rs","src/iters/extents.rs","src/dir_block.rs"],
 [("CRC32C verification before use","src/checksum.rs, src/dir_block.rs, src/inode.rs, src/iters/extents.rs, src/block_group.rs, src/superblock.rs")],
 ["every read API"])
p("C13","I/O errors surface unchanged and are survivable",
 "If the underlying reader fails, the operation that needed that read returns Ext4Error::Io carrying the reader's own error, or returns the correct result if it did not need it; it never panics, never returns wrong or partial data as success, and never turns the failure into another kind of error or into an empty result. After a transient failure, the same filesystem object, other handles and fresh operations return correct results, and an open file can be read on or repositioned without losing its place.",
 ["fault_sequences","histories"],"every read index of every operation failing once, repeatedly, or for an address range, x continued use",
 "Tests never inject a reader failure after load.",
 ["src/lib.rs","src/file.rs","src/block_cache.rs","src/dir_htree.rs","src/journal/block_map.rs","src/iters.rs","src/reader.rs"],
 [("map_err(Ext4Error::Io)","src/lib.rs"),("cache filled only after a successful read","src/block_cache.rs")],
 ["return value of every API call under fault injection"])
p("C14","Results do not depend on history, caching or sharing",
 "The result of an operation depends only on the image and the arguments: any interleaving of operations on any number of clones of the filesystem, open files and directory iterators returns the same results as each operation performed on a freshly loaded filesystem. In particular which blocks were read before, in what order and how many, never changes a result.",
 ["histories"],"all interleavings of operations over all clones and handles",
 "Tests run each operation on a fresh filesystem in one order; cache eviction and read-ahead states are history-dependent.",
 ["src/block_cache.rs","src/lib.rs","src/file.rs","src/iters/read_dir.rs"],
 [("LRU block cache keyed by block index","src/block_cache.rs")],
 ["all read APIs"])
p("C15","Only bytes inside the volume are requested",
 "On a well-formed filesystem every request made of the underlying reader lies entirely inside the volume described by the superblock (plus the superblock itself), so a storage object holding exactly the volume's bytes never sees an out-of-range request, and no operation needs data from outside it. On an arbitrary image no request goes past the end of the block range the superblock declares, other than for the superblock and group descriptors.",
 ["inputs","histories"],"all filesystems (including ones whose last blocks are in use and whose size is not a multiple of the read-ahead) x all operations",
 "Tests use images with slack at the end and never monitor the requests made.",
 ["src/lib.rs","src/block_cache.rs","src/block_group.rs","src/reader.rs"],
 [("blocks_count check","src/lib.rs"),("read-ahead clamp","src/block_cache.rs")],
 ["Ext4Read::read arguments"])
p("C16","Unsupported formats are refused, supported ones are read",
 "Loading a filesystem with an incompatible feature the library does not support, or without one it requires, fails with Incompatible (for the filesystem and, when it needs recovery, for the journal), as does looking up names through an unsupported directory hash; it is never misread. Filesystems using any combination of the supported incompatible features and any compatible or read-only-compatible feature bits load and read correctly, and something that is not an ext filesystem is refused with an error.",
 ["configurations","inputs"],"all combinations of feature bits of filesystem and journal",
 "Tests try a few feature words on a parsed superblock, not the combination space nor reading afterwards.",
 ["src/superblock.rs","src/features.rs","src/journal/superblock.rs","src/dir_entry_hash.rs","src/journal/descriptor_block.rs"],
 [("check_incompat_features","src/superblock.rs"),("journal check_incompat_features","src/journal/superblock.rs")],
 ["Ext4::load"])
p("C17","Path and name types obey their documented algebra",
 "Path, PathBuf, Component, DirEntryName, Label and Uuid accept exactly the documented byte strings (no NUL, components of at most 255 bytes; names non-empty, without separator) from every convertible type, preserve the bytes exactly, and compare, order, hash and display by them. join and push behave as in std::path on Unix, and components yields the root, . and .. and normal names in order with repeated separators collapsed, agreeing with std::path after dropping interior dots.",
 ["inputs"],"all byte strings and pairs of byte strings",
 "Tests check tens of literals; the algebraic laws quantify over all strings.",
 ["src/path.rs","src/dir_entry.rs","src/format.rs","src/label.rs","src/uuid.rs"],
 [("TryFrom validation","src/path.rs"),("Components iterator","src/path.rs"),("push","src/path.rs")],
 ["public methods and trait impls of the types"])
p("C18","Encrypted data is refused, never returned as plain",
 "Listing or looking up a name in an encrypted directory, and reading the contents or target of an encrypted file or symlink, fails with Ext4Error::Encrypted; ciphertext is never returned as contents, names or targets. Unencrypted files and directories of the same filesystem remain readable, and so does the metadata of encrypted inodes reachable by an unencrypted path.",
 ["inputs","configurations"],"all placements of encrypted inodes in a tree x all operations",
 "One encrypted directory exists in one test image; files and symlinks reached by an unencrypted name (hard links, root-level policies) do not.",
 ["src/dir.rs","src/iters/read_dir.rs","src/inode.rs","src/file.rs","src/lib.rs"],
 [("DIRECTORY_ENCRYPTED flag checks","src/dir.rs, src/iters/read_dir.rs")],
 ["Ext4::{read_dir,open,read,read_to_string,read_link,metadata,symlink_metadata,exists,canonicalize}"])
p("C19","Operations report the documented errors, consistently",
 "For every path argument and every kind of node it can name, each operation succeeds or fails as documented: NotAbsolute, MalformedPath, NotFound, NotADirectory, IsADirectory, IsASpecialFile, NotASymlink, NotUtf8, PathTooLong and TooManySymlinks are each returned exactly when their documented condition holds. The operations agree with each other (exists is true exactly when metadata succeeds, open succeeds exactly when read does on an intact file, every listed entry resolves) and all accepted path types give the same result; conversion of an error to std::io::Error keeps its category.",
 ["inputs","histories"],"all operations x all node kinds x all argument forms",
 "Tests check a few operation/kind pairs; agreement between operations is a relation over all paths.",
 ["src/lib.rs","src/file.rs","src/resolve.rs","src/error.rs","src/path.rs","src/inode.rs"],
 [("type checks before use","src/lib.rs"),("error mapping","src/error.rs")],
 ["all path-taking APIs","From<Ext4Error> for std::io::Error"])
p("C20","All storage backends give the same results",
 "Loading the same volume from a byte vector, a std file, a path or any correct Ext4Read implementation gives identical results for every operation, independent of how the backend schedules its own reads; on a volume that is truncated each operation gives either the correct result or an Io error, and data that lies well inside the part that is there stays readable. The crate without the std feature returns the same results as with it.",
 ["configurations","inputs"],"all backends x all images x all operations, truncations at every length",
 "Tests use only the byte-vector backend except for one load_from_path smoke test.",
 ["src/reader.rs","src/lib.rs"],
 [("Ext4Read for Vec<u8>","src/reader.rs"),("Ext4Read for std::fs::File","src/reader.rs"),("load_from_path","src/lib.rs")],
 ["Ext4::load","Ext4::load_from_path","Ext4Read::read"])
p("C21","Results do not depend on the word size of the platform",
 "On a platform with a 32-bit usize every operation on every filesystem gives the same result as on a 64-bit one, without panicking: volumes, files, block numbers and file positions above 2^32 bytes are handled exactly, and arithmetic on them is never done in usize. The one permitted difference is a file whose contents do not fit in the address space: reading it whole fails with FileTooLarge, and reading parts of it through an open file still works.",
 ["inputs","configurations"],"all filesystems x all operations on 32-bit and 64-bit platforms",
 "Tests run on the 64-bit host only; conversions between u64 and usize never fail or truncate there.",
 ["src/lib.rs","src/file.rs","src/util.rs","src/reader.rs","src/block_cache.rs","src/iters/"],
 [("read_inode_file","src/lib.rs"),("File::read_bytes","src/file.rs"),("usize_from_u32","src/util.rs"),("Ext4Read for Vec<u8>","src/reader.rs")],
 ["Ext4::read","Ext4::open","File::read_bytes","File::seek_to","Ext4::load"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
