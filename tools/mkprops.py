#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below (one place to edit statements).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

IX = "pkg/btrfs/index/index_store.go"
REC = "cmd/recover.go"

prop("C01", "Scan indexes exactly the items of matching leaves",
 "After a scan of an image with a given block size and filesystem id, the metadata index holds one entry for every in-bounds item of every block-aligned leaf block with that filesystem id located after the first superblock and fully inside the device, and no entry for any other block. Each entry carries the item's key, the leaf's owner and generation, and exactly the item's header and payload bytes.",
 ["inputs"], "All images: any position of a leaf in the scanned area, any device size, any header fields, any item keys, offsets and sizes inside the leaf.",
 "No test runs the scan at all; whether a leaf at the last block, a one-item leaf or an item that ends at the block boundary is indexed depends on rare offsets.",
 ["cmd/recon.go", "pkg/btrfs/leaf.go", IX, "pkg/ioutil/ioutil.go"],
 [("block loop and leaf filter", "cmd/recon.go doScanFS"), ("item slicing", "pkg/btrfs/leaf.go Leaf.Item/Key/Data"), ("insert", IX+" InsertItem")],
 observe=["metadata index entries after `recon`"])

prop("C02", "Scan survives any image content",
 "Whatever bytes an image contains (corrupt item counts, item offsets and sizes included), scanning it neither crashes nor loses the intact items of the same or of other leaves, and the identity record of the index (format version, block size, filesystem id) stays as it was written.",
 ["inputs"], "All contents of a block that carries the filesystem id being scanned for.",
 "Corruption is exactly what the tool is for, but the tests contain no corrupt leaf; the failing values sit at the edges of 32-bit offset arithmetic.",
 ["cmd/recon.go", "pkg/btrfs/leaf.go", IX],
 [("item count clamp", "pkg/btrfs/leaf.go Leaf.Len"), ("item length clamp", "pkg/btrfs/leaf.go Leaf.Data")],
 observe=["exit status of `recon`", "index contents"])

prop("C03", "Point lookup returns the newest admissible version",
 "Looking up an item by owner and key reports it absent exactly when no version of it is indexed. Otherwise it returns the stored version with the highest generation not above the generation the index is viewed at, or the earliest version when all are later.",
 ["inputs", "histories"], "All index contents (any owners, keys, generations, any number of versions) and all view generations.",
 "The tests hold one version per key and view at the maximum generation only; version selection depends on how neighbouring keys sort.",
 [IX, "pkg/btrfs/index/key_format.go"],
 [("version selection", IX+" find"), ("FindItem and typed wrappers", IX+" FindItem/FindInodeItem/FindFileExtentItem/FindExtentItem")],
 observe=["Index.FindItem"])

prop("C04", "Enumeration yields every matching item exactly once, in order",
 "Enumerating the directory entries, extended attributes, file extents, chunks or devices of an object yields every distinct key of that owner, kind and object id exactly once, in ascending offset order, each in the same version a point lookup returns, and nothing that belongs to another owner, kind or object. This holds whatever the generations of the individual items are, and the enumeration terminates.",
 ["inputs", "histories"], "All index contents and view generations: items of one object spread over leaves with different generations, several stale versions per item, neighbouring objects and owners.",
 "Tests enumerate a single item; directories whose items come from leaves of different generations are the normal case on a real filesystem and never sampled.",
 [IX],
 [("cursor stepping", IX+" Range/Next/HasNext/findNext/lowerBound"), ("typed ranges", IX+" RangeAll/DirItems/XAttrItems/FileExtentItems/Chunks/DevItems")],
 observe=["Index.RangeAll and the typed ranges", "`ls` and `recover` output"])

prop("C05", "Every subvolume is enumerated",
 "Enumerating subvolumes yields the root item of every subvolume id in the range reserved for subvolumes exactly once, in ascending order and in the version a point lookup returns, and no root item of an internal tree.",
 ["inputs", "histories"], "All sets of root items, contiguous or not, with any generations.",
 "No test has a subvolume; the lowest possible id being absent is the case that matters.",
 [IX], [("range start", IX+" Subvolumes/Range/lowerBound")], observe=["Index.Subvolumes", "`recover` of unreferenced subvolumes"])

prop("C06", "Committed items survive reopening unchanged",
 "Every item inserted into an index is found after the index is closed and reopened, with the same owner, key, generation, header and payload, whatever other items were inserted before or after it and however many inserts one batch holds. The full dump lists every stored version exactly once, ordered by owner, item type, object id, offset and generation, and lists nothing for an empty index.",
 ["inputs", "histories"], "All keys, owners, generations, payloads and insertion orders; every fill level of the write batch.",
 "The only round-trip test stores metadata options, not items; the batch threshold (10000 inserts) is never reached.",
 [IX, "pkg/btrfs/index/key_format.go", "cmd/dump_index.go"],
 [("insert and batch commit", IX+" InsertItem/Commit/ensureTx/Close"), ("key encoding", "pkg/btrfs/index/key_format.go newIndexKey"), ("full range", IX+" FullRange")],
 state=[("txNum", "inserts in flight in the current transaction", IX)],
 observe=["Index.FindItem after reopen", "dump-index"])

prop("C07", "An index is only opened when it fits",
 "A newly created index records exactly the block size, filesystem id and generation it was created with and the current format version. Opening an existing index for writing, other than for an upgrade that allows old versions, succeeds only if its block size and filesystem id equal the requested ones; an index of a newer format is always refused and one of an older format is refused unless explicitly allowed; and no open, accepted or refused, changes an existing record.",
 ["inputs", "configurations"], "All stored identity records and all open options.",
 "One creation with matching values is tested; every refusal path is untested.",
 [IX], [("metadata check", IX+" checkUpdateMetadata/newIndexMetadata/openIndex")], observe=["Open/OpenReadOnly result", "Index.Metadata"])

prop("C08", "Logical addresses map through the covering chunk",
 "A logical address that lies inside a known chunk maps to the device of that chunk's first stripe and to the stripe's offset plus the distance of the address from the start of the chunk. This holds for every address of every chunk, first and last byte included, and in the presence of stale chunk versions and of chunks without stripes.",
 ["inputs"], "All sets of non-overlapping chunks and all logical addresses inside one of them.",
 "The recover test maps one address, the start of the only chunk.",
 [IX, "pkg/btrfs/btrfs.go"], [("address mapping", IX+" Physical"), ("chunk decoding", "pkg/btrfs/btrfs.go Chunk/Stripe")], observe=["Index.Physical", "recovered data"])

prop("C09", "Recovered files have the right bytes and length",
 "A recovered regular file has exactly the size its inode records, and each byte equals the inline data, the device byte the covering uncompressed extent maps to, or zero where the file has a hole or an extent that was allocated but never written. Without an inode record every extent is still restored at its file offset.",
 ["inputs"], "All layouts of uncompressed inline, regular, preallocated and hole extents, all sizes, extent offsets and device contents.",
 "The test recovers one single-extent file and one inline file, both with offset zero.",
 [REC, IX], [("extent copy", REC+" recoverFile"), ("address mapping", IX+" Physical")], observe=["files below DESTDIR"])

prop("C10", "Recovery writes only below the destination",
 "Whatever names, entry types, duplicate entries and link targets an index contains, recovery creates, changes, truncates or removes nothing outside the destination directory; in particular it never writes through a symbolic link that it restored itself.",
 ["inputs"], "All directory entry names and types, all combinations of entries with equal names, all link targets.",
 "Needs hostile or corrupt metadata: separators or dot names, or two entries of one name where one is a symbolic link.",
 [REC], [("name filter", REC+" recoverDir"), ("file creation", REC+" recoverFile"), ("symlink creation", REC+" recoverSymlink")], observe=["file system outside DESTDIR"])

prop("C11", "Without --clobber nothing that exists is touched",
 "Unless overwriting was requested, recovery leaves every file and symbolic link that already exists in the destination byte for byte as it was, and still recovers the remaining ones. With overwriting requested, existing files and links are replaced by the recovered content.",
 ["inputs", "configurations"], "All pre-existing contents of the destination, both settings of the option, entries of equal name included.",
 "The test runs with overwriting on into an empty directory.",
 [REC], [("existence checks", REC+" recoverFile/recoverSymlink")], observe=["files below DESTDIR"])

prop("C12", "Recovery restores the whole reachable tree",
 "Every directory, regular file and symbolic link reachable from the root directory, including those in referenced subvolumes, appears below the destination at its path and with its kind, and every subvolume that no directory references is restored under a directory of its own. A name that cannot be used, an entry that fails or an inode that is missing does not keep its siblings from being restored.",
 ["inputs"], "All directory trees within the bound, including entries that cannot be restored.",
 "The test tree is one flat directory of two files.",
 [REC, IX], [("tree walk", REC+" doRecoverFiles/recoverDir"), ("entry enumeration", IX+" DirItems/Subvolumes")], observe=["tree below DESTDIR"])

prop("C13", "Reading commands survive any index content",
 "Listing, dumping, path lookup and recovery do not crash, whatever bytes the stored items contain: truncated items, name or data lengths beyond the item, oversized inline lengths, missing chunks or inodes.",
 ["inputs"], "All payload bytes and payload lengths of the directory, inode, extent and chunk items that a command touches.",
 "All items in the tests are well formed.",
 [REC, "cmd/ls.go", "cmd/dump_index.go", IX, "pkg/btrfs/btrfs.go", "pkg/btrfs/leaf.go"],
 [("item decoding", "pkg/btrfs/btrfs.go accessors"), ("item payload", "pkg/btrfs/leaf.go Item.Data"), ("lookup", IX)],
 observe=["exit status of ls, dump-index and recover"])

prop("C14", "The image is never written and reading keeps the index",
 "No command ever opens the device or image for writing or modifies it, and the commands that only read the metadata index (listing, dumping, recovery, mounting) leave the index file as it was. Recovery into a directory that itself holds the image or the index under a recovered name is excluded.",
 ["inputs", "configurations"], "All commands, all image and index contents within the bounds of the command harnesses.",
 "Tests do not compare the image before and after; a single open flag breaks it on one path only.",
 ["cmd/recon.go", REC, "cmd/ls.go", "cmd/mount.go", "cmd/dump_index.go", "internal/identify/identify.go", IX],
 [("read-only opens", "os.Open call sites; "+IX+" OpenReadOnly")], observe=["image and index file contents and open modes"])

prop("C15", "Path lookup finds exactly the named entry",
 "Looking up a path finds the directory entry reached by following its components from the root of the given tree, switching to a subvolume's own tree where the path crosses into one, and finds nothing when a component does not exist. It does so whether or not the entry is stored under its name hash.",
 ["inputs"], "All directory contents, names and paths within the bound, including hash mismatches and files in the middle of a path.",
 "No test looks up a path.",
 [IX], [("hash lookup and fallback scan", IX+" FindDirItemForPath/NameHash")], observe=["Index.FindDirItemForPath", "`ls PATH`"])

prop("C16", "Listing shows every entry once with the right attributes",
 "Listing a directory prints one line per directory entry, non-directories before directories and by name within each group, with the entry's type letter, the permission string, link count, owner, group and size of its inode record, or question marks when the record is missing. Listing a path inside a subvolume shows the subvolume's own contents.",
 ["inputs"], "All sets of entries within the bound, all modes and attribute values.",
 "ls has no test.",
 ["cmd/ls.go", IX], [("line formatting", "cmd/ls.go listDirItem/inodeModeString/dirItemTypeString"), ("ordering", "cmd/ls.go dirItemSlice.Less"), ("listing", "cmd/ls.go listDirectory/doListFiles")], observe=["stdout of ls"])

prop("C17", "Mounted files read back the right bytes",
 "Reading any range of a file in the mounted view returns, for every offset below the file size, the inline byte, the device byte the covering uncompressed extent maps to, or zero in holes, in never-written extents and when no device was given, in one read and across extent boundaries alike. A read never returns bytes that come from neither the file nor a hole, and a device error is reported as an error.",
 ["inputs", "fault_sequences"], "All extent layouts, offsets and lengths within the bound, all device contents and device errors.",
 "The mount code has no tests.",
 ["internal/rescuefs/files.go", "internal/rescuefs/nodefs.go", IX],
 [("extent map", "internal/rescuefs/files.go newExtentFile"), ("range read", "internal/rescuefs/files.go Read"), ("open", "internal/rescuefs/nodefs.go Open")], observe=["Read results of the opened file"])

prop("C18", "The mounted view shows the indexed tree",
 "In the mounted view each directory lists exactly the names of its entries with their types, looking a name up succeeds exactly for listed names and leads to the inode (or subvolume root) the entry points to, and attributes (device numbers with the stored major and minor), link targets and extended attributes are those stored in the index. Missing records yield an error, not made-up values.",
 ["inputs"], "All directory, inode, link and extended attribute contents within the bound.",
 "The mount code has no tests.",
 ["internal/rescuefs/nodefs.go", "internal/rescuefs/files.go"],
 [("nodes", "internal/rescuefs/nodefs.go Lookup/OpenDir/GetAttr/Readlink/GetXAttr/ListXAttr")], observe=["node operations of the mounted tree"])

prop("C19", "The mounted view cannot modify anything",
 "No operation on the mounted view, whatever open flags a client passes, creates, truncates or writes the metadata file or the device; handles obtained from the view reject writes.",
 ["inputs"], "All open flags on every node of the view.",
 "The mount code has no tests, and only unusual flag combinations show it.",
 ["internal/rescuefs/nodefs.go", "internal/rescuefs/files.go"],
 [("metadata file open", "internal/rescuefs/nodefs.go metadataNode.Open"), ("read-only wrappers", "internal/rescuefs/nodefs.go Open, files.go newExtentFile")], observe=["flags given to the OS", "metadata file contents"])

prop("C20", "Identification samples only valid, distinct, sorted blocks",
 "For every device size, every positive block size and every requested sample count, choosing sample positions terminates without a crash and returns strictly ascending positions, each leaving room for a whole block on the device. It includes every block near the superblock copies that fits, as far as the requested count allows, and returns the requested number of positions whenever the device has that many blocks.",
 ["inputs", "configurations"], "All device sizes, block sizes and sample counts within the bound, all outcomes of the random source.",
 "One device and one block size with a fixed seed are tested; small sample counts and devices near the minimum size are not.",
 ["internal/identify/identify.go"], [("sampling", "internal/identify/identify.go MakeSampleOffsets")], observe=["MakeSampleOffsets result", "exit status of identify"])

prop("C21", "Identification counts each filesystem id correctly",
 "The identification result lists exactly the filesystem ids that occur in at least the requested number of sampled leaf blocks, each with its exact number of occurrences, and never the all-zero or all-ones id or ids of non-leaf blocks; entries are ordered by descending count. If all leaves of an id hold items and the data of the first item of each starts within the last page of the block, the reported block size is the actual one.",
 ["inputs"], "All sequences of sampled blocks within the bound.",
 "One fixed histogram is tested and the block size is checked only for the most frequent id.",
 ["internal/identify/collector.go"], [("collection", "internal/identify/collector.go CollectBlock/Entries")], observe=["FSIDCollecter.Entries"])

prop("C22", "Filesystem ids round-trip through text",
 "Every id printed as text parses back to the same id, and the text has the canonical 8-4-4-4-12 lower-case form. A string is accepted exactly when it consists of 32 hexadecimal digits of either case after dropping dashes, and then denotes those digits in order; a rejected string leaves a previously set id unchanged.",
 ["inputs"], "All 2^128 ids; all strings up to the bound.",
 "Seven strings are tested.",
 ["pkg/uuid/uuid.go"], [("formatting", "pkg/uuid/uuid.go String"), ("parsing", "pkg/uuid/uuid.go Set")], observe=["uuid.New/Set/String"])

prop("C23", "On-disk fields decode at their documented positions",
 "Every accessor of a BTRFS structure returns the little-endian value of the field at the offset and width the BTRFS on-disk format defines, for keys, headers, items, device, chunk, stripe, inode, reference, directory, block group, extent, root and checksum structures, strings and times included.",
 ["inputs"], "All byte contents of well-formed structures.",
 "No test decodes a structure; swapped or shifted fields of equal width go unnoticed.",
 ["pkg/btrfs/btrfs.go", "pkg/btrfs/leaf.go", "pkg/btrfs/slice.go", "pkg/btrfs/parse_buffer.go"],
 [("field offsets", "pkg/btrfs/btrfs.go const blocks"), ("slicing", "pkg/btrfs/slice.go")], observe=["accessor results"])

prop("C24", "Key comparison is a total order matching the index order",
 "Comparing two filesystem keys yields zero exactly for equal keys, opposite signs when the arguments are swapped, is transitive, and orders keys by type, then object id, then offset, all unsigned, which is the order in which the index enumerates them.",
 ["inputs"], "All pairs and triples of keys.",
 "Five comparisons are tested, none with values that differ in the top bit.",
 ["pkg/btrfs/btrfs.go", "pkg/btrfs/index/key_format.go"], [("comparison", "pkg/btrfs/btrfs.go KeyCompare"), ("index encoding", "pkg/btrfs/index/key_format.go newIndexKey")], observe=["KeyCompare sign", "index enumeration order"])

prop("C25", "Name hash equals the BTRFS directory hash",
 "The hash computed for a name is the BTRFS directory name hash: CRC-32C with the seed 0xFFFFFFFE and without final inversion, for names of every content and length.",
 ["inputs"], "All names up to the bound.",
 "No test pins the hash of a name; the recover test uses the function on both sides.",
 [IX], [("hash", IX+" NameHash")], observe=["NameHash", "`ls PATH` fast path"])

prop("C26", "A block read is complete or an error",
 "Reading a block succeeds exactly when the underlying reader delivered the whole block, even if it signals end of input along with the last bytes, and any short read is an error. A device is accepted exactly when it is at least 64 MiB plus one hundred blocks large, its reported size is the true size, and a failing size query is passed on.",
 ["inputs", "fault_sequences"], "All results a reader may legally return; all device sizes and block sizes.",
 "Three reads of a well-behaved in-memory reader are tested.",
 ["pkg/ioutil/ioutil.go", "pkg/btrfs/util.go"], [("block read", "pkg/ioutil/ioutil.go ReadBlockAt"), ("size check", "pkg/btrfs/util.go CheckDeviceSize")], observe=["ReadBlockAt and CheckDeviceSize results"])

prop("C27", "Data that could not be recovered is reported",
 "If any part of a file's data cannot be read from the image, recovery reports a failure for that file instead of passing it off as recovered, and still restores the file's other extents and the other files.",
 ["fault_sequences", "inputs"], "All positions of unreadable or missing device ranges relative to the extents of a file.",
 "No test injects a read failure or an image shorter than the metadata says.",
 [REC], [("copy loop error handling", REC+" recoverFile")], observe=["stderr of recover", "files below DESTDIR"])

prop("C28", "Commands terminate on cyclic directory structures",
 "Recursive listing and recovery terminate on every directory graph, including directories and subvolumes that contain themselves or each other and entries reachable on several paths.",
 ["inputs"], "All directory graphs within the bound.",
 "Healthy trees have no cycles; stale metadata of several generations does.",
 [REC, "cmd/ls.go"], [("visited set", REC+" recoverDir"), ("recursion", "cmd/ls.go listDirectory")], observe=["termination of ls --recursive and recover"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
