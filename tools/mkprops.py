#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

IX = "pkg/btrfs/index/index_store.go"
REC = "cmd/recover.go"
NODE = "internal/rescuefs/nodefs.go"
FIL = "internal/rescuefs/files.go"

prop("C01", "Recon records exactly the leaf items of the chosen filesystem",
 "After scanning an image, the metadata index holds every item of every leaf block that lies at a block-aligned position behind the primary superblock and carries the requested filesystem id, each under its owner, key and generation and with its exact bytes. It holds nothing else: interior nodes, empty leaves, superblock copies, a trailing partial block and blocks of other filesystems contribute nothing.",
 ["inputs"], "all disk images: any placement, number, size and interleaving of leaves, nodes, foreign blocks and superblock copies; all supported block sizes",
 "No test runs the scan at all; TestRecoverCommand inserts seven hand-made items directly into an index.",
 ["cmd/recon.go", "pkg/btrfs/leaf.go", IX],
 [("block loop and leaf filter", "cmd/recon.go doScanFS"), ("item and data slicing", "pkg/btrfs/leaf.go"), ("insertion", IX + " InsertItem")],
 observe=["the metadata file after `btrfscue recon`, read through the index API"])
prop("C02", "Recon is idempotent and accumulates across images",
 "Scanning the same image again changes nothing in the index, and scanning several images of one filesystem into one metadata file yields the union of their items in any order. Scanning for another filesystem id or with another block size is refused and leaves the recorded items as they were.",
 ["histories", "inputs"], "all sequences of scans of intact partial images of one or several filesystems into one metadata file",
 "No test runs two scans, or any scan, against an existing metadata file.",
 ["cmd/recon.go", IX], [("open existing or create", IX + " checkUpdateMetadata"), ("keyed upsert", IX + " InsertItem")],
 observe=["index contents and exit status after each scan"])
prop("C03", "An interrupted recon never corrupts the metadata",
 "If a scan is killed, or power is lost, at any point after the metadata file was first initialised, that file can be opened again, everything in it is a true record of the scanned image, and repeating the scan completes it. Once a scan has exited successfully its whole result survives a power loss.",
 ["crash_points"], "all kill instants and all prefixes (with any loss of unsynced writes) of the sequence of file writes a scan issues",
 "Tests never interrupt anything; a handful of runs cannot cover the crash points of a batched write sequence.",
 ["cmd/recon.go", IX], [("batched transactions", IX + " InsertItem/Commit"), ("final commit before success", "cmd/recon.go doScanFS")],
 observe=["system calls on the metadata file", "reopened crash images"])
prop("C04", "No command alters the image; readers never alter the metadata",
 "No command ever changes the disk image or device it is given, and listing, dumping, recovering from and mounting a metadata file never change that file. Any number of such readers can use one metadata file at the same time, each with the same result as alone.",
 ["inputs", "schedules"], "all commands, option combinations, images, and overlapping runs of readers",
 "Tests never compare the image or metadata file before and after, nor run two readers at once.",
 [IX, "cmd/recon.go", REC, "cmd/ls.go", "cmd/mount.go", "cmd/dump_index.go", "internal/identify/identify.go"],
 [("read-only open", IX + " OpenReadOnly"), ("os.Open on the device", "cmd/*.go")],
 observe=["bytes and timestamps of image and metadata around each command", "open flags and write calls in a syscall trace"])
prop("C05", "Index lookup returns the newest version not newer than the view",
 "Looking up an object in the index returns the record with the greatest generation that does not exceed the index's view generation, or the oldest record if all are newer. It returns nothing if the object has no record, however close its neighbours' keys are.",
 ["histories", "inputs"], "all sets of (owner, key, generation) records, view generations and search keys",
 "No test looks anything up except one generation-1 item per key through the recover test.",
 [IX, "pkg/btrfs/index/key_format.go"], [("seek and step back", IX + " find"), ("order-preserving key encoding", "pkg/btrfs/index/key_format.go")],
 observe=["FindItem, FindInodeItem, FindFileExtentItem, FindExtentItem results"])
prop("C06", "Range iteration yields every key once, in order, at its right version",
 "Iterating a key range of one owner yields every recorded key of that range exactly once in ascending order, each in the version a lookup of that key returns, however generations are mixed. The prepared ranges contain all directory entries, extended attributes and extents of an object, and all chunks, devices and subvolumes. Iterating the whole index yields every recorded version of every item exactly once and nothing else.",
 ["histories", "inputs"], "all index contents, range bounds and view generations",
 "The only test iterates ranges whose items all have generation 1.",
 [IX], [("first key of range", IX + " Range"), ("advance to next key", IX + " findNext"), ("full scan", IX + " FullRange")],
 observe=["the event sequence (key, generation, data) a range delivers"])
prop("C07", "One read-only index serves concurrent readers consistently",
 "Any number of threads may query one index that was opened for reading, without coordination. Every query returns what it returns when run alone, without data races or crashes.",
 ["schedules"], "all interleavings of lookups, range iterations, path lookups and address translations on a shared read-only index",
 "No test uses more than one goroutine.",
 [IX], [("lazily built chunk map", IX + " Physical"), ("shared read transaction", IX + " ensureTx")],
 state=[("stripeMap", "cached chunk map", IX + " Index")],
 observe=["query results per goroutine", "race detector reports"])
prop("C08", "Logical addresses translate through the chunk that contains them",
 "Every logical address inside a recorded chunk maps to the device of that chunk's first stripe and to that stripe's physical start plus the address's distance from the chunk's start, and the number of bytes that follow in the chunk is the chunk's length less that distance. This holds for the first and the last byte of every chunk, for any number of chunks in any order and however their generations are mixed. An address that no chunk contains has no translation.",
 ["inputs"], "all sets of non-overlapping chunks and all addresses",
 "One test translates one address, the start of the only chunk.",
 [IX, "pkg/btrfs/btrfs.go"], [("chunk map and binary search", IX + " Physical"), ("stripe decoding", "pkg/btrfs/btrfs.go Chunk.Stripe")],
 observe=["Physical results", "bytes recovered from translated extents"])
prop("C09", "Path lookup finds exactly the entry the path names",
 "Looking up a clean path yields the directory entry, and the tree it belongs to, that walking the directories component by component yields, crossing into subvolumes at their mount entries, and yields nothing if any component does not exist. The result does not depend on whether the entry's recorded name hash is right.",
 ["inputs"], "all directory trees, subvolume nestings, names and paths, existing or not",
 "No test looks up a path.",
 [IX], [("hash fast path and scan fallback", IX + " FindDirItemForPath")],
 observe=["FindDirItemForPath results", "`btrfscue ls PATH` output"])
prop("C10", "ls lists each entry once with the attributes its inode records",
 "Listing a directory prints one line for each of its entries, giving the type, permissions, link count, owner, group, size and change time (UTC) of its inode and its name as recorded (quoted if it has a tab, line break or 0xff byte), non-directories first and each group sorted by name; several paths are listed one after the other, also if some of them do not exist. With recursion every directory below is listed as well, subvolumes included, and the listing ends even if directories form a cycle.",
 ["inputs"], "all directory trees with any names, types, attributes, generations, subvolumes and cycles",
 "No test runs the command.",
 ["cmd/ls.go", IX], [("listing and recursion", "cmd/ls.go listDirectory"), ("path arguments", "cmd/ls.go doListFiles")],
 observe=["stdout and termination of `btrfscue ls`"])
prop("C11", "recover restores every reachable file, directory and symlink exactly",
 "Recovering into an empty directory creates every directory, regular file and symbolic link reachable from the main tree, subvolumes in place, and every subvolume not reachable that way in a directory of its own. Each file's bytes and length and each link's target are what the metadata and image say for uncompressed data: inline and on-disk extents with their data, holes and preallocated ranges as zeros, cut at the recorded size.",
 ["inputs"], "all directory trees, extent layouts (inline, regular with offsets, shared, sparse, preallocated, huge holes), chunk maps and generations",
 "TestRecoverCommand recovers two files of one directory, one extent each, one generation.",
 [REC, IX, "pkg/btrfs/btrfs.go"], [("tree walk", REC + " recoverDir"), ("extent copy", REC + " recoverFile"), ("symlinks", REC + " recoverSymlink"), ("orphan subvolumes", REC + " doRecoverFiles")],
 observe=["the recovered directory tree compared with a reference model"])
prop("C12", "recover never touches anything outside the destination",
 "Whatever names, link targets and directory structure the metadata contains, recovering creates, changes and removes nothing outside the destination directory. This includes entries that collide with recovered or pre-existing symbolic links, with and without permission to overwrite.",
 ["inputs", "histories"], "all metadata, hostile or corrupt, all prior contents of the destination, repeated recoveries",
 "The test recovers two plain names into a fresh directory.",
 [REC], [("name filter", REC + " recoverDir"), ("existence checks", REC + " recoverFile/recoverSymlink")],
 observe=["a snapshot of everything around the destination before and after"])
prop("C13", "recover keeps existing files unless told to overwrite",
 "Without the overwrite option, recovering leaves every file and symbolic link already in the destination exactly as it was and still restores everything else. With it, each recovered file ends up with exactly the recovered content, whatever file or symbolic link was there before, files at paths that are not recovered stay as they are, and repeating a recovery gives the same tree.",
 ["histories", "inputs"], "all prior destination contents and sequences of recoveries",
 "The test runs one recovery, with overwriting, into an empty directory.",
 [REC], [("clobber checks and truncation", REC + " recoverFile/recoverSymlink")],
 observe=["destination tree before and after each run"])
prop("C14", "recover reports every file it could not restore faithfully",
 "If data of a file cannot be obtained (the image ends early, a read fails, no chunk covers the address, or the extent is stored in an encoding the tool does not decode), recovering prints a warning that names the file. It then carries on, and all other files are restored as usual. No warning names a file that is restored, and there is none if everything is.",
 ["fault_sequences", "inputs"], "all positions and kinds of read faults, truncations and undecodable extents",
 "The test's image has no faults.",
 [REC], [("read loop error handling", REC + " recoverFile"), ("per-entry warnings", REC + " recoverDir")],
 observe=["stderr and the destination tree"])
prop("C15", "The mounted view shows the recorded tree and attributes",
 "Through the mount, each directory lists exactly its recorded entries with the right kind of file, each entry can be looked up and shows its inode's recorded mode, size, owner, link count, device and times, and names that do not exist are not found. Symbolic link targets and extended attributes read back as recorded, and subvolumes appear in place.",
 ["inputs", "histories"], "all recorded trees and sequences of lookup, list, stat, readlink and attribute requests",
 "The FUSE package has no tests.",
 [NODE, IX], [("lookup, listing, attributes", NODE + " rescueNode")],
 observe=["FUSE requests and replies, with an emulated kernel as the client"])
prop("C16", "Reading through the mount returns the file's bytes at any offset",
 "Every regular file of the mounted view can be opened, and a read of any offset and length returns exactly the file's bytes of that range up to the recorded size: data across extent boundaries, zeros for holes and preallocated ranges, nothing past the end. A range whose data cannot be read or decoded gives an error instead of wrong bytes.",
 ["inputs", "histories"], "all extent layouts, offsets, lengths and read sequences",
 "The FUSE package has no tests.",
 [FIL, NODE], [("extent map and read", FIL + " extentFile"), ("open", NODE + " rescueNode.Open")],
 observe=["FUSE READ replies under the kernel's short-read rule"])
prop("C17", "The mounted view is the same under concurrent requests",
 "Any interleaving of concurrent requests from any number of clients gets the replies each request would get alone. The serving process has no data race and does not crash.",
 ["schedules"], "all interleavings of concurrent FUSE requests, including first accesses to the same directory and file",
 "The FUSE package has no tests, and none in the repository is concurrent.",
 [NODE, FIL, IX], [("lazily filled per-node caches", NODE + " rescueNode.attr/dirItems"), ("lazily built chunk map", IX + " Physical")],
 state=[("dirItems, attr", "per-directory caches filled on first use", NODE)],
 observe=["replies per request", "race detector reports of the serving process"])
prop("C18", "The mounted view cannot be modified",
 "Every request through the mount that would create, change, rename, link or remove something, or write to a file, is refused with an error. Image, metadata and the visible tree stay as they were.",
 ["histories", "inputs"], "all sequences of mutating requests mixed with reads, on every kind of node and file handle",
 "The FUSE package has no tests.",
 [NODE, FIL], [("read-only file wrapper and default nodes", NODE + " / " + FIL)],
 observe=["FUSE error replies", "image, metadata and view before and after"])
prop("C19", "identify reports the right ids, counts and block size",
 "The report lists exactly the filesystem ids that occur in at least the required number of sampled leaf-like blocks, each once with that number, most frequent first, and never an all-zero or all-ones id. The reported block size is the filesystem's whenever the sampled leaves are packed from their end and hold items, and the entropy is that of the id's bytes. If no id occurs often enough a warning says so, and only then.",
 ["inputs"], "all block populations and occurrence thresholds",
 "TestCollecter checks one fixed population and looks at the first entry only.",
 ["internal/identify/collector.go", "internal/identify/identify.go", "pkg/coding/entropy.go"],
 [("histogram", "internal/identify/collector.go CollectBlock/Entries")],
 observe=["output of `btrfscue identify`"])
prop("C20", "identify samples distinct blocks inside the device, as many as asked",
 "For every device size and every sampling option the command accepts, identify terminates and examines each block at most once, only blocks that lie completely inside the device, and always the blocks next to each superblock copy the device has; the others are spread over the whole device, each can be among them, and another run examines other ones. It examines the requested number of blocks whenever that many exist and the superblock neighbourhoods do not already exceed it.",
 ["configurations", "inputs"], "all device sizes, block sizes, sample fractions, minimum and maximum counts, and random sequences",
 "TestMakeSampleOffsets checks one device size with one seed, and fails with other seeds.",
 ["internal/identify/identify.go"], [("sample set", "internal/identify/identify.go MakeSampleOffsets")],
 observe=["ids reported for an image in which every block carries a unique id"])
prop("C21", "Corrupt images never crash or hang a command, nor lose intact data",
 "Whatever bytes an image contains, identifying, scanning, dumping, listing, recovering and mounting end normally or with an error message, never with a crash, runaway memory use or endless loop. Files all of whose metadata and data lie in undamaged blocks are still listed and recovered. A scan still records the intact items next to items whose descriptors point out of their leaf.",
 ["inputs", "fault_sequences"], "all images, in particular real ones with any bytes of any block replaced",
 "All test inputs are well-formed.",
 ["pkg/btrfs/leaf.go", "pkg/btrfs/btrfs.go", "cmd/recon.go", "cmd/ls.go", REC, IX, NODE, FIL],
 [("clamping of counts and lengths", "pkg/btrfs/leaf.go, pkg/btrfs/btrfs.go"), ("visited set", REC + " recoverDir")],
 observe=["exit status, stderr, CPU and memory use of each command; recovered intact files"])
prop("C22", "Structure accessors decode the BTRFS on-disk format",
 "Every accessor of the on-disk structures returns the value stored little-endian at the offset and width the BTRFS disk format assigns to that field, for all contents, and names (up to 255 bytes) and inline data are returned with exactly their recorded length. No accessor reads another field's bytes or beyond the end of its structure.",
 ["inputs"], "all byte contents of headers, items, keys, inodes, directory entries, extents, chunks, stripes, devices, roots and references",
 "Tests touch a handful of fields through one recovery with small values.",
 ["pkg/btrfs/btrfs.go", "pkg/btrfs/leaf.go", "pkg/btrfs/slice.go"], [("offset constants and slice readers", "pkg/btrfs/btrfs.go, leaf.go, slice.go")],
 observe=["accessor results on buffers with a unique pattern in every field"])
prop("C23", "Filesystem ids survive the round trip through text",
 "Formatting any id and parsing the text gives the id back, in the canonical 8-4-4-4-12 lower-case form. Parsing accepts exactly the texts that are 32 hexadecimal digits once dashes are removed, in either case, and a rejected text leaves the previous value unchanged.",
 ["inputs"], "all 128-bit ids and all strings",
 "Tests try two ids and seven strings.",
 ["pkg/uuid/uuid.go"], [("String, Set, New", "pkg/uuid/uuid.go")], observe=["uuid API results"])
prop("C24", "Key comparison is a total order and is the index's order",
 "Comparing keys is antisymmetric, transitive and zero only for equal keys, ordering by type, then object id, then offset, all unsigned. Items of one owner come out of the index in exactly this order. Converting an index key of the old format keeps its owner, key and generation.",
 ["inputs"], "all triples of keys, including values that differ only in high bits",
 "The test compares two pairs of small keys.",
 ["pkg/btrfs/btrfs.go", "pkg/btrfs/index/key_format.go"], [("KeyCompare", "pkg/btrfs/btrfs.go"), ("big-endian key encoding", "pkg/btrfs/index/key_format.go")],
 observe=["comparison results", "index iteration order"])
prop("C25", "A block read delivers the whole block or an error",
 "Reading a block reports success exactly when the underlying reader delivered the complete block, whatever else the reader returned, and then the buffer holds the bytes at that offset. In all other cases it reports an error.",
 ["inputs", "fault_sequences"], "all readers, including ones that return short counts, end-of-file together with a full block, or errors at any position",
 "The test uses one well-behaved reader and three offsets.",
 ["pkg/ioutil/ioutil.go"], [("ReadBlockAt", "pkg/ioutil/ioutil.go")], observe=["ReadBlockAt results against a scripted reader"])
prop("C26", "The entropy score is the Shannon entropy of the bytes",
 "The score of any non-empty byte string is its Shannon entropy in bits per byte: between 0 and 8, 0 exactly if all bytes are equal, unaffected by reordering or relabelling the bytes or by repeating the whole string, and equal to the defining sum.",
 ["inputs"], "all byte strings",
 "The test checks three strings to two to five digits.",
 ["pkg/coding/entropy.go"], [("ShannonEntropy", "pkg/coding/entropy.go")], observe=["ShannonEntropy results"])
prop("C27", "Opening an index checks its identity and releases it on refusal",
 "An index reopens only with matching filesystem id, block size and format version (for an upgrade with any id, block size and older version, but no newer one), and reports the id, block size and generation it was created with, whatever was inserted; for reading it opens whatever those are. A refused or failed open changes nothing in the file, creates no file, and leaves it free to be opened correctly afterwards.",
 ["histories", "inputs"], "all sequences of creating, opening with right and wrong parameters, and closing; all file contents",
 "TestCreation opens one index twice with matching parameters.",
 [IX], [("metadata record check", IX + " checkUpdateMetadata"), ("open", IX + " openIndex")], observe=["open results, file bytes, subsequent opens"])
prop("C28", "Index writes are visible at once, durable on commit, and transactional",
 "An item inserted into an index is found immediately by queries on it, before and after any commit and any number of insertions, and is there after closing and reopening. A raw transaction takes effect as a whole if its function succeeds and not at all if it fails, without affecting items inserted before. What was committed is there even if the process ends without closing.",
 ["histories", "crash_points"], "all sequences of insertions, overwrites, queries, commits, raw transactions, closes and abrupt ends, across internal batch boundaries",
 "No test queries an index it is writing, inserts more than eight items, or uses a raw transaction.",
 [IX], [("transaction management", IX + " InsertItem/Commit/RawTx/Close/ensureTx")], observe=["query results and reopened copies against a map model"])
prop("C29", "dump-index prints every record exactly once",
 "Dumping prints one line for every recorded version of every item, with its key and generation, in index order under a heading for its owner, and nothing that is not a record. It does so for an index of any size, including an empty one.",
 ["inputs"], "all index contents",
 "No test runs the command.",
 ["cmd/dump_index.go", IX, "pkg/btrfs/to_string.go"], [("full scan loop", "cmd/dump_index.go doDumpIndex")], observe=["stdout of `btrfscue dump-index`"])
prop("C30", "Refused commands exit with an error and leave nothing behind",
 "A command given a missing or unusable metadata file, filesystem id, block size, image or destination, an image to be scanned or identified that is too small for a filesystem, or the wrong number of arguments prints an error and exits with a non-zero status. It does not create or change the metadata file, the image or the destination.",
 ["configurations", "inputs"], "all commands with all combinations of missing, malformed and mismatching arguments",
 "No test runs a command that fails.",
 ["cmd/recon.go", "cmd/ls.go", REC, "cmd/mount.go", "cmd/dump_index.go", "internal/identify/identify.go", "pkg/btrfs/util.go", IX],
 [("option checks", "cmd/*.go"), ("device size check", "pkg/btrfs/util.go CheckDeviceSize")], observe=["exit status, stderr, directory snapshot"])
prop("C31", "The name hash is BTRFS's directory hash",
 "For every name the hash equals the CRC-32C that BTRFS uses as the key offset of the name's directory entry.",
 ["inputs"], "all byte strings", "No test checks a hash value.",
 [IX], [("NameHash", IX)], observe=["NameHash against a bitwise reference"])
prop("C32", "A parse buffer consumes its bytes in order, once, and restartably",
 "Reading successive values from a parse buffer yields the little-endian values of consecutive bytes, with position, remaining and total counts consistent after every step, and setting the position or rewinding makes later reads start exactly there. Reading more bytes than remain never returns data.",
 ["histories", "inputs"], "all buffers and all sequences of reads, seeks and rewinds", "No test uses the parse buffer.",
 ["pkg/btrfs/parse_buffer.go"], [("ParseBuffer", "pkg/btrfs/parse_buffer.go")], observe=["ParseBuffer API against a model"])
prop("C33", "Scans and readers of one metadata file take turns",
 "Scans that record into one metadata file at the same time, and commands or programs that read it meanwhile, behave as if they had run one after another in some order that respects which ended before which started. Every scan that succeeds is recorded completely, and every reader sees each finished scan completely, a running or refused one not at all, and never less than an earlier reader saw. If scans of different filesystems or block sizes start on a new file, those of one are accepted and the others refused; none blocks the others for ever, fails, or crashes because of them.",
 ["schedules", "histories"], "all interleavings of starts, steps and ends of scans (also refused ones) and readers of one metadata file",
 "No test uses an index from more than one process or opens one twice.",
 [IX, "cmd/recon.go", "cmd/dump_index.go"], [("open and locking of the database", IX + " openIndex/Close"), ("scan", "cmd/recon.go doRecon")],
 observe=["recorded starts, ends and results of processes; the records each reader saw"])
prop("C34", "A mount lasts until a signal or an unmount and then cleans up",
 "A mounted view serves, and keeps its metadata locked against writers but not against readers, until it is interrupted or terminated by a signal, at whatever moment after mounting began, or is unmounted from outside. Then it is unmounted, also if that is refused for a while or requests are under way, the command ends with status 0, and the metadata is unchanged and free. If mounting fails or the view cannot be unmounted, the command tells so and ends with another status.",
 ["schedules", "fault_sequences"], "all moments, kinds and numbers of signals and outside unmounts, with and without requests under way, and all failures to mount or unmount",
 "No test mounts anything.",
 ["cmd/mount.go", "internal/rescuefs/rescuefs.go", IX], [("signal handling and end", "cmd/mount.go doMountRescueFS"), ("mount, serve, unmount", "internal/rescuefs/rescuefs.go")],
 observe=["the mount process, its fusermount calls, exit status and messages; locks of the metadata file"])
prop("C35", "Work that could not be done completely is not reported as done",
 "If a block of the image cannot be read, identifying and scanning end with an error message and a non-zero status, and so do listing, dumping and identifying if their output cannot be written completely. If a recovered file cannot be read or written completely, recovering prints a warning that names it and restores the others. Without such a fault they succeed, and what they print or record is complete.",
 ["fault_sequences"], "all failing system calls: any kind of read, write, truncation, creation or closing, at any position, once or persistently",
 "No test lets reading or writing fail.",
 ["cmd/recon.go", "internal/identify/identify.go", "cmd/ls.go", "cmd/dump_index.go", REC, "pkg/ioutil/ioutil.go"],
 [("reading blocks", "pkg/ioutil/ioutil.go ReadBlockAt"), ("writing files", REC + " recoverFile"), ("printing", "cmd/ls.go, cmd/dump_index.go, internal/identify/identify.go")],
 observe=["exit status, messages, output and recovered files with injected system-call errors"])
prop("C36", "A command's results depend only on what it is given to work on",
 "Repeating a command, changing the order, form or position of its options, the verbosity, progress display, current directory, time zone, locale, standard input or the number of processors it may use, or naming its files in another way changes nothing in what it records, lists, dumps, identifies (from the same blocks), recovers or serves, nor its warnings and exit status. The metadata file may be named by --metadata or by the variable BTRFSCUE_METADATA, and the option takes precedence. Verbosity only adds explanations to the output.",
 ["inputs", "schedules"], "all inputs, option orders and forms, environments and schedules",
 "No test runs a command, let alone twice.",
 ["cmd/root.go", "cmd/btrfscue/app/util/cliutil.go", "cmd/ls.go", "cmd/recon.go", REC, "internal/identify/identify.go"],
 [("global options", "cmd/root.go"), ("messages", "cmd/btrfscue/app/util/cliutil.go"), ("commands", "cmd/*.go")],
 observe=["output, messages, exit status, recorded items, recovered trees and mounted views of the same work done in different ways"])
prop("C37", "Memory and disk space follow the data, not sizes of devices and files",
 "Every command does its work, with the same results, in memory that does not grow with the size of the device or image, of an extent, or of a file or hole: images, extents and files far larger than the memory can be scanned, sampled, listed, recovered and served. Holes and preallocated ranges of a recovered file take no disk space, however large they are.",
 ["configurations", "inputs"], "all device sizes, extents, holes and files larger than the memory",
 "Tests use no image at all, or tiny ones.",
 ["cmd/recon.go", REC, "internal/identify/identify.go", "internal/rescuefs/files.go", "pkg/ioutil/ioutil.go"],
 [("block-wise scan", "cmd/recon.go doScanFS"), ("copying in pieces, holes by extending", REC + " recoverFile"), ("reading only what is requested", "internal/rescuefs/files.go Read"), ("sampling", "internal/identify/identify.go")],
 observe=["exit status and results of commands run with limited memory", "disk space that recovered files take"])
prop("C38", "Metadata files keep the format of their version",
 "A metadata file that any build of the recorded metadata version 20190809 wrote is read, listed, dumped, recovered from, mounted and added to with the same results as one written by this build. What scans write is exactly that format, so that other builds can read it: one database bucket whose keys are owner, type, object id, offset and generation in big-endian order, whose values are the item's descriptor and data, and whose last key holds version, block size, filesystem id and generation. Files of older versions are refused.",
 ["inputs", "configurations"], "all metadata, written here or elsewhere, complete or continued",
 "Tests read only what they wrote with the same code.",
 [IX, "pkg/btrfs/index/key_format.go"],
 [("key format", "pkg/btrfs/index/key_format.go keyV2"), ("description of the metadata", IX + " indexMetadata"), ("records", IX + " InsertItem")],
 observe=["bytes of metadata files, read by an independent reader", "results on metadata files of an independent writer"])
prop("C39", "Processor time grows in step with the number of objects",
 "The processor time of a command grows no faster than in proportion to the number of objects it works on: directory entries, directories, subvolumes, recorded versions, chunks, extents and holes of a file for listing, dumping, recovering and mounting, leaves for scanning, filesystem ids and sampled blocks for identifying. The same holds for the number of items inserted into an index or found, iterated, translated through its chunks or looked up by path in it, however many it holds.",
 ["inputs"], "all inputs, small and large, up to logarithmic and cache effects; looking for names that do not exist and single reads of a mounted file are not included",
 "Tests use a handful of objects, for which any algorithm is fast.",
 [IX, "cmd/ls.go", REC, "cmd/recon.go", "internal/identify/identify.go", "internal/rescuefs/nodefs.go"],
 [("lookup and iteration", IX + " find, findNext, Range"), ("chunk map", IX + " PhysicalRange"), ("visited directories", "cmd/ls.go listDirectory, " + REC + " recoverDir"), ("collecting ids", "internal/identify/collector.go CollectBlock"), ("directory contents", "internal/rescuefs/nodefs.go ensureDirItems")],
 observe=["processor time of commands, of the serving process and of library calls on inputs of two sizes"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
