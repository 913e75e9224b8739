#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

SCAN = ["src/v1/scan.rs", "src/v1/writer.rs", "src/v1/hash.rs", "src/v1/mod.rs"]
THR = ["src/v1/threaded_writer.rs"]
PARSE = ["src/v1/parser.rs"]

prop("C01", "A scan describes the directory tree exactly",
 "For every directory tree, scanning it succeeds and writes exactly the v1 index of that tree: the header naming hash type and block size, every directory (empty ones included), every regular file with its name, owner-execute flag, size and one hash per 32768-byte block, every symbolic link with its target, and the footer. "
 "Files that are neither regular, directories nor links are left out without being opened, and links are never followed. "
 "Each block hash covers that block's bytes and nothing else.",
 ["inputs"], "all directory trees (shape, names, kinds, modes, sizes around block boundaries, link targets) and all hash types",
 "tests/simple_dir.rs scans two fixed fixture trees of 4-5 files; the claim is over all trees, including block-boundary sizes, empty directories, odd names, modes and special files.",
 SCAN, [("depth-first queue walk", "src/v1/scan.rs scan()"), ("per-file block loop", "src/v1/writer.rs add_file()"), ("per-block digest with reset", "src/v1/hash.rs hash_file()/total_hash()")],
 ["bytes written to the output of v1::scan"])

prop("C02", "The index is a function of tree content only",
 "Scanning the same tree always gives byte-identical output: it does not depend on the order in which the system lists directory entries, on whether listings carry entry types, or on how file reads are split or interrupted. "
 "Creation order, modification times and permission bits other than the owner-execute bit have no influence either.",
 ["schedules", "inputs"], "all listing orders, entry-type availability patterns and read-splitting patterns, for every tree",
 "The tests see only the one listing order, type information and read pattern that the build machine's file system happens to give.",
 SCAN, [("sort of files and of subdirectories", "src/v1/scan.rs sort_by"), ("stat fallback when the type is unknown", "src/v1/scan.rs simple_type()"), ("copy loop up to block size", "src/v1/hash.rs hash_file()")],
 ["bytes written to the output of v1::scan under interposed readdir/read/stat"])

prop("C03", "Multi-threaded scanning equals sequential scanning in every interleaving",
 "With any number of hashing threads and under every interleaving of the hashing threads with the scanning thread, a scan terminates and writes exactly the bytes that the single-threaded scan writes. "
 "This includes trees with more files than the internal queue holds, and files that finish hashing out of order.",
 ["schedules"], "all interleavings of scanning thread and hashing threads, for all trees and thread counts",
 "Three tests run 4 threads on tiny trees under whatever schedule the OS picks; the queue never fills, and out-of-order completion is not forced.",
 THR + SCAN, [("in-order operation queue", "src/v1/threaded_writer.rs queue/poll_queue/wait_queue"), ("push_front of unfinished work", "src/v1/threaded_writer.rs poll_item()"), ("own hasher per file", "src/v1/threaded_writer.rs add_file() hash.clone()")],
 ["bytes written to the output of v1::scan", "termination"],
 [("queue", "operations not yet written, in index order", "ThreadedWriter.queue")])

prop("C04", "Options that do not describe content never change the index",
 "Enabling progress reporting, choosing the number of threads (including automatic), setting a queue size, or building without thread support never changes a byte of the index, footer included. "
 "Being unable to print progress does not fail or alter the scan.",
 ["configurations", "inputs"], "all combinations of progress, thread count, queue size, hash type and thread-support feature, for all trees",
 "No test ever enables progress or sets a queue size, and the command line tool (progress on by default) has no tests at all.",
 ["src/v1/progress.rs", "src/v1/mod.rs", "src/config.rs"] + THR, [("progress decorator around a writer", "src/v1/progress.rs"), ("writer selection", "src/v1/mod.rs add_threads()/add_progress()")],
 ["bytes written to the output of v1::scan", "stderr"])

prop("C05", "The footer is the checksum of the index body",
 "The last line of every index produced by scanning or by the emitter is the newline-terminated lowercase hex digest, under the hash named in the header, of exactly the bytes between the header line and that last line. "
 "This holds however the destination accepts the data: short writes and interrupted writes never make the checksum and the written bytes disagree.",
 ["inputs", "fault_sequences"], "all emitter call sequences and scanned trees, all hash types, all patterns of short or interrupted writes",
 "Tests check fixed footers on an in-memory buffer that accepts every write whole; the emitter is tested with one hash type.",
 ["src/v1/writer.rs", "src/v1/emitter.rs", "src/v1/threaded_writer.rs", "src/v1/hash.rs"], [("hash exactly the accepted bytes", "src/v1/writer.rs and src/v1/emitter.rs HashWriter::write"), ("finish/done", "src/v1/emitter.rs finish(), src/v1/writer.rs done()")],
 ["bytes written by v1::scan and v1::Emitter"])

prop("C06", "get_hash returns the recorded checksum or an error",
 "For every complete index of any hash type and length, reading its checksum returns exactly the 32 bytes encoded in the last line, however the reader splits or interrupts its reads. "
 "For data without a supported v1 header or not ending in a complete checksum line, including every proper prefix of an index, it returns an error and never a wrong checksum, and it never panics.",
 ["inputs", "schedules", "crash_points"], "all indexes and byte strings, all truncation points, all read-splitting patterns",
 "One unit test reads one sha512 index from an in-memory cursor.",
 ["src/read.rs"], [("header probe, seek to end, last-line check", "src/read.rs get_hash()")], ["return value of dir_signature::get_hash"])

prop("C07", "Names, paths and link targets round-trip for arbitrary bytes",
 "For file names, directory paths and link targets made of arbitrary bytes, the index text is pure printable ASCII in which space, backslash, control and non-ASCII bytes appear only as lowercase \\xNN escapes, and all other bytes appear literally. "
 "Parsing it gives back exactly the original bytes, so different names never have the same encoding.",
 ["inputs"], "all byte strings that can be a name, path or link target",
 "Two hand-picked strings are tested for escaping and four for unescaping; nothing tests the composition.",
 ["src/v1/writer.rs", "src/v1/parser.rs", "src/v1/emitter.rs"], [("escape", "src/v1/writer.rs Name"), ("unescape", "src/v1/parser.rs unescape_hex()")],
 ["index text", "paths returned by v1::Parser"])

prop("C08", "Parsing the index of a tree gives back the tree",
 "Parsing the index that a scan produced yields, in index order, exactly the scanned directories, files and links with their absolute paths, flags, sizes, targets and per-block hashes, and then reports the end. "
 "Each file's hash list has exactly ceil(size / block size) hashes, and length, indexing and iteration over it agree.",
 ["inputs"], "all directory trees and hash types",
 "Scanner and parser are only tested separately, each against a few literal strings.",
 PARSE + SCAN, [("line parser", "src/v1/parser.rs Entry::parse()"), ("current directory tracking", "src/v1/parser.rs EntryIterator"), ("hash list accessors", "src/v1/parser.rs Hashes")],
 ["entries yielded by v1::Parser"])

prop("C09", "Re-emitting a parsed index reproduces it byte for byte",
 "Feeding the entries parsed from any index through the emitter with the same hash type and block size produces a byte-identical index, footer included, that can itself be parsed and whose checksum can be read. "
 "This holds for every supported hash type and block size.",
 ["inputs"], "all valid indexes, hash types and block sizes",
 "The emitter has one test with one hash type and five literal entries.",
 ["src/v1/emitter.rs", "src/v1/parser.rs"], [("emitter line writers", "src/v1/emitter.rs"), ("entry accessors", "src/v1/parser.rs Entry/Hashes")],
 ["bytes written by v1::Emitter"])

prop("C10", "Entry comparison is the order in which indexes list entries",
 "Comparing entry kinds (directory or file at an absolute path) is a strict total order, consistent with equality, and it is exactly the order in which a scan lists them: a directory, then its files by name bytes, then each subdirectory's whole subtree in name order. "
 "In particular siblings such as a, a-b and a.b never interleave with the contents of a.",
 ["inputs"], "all pairs and triples of absolute entry paths and kinds",
 "One test orders nine hand-picked entries with one-letter names; none has characters that sort below the slash.",
 PARSE + ["src/v1/scan.rs"], [("Ord for EntryKind", "src/v1/parser.rs"), ("scan order", "src/v1/scan.rs queue push_front of reverse-sorted subdirs")],
 ["EntryKind cmp/partial_cmp/eq", "order of entries in scan output"])

prop("C11", "Advancing an index cursor finds exactly the requested entry",
 "For every index and every sequence of next and advance calls, advance returns the requested entry if and only if it lies at or after the current position, consuming everything up to and including it. "
 "If it does not, advance returns nothing and leaves the cursor before the first entry greater than the request, so that the following next returns that entry, with its full path, and no entry is ever skipped, repeated or altered.",
 ["histories", "inputs"], "all sequences of next/advance calls with any targets, on all indexes",
 "Four tests follow one call sequence each on one literal index each.",
 PARSE, [("advance loop with buffered row", "src/v1/parser.rs EntryIterator::advance()"), ("next", "src/v1/parser.rs Iterator for EntryIterator")],
 ["results of next()/advance()"],
 [("current_row", "line read but not yet consumed", "EntryIterator.current_row"), ("current_dir", "directory of following file lines", "EntryIterator.current_dir")])

prop("C12", "Merged iteration yields every entry of every index exactly once, in order",
 "Iterating over several indexes at once yields groups in strictly increasing entry order, where each group holds exactly the entries that are equal in kind and path, one from every index that has it, tagged with the right key and in the order the indexes were given. "
 "Every entry of every index appears in exactly one group, and a parse error in one index is reported under that index's key and never lost.",
 ["inputs", "histories"], "all tuples of indexes",
 "One test merges two literal indexes.",
 ["src/v1/merge.rs", "src/v1/parser.rs"], [("minimum selection over peeked heads", "src/v1/merge.rs MergedEntriesIterator::next()")],
 ["groups yielded by MergedSignatures::iter()"],
 [("head", "peeked entry of each index", "PeekableEntryIterator.head")])

prop("C13", "Merged advance looks up an entry in every index",
 "In any interleaving of next and advance calls on merged indexes, advance returns exactly one result for each index whose remaining part contains the requested entry, tagged with that index's key and in the given order. "
 "It never disturbs the entries after the requested one: they are all still yielded by later calls, exactly once.",
 ["histories", "inputs"], "all sequences of next/advance calls on all tuples of indexes",
 "Two tests call advance three times in total.",
 ["src/v1/merge.rs", "src/v1/parser.rs"], [("peek-aware advance", "src/v1/merge.rs PeekableEntryIterator::advance()")],
 ["results of MergedEntriesIterator::advance()/next()"])

prop("C14", "Only compatible indexes can be merged",
 "Combining indexes succeeds if and only if they all have the same hash type and the same block size. "
 "Otherwise it fails with the mismatch error listing the value of each index in the given order, and the file-based builder additionally reports the unreadable or malformed file instead of ignoring it.",
 ["inputs", "configurations"], "all tuples of headers, and all ways the files can be missing or malformed",
 "Two tests use one mismatching pair each; the file-based builder is untested.",
 ["src/v1/merge.rs"], [("check_same over headers", "src/v1/merge.rs MergedSignatures::new()"), ("FileMergeBuilder::finalize", "src/v1/merge.rs")],
 ["result of MergedSignatures::new and FileMergeBuilder::finalize"])

prop("C15", "A truncated index is never taken for a complete one",
 "For every index cut off at any byte, reading its entries by any mix of next and advance yields only entries whose lines are completely present, then reports an error, and never reports a normal end of the index. "
 "A line that was cut off is never returned as an entry, not even by calls made after the error.",
 ["crash_points", "inputs", "histories"], "all proper prefixes of all indexes and all call sequences on them",
 "One test cuts one index inside its footer.",
 PARSE, [("newline check", "src/v1/parser.rs read_line()"), ("footer must be present and last", "src/v1/parser.rs _parse_entry()")],
 ["results of next()/advance() on a truncated reader"])

prop("C16", "Parsing arbitrary data never panics, hangs or exhausts memory",
 "For every byte string, opening it as an index and then making any sequence of next and advance calls with valid arguments returns entries or errors, without panic, arithmetic overflow or endless loop. "
 "Memory requested stays proportional to the data actually read, whatever sizes the data claims.",
 ["inputs", "histories"], "all byte strings, all call sequences",
 "Tests feed the parser a handful of malformed lines; none has a hostile size, block size or name.",
 PARSE, [("checked hash count", "src/v1/parser.rs Entry::parse()"), ("header validation", "src/v1/parser.rs Header::parse()")],
 ["absence of panics", "allocation sizes", "number of calls until the end"])

prop("C17", "Malformed lines are reported, never accepted or altered",
 "Reading an index reports an error for every line that is not a well-formed directory, file, link or footer line (unknown type, bad or missing size, too few, too many or ill-formed hashes, missing, extra or doubly spaced fields), for a malformed header, and for data after the footer. "
 "It never drops such a line silently, and the entries of the well-formed lines before and after it are returned unchanged.",
 ["inputs"], "all index texts",
 "About a dozen malformed literals are tested one function at a time.",
 PARSE, [("field parsers and full-consumption checks", "src/v1/parser.rs Entry::parse(), parse_hashes(), Footer::parse()"), ("header parser", "src/v1/parser.rs Header::parse()")],
 ["results of Parser::new, next()"])

prop("C18", "Parsing does not depend on how the reader delivers the data",
 "Opening and reading an index gives the same header, entries, errors and end for every way the underlying reader splits the data into chunks or interrupts reads. "
 "A transient read error is reported, and never causes a partial line to be returned as an entry by any later call.",
 ["schedules", "fault_sequences"], "all chunkings, all interruption points and all single transient read failures",
 "All tests read from one in-memory buffer that delivers everything at once.",
 PARSE, [("read_until based line reader", "src/v1/parser.rs read_line()"), ("check for data after the footer", "src/v1/parser.rs _parse_entry()")],
 ["results of Parser::new, next(), advance()"])

prop("C19", "Parse errors name the line they are about",
 "When a malformed line is reported, the line number in the error is the 1-based number of that line in the index file, whatever mix of next and advance calls led to it, and also when iterating over merged indexes.",
 ["histories", "inputs"], "all call sequences and all positions of a malformed line",
 "One test checks the number for an error on line 2 reached directly.",
 PARSE, [("row counter", "src/v1/parser.rs EntryIterator.current_row_num")],
 ["text of ParseError"])

prop("C20", "Hashing a stream gives the same hashes an index records",
 "For every content, block size of at least one and hash type, hashing a reader returns the content's size and exactly ceil(size / block size) hashes, the i-th being the digest of the i-th block alone, however the reader splits or interrupts its reads. "
 "These are the hashes that a scan with that block size records, and an emitter fed with them writes a line that parses back.",
 ["inputs", "schedules"], "all contents, block sizes, hash types and read-splitting patterns",
 "One test hashes two short strings and only checks them against themselves.",
 ["src/v1/parser.rs", "src/v1/hash.rs"], [("block loop", "src/v1/parser.rs Hashes::_hash_file()"), ("digest reset", "src/v1/hash.rs total_hash()")],
 ["result of Hashes::hash_file"])

prop("C21", "Checking a file accepts exactly the indexed content",
 "Checking a reader against the hashes recorded for a file returns true if the reader delivers exactly the content that was indexed, and false for every other content: shorter, longer, cut at a block boundary, with any byte or block changed or with blocks swapped. "
 "The answer does not depend on how reads are split or interrupted, and a read error is returned as an error.",
 ["inputs", "schedules", "fault_sequences"], "all pairs of indexed and checked contents, all block sizes, hash types and read patterns",
 "One test checks four strings against one single-block hash.",
 ["src/v1/parser.rs", "src/v1/hash.rs"], [("compare every block and require end of data", "src/v1/parser.rs Hashes::_check_file()")],
 ["result of Hashes::check_file"])

prop("C22", "A scan that cannot read everything fails and never looks complete",
 "If any directory, file or link of the tree cannot be opened, listed, inspected or read, at whatever point of the scan, the scan returns an error: opening the root, listing a directory and reading a file or link each have their own error kind. "
 "What was written until then is a proper prefix of the correct index without its footer, with any number of threads, and the scan never hangs.",
 ["fault_sequences", "schedules"], "every system call of the scan failing, once or persistently, for all trees and thread counts",
 "No test makes any read fail.",
 SCAN + THR + ["src/error.rs"], [("error mapping on every call", "src/v1/scan.rs map_err"), ("footer only in done()", "src/v1/writer.rs, src/v1/threaded_writer.rs")],
 ["result of v1::scan", "bytes written"])

prop("C23", "Write failures are reported and short writes lose nothing",
 "If writing the index fails at any byte, the scan returns the write error (the emitter an I/O error), and the destination has received exactly a proper prefix of the correct index. "
 "Short or interrupted writes are continued, so that the destination receives the complete correct index and the scan succeeds.",
 ["fault_sequences"], "every write call failing, accepting partially or being interrupted, alone and in combination, for all trees and thread counts",
 "All tests write to a vector, which never fails or writes short.",
 SCAN + THR + ["src/v1/emitter.rs"], [("write_all on a hashing writer", "src/v1/writer.rs HashWriter"), ("error mapping", "src/v1/writer.rs map_err(EWrite)")],
 ["result of v1::scan and Emitter calls", "bytes accepted by the destination"])

prop("C24", "A scan never reads through symbolic links",
 "No content, name or type of anything outside the scanned directory ever enters the index or is opened for reading, even if at any moment during the scan a file or directory of the tree is replaced by a symbolic link pointing outside. "
 "In that case the scan returns an error or an index that records it as the link or the original entry.",
 ["schedules"], "every replacement of every entry by a link, at every point between two system calls of the scan, sequential or threaded",
 "The tests scan trees without links and without concurrent changes.",
 SCAN + THR, [("descriptor-relative no-follow opens", "src/v1/scan.rs sub_dir/list_dir, src/v1/writer.rs open_file")],
 ["bytes written to the output of v1::scan", "descriptors opened"])

prop("C25", "An index made while the tree changes is still well formed",
 "If files or directories are created, removed, renamed, truncated or extended at any point during a scan, the scan either returns an error or writes an index that parses completely, whose entries are in order, whose hash counts match the recorded sizes and whose footer matches. "
 "Parts of the tree that do not change are recorded correctly.",
 ["schedules"], "every single modification at every point between two system calls of the scan",
 "No test modifies a tree during a scan.",
 SCAN + THR, [("size taken once per file", "src/v1/writer.rs add_file()"), ("listing read completely before writing", "src/v1/scan.rs")],
 ["bytes written to the output of v1::scan"])

prop("C26", "A threaded scan looks ahead only by the configured number of entries",
 "While the next file to be written is not hashed yet, the scanning thread queues at most the configured queue size of further entries (by default 16 per thread) and then waits, for every interleaving and every tree size. "
 "So memory and open descriptors stay bounded by queue size and tree depth however many files there are.",
 ["schedules", "inputs"], "all interleavings, tree sizes, thread counts and queue sizes",
 "The fixtures have fewer files than any queue; the queue size option is never set in a test.",
 THR + ["src/config.rs"], [("blocking wait when the queue is full", "src/v1/threaded_writer.rs poll_queue() want_block")],
 ["number of files handed to the pool and not yet written", "number of directories listed ahead"])

prop("C27", "Several source directories combine into the union of their trees",
 "Scanning several directories added at the root gives the index of the union of their trees, independent of the order in which they were added, whenever no file or link name occurs twice. "
 "Every added directory takes part: one with another prefix appears below that prefix, and a configuration without any root directory is reported as an error.",
 ["configurations", "inputs"], "all tuples of directory trees with disjoint files, in all orders",
 "One test overlays two fixed trees in one order.",
 ["src/v1/scan.rs", "src/config.rs"], [("grouping of equal subdirectory paths", "src/v1/scan.rs group_by"), ("root lookup", "src/v1/scan.rs find_roots()")],
 ["bytes written to the output of v1::scan"])

prop("C28", "The index command exits 0 only after delivering the whole index",
 "For every tree and combination of options, the command exits 0 and has delivered exactly the index of the tree to the chosen destination, or exits non-zero with a message on stderr. "
 "In particular it exits non-zero whenever the destination accepted fewer bytes than the whole index, at whatever byte that happened, and standard output never carries anything but the index.",
 ["fault_sequences", "configurations"], "all option combinations and all points at which the destination stops accepting data",
 "The command has no tests.",
 ["src/bin/index.rs"], [("exit status from scan result", "src/bin/index.rs run()"), ("buffered output", "src/bin/index.rs BufWriter")],
 ["exit status, output file, stdout and stderr of the index binary"])

prop("C29", "The library and the bundled shell script compute the same index",
 "For every tree of files, executables, links and directories with plain names, the bundled shell script and the library produce byte-identical indexes, so an index can be checked without the library.",
 ["inputs"], "all trees with plain names and modes 644/755",
 "No test runs the script.",
 ["hash.sh"] + SCAN, [("shell pipeline", "hash.sh"), ("scan", "src/v1/scan.rs")],
 ["output of hash.sh and of v1::scan"])

prop("C30", "Different trees have different checksums",
 "Two scans give the same checksum only if the trees have the same directories, the same files with the same content and owner-execute flag, and the same links with the same targets. "
 "Moving, renaming, retargeting, re-typing, emptying or changing anything changes the checksum.",
 ["inputs"], "all pairs of trees",
 "The tests compare four fixed checksums.",
 SCAN, [("every recorded attribute is part of the hashed body", "src/v1/writer.rs HashWriter")],
 ["checksum read from the output of v1::scan"])

prop("C31", "A scan releases everything it opened",
 "After a scan has returned and its threads have finished, successfully or with an error at any point, no file descriptor opened by it is still open. "
 "While it runs, the number of descriptors open at once does not grow with the number of files or sibling directories, only with depth, threads and queue size.",
 ["fault_sequences", "inputs"], "all trees and all points of failure, for all thread counts",
 "No test looks at descriptors.",
 SCAN + THR, [("owned descriptors shared by reference count", "src/v1/scan.rs Arc<Dir>")],
 ["/proc/self/fd before, during and after v1::scan"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
