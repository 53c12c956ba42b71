#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the wording is this file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

prop("C01", "Every data stream reads back exactly the bytes stored on the volume",
 "For every attribute value of every file (resident, contiguous, fragmented, sparse, or split over several file records by an Attribute List), reading it to the end returns exactly `len()` bytes, each equal to the byte the on-disk mapping assigns to that stream offset: zero inside sparse runs and beyond the initialized size, the mapped device byte everywhere else. This holds for every partition of the read into buffers and for every legal way the device answers a read (short counts, `Interrupted`), including cluster numbers and sizes far beyond 32 bits. Bytes of the caller's buffer behind the returned count stay untouched.",
 ["inputs", "configurations", "fault_sequences"],
 "All well-formed volumes with uncompressed, unencrypted streams (sector 512..4096, cluster 512 B..2 MiB, any run list incl. backward/huge LCN deltas and sparse runs), all buffer partitions, all sequences of short/interrupted device reads.",
 "Tests read one 1000-byte contiguous file and one sparse file of the 2 MiB testfs1 image (512-byte clusters) through a Cursor that never returns short counts and never interrupts; no attribute-list stream, no multi-fragment boundary, no large LCN is ever read.",
 ["src/attribute_value/non_resident.rs", "src/attribute_value/attribute_list_non_resident.rs", "src/attribute_value/resident.rs", "src/attribute.rs", "src/traits.rs", "src/file.rs"],
 [("data run decoding", "src/attribute_value/non_resident.rs NtfsDataRuns::next"), ("run-to-run stitching", "src/attribute_value/non_resident.rs StreamState::read_data_run"), ("attribute-to-attribute stitching", "src/attribute_value/attribute_list_non_resident.rs next_attribute")],
 ["NtfsReadSeek::read/read_exact", "Read for *Attached", "NtfsAttributeValue::len"],
 [("stream_position", "logical cursor of a value", "StreamState"), ("stream_data_run", "current data run and position inside it", "StreamState")])

prop("C02", "A value reader is a plain cursor: any seek/read history gives array semantics",
 "For every attribute value and every data run, after any history of reads, seeks (Start/Current/End, any offset, including far past the end and back) and clones, `stream_position()` and the bytes returned by the next read equal those of a cursor over the fixed array of the stream's bytes. Seeks to a negative or overflowing position fail with `InvalidInput` and change nothing; reads at or past the end return 0; the `attach`ed wrappers behave identically to the detached readers.",
 ["histories", "inputs"],
 "All operation histories over all stream layouts (resident, multi-run, sparse, attribute-list), all seek targets in the full u64/i64 range.",
 "Tests do four fixed seeks on two contiguous streams. The forward-seek optimisation, rewinds, leaving and re-entering the valid range, run and attribute boundaries and clones in the middle of a history are never combined.",
 ["src/attribute_value/non_resident.rs", "src/attribute_value/attribute_list_non_resident.rs", "src/attribute_value/mod.rs", "src/attribute_value/resident.rs"],
 [("seek optimisation", "src/attribute_value/non_resident.rs StreamState::optimize_seek/simplify_seek"), ("rewind", "NtfsNonResidentAttributeValue::rewind, NtfsAttributeListNonResidentAttributeValue::rewind"), ("contiguous seeks", "src/attribute_value/mod.rs seek_contiguous")],
 ["NtfsReadSeek::seek/read/stream_position", "Seek for *Attached"])

prop("C03", "Handles sharing one device or one Ntfs never influence each other",
 "Any number of files, readers, iterators, finders and their clones can be used in any interleaving over one shared device, whose cursor other users may move between calls, or over one shared `Ntfs` from concurrent tasks that are preempted at every device call; each operation returns what it would return if its handle were the only one in use.",
 ["schedules", "histories"],
 "All interleavings at operation granularity on a shared device cursor, and at device-call granularity for concurrent tasks with their own device handle on one shared Ntfs.",
 "Every test uses one handle at a time on a private Cursor; no test moves the device cursor behind the library's back or runs two tasks.",
 ["src/ntfs.rs", "src/file.rs", "src/index.rs", "src/attribute.rs", "src/attribute_value/non_resident.rs", "src/structured_values/attribute_list.rs"],
 [("every access seeks absolutely before reading", "NtfsDataRun::read, NtfsFile::new"), ("state is owned by the handle, device is borrowed per call", "all `next`/`read` functions taking `fs: &mut T`")],
 ["all public operations"])

prop("C04", "Device failures are reported as such, never as data, end-of-stream or absence",
 "If the device fails a seek or read, or ends prematurely, during an operation, that operation returns either its correct result or an I/O error of the kind the device reported (`UnexpectedEof` for a premature end); it never panics and never turns the failure into wrong bytes, a shorter stream, a missing attribute or directory entry, `None`, or a different kind of error. Operations during which the device did not fail never report an I/O error. This includes all later operations on the handles that met the failure.",
 ["fault_sequences", "inputs"],
 "Every operation of the API, every device call inside it, every error kind, persistent bad regions, truncated devices, stalls and timeouts.",
 "The tests' in-memory Cursor cannot fail; no test has a device error or a truncated image.",
 ["src/error.rs", "src/attribute_value/non_resident.rs", "src/attribute_value/attribute_list_non_resident.rs", "src/traits.rs", "src/file.rs", "src/index.rs", "src/ntfs.rs", "src/helpers.rs"],
 [("conversion of binrw and io errors", "src/error.rs From<binrw::Error>, From<io::Error>"), ("error propagation out of iterators", "src/helpers.rs iter_try!"), ("zero-byte device reads", "StreamState::read_data_run")],
 ["Result/Option of every public operation", "device call trace"])

prop("C05", "After a failed operation the same handle recovers by retrying",
 "When an operation on a reader or iterator fails because of a device error and is repeated on the same handle after the fault is gone, it yields the result it would have yielded without the fault: no bytes, attributes, list entries, index records or directory entries (nor subtrees) are skipped, repeated or reordered, and positions reported in between are those of the last successful operation. Once faults stop, every pending operation completes within one retry.",
 ["fault_sequences", "histories"],
 "Every operation sequence and every placement of finitely many transient device errors in it (also several in a row), retry on the same handle.",
 "Needs a device that fails at a chosen call and then recovers; the tests' Cursor cannot fail.",
 ["src/attribute_value/non_resident.rs", "src/attribute_value/attribute_list_non_resident.rs", "src/attribute.rs", "src/index.rs", "src/structured_values/attribute_list.rs", "src/structured_values/index_allocation.rs", "src/traits.rs"],
 [("advance only after success", "NtfsDataRuns::next, NtfsIndexRecords::next, NtfsAttributeListEntries::next"), ("retry on Interrupted", "NtfsReadSeek::read_exact")],
 ["results of retried operations", "stream_position() after a failure"])

prop("C06", "Torn file and index records are detected, never delivered as a mix",
 "If a multi-sector file record or index record is caught mid-update (a crash, a torn or lost sector write, or a writer active between the reader's own device calls), loading it returns the old version, the new version or an error, never content mixing sectors of both, and handles that need the record later (continuations of a stream, subnodes of an index) fail instead of going on without it; an intact record always loads, with the sector-end bytes restored from its update sequence array.",
 ["crash_points", "schedules", "inputs"],
 "Every subset/prefix of the 512-byte sectors of a record that reached the disk, every record size, every USN value (incl. wrap and USN equal to real data), every device-call boundary at which a concurrent writer may act.",
 "testfs1 contains only intact records; nothing in the tests exercises a mismatching update sequence number or more than two sectors per record.",
 ["src/record.rs", "src/file.rs", "src/index_record.rs"],
 [("fixup", "src/record.rs Record::fixup")],
 ["Ntfs::file", "NtfsFile accessors and attributes", "NtfsIndexEntries::next", "NtfsIndexFinder::find", "NtfsIndexRecords::next"])

prop("C07", "No media content can crash, hang or exhaust memory",
 "Whatever bytes the device holds or starts to hold at any moment (random or targeted corruption of any on-disk structure, zeroed, stale or misplaced sectors), every operation of the API terminates without panic, with a number of device calls bounded by the size of the structures on the device and without memory out of proportion to a legal record; iterators deliver finitely many items.",
 ["inputs", "fault_sequences", "crash_points"],
 "All images derived from well-formed volumes by structure-aware field mutations, bit flips, zeroed/noise/stale/misdirected sectors, cyclic trees and self-references, applied before or in the middle of a session; all operations.",
 "All tests run on one healthy image.",
 ["src/attribute.rs", "src/index.rs", "src/index_entry.rs", "src/index_record.rs", "src/record.rs", "src/boot_sector.rs", "src/structured_values/index_root.rs", "src/structured_values/attribute_list.rs", "src/attribute_value/non_resident.rs", "src/file.rs", "src/ntfs.rs"],
 [("length and offset validation", "validate_* functions in attribute.rs, file.rs, index_entry.rs, index_record.rs, index_root.rs"), ("checked arithmetic", "types.rs Lcn/Vcn, non_resident.rs")],
 ["panics", "device call counts", "allocator high-water mark", "iterator lengths"])

prop("C08", "Directory lookup finds a name exactly when the directory contains it",
 "For every directory, `NtfsFileNameIndex::find` (and the generic finder with an ordering consistent with the index) returns the entry whose name equals the searched one under the volume's own $UpCase table, with that entry's file reference and key, and `None` when there is no such entry. This holds for every B-tree shape (resident, multi-level, unbalanced, fragmented index allocation), index record and cluster size, name alphabet and up-case table, and for any sequence of searches on one finder.",
 ["inputs", "configurations", "histories"],
 "All directories, all present and absent (also near-miss, case-varied, prefix, surrogate) names, all up-case tables, all search sequences.",
 "Tests look up 1..512 in one three-level tree whose names are digits only, so case folding, absent names, other tree shapes and other record/cluster sizes are never reached.",
 ["src/index.rs", "src/indexes/file_name.rs", "src/upcase_table.rs", "src/index_entry.rs", "src/index_record.rs", "src/structured_values/index_allocation.rs", "src/structured_values/index_root.rs"],
 [("B-tree descent", "src/index.rs NtfsIndexFinder::find"), ("collation", "src/upcase_table.rs upcase_cmp_iter"), ("VCN addressing", "src/structured_values/index_allocation.rs record_from_vcn")],
 ["NtfsFileNameIndex::find", "NtfsIndexFinder::find", "UpcaseOrd"])

prop("C09", "Index enumeration yields every entry exactly once, in collation order",
 "Iterating an index yields each of its entries exactly once, in the index's collation order, with the stored key, data or file reference, and then `None` for ever, for every tree shape and every index type (directories and indexes with data). Iterating the index allocation's records yields every record exactly once in VCN order, and each node's entries as stored.",
 ["inputs", "configurations"],
 "All tree shapes (resident only, multi-level, unbalanced, minimal nodes, empty directory), record and cluster sizes, fragmentation, also via Attribute Lists.",
 "Tests enumerate one directory of one image.",
 ["src/index.rs", "src/index_entry.rs", "src/index_record.rs", "src/structured_values/index_allocation.rs", "src/structured_values/index_root.rs", "src/indexes/mod.rs"],
 [("in-order traversal with a stack of nodes", "src/index.rs NtfsIndexEntries::next"), ("record iteration", "src/structured_values/index_allocation.rs NtfsIndexRecords::next")],
 ["NtfsIndexEntries::next", "NtfsIndexRecords::next", "NtfsIndexRoot::entries", "NtfsIndexRecord::entries"])

prop("C10", "Attribute enumeration and lookup see each attribute exactly once",
 "`attributes()` yields every logical attribute of a file exactly once with its type, name, length and value, whether it lives in the base record or, through a resident or non-resident Attribute List, in other file records, and yields an attribute split over several records once, as a whole; `data`, `name`, `directory_index` and `info` find theirs wherever it is stored and only report absence when it is absent. `attributes_raw()` yields exactly the attributes of the one record, and Attribute List entries resolve to the attributes they describe.",
 ["inputs", "configurations"],
 "All distributions of attributes and extents over base and extension records, any instance numbering valid within each record, resident and non-resident lists, many named streams.",
 "testfs1 has no file with an Attribute List; the code paths are untested.",
 ["src/attribute.rs", "src/file.rs", "src/structured_values/attribute_list.rs", "src/attribute_value/attribute_list_non_resident.rs"],
 [("flattening iterator", "src/attribute.rs NtfsAttributes::next"), ("connected entries", "src/attribute_value/attribute_list_non_resident.rs AttributeListConnectedEntries")],
 ["NtfsFile::attributes/attributes_raw/data/name/info/directory_index", "NtfsAttributeListEntries::next"])

prop("C11", "Reported metadata equals what is stored on the volume",
 "Every metadata getter returns the stored value: file record header fields, attribute header fields and names, standard information (short and long form), file names with times, sizes, flags, namespace and parent, object ids, volume information and name, boot sector geometry and serial number; `name()` returns the first file name matching the requested namespace and parent; a GUID prints as zero-padded 8-4-4-4-12 hexadecimal digits; metadata and values of a loaded file do not change when the medium changes afterwards.",
 ["inputs", "configurations"],
 "All field values, all optional parts present or absent, all name lengths 1..255, any device read fragmentation.",
 "Tests compare a handful of fields of one image.",
 ["src/file.rs", "src/attribute.rs", "src/structured_values/standard_information.rs", "src/structured_values/file_name.rs", "src/structured_values/object_id.rs", "src/structured_values/volume_information.rs", "src/structured_values/volume_name.rs", "src/guid.rs", "src/ntfs.rs", "src/file_reference.rs"],
 [("field decoding", "structured_values/*.rs, file.rs, attribute.rs")],
 ["all getters"])

prop("C12", "File records are located correctly on every geometry and MFT layout",
 "`Ntfs::new` accepts every well-formed boot sector and reports its geometry, and `file(n)` returns the record number n from wherever the (possibly fragmented) Master File Table stores it, for every legal combination of sector, cluster and file record size and every MFT fragmentation (as far as the MFT's own record describes it without an Attribute List), including records that straddle two fragments. Numbers outside the MFT and boot sectors violating the documented limits are rejected with an error instead of yielding some other data.",
 ["configurations", "inputs"],
 "All legal geometries and MFT run lists up to 2^63-byte devices, all u64 record numbers, all illegal boot sector field values.",
 "One geometry (512/512/1024), one contiguous MFT, only small valid record numbers.",
 ["src/ntfs.rs", "src/boot_sector.rs", "src/file.rs", "src/types.rs"],
 [("record addressing", "src/ntfs.rs Ntfs::file"), ("BPB validation", "src/boot_sector.rs")],
 ["Ntfs::new", "Ntfs::file", "NtfsFile::position", "geometry getters"])

prop("C13", "Every reported position is the true place of the thing on the device",
 "Whenever a position is reported of something that is stored in one piece (file record, attribute, resident value, index entry, list entry, data run), its bytes are found at exactly that device offset. The position named by an error about a damaged structure (signature, update sequence number, attribute type, namespace, sizes) is where the device holds the bytes the error describes. A value's data position is the device offset of the byte at its cursor; where there is no such byte (in a sparse run, or past the end of the allocated space) no position is reported. Only directly after a read that stopped at the end of a data run, the end of that run may be named instead of the start of the next one, and between the end of the data and the end of its allocated space both answers are right.",
 ["inputs", "histories"],
 "All layouts, all cursor histories, all structures.",
 "Two tests compare relative movements of data_position on contiguous streams; absolute positions are never checked.",
 ["src/types.rs", "src/attribute_value/non_resident.rs", "src/attribute_value/resident.rs", "src/attribute_value/attribute_list_non_resident.rs", "src/index_entry.rs", "src/structured_values/attribute_list.rs", "src/file.rs", "src/attribute.rs"],
 [("position arithmetic", "src/types.rs NtfsPosition"), ("data_position", "attribute_value/*.rs")],
 ["data_position()", "position()"])

prop("C14", "Device work stays proportional to what was asked for",
 "On a well-formed volume and a device without failures, a lookup reads at most one index record per tree level, an enumeration reads each index record once, reading n stream bytes transfers at most those of the n bytes that are stored on the device plus only the file records the mapping needs, and forward seeks, resident reads and all getters do no data transfer for skipped data; no operation rereads or prefetches data it was not asked for.",
 ["inputs", "histories"],
 "All trees, streams, and operation histories; measured on the device trace of each operation.",
 "Tests never observe device accesses.",
 ["src/index.rs", "src/attribute_value/non_resident.rs", "src/ntfs.rs", "src/attribute.rs"],
 [("one descent per find", "src/index.rs NtfsIndexFinder::find"), ("absolute seeks instead of skipping reads", "NtfsDataRun::read, StreamState::seek_data_run")],
 ["device call trace"])

prop("C15", "The no_std build behaves like the std build",
 "On the same volume, operation sequence and device behaviour, the library built without its `std` feature returns the same results, positions, data and error kinds and issues the same device calls as the build with it.",
 ["configurations", "histories", "fault_sequences"],
 "All volumes, histories and fault plans of the other checks.",
 "The tests only run with all features on.",
 ["src/lib.rs", "Cargo.toml", "src/error.rs", "src/traits.rs"],
 [("feature gating", "src/lib.rs, src/error.rs"), ("binrw::io abstraction", "uses of binrw::io")],
 ["results and device traces of both builds"])

prop("C16", "Misplaced or foreign blocks are never accepted as metadata",
 "When a block read for a file record, index record, boot sector or up-case table is not that structure (zeroed, noise, other structure, a different index record delivered by a misdirected read or write, wrong signature, inconsistent sizes), the operation that looks it up (a file record by its number, an index record by its VCN, as lookups and enumerations of an index do, the boot sector and up-case table when mounting) reports an error and never returns entries, attributes, stream data or lookup results derived from it (or obtained by leaving it out), also when the operation is repeated.",
 ["fault_sequences", "inputs"],
 "All replacements of a metadata block by zeros, noise, a block of another kind or (for index records) an index record of a different VCN, wrong signatures, sizes that exceed the record, and up-case tables of a wrong size, at any moment of a session. File records replaced by other file records and index records of equal VCN carry nothing that tells them apart and are excluded, as is plain listing of index records, which expects no VCN.",
 "All tests run on one healthy image.",
 ["src/file.rs", "src/index_record.rs", "src/structured_values/index_allocation.rs", "src/boot_sector.rs", "src/upcase_table.rs"],
 [("signatures", "validate_signature in file.rs, index_record.rs, boot_sector.rs"), ("VCN self-check", "src/structured_values/index_allocation.rs record_from_vcn"), ("size checks", "validate_sizes")],
 ["Ntfs::new/file/read_upcase_table", "index iteration and lookup"])

prop("C17", "The sector reader is byte-transparent and only does sector-aligned I/O",
 "Whatever sequence of seeks and reads it is given, the ntfs-shell's `SectorReader` returns the bytes and positions the inner reader would, issues only seeks to and reads of whole sectors, works up to the last byte of the device, and passes device failures on; the library on top of it behaves as on the plain device.",
 ["histories", "inputs", "fault_sequences"],
 "All read/seek histories, sector sizes, device lengths and device failures.",
 "There is no test of the example's reader.",
 ["examples/ntfs-shell/sector_reader.rs"],
 [("alignment", "examples/ntfs-shell/sector_reader.rs Read/Seek impls")],
 ["SectorReader::read/seek", "inner device trace"])

prop("C18", "An undecodable element harms only what needs it",
 "When one element of an otherwise intact volume cannot be decoded (an attribute header whose length does not fit; an attribute name, value or run list that lies outside of its attribute; a data run header nobody can decode; a $FILE_NAME longer than its value; an Attribute List entry or index entry whose length does not fit; an index key longer than its entry; a subnode reference outside of the index), every operation that does not need that element still returns exactly what it returns on the intact volume: all other files, attributes of the same file stored before it (and, where only a name, value or run list is affected, those behind it as well), the bytes of a stream in front of an undecodable run, index entries and lookups whose way does not lead through it, and everything loaded before the damage. An operation that needs the element returns an error and nothing wrong: it never ends early, skips, reports an attribute, entry or file as absent, or returns other data. After such an error the handle can be used on: it keeps its position, and what works on a new handle works on it.",
 ["inputs", "histories", "fault_sequences"],
 "All well-formed volumes, all single elements of the ten kinds named in any file (system files and the MFT included), all values making the element undecodable, damaged at any moment of a session, and all histories around it, with handles opened before and after and reused after errors.",
 "All tests run on one healthy image; none looks at what still works next to damage.",
 ["src/attribute.rs", "src/attribute_value/non_resident.rs", "src/attribute_value/attribute_list_non_resident.rs", "src/structured_values/attribute_list.rs", "src/index_entry.rs", "src/index.rs", "src/file.rs", "src/ntfs.rs"],
 [("attribute iteration", "NtfsAttributesRaw/NtfsAttributes in src/attribute.rs"), ("data run decoding", "NtfsDataRuns in src/attribute_value/non_resident.rs"), ("entry iteration", "IndexNodeEntryRanges in src/index_entry.rs, NtfsAttributeListEntries"), ("seek rollback", "seek in src/attribute_value/non_resident.rs")],
 ["NtfsFile::attributes/data/name/info/directory_index", "value readers", "index iteration and lookup"])

prop("N01", "Time conversions are exact and reversible",
 "Converting an NTFS timestamp to a calendar or system time and back yields the same timestamp, and times outside the representable range are rejected.",
 ["inputs"], "All 64-bit timestamps and all convertible times.",
 "Two fixed dates are tested.",
 ["src/time.rs"], [("conversion", "src/time.rs")], ["NtfsTime conversions"])
prop("N02", "The library never writes and is memory safe for any caller",
 "No operation modifies the device, and no operation can violate memory safety.",
 ["programs"], "All programs using the API.",
 "Follows from the types (only Read + Seek is required of the device; `forbid(unsafe_code)`), not from tests.",
 ["src/lib.rs"], [("forbid(unsafe_code), Read + Seek bounds only", "src/lib.rs and all signatures")], ["API signatures"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
