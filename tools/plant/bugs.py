NR = "src/attribute_value/non_resident.rs"
LI = "src/attribute_value/attribute_list_non_resident.rs"
AT = "src/attribute.rs"
FI = "src/file.rs"
BUGS = [
 dict(id="c01-wide-delta", property="C01",
  needs="a fragmented stream whose next fragment lies so far before the previous one that the LCN delta takes 4 or more bytes",
  breaks="Negative LCN deltas of 4 or more bytes are not sign-extended, so the fragment is looked for at a wrong place.",
  edits=[(NR, "        let unused_bits = (mem::size_of::<i64>() as u32 - byte_count as u32) * 8;\n",
  "        // Deltas are rarely wider than 3 bytes.\n        let unused_bits = match byte_count {\n            0..=3 => (mem::size_of::<i64>() as u32 - byte_count as u32) * 8,\n            _ => 0,\n        };\n")]),
 dict(id="c01-len-4gib", property="C01",
  needs="a read at a position that is an exact multiple of 4 GiB before the end of the stream",
  breaks="The remaining length is truncated to 32 bits, so such a read finds nothing left and ends early.",
  edits=[(NR, "        let remaining_data_size = self.data_size.saturating_sub(self.stream_position);\n        if remaining_data_size == 0 {",
              "        let remaining_data_size = self.data_size.saturating_sub(self.stream_position) as u32;\n        if remaining_data_size == 0 {")]),
 dict(id="c02-seek-clamp", property="C02",
  needs="a seek past the end of a resident value (or a data run) followed by a relative seek back into it",
  breaks="Seeks past the end are silently clamped to the end.",
  edits=[("src/attribute_value/mod.rs", "            *stream_position = n;\n            Ok(*stream_position)", "            // There is nothing to be read behind the end.\n            *stream_position = u64::min(n, base_pos.max(length));\n            Ok(n)")]),
 dict(id="c03-location-cache", property="C03",
  needs="two threads sharing one `Ntfs`, where one opens a file while the other one is between locating and reading its own file record",
  breaks="`Ntfs` remembers where the last file record was found, but stores position and number separately, so a racing call leaves a number with another record's position.",
  edits=[("src/ntfs.rs", "use alloc::vec;\n", "use alloc::vec;\nuse core::sync::atomic::{AtomicU64, Ordering};\n"),
         ("src/ntfs.rs", "    upcase_table: Option<UpcaseTable>,\n}", "    upcase_table: Option<UpcaseTable>,\n    /// Number and position of the last File Record.\n    last_number: AtomicU64,\n    last_position: AtomicU64,\n}"),
         ("src/ntfs.rs", "            upcase_table,\n        };", "            upcase_table,\n            last_number: AtomicU64::new(u64::MAX),\n            last_position: AtomicU64::new(0),\n        };"),
         ("src/ntfs.rs", "        // This unwrap is safe, because `self.mft_position` has been checked in `Ntfs::new`.\n        let mft =", """        // This unwrap is safe, because `self.mft_position` has been checked in `Ntfs::new`.
        if self.last_number.load(Ordering::SeqCst) == file_record_number {
            if let Some(position) =
                NtfsPosition::new(self.last_position.load(Ordering::SeqCst)).value()
            {
                return NtfsFile::new(self, fs, position, file_record_number);
            }
        }

        let mft ="""),
         ("src/ntfs.rs", "        mft_data_value.seek(fs, SeekFrom::Start(offset))?;\n", "        if self.file_record_size > self.cluster_size {\n            mft_data_value.seek(fs, SeekFrom::Start(offset))?;\n        } else {\n            mft_data_value.seek(fs, SeekFrom::Start(offset))?;\n            self.last_number.store(u64::MAX, Ordering::SeqCst);\n            if let Some(position) = mft_data_value.data_position().value() {\n                self.last_position.store(position.get(), Ordering::SeqCst);\n            }\n        }\n"),
         ("src/ntfs.rs", "        NtfsFile::from_data(self, data, position, file_record_number)\n", "        if self.file_record_size <= self.cluster_size {\n            self.last_number.store(file_record_number, Ordering::SeqCst);\n        }\n        NtfsFile::from_data(self, data, position, file_record_number)\n"),
         ]),
 dict(id="c04-index-allocation", property="C04",
  needs="a large directory whose $INDEX_ALLOCATION lives in another file record, and a device that fails reading that record",
  breaks="The device error is reported as a missing Index Allocation (`NtfsError::MissingIndexAllocation`).",
  edits=[(FI, "            index_allocation_item = Some(self.find_attribute(\n                fs,\n                NtfsAttributeType::IndexAllocation,\n                Some(directory_index_name),\n            )?);",
              "            index_allocation_item = self\n                .find_attribute(\n                    fs,\n                    NtfsAttributeType::IndexAllocation,\n                    Some(directory_index_name),\n                )\n                .ok();")]),
 dict(id="c04-name-absent", property="C04",
  needs="a file whose wanted file name is listed in a non-resident Attribute List (or stored in another record) that cannot be read at that moment",
  breaks="`NtfsFile::name` reports `None` instead of the device error.",
  edits=[(FI, "        let mut iter = self.attributes();\n\n        while let Some(item) = iter.next(fs) {\n            let item = iter_try!(item);\n            let attribute = iter_try!(item.to_attribute());\n\n            let ty = iter_try!(attribute.ty());\n            if ty != NtfsAttributeType::FileName {",
              "        let mut iter = self.attributes();\n\n        while let Some(Ok(item)) = iter.next(fs) {\n            let attribute = iter_try!(item.to_attribute());\n\n            let ty = iter_try!(attribute.ty());\n            if ty != NtfsAttributeType::FileName {")]),
 dict(id="c05-records-advance", property="C05",
  needs="a device error while an index record is read by `NtfsIndexRecords::next`, followed by a retry",
  breaks="The iterator has already moved on when the read fails, so the retry skips that index record.",
  edits=[("src/structured_values/index_allocation.rs", """        // Get the current record.
        let record = iter_try!(NtfsIndexRecord::new(
            fs,
            self.index_allocation.value.clone(),
            self.index_record_size
        ));

        // Advance our iterator to the next record.
        iter_try!(self
            .index_allocation
            .value
            .seek(fs, SeekFrom::Current(self.index_record_size as i64)));
""", """        // Advance our iterator to the next record.
        let value = self.index_allocation.value.clone();
        iter_try!(self
            .index_allocation
            .value
            .seek(fs, SeekFrom::Current(self.index_record_size as i64)));

        // Get the current record.
        let record = iter_try!(NtfsIndexRecord::new(fs, value, self.index_record_size));
""")]),
 dict(id="c05-list-advance", property="C05",
  needs="a non-resident Attribute List, a device error while the name of one of its entries is read, and a retry on the same iterator",
  breaks="The list iterator reads the entry with its own cursor, so a failed read leaves it in the middle of an entry.",
  edits=[("src/structured_values/attribute_list.rs", """        let mut value_attached = value.clone().attach(fs);
        let position = value.data_position();
        let entry = iter_try!(NtfsAttributeListEntry::new(&mut value_attached, position));
""", """        let start = value.stream_position();
        let position = value.data_position();
        let mut value_attached = value.clone().attach(fs);
        let result = NtfsAttributeListEntry::new(&mut value_attached, position);
        *value = value_attached.detach();
        let entry = iter_try!(result);
        iter_try!(value.seek(fs, SeekFrom::Start(start)));
""")]),
 dict(id="c06-usn-byte", property="C06",
  needs="a record torn between two versions whose update sequence numbers differ by a multiple of 256",
  breaks="Only the first byte of the update sequence number is compared, so such a mix of two versions is accepted.",
  edits=[("src/record.rs", "            if bytes_to_update != update_sequence_number {", "            if bytes_to_update[0] != update_sequence_number[0] {")]),
 dict(id="c07-name-length", property="C07",
  needs="a damaged attribute near the end of its file record, whose name length leads beyond the record",
  breaks="The length of an attribute's name is no longer checked, and getting the name panics.",
  edits=[(AT, "        if end > self.attribute_length() as usize {", "        if end > start as usize + u8::MAX as usize * mem::size_of::<u16>() {")]),
 dict(id="c07-run-bytes", property="C07",
  needs="a damaged data run header byte with a nibble above 8",
  breaks="The byte count of a data run header is only checked against 15, and reading the run panics.",
  edits=[(NR, "        if byte_count > MAX_BYTE_COUNT {", "        if byte_count > 2 * MAX_BYTE_COUNT {")]),
 dict(id="c08-ascii", property="C08",
  needs="a volume whose up-case table doesn't map an ASCII letter the usual way",
  breaks="ASCII letters are upcased without looking at the volume's table.",
  edits=[("src/upcase_table.rs", "        self.uppercase_characters[character as usize]", "        match character {\n            // Fast path for the most common characters.\n            0x61..=0x7a => character - 0x20,\n            _ => self.uppercase_characters[character as usize],\n        }")]),
 dict(id="c09-subnode-place", property="C09",
  needs="a multi-level index whose entries carry data behind their key",
  breaks="The subnode VCN is taken from behind the key instead of from the end of the entry.",
  edits=[("src/index_entry.rs", "            self.index_entry_length() as usize - mem::size_of::<Vcn>(),\n            INDEX_ENTRY_HEADER_SIZE,", "            INDEX_ENTRY_HEADER_SIZE + (self.key_length() as usize + 7) / 8 * 8,\n            INDEX_ENTRY_HEADER_SIZE,")]),
 dict(id="c09-records-stride", property="C09",
  needs="an index whose index records are smaller than a cluster",
  breaks="Iterating the index records advances by a whole cluster and skips records.",
  edits=[("src/structured_values/index_allocation.rs", "            .seek(fs, SeekFrom::Current(self.index_record_size as i64)));", "            .seek(\n                fs,\n                SeekFrom::Current(u32::max(\n                    self.index_record_size,\n                    self.index_allocation.ntfs.cluster_size()\n                ) as i64)\n            ));")]),
 dict(id="c10-by-name", property="C10",
  needs="a file with several attributes of the same type and name in one extension record (e.g. two hard links)",
  breaks="An Attribute List entry resolves to the first attribute of its type and name instead of the one with its instance number.",
  edits=[("src/structured_values/attribute_list.rs", "        let instance = self.instance();\n        let ty = self.ty()?;\n\n        file.find_resident_attribute(ty, None, Some(instance))", "        let ty = self.ty()?;\n\n        match self.name_length() {\n            0 => file.find_resident_attribute(ty, Some(\"\"), None),\n            _ => file.find_resident_attribute(ty, None, Some(self.instance())),\n        }")]),
 dict(id="c11-name-filters", property="C11",
  needs="a hard-linked file, asked for its name in a given namespace and a given parent directory at once",
  breaks="With a namespace given, the parent directory is no longer considered.",
  edits=[(FI, "                if file_name.namespace() != namespace {\n                    continue;\n                }\n            }\n\n            if let Some(parent_record_number) = match_parent_record_number {", "                if file_name.namespace() != namespace {\n                    continue;\n                }\n            } else if let Some(parent_record_number) = match_parent_record_number {")]),
 dict(id="c11-object-id", property="C11",
  needs="an $OBJECT_ID of 48 bytes or one of 64 bytes",
  breaks="The birth object id is only read when the domain id is there, too.",
  edits=[("src/structured_values/object_id.rs", "        if value_length >= 3 * GUID_SIZE as u64 {", "        if value_length > 3 * GUID_SIZE as u64 {")]),
 dict(id="c12-large-cluster", property="C12",
  needs="a volume with clusters of 64 KiB or more",
  breaks="The cluster size is computed in 16 bits, and such volumes are rejected.",
  edits=[("src/boot_sector.rs", "        let cluster_size = self.sectors_per_cluster()? as u32 * self.sector_size()? as u32;", "        let cluster_size = self.sectors_per_cluster()?.wrapping_mul(self.sector_size()?) as u32;")]),
 dict(id="c12-system-records", property="C12",
  needs="an MFT whose first fragment holds fewer than 16 records",
  breaks="The system file records are read from behind the first fragment as if it were large enough.",
  edits=[("src/ntfs.rs", "        mft_data_value.seek(fs, SeekFrom::Start(offset))?;\n", "        // The first file records are used by the system and always stored in one piece.\n        if file_record_number > 0 && file_record_number < 16 {\n            let position = NtfsPosition::from(self.mft_position.value().unwrap()) + offset;\n            if let Some(position) = position.value() {\n                return NtfsFile::new(self, fs, position, file_record_number);\n            }\n        }\n\n        mft_data_value.seek(fs, SeekFrom::Current(offset as i64))?;\n")]),
 dict(id="c13-list-past-end", property="C13",
  needs="a stream split over file records and a seek past the end of its allocated space",
  breaks="The reader keeps its last data run and reports a position that has nothing to do with the cursor.",
  edits=[(LI, "                // We seeked as far as we could.\n                self.stream_state.set_stream_data_run(None);\n                break;", "                // We seeked as far as we could.\n                break;")]),
 dict(id="c13-boundary", property="C13",
  needs="a seek exactly to the boundary between two fragments of a stream",
  breaks="The reader stays at the end of the first fragment and reports the position behind it.",
  edits=[(NR, "        if *bytes_left_to_seek < data_run.remaining_len() {", "        if *bytes_left_to_seek <= data_run.remaining_len() {")]),
 dict(id="c14-eager-subnode", property="C14",
  needs="a lookup in a multi-level index",
  breaks="The finder reads the subnode of every entry it passes, not only of the one it descends into.",
  edits=[("src/index.rs", """                    Ordering::Greater => {
                        // What we are looking for comes AFTER this entry.
                        // Keep searching on the same subnode level.
                        continue;
                    }""", """                    Ordering::Greater => {
                        // What we are looking for comes AFTER this entry.
                        // Keep searching on the same subnode level, but validate the skipped subnode.
                        if let Some(Ok(vcn)) = entry.subnode_vcn() {
                            iter_try!(self.index.subnode_entry_ranges(
                                fs,
                                vcn,
                                &mut visited_subnodes
                            ));
                        }
                        continue;
                    }""")]),
 dict(id="c15-interrupted", property="C15",
  needs="the no_std build and a device error inside a stream that is read through `std::io`-like adapters",
  breaks="Without std, every I/O error that passes through an attached reader loses its kind.",
  features=[],
  edits=[("src/error.rs", """        if let NtfsError::Io(io_error) = error {
            io_error
        } else {
            binrw::io::Error::new(binrw::io::ErrorKind::Other, error)
        }""", """        match error {
            #[cfg(feature = "std")]
            NtfsError::Io(io_error) => io_error,
            error => binrw::io::Error::new(binrw::io::ErrorKind::Other, error),
        }""")]),
 dict(id="c16-vcn-node", property="C16",
  needs="an inner node of an index replaced by another inner node of the same index (misdirected write)",
  breaks="The VCN of an index record is only checked for leaves.",
  edits=[("src/structured_values/index_allocation.rs", "        if record.vcn() != vcn {", "        if record.vcn() != vcn && !record.has_subnodes() {")]),
 dict(id="c16-baad", property="C16",
  needs="a file record that has been marked as damaged",
  breaks="File records with the BAAD signature are accepted.",
  edits=[(FI, "        if signature == expected {", "        if signature == expected || signature == b\"BAAD\" {")]),
 dict(id="c01-short-mft", property="C01",
  needs="a device that answers the read of the MFT's own file record with fewer bytes than asked for (a short read)",
  breaks="The file record of the MFT is read with a single `read` call, so a short read is taken for the whole record.",
  edits=[(FI, "        fs.read_exact(&mut data)?;\n", "        // Files have at least one sector.\n        if fs.read(&mut data)? < 512 {\n            fs.seek(SeekFrom::Start(position.get()))?;\n            fs.read_exact(&mut data)?;\n        }\n")]),
 dict(id="c02-seek-inside", property="C02",
  needs="a read followed by a forward seek that stays in the same data run",
  breaks="Seeking forward inside of a data run starts from the beginning of the run instead of the current position.",
  edits=[(NR, "                SeekFrom::Current(_) => SeekFrom::Current(*bytes_left_to_seek as i64),\n", "                SeekFrom::Current(_) => SeekFrom::Start(*bytes_left_to_seek),\n")]),
 dict(id="c06-last-sector", property="C06",
  needs="a record of which the last sector is of another version than the others",
  breaks="An off-by-one in the bound leaves the last sector of every record unchecked (and its last two bytes unrestored).",
  edits=[("src/record.rs", "        while array_position < array_end {", "        while array_position < array_end && sector_position + NTFS_BLOCK_SIZE < self.data.len() {")]),
 dict(id="c08-lossy", property="C08",
  needs="a directory with names containing unpaired surrogates, which NTFS allows",
  breaks="Keys are compared after a lossy conversion to a string, in which unpaired surrogates become U+FFFD.",
  edits=[("src/upcase_table.rs", "        upcase_cmp_iter(self.encode_utf16(), other.u16_iter(), ntfs)", "        let other = other.to_string_lossy();\n        upcase_cmp_iter(self.encode_utf16(), other.encode_utf16(), ntfs)")]),
 dict(id="c10-index-name", property="C10",
  needs="a directory record that contains another index with a name of four characters before $I30",
  breaks="Attributes are looked up by the length of their name only.",
  edits=[(FI, "            if let Some(name) = match_name {\n                if attribute.name()? != name {\n                    continue;\n                }\n            }\n\n            return Ok(item);", "            if let Some(name) = match_name {\n                if attribute.name()?.u16_iter().count() != name.chars().count() {\n                    continue;\n                }\n            }\n\n            return Ok(item);")]),
 dict(id="c14-forward-seek", property="C14",
  needs="a stream split over several file records and a forward seek with `SeekFrom::Start` or `SeekFrom::End` that leaves the current data run",
  breaks="Every such seek starts from the beginning and reads all the file records again.",
  edits=[(NR, "            if let Some(n_from_current) = n.checked_sub(self.stream_position()) {", "            let remaining_len = self.stream_data_run.as_ref().map_or(0, |x| x.remaining_len());\n            if let Some(n_from_current) = n\n                .checked_sub(self.stream_position())\n                .filter(|n| *n < remaining_len)\n            {")]),

 dict(id="c02-end-32bit", property="C02",
  needs="a seek relative to the end of a stream by 4 GiB or more",
  breaks="The distance from the end is truncated to 32 bits.",
  edits=[(NR, "                } else if let Some(bytes_to_seek) = data_size.checked_sub(n.wrapping_neg() as u64) {", "                } else if let Some(bytes_to_seek) = data_size.checked_sub(n.wrapping_neg() as u32 as u64) {")]),
 dict(id="c06-saved-bytes", property="C06",
  needs="a torn record whose stale sector ends with the same two bytes the array has saved for it",
  breaks="A sector that already ends with its original two bytes is taken as restored.",
  edits=[("src/record.rs", "            if bytes_to_update != update_sequence_number {", "            if bytes_to_update != update_sequence_number && bytes_to_update != new_bytes {")]),
 dict(id="c08-high-bit", property="C08",
  needs="two names that differ only in the highest bit of a character",
  breaks="Characters are compared for equality without their highest bit.",
  edits=[("src/upcase_table.rs", "                if this_upper != other_upper {", "                if (this_upper ^ other_upper) & 0x7fff != 0 {")]),
 dict(id="c09-deep", property="C09",
  needs="a directory tree that is at least six levels deep",
  breaks="From a certain depth on, the entry that comes after a subnode is forgotten.",
  edits=[("src/index.rs", "                    let following_entry = if !is_last_entry {", "                    let following_entry = if !is_last_entry && self.inner_iterators.len() < 5 {")]),
 dict(id="c10-instance", property="C10",
  needs="an attribute in another record with an instance number above 255 whose low byte is taken by another attribute",
  breaks="Only the low byte of the instance number of an Attribute List entry is used.",
  edits=[("src/structured_values/attribute_list.rs", "        file.find_resident_attribute(ty, None, Some(instance))", "        file.find_resident_attribute(ty, None, Some(instance & 0xff))\n            .or_else(|_| file.find_resident_attribute(ty, None, Some(instance)))")]),
 dict(id="c11-wide-reference", property="C11",
  needs="a reference to a file record number of 2^32 or more",
  breaks="File record numbers are truncated to 32 bits.",
  edits=[("src/file_reference.rs", "        u64::from_le_bytes(self.0) & 0xffff_ffff_ffff", "        u64::from_le_bytes(self.0) & 0xffff_ffff")]),
 dict(id="c12-sector-size", property="C12",
  needs="a volume whose sector size is not 512 bytes",
  breaks="The volume size is calculated with a fixed sector size.",
  edits=[("src/ntfs.rs", "            .checked_mul(sector_size as u64)", "            .checked_mul(crate::record::NTFS_BLOCK_SIZE as u64)")]),
 dict(id="c13-list-entry", property="C13",
  needs="a resident Attribute List with named entries",
  breaks="Positions of resident Attribute List entries are advanced by an unpadded length.",
  edits=[("src/structured_values/attribute_list.rs", "        *position += bytes_to_advance;", "        *position += ATTRIBUTE_LIST_ENTRY_HEADER_SIZE + entry.name_length();")]),
 dict(id="c16-boot-mark", property="C16",
  needs="a boot sector of which one of the two signature bytes is damaged",
  breaks="The boot sector is only refused if both signature bytes are wrong.",
  edits=[("src/boot_sector.rs", "        if &self.signature != expected_signature {", "        if self.signature.iter().zip(expected_signature).all(|(a, b)| a != b) {")]),
 dict(id="c07-short-root", property="C07",
  needs="a damaged $INDEX_ROOT of 28 bytes whose size fields fit it",
  breaks="The minimum size of an index root lacks the flags of the node header, and asking for them panics.",
  edits=[("src/structured_values/index_root.rs", "        if slice.len() < INDEX_ROOT_HEADER_SIZE + INDEX_NODE_HEADER_SIZE {", "        if slice.len() < INDEX_ROOT_HEADER_SIZE + INDEX_NODE_HEADER_SIZE - 4 {")]),
 dict(id="c10-long-name", property="C10",
  needs="an attribute name of 128 or more characters",
  breaks="The length of an attribute name is calculated in 8 bits.",
  edits=[(AT, "        name_length_in_characters as usize * mem::size_of::<u16>()", "        name_length_in_characters.wrapping_mul(mem::size_of::<u16>() as u8) as usize")]),
 dict(id="c16-used-size", property="C16",
  needs="an index record whose used size exceeds its allocated size, but not the record",
  breaks="The used size is compared with the size of the record instead of the allocated size.",
  edits=[("src/index_record.rs", "        if total_data_size > total_allocated_size {", "        if total_data_size > index_record_size {")]),

 dict(id="c04-upcase-lost", property="C04",
  needs="the up-case table is read again (to refresh it) and the device fails while that happens; a lookup follows",
  breaks="The table read before is thrown away before the new one has been read, so lookups panic after a failed refresh.",
  edits=[("src/ntfs.rs", "        let upcase_table = UpcaseTable::read(self, fs)?;\n        self.upcase_table = Some(upcase_table);", "        // Never keep two tables in memory.\n        self.upcase_table = None;\n        self.upcase_table = Some(UpcaseTable::read(self, fs)?);")]),
 dict(id="c06-usn-zero", property="C06",
  needs="a torn record whose update sequence number is zero",
  breaks="An update sequence number of zero is taken for a record without protection, so a torn one is accepted.",
  edits=[("src/record.rs", "            if bytes_to_update != update_sequence_number {", "            // A number of zero means that the record has never been written in several steps.\n            if update_sequence_number != [0, 0] && bytes_to_update != update_sequence_number {")]),
 dict(id="c12-exponent", property="C12",
  needs="a boot sector that gives a small cluster size in the exponent form",
  breaks="Exponents below 8 are rounded up.",
  edits=[("src/boot_sector.rs", "            Ok(1 << (exponent as u16))", "            // This form is only used for clusters that need it.\n            Ok(1 << (exponent as u16).max(8))")]),
 dict(id="c18-data-name", property="C18",
  needs="an attribute other than $DATA, in front of the stream, whose name lies outside of it",
  breaks="`data` looks at the name of every attribute, so a damaged name elsewhere makes the file's data unreachable.",
  edits=[(FI, """            let ty = iter_try!(attribute.ty());
            if ty != NtfsAttributeType::Data {
                continue;
            }

            let name = iter_try!(attribute.name());
            if !equal(self.ntfs, &name, data_stream_name) {
                continue;
            }
""", """            let ty = iter_try!(attribute.ty());
            let name = iter_try!(attribute.name());
            if ty != NtfsAttributeType::Data || !equal(self.ntfs, &name, data_stream_name) {
                continue;
            }
""")]),
 dict(id="c18-node-end", property="C18",
  needs="an index entry with a bad length, and an iterator that is used on after it has reported it",
  breaks="The node counts as finished after the error, so the following call skips the rest of it and goes on with what comes behind.",
  edits=[("src/index_entry.rs", "        let entry = iter_try!(NtfsIndexEntry::<E>::new(&self.data[start..], position));\n        let end = start", """        let entry = match NtfsIndexEntry::<E>::new(&self.data[start..], position) {
            Ok(entry) => entry,
            Err(e) => {
                // Report an error only once.
                self.range.start = self.range.end;
                return Some(Err(e));
            }
        };
        let end = start""")]),
 dict(id="c18-all-runs", property="C18",
  needs="a fragmented stream of which a later data run cannot be decoded, and a reader that only wants what lies in front of it",
  breaks="All data runs are decoded when the value is opened, so one bad run makes the whole stream unreadable.",
  edits=[(NR, "        let mut value = Self {\n            ntfs,\n            data,\n            position,\n            stream_data_runs,", "        // Don't hand out a value that cannot be read to its end.\n        for data_run in stream_data_runs.clone() {\n            data_run?;\n        }\n\n        let mut value = Self {\n            ntfs,\n            data,\n            position,\n            stream_data_runs,"),
         (NR, "        value.next_data_run()?;\n\n        Ok(value)", "        let _has_data = value.next_data_run()?;\n\n        Ok(value)")]),
 dict(id="c18-whole-record", property="C18",
  needs="a file record in which an attribute behind the wanted one has a bad length",
  breaks="All attributes of the record are decoded before the wanted one is looked for, so damage behind it makes it unreachable.",
  edits=[(FI, "        for attribute in self.attributes_raw() {\n            let attribute = attribute?;\n\n            if attribute.ty()? != ty {", "        let attributes: Result<alloc::vec::Vec<_>> = self.attributes_raw().collect();\n        for attribute in attributes? {\n            if attribute.ty()? != ty {")]),
 dict(id="c18-skip-name", property="C18",
  needs="a file with a damaged $FILE_NAME attribute",
  breaks="`name` skips a $FILE_NAME it cannot decode and reports another one, or none at all.",
  edits=[(FI, "            let file_name = iter_try!(attribute.structured_value::<_, NtfsFileName>(fs));", "            let file_name = match attribute.structured_value::<_, NtfsFileName>(fs) {\n                Ok(file_name) => file_name,\n                Err(NtfsError::Io(e)) => return Some(Err(e.into())),\n                Err(_) => continue,\n            };")]),
 dict(id="c18-skip-key", property="C18",
  needs="an index entry whose key is longer than the entry, and a lookup that has to compare with it",
  breaks="The finder steps over an entry it cannot compare with and looks in the wrong subtree, reporting an existing entry as absent.",
  edits=[("src/index.rs", "                let key = iter_try!(key);\n\n                match cmp(&key) {", "                let key = match key {\n                    Ok(key) => key,\n                    Err(_) => continue,\n                };\n\n                match cmp(&key) {")]),
 dict(id="c18-list-tail", property="C18",
  needs="a resident Attribute List with an entry whose length does not fit",
  breaks="The rest of a resident Attribute List behind a bad entry counts as padding: the attributes listed there are silently missing.",
  edits=[("src/structured_values/attribute_list.rs", "        let mut cursor = Cursor::new(*slice);\n        let entry = iter_try!(NtfsAttributeListEntry::new(&mut cursor, *position));", "        let mut cursor = Cursor::new(*slice);\n        let entry = match NtfsAttributeListEntry::new(&mut cursor, *position) {\n            Ok(entry) => entry,\n            Err(_) => return None,\n        };")]),
]
