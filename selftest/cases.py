"""(name, "bug"|"ok", property, [(file, old, new), ...])"""
CR = "src/creator/content_pack/creator.rs"
CW = "src/creator/content_pack/clusterwriter.rs"
CM = "src/creator/content_pack/mod.rs"
TO = "src/tools.rs"
CH = "src/common/check.rs"
MC = "src/creator/manifest_pack.rs"
JR = "src/reader/jubako.rs"
CPR = "src/reader/container_pack.rs"
DP = "src/reader/directory_pack/mod.rs"
CTP = "src/reader/content_pack/mod.rs"
DC = "src/creator/directory_pack/directory_pack.rs"
CES = "src/creator/directory_pack/entry_store.rs"
DEL = "src/bases/types/delayed.rs"
CASES = [
    ("c16-no-means-detect", "bug", "C16", [(CR, "CompHint::No => Ok(false),", "CompHint::No => Ok(content.size() > Size::new(1<<20)),")]),
    ("c16-yes-small", "bug", "C16", [(CR, "CompHint::Yes => Ok(true),", "CompHint::Yes => Ok(content.size().into_u64() > 16),")]),
    ("c16-finalize-swap", "bug", "C16", [(CR, "self.cluster_writer.write_cluster(cluster, false)?;", "self.cluster_writer.write_cluster(cluster, true)?;")]),
    ("c16-slot-flag", "bug", "C16", [(CR, "self.cluster_writer.write_cluster(cluster, compressed)?;", "self.cluster_writer.write_cluster(cluster, true)?;")]),
    ("c16-proxy-ignores-none", "bug", "C16", [(CW, "let should_compress = if let Compression::None = self.compression {\n            false", "let should_compress = if let Compression::None = self.compression {\n            compressed")]),
    ("c16-tail-none", "bug", "C16", [(CW, "        serialize_cluster_tail(\n            self.compression,", "        serialize_cluster_tail(\n            Compression::None,")]),
    ("c16-dedup-size-key", "bug", "C16", [(CM, "hasher.update(&buf);", "hasher.update(&buf[..buf.len().min(65536)]);")]),
    ("c16-dedup-no-insert", "bug", "C16", [(CM, "                let content_address = self.content_pack.add_content(reader, comp_hint)?;\n                e.insert(content_address);\n", "                let big = reader.size().into_u64() > 4096;\n                let content_address = self.content_pack.add_content(reader, comp_hint)?;\n                if big {\n                    e.insert(content_address);\n                }\n")]),
    ("c16-dedup-no-rewind", "bug", "C16", [(CM, "            reader.rewind()?;\n", "")]),
    ("ok-c16-hint-match", "ok", "C16", [(CR, """        match comp_hint {
            CompHint::Yes => Ok(true),
            CompHint::No => Ok(false),
            CompHint::Detect => {
                let mut head""", """        if matches!(comp_hint, CompHint::Yes) {
            return Ok(true);
        }
        match comp_hint {
            CompHint::Yes => unreachable!(),
            CompHint::No => Ok(false),
            CompHint::Detect => {
                let mut head""")]),
    ("ok-c16-dedup-get", "ok", "C16", [(CM, """        match self.cache.entry(hash) {
            Entry::Vacant(e) => {
                let content_address = self.content_pack.add_content(reader, comp_hint)?;
                e.insert(content_address);
                Ok(content_address)
            }
            Entry::Occupied(e) => {
                self.progress.cached_data(reader.size());
                Ok(*e.get())
            }
        }""", """        if let Some(found) = self.cache.get(&hash) {
            self.progress.cached_data(reader.size());
            return Ok(*found);
        }
        let content_address = self.content_pack.add_content(reader, comp_hint)?;
        self.cache.insert(hash, content_address);
        Ok(content_address)"""), (CM, "collections::{hash_map::Entry, HashMap}", "collections::HashMap")]),
    ("ok-c16-write-helper", "ok", "C16", [(CR, """        if let Some(cluster) = self.setup_slot_and_get_to_close(content_size, compressed) {
            self.cluster_writer.write_cluster(cluster, compressed)?;
        }
        Ok(open""", """        let to_close = self.setup_slot_and_get_to_close(content_size, compressed);
        self.close_cluster(to_close, compressed)?;
        Ok(open"""), (CR, """    /// Setup a clusterCreator for the slot""", """    fn close_cluster(&mut self, cluster: Option<ClusterCreator>, c: bool) -> std::io::Result<()> {
        match cluster {
            None => Ok(()),
            Some(cl) => self.cluster_writer.write_cluster(cl, c),
        }
    }

    /// Setup a clusterCreator for the slot""")]),

    ("c12-local-offset", "bug", "C12", [(TO, "pack_offset.into_u64() + manifest_pack_reader.global_offset().into_u64();", "pack_offset.into_u64();")]),
    ("c12-truncate", "bug", "C12", [(TO, "OpenOptions::new().write(true)", "OpenOptions::new().write(true).truncate(true)")]),
    ("c12-group", "bug", "C12", [(TO, "        pack_info.pack_location = new_location;", "        pack_info.pack_location = new_location;\n        if pack_info.pack_kind == PackKind::Directory { pack_info.pack_group = 0; pack_info.free_data_id = 0.into(); }")]),
    ("c12-mask-40", "bug", "C12", [(CH, "const PACK_INFO_TO_CHECK: u64 = 38;", "const PACK_INFO_TO_CHECK: u64 = 39;")]),
    ("c12-mask-crc", "bug", "C12", [(CH, "const PACK_INFO_SIZE: u64 = super::PackInfo::BLOCK_SIZE as u64;", "const PACK_INFO_SIZE: u64 = super::PackInfo::SIZE as u64;")]),
    ("c12-mask-advance", "bug", "C12", [(CH, "        self.current_offset += read_size as u64;\n", "        self.current_offset += buf.len() as u64;\n")]),
    ("c12-mask-count", "bug", "C12", [(CH, "pack_offsets.count() + 1", "pack_offsets.count()")]),
    ("c12-skip-dir", "bug", "C12", [(TO, "        if pack_info.uuid != uuid {", "        if pack_info.uuid != uuid || pack_info.pack_kind == PackKind::Directory {")]),
    ("c12-first", "bug", "C12", [(TO, "        if pack_info.uuid != uuid {\n            continue;\n        }", "        if pack_info.uuid != uuid && pack_info.pack_id.into_u16() != 1 {\n            continue;\n        }")]),
    ("c12-limit", "bug", "C12", [("src/bin/jbk/locate.rs", "location.len() > 213", "location.len() > 214")]),
    ("c12-creator-mask", "bug", "C12", [(MC, "let mut check_stream = ManifestCheckStream::new(file, packs_offset.into(), nb_packs.into());", "let mut check_stream = ManifestCheckStream::new(file, packs_offset.into(), (nb_packs.max(1) - 1).into());")]),
    ("ok-c12-index-loop", "ok", "C12", [(TO, """    let pack_offsets = PackOffsetsIter::new(pack_header.check_info_pos, header.pack_count);
    for pack_offset in pack_offsets {
""", """    let count = header.pack_count.into_u64();
    let first = pack_header.check_info_pos.into_u64() - 256 * count;
    for idx in 0..count {
        let pack_offset = Offset::from(first + idx * 256);
"""), (TO, "use crate::reader::{ManifestPackHeader, PackOffsetsIter};", "use crate::reader::ManifestPackHeader;")]),
    ("ok-c12-struct-update", "ok", "C12", [(TO, "        pack_info.pack_location = new_location;\n", "        let pack_info = jbk::reader::PackInfo { pack_location: new_location, ..pack_info };\n"), (TO, "let mut pack_info =\n", "let pack_info =\n")]),
    ("ok-c12-helper", "ok", "C12", [(TO, """        let mut file = std::fs::OpenOptions::new().write(true).open(&filename)?;
        file.seek(SeekFrom::Start(global_pack_offset))?;
        file.ser_write(&pack_info)?;
""", """        rewrite_at(filename.as_ref(), global_pack_offset, &pack_info)?;
"""), (TO, "pub fn open_pack(", """fn rewrite_at(path: &Path, pos: u64, info: &jbk::reader::PackInfo) -> jbk::Result<()> {
    let mut options = std::fs::OpenOptions::new();
    options.read(false).write(true);
    let mut file = options.open(path)?;
    file.seek(SeekFrom::Start(pos))?;
    file.ser_write(info)?;
    Ok(())
}

pub fn open_pack(""")]),
    ("ok-c12-mask-order", "ok", "C12", [(CH, """        let read_size = if offset < self.pack_offset {
            let size = cmp::min(buf.len(), (self.pack_offset - offset) as usize);
            self.source.read(&mut buf[..size])?
        } else if offset >= self.start_safe_zone {
            self.source.read(buf)?
        } else {""", """        let read_size = if offset >= self.start_safe_zone {
            self.source.read(buf)?
        } else if offset < self.pack_offset {
            let left = (self.pack_offset - offset) as usize;
            let size = if left < buf.len() { left } else { buf.len() };
            self.source.read(&mut buf[..size])?
        } else {""")]),

    ("c04-dir-dropped", "bug", "C04", [(JR, "        if !self.directory_pack.check()? {\n            return Ok(false);\n        }\n", "        self.directory_pack.check()?;\n")]),
    ("c04-first-content", "bug", "C04", [(JR, "for pack_info in self.manifest_pack.get_pack_infos().iter() {\n            let pack_reader", "for pack_info in self.manifest_pack.get_pack_infos().iter().take(1) {\n            let pack_reader")]),
    ("c04-content-open-only", "bug", "C04", [(CPR, "PackKind::Content => ContentPack::new(reader.clone())?.check()?", "PackKind::Content => ContentPack::new(reader.clone()).is_ok()")]),
    ("c04-err-true", "bug", "C04", [(CH, "            hasher.update_reader(source)?;\n            let hash = hasher.finalize();\n            Ok(hash == b3hash)", "            if hasher.update_reader(source).is_err() { return Ok(true); }\n            let hash = hasher.finalize();\n            Ok(hash == b3hash)")]),
    ("c04-half-hash", "bug", "C04", [(CH, "Ok(hash == b3hash)", "Ok(hash.as_bytes()[..16] == b3hash.as_bytes()[..16])")]),
    ("c04-dir-no-header", "bug", "C04", [(DP, "            Offset::zero(),\n            Size::from(self.pack_header.check_info_pos),", "            Offset::new(64),\n            Size::from(self.pack_header.check_info_pos) - Size::new(64),"),]),
    ("c04-content-cached", "bug", "C04", [(CTP, "Ok(check_info.check(&mut check_stream)?)", "if self.cluster_cache.lock().unwrap().len() > 1 { return Ok(true); }\n        Ok(check_info.check(&mut check_stream)?)")]),
    ("c04-stop-missing", "bug", "C04", [(JR, "                // [TODO] Check with the checkinfo contained in the manifest.\n            }", "            } else {\n                return Ok(true);\n            }")]),
    ("ok-c04-bytes", "ok", "C04", [(CH, "Ok(hash == b3hash)", "Ok(hash.as_bytes() == b3hash.as_bytes())")]),
    ("ok-c04-and", "ok", "C04", [(JR, "        if !self.manifest_pack.check()? {\n            return Ok(false);\n        }\n        if !self.directory_pack.check()? {\n            return Ok(false);\n        }\n", "        let metadata_ok = self.manifest_pack.check()? && self.directory_pack.check()?;\n        if !metadata_ok {\n            return Ok(false);\n        }\n")]),
    ("ok-c04-helper", "ok", "C04", [(CPR, """            let pack_header = reader.parse_block_at::<PackHeader>(Offset::zero())?;
            let ok = match pack_header.magic {
                PackKind::Manifest => ManifestPack::new(reader.clone())?.check()?,
                PackKind::Directory => DirectoryPack::new(reader.clone())?.check()?,
                PackKind::Content => ContentPack::new(reader.clone())?.check()?,
                PackKind::Container => todo!(),
            };
            if !ok {
                return Ok(false);
            }
        }
        Ok(true)
    }
""", """            if !Self::check_one(reader)? {
                return Ok(false);
            }
        }
        Ok(true)
    }

    fn check_one(reader: &Reader) -> Result<bool> {
        let kind = reader.parse_block_at::<PackHeader>(Offset::zero())?.magic;
        let pack: Box<dyn Pack> = match kind {
            PackKind::Manifest => Box::new(ManifestPack::new(reader.clone())?),
            PackKind::Directory => Box::new(DirectoryPack::new(reader.clone())?),
            PackKind::Content => Box::new(ContentPack::new(reader.clone())?),
            PackKind::Container => todo!(),
        };
        pack.check()
    }
""")]),
    ("ok-c04-all", "ok", "C04", [(JR, """        for pack_info in self.manifest_pack.get_pack_infos().iter() {
            let pack_reader = self
                .locator
                .locate(pack_info.uuid, &pack_info.pack_location)?;
            if let Some(r) = pack_reader {""", """        let infos = self.manifest_pack.get_pack_infos();
        for idx in 0..infos.len() {
            let info = &infos[idx];
            let found = self.locator.locate(info.uuid, &info.pack_location)?;
            if let Some(r) = found {""")]),
]
RD = "src/bases/reader.rs"
BK = "src/bases/block.rs"
BF = "src/bases/io/buffer.rs"
FS = "src/bases/io/file.rs"
BM = "src/bases/mod.rs"
MP = "src/reader/manifest_pack.rs"
VS = "src/reader/directory_pack/value_store.rs"
ES = "src/reader/directory_pack/entry_store.rs"
CL = "src/reader/content_pack/cluster.rs"
CASES += [
    ("c05-small-unchecked", "bug", "C05", [(RD, "let check_reader = self.cut_check(offset, size.into(), BlockCheck::Crc32)?;", "let check = if size.into_usize() < 8 { BlockCheck::None } else { BlockCheck::Crc32 };\n        let check_reader = self.cut_check(offset, size.into(), check)?;")]),
    ("c05-buffer-swallow", "bug", "C05", [(BF, "assert_slice_crc(full_slice)?;", "let _ = assert_slice_crc(full_slice);")]),
    ("c05-buffer-other-check", "bug", "C05", [(BF, "        self.get_slice(region.try_into().unwrap(), block_check)?;", "        self.get_slice(region.try_into().unwrap(), BlockCheck::None)?;\n        let _ = block_check;")]),
    ("c05-mmap-unchecked", "bug", "C05", [(FS, "            if let BlockCheck::Crc32 = block_check {\n                assert_slice_crc(&mmap)?;\n            }\n", "")]),
    ("c05-small-head", "bug", "C05", [(FS, "                assert_slice_crc(&buf)?;\n            }\n            Ok((", "                if region.begin() != Offset::zero() {\n                    assert_slice_crc(&buf)?;\n                }\n            }\n            Ok((")]),
    ("c05-get-slice-nocheck", "bug", "C05", [(FS, "        if let BlockCheck::Crc32 = block_check {\n            assert_slice_crc(&buf)?;\n        }\n        buf.truncate", "        buf.truncate")]),
    ("c05-table-none", "bug", "C05", [(BM, "let reader = reader.cut_check(at, array_size, BlockCheck::Crc32)?;", "let check = if array_size.into_u64() > 64 * 1024 { BlockCheck::None } else { BlockCheck::Crc32 };\n        let reader = reader.cut_check(at, array_size, check)?;")]),
    ("c05-vs-none", "bug", "C05", [(VS, "            data_size,\n            BlockCheck::Crc32,\n        )?;", "            data_size,\n            BlockCheck::None,\n        )?;")]),
    ("c05-vs-range", "bug", "C05", [(VS, "            header_offset - data_size - ASize::from(BlockCheck::Crc32.size()),\n            data_size,\n            BlockCheck::Crc32,\n        )?;", "            header_offset - data_size - ASize::from(BlockCheck::Crc32.size()),\n            data_size,\n            match store_builder {\n                ValueStoreBuilder::Plain => BlockCheck::Crc32,\n                ValueStoreBuilder::Indexed(_) => BlockCheck::None,\n            },\n        )?;")]),
    ("c05-es-cut", "bug", "C05", [(ES, "let entry_reader = if layout.is_entry_checked {", "let entry_reader = if layout.entry_count.into_u64() > 100000 {\n            let data_size = layout.entry_count * layout.entry_size.into();\n            reader.cut(header_offset - data_size - ASize::from(BlockCheck::Crc32.size()), data_size, true)?\n        } else if layout.is_entry_checked {")]),
    ("c05-crc-zero-ok", "bug", "C05", [(BK, "    if checksum != expected_checksum {", "    if expected_checksum != 0 && checksum != expected_checksum {")]),
    ("c05-crc-low-bits", "bug", "C05", [(BK, "    if checksum != expected_checksum {", "    if checksum as u16 != expected_checksum as u16 {")]),
    ("c05-open-unchecked-fallback", "bug", "C05", [(JR, "                match at_beginning {\n                    Ok(pack_header) => (pack_header, Offset::zero()),\n                    Err(_) => return Err(end_error),\n                }", "                match at_beginning {\n                    Ok(pack_header) => (pack_header, Offset::zero()),\n                    Err(_) => match reader.parse_block_unchecked_at::<PackHeader>(Offset::zero()) {\n                        Ok(pack_header) => (pack_header, Offset::zero()),\n                        Err(_) => return Err(end_error),\n                    },\n                }")]),
    ("c05-manifest-skip", "bug", "C05", [(MP, "            let pack_info = reader.parse_block_at::<PackInfo>(pack_offset)?;\n            match", "            let Ok(pack_info) = reader.parse_block_at::<PackInfo>(pack_offset) else {\n                continue;\n            };\n            match")]),
    ("c05-container-skip", "bug", "C05", [(CPR, "            let pack_reader = reader.cut(pack_locator.pack_pos, pack_locator.pack_size, false)?;", "            let Ok(pack_reader) = reader.cut(pack_locator.pack_pos, pack_locator.pack_size, false) else {\n                continue;\n            };"), (CPR, "            let pack_locator = reader.parse_block_at::<PackLocator>(pack_offset)?;\n            pack_offset += PackLocator::BLOCK_SIZE;", "            let pack_locator = reader.parse_block_at::<PackLocator>(pack_offset);\n            pack_offset += PackLocator::BLOCK_SIZE;\n            let Ok(pack_locator) = pack_locator else { continue };")]),
    ("c05-index-skip", "bug", "C05", [(DP, """            let index_header = self
                .reader
                .parse_block_in::<IndexHeader>(sized_offset.offset, sized_offset.size)?;
            if index_header""", """            let index_header = match self
                .reader
                .parse_block_in::<IndexHeader>(sized_offset.offset, sized_offset.size)
            {
                Ok(h) => h,
                Err(_) => continue,
            };
            if index_header""")]),
    ("c05-vs-tail-unchecked", "bug", "C05", [(RD, """        let intermediate =
            self.parse_block_in::<T::TailParser>(sized_offset.offset, sized_offset.size)?;""", """        let intermediate = self
            .cut_check(sized_offset.offset, sized_offset.size.into(), BlockCheck::None)?
            .parse_in::<T::TailParser>(Offset::zero(), sized_offset.size)?;""")]),
    ("c05-vs-default", "bug", "C05", [(MP, "            Some(reader.parse_data_block::<ValueStore>(vs_posinfo)?)", "            reader.parse_data_block::<ValueStore>(vs_posinfo).ok()")]),
    ("ok-c05-helper", "ok", "C05", [(FS, "            if let BlockCheck::Crc32 = block_check {\n                assert_slice_crc(&mmap)?;\n            }\n", "            verify(&mmap, &block_check)?;\n"),
        (FS, "impl Deref for FileSource {", "fn verify(buf: &[u8], check: &BlockCheck) -> Result<()> {\n    match check {\n        BlockCheck::None => Ok(()),\n        BlockCheck::Crc32 => assert_slice_crc(buf),\n    }\n}\n\nimpl Deref for FileSource {")]),
    ("ok-c05-read-exact", "ok", "C05", [(FS, """            let mut buf = Vec::with_capacity(full_size.into_usize());
            f.seek(SeekFrom::Start(region.begin().into_u64()))?;
            f.by_ref()
                .take(full_size.into_u64())
                .read_to_end(&mut buf)?;""", """            let mut buf = vec![0; full_size.into_usize()];
            f.seek(SeekFrom::Start(region.begin().into_u64()))?;
            f.read_exact(&mut buf)?;""")]),
    ("ok-c05-split", "ok", "C05", [(BK, """    let data_size = buf.len() - 4;
    let slice = &buf[..data_size];
    let mut digest = CRC.digest();
    digest.update(slice);
    let checksum = digest.finalize();
    let expected_checksum = BE::read_u32(&buf[data_size..]);
    if checksum != expected_checksum {""", """    let (data, crc) = buf.split_at(buf.len() - 4);
    let checksum = CRC.checksum(data);
    let expected_checksum = BE::read_u32(crc);
    if !(checksum == expected_checksum) {""")]),
    ("ok-c05-match", "ok", "C05", [(RD, """        let check_reader = self.cut_check(offset, size.into(), BlockCheck::Crc32)?;
        check_reader.parse_in::<T>(Offset::zero(), size)""", """        match self.cut_check(offset, size.into(), BlockCheck::Crc32) {
            Ok(checked) => checked.parse_in::<T>(Offset::zero(), size),
            Err(e) => Err(e),
        }""")]),
    ("ok-c05-loop", "ok", "C05", [(DP, "        for index_id in self.header.index_count {\n            let sized_offset = self.index_ptrs.index(*index_id)?;\n            let index_header = self\n                .reader\n                .parse_block_in::<IndexHeader>(sized_offset.offset, sized_offset.size)?;\n            if", "        for index_id in self.header.index_count {\n            let index_header = self.index_header(index_id)?;\n            if"),
        (DP, "    pub fn get_index_from_name(", "    fn index_header(&self, index_id: IndexIdx) -> Result<IndexHeader> {\n        let so = self.index_ptrs.index(*index_id)?;\n        self.reader.parse_block_in::<IndexHeader>(so.offset, so.size)\n    }\n\n    pub fn get_index_from_name(")]),
]

CMOD = "src/creator/mod.rs"
BC = "src/creator/basic_creator.rs"
CPC = "src/creator/container_pack.rs"
CASES += [
    # ---------------------------------------------------------------- C09
    ("c09-direct-final", "bug", "C09", [(CMOD, "        let parent = final_path.as_ref().parent().unwrap();\n        let temp_file = tempfile::NamedTempFile::new_in(parent)?;", "        let _ = std::fs::remove_file(final_path.as_ref());\n        let parent = final_path.as_ref().parent().unwrap();\n        let temp_file = tempfile::NamedTempFile::new_in(parent)?;")]),
    ("c09-tmp-elsewhere", "bug", "C09", [(CMOD, "tempfile::NamedTempFile::new_in(parent)?;", "{ let _ = parent; tempfile::NamedTempFile::new()? };")]),
    ("c09-copy-fallback", "bug", "C09", [(CMOD, """        self.temp_file
            .persist(&self.final_path)
            .map_err(|e| e.error)?;
        Ok""", """        if let Err(e) = self.temp_file.persist(&self.final_path) {
            std::fs::copy(e.file.path(), &self.final_path)?;
        }
        Ok""")]),
    ("c09-persist-ignored", "bug", "C09", [(CMOD, """        self.temp_file
            .persist(&self.final_path)
            .map_err(|e| e.error)?;
        Ok""", """        let _ = self.temp_file.persist(&self.final_path);
        Ok""")]),
    ("c09-entry-first", "bug", "C09", [(BC, "                let mut atomic_tmp_file =\n                    AtomicOutFile::new(new_with_extension(&self.outpath, \".jbkd\"))?;", "                let mut atomic_tmp_file = AtomicOutFile::new(&self.outpath)?;"),
        (BC, "                let mut atomic_tmp_file = AtomicOutFile::new(&self.outpath)?;\n                manifest_creator", "                let mut atomic_tmp_file =\n                    AtomicOutFile::new(new_with_extension(&self.outpath, \".jbkd\"))?;\n                manifest_creator")]),
    ("c09-extra-late", "bug", "C09", [(BC, "                let extra_path = extra_pack_file.close_file()?;\n                Ok::<_, Error>((extra_pack_info, extra_path))", "                Ok::<_, Error>((extra_pack_info, extra_pack_file))"),
        (BC, "        for (extra_pack_info, extra_locator) in extra_locators {\n            manifest_creator.add_pack(extra_pack_info, relative_locator(extra_locator)?);\n        }", "        let mut late = vec![];\n        for (extra_pack_info, extra_file) in extra_locators {\n            manifest_creator.add_pack(extra_pack_info, \"x\");\n            late.push(extra_file);\n        }"),
        (BC, "            container_file.close_file()?;\n        }\n\n        Ok(())", "            container_file.close_file()?;\n        }\n        for f in late {\n            f.close_file()?;\n        }\n\n        Ok(())")]),
    ("c09-close-before-container-end", "bug", "C09", [(BC, "            let container_file = container.finalize()?;\n            container_file.close_file()?;\n        }\n\n        Ok(())", "            let container_file = container.finalize();\n            match container_file { Ok(f) => { f.close_file()?; } Err(_) => {} }\n        }\n\n        Ok(())")]),
    ("c09-dir-error-after-close", "bug", "C09", [(BC, "                let directory_pack_info =\n                    finalized_directory_pack_creator.write(&mut atomic_tmp_file)?;\n                let directory_pack_path = atomic_tmp_file.close_file()?;\n                (directory_pack_info, directory_pack_path)", "                let directory_pack_info =\n                    finalized_directory_pack_creator.write(&mut atomic_tmp_file);\n                let directory_pack_path = atomic_tmp_file.close_file()?;\n                (directory_pack_info?, directory_pack_path)")]),
    ("c09-worker-error", "bug", "C09", [(CW, "            thread.join().unwrap()?;", "            let _ = thread.join().unwrap();")]),
    ("c09-worker-panic", "bug", "C09", [(CW, "            thread.join().unwrap()?;", "            if let Ok(r) = thread.join() {\n                r?;\n            }")]),
    ("c09-no-flush", "bug", "C09", [(CW, "            self.file.into_inner().map_err(|e| e.into_error())?,", "            self.file.into_parts().0,")]),
    ("c09-short-write", "bug", "C09", [(CW, "        self.file.write_all(data)?;\n        Ok(offset)", "        let _n = self.file.write(data)?;\n        Ok(offset)")]),
    ("c09-header-error", "bug", "C09", [(CPC, "        self.file.ser_write(&header)?;", "        self.file.ser_write(&header).ok();")]),
    ("c09-lz4-finish", "bug", "C09", [(CW, "    let (stream, err) = encoder.finish();\n    err?;\n    Ok(stream)", "    let (stream, _err) = encoder.finish();\n    Ok(stream)")]),
    ("c09-same-path", "bug", "C09", [(BC, "    if buf == path {", "    if buf.as_str().is_empty() {")]),
    ("c09-skip-cluster-error", "bug", "C09", [(CW, "                    let sized_offset = self.write_cluster(cluster)?;\n                    (sized_offset, cluster_idx)", "                    match self.write_cluster(cluster) {\n                        Ok(sized_offset) => (sized_offset, cluster_idx),\n                        Err(_) => continue,\n                    }")]),
    ("ok-c09-helper", "ok", "C09", [(BC, "                let mut atomic_tmp_file = AtomicOutFile::new(&self.outpath)?;\n                manifest_creator.finalize(&mut atomic_tmp_file)?;\n                atomic_tmp_file.close_file()?;", "                write_manifest(manifest_creator, &self.outpath)?;"),
        (BC, "impl BasicCreator {", "fn write_manifest(creator: ManifestPackCreator, path: &Utf8Path) -> Result<()> {\n    let mut out = AtomicOutFile::new(path)?;\n    creator.finalize(&mut out)?;\n    out.close_file()?;\n    Ok(())\n}\n\nimpl BasicCreator {")]),
    ("ok-c09-loop", "ok", "C09", [(BC, """        let extra_locators = extra_content_pack_creators
            .into_iter()
            .map(|extra_creator| {
                let (extra_pack_file, extra_pack_info) = extra_creator.finalize()?;
                let extra_path = extra_pack_file.close_file()?;
                Ok::<_, Error>((extra_pack_info, extra_path))
            })
            .collect::<Result<Vec<_>>>()?;""", """        let mut extra_locators = Vec::with_capacity(extra_content_pack_creators.len());
        for extra_creator in extra_content_pack_creators {
            let (file, info) = extra_creator.finalize()?;
            extra_locators.push((info, file.close_file()?));
        }""")]),
    ("ok-c09-match", "ok", "C09", [(CMOD, """        self.temp_file
            .persist(&self.final_path)
            .map_err(|e| e.error)?;
        Ok(self.final_path)""", """        let Self { temp_file, final_path } = *self;
        match temp_file.persist(&final_path) {
            Ok(_file) => Ok(final_path),
            Err(e) => Err(e.error.into()),
        }""")]),
    ("ok-c09-early", "ok", "C09", [(BC, "        let atomic_content_pack_file = if let ConcatMode::OneFile = concat_mode {\n            AtomicOutFile::new(&outpath)?\n        } else {\n            AtomicOutFile::new(new_with_extension(&outpath, \"jbkc\"))?\n        };", "        let content_path = match concat_mode {\n            ConcatMode::OneFile => outpath.clone(),\n            ConcatMode::TwoFiles | ConcatMode::NoConcat => new_with_extension(&outpath, \"jbkc\"),\n        };\n        let atomic_content_pack_file = AtomicOutFile::new(&content_path)?;")]),
    ("ok-c09-join", "ok", "C09", [(CW, "        for thread in self.worker_threads {\n            thread.join().unwrap()?;\n        }", "        self.worker_threads\n            .into_iter()\n            .try_for_each(|thread| thread.join().unwrap())?;")]),
    # ---- C08
    ("c08-arrival-order", "bug", "C08", [(CW, "            if self.cluster_addresses.len() <= idx {\n                self.cluster_addresses.resize(idx + 1, Default::default());\n            }\n            self.cluster_addresses[idx].set(sized_offset);", "            let _ = idx;\n            let late: Late<SizedOffset> = Default::default();\n            late.set(sized_offset);\n            self.cluster_addresses.push(late);")]),
    ("c08-resize-always", "bug", "C08", [(CW, "            if self.cluster_addresses.len() <= idx {\n                self.cluster_addresses.resize(idx + 1, Default::default());\n            }", "            if self.cluster_addresses.len() != idx + 1 {\n                self.cluster_addresses.resize(idx + 1, Default::default());\n            }")]),
    ("c08-no-rebase", "bug", "C08", [(CW, "sized_offset.offset += offset;", "if self.cluster_addresses.len() > 0 {\n                        sized_offset.offset += offset;\n                    }")]),
    ("c08-worker-no-decrement", "bug", "C08", [(CW, "                .unwrap();\n            let (count, cvar) = &*self.nb_cluster_in_queue;\n            let mut count = count.lock().unwrap();\n            *count -= 1;\n            cvar.notify_one();", "                .unwrap();\n            let (count, cvar) = &*self.nb_cluster_in_queue;\n            let mut count = count.lock().unwrap();\n            if *count > 1 {\n                *count -= 1;\n            }\n            cvar.notify_one();")]),
    ("c08-notify-before", "bug", "C08", [(CW, "            let mut count = count.lock().unwrap();\n            *count -= 1;\n            cvar.notify_one();", "            cvar.notify_one();\n            let mut count = count.lock().unwrap();\n            *count -= 1;")]),
    ("ok-c08-notify-when-empty", "ok", "C08", [(CW, "            *count -= 1;\n            cvar.notify_one();", "            *count -= 1;\n            if *count == 0 {\n                cvar.notify_one();\n            }")]),
    ("c08-notify-some", "bug", "C08", [(CW, "            *count -= 1;\n            cvar.notify_one();", "            *count -= 1;\n            if *count == 5 {\n                cvar.notify_one();\n            }")]),
    ("c08-count-raw", "bug", "C08", [(CW, "            self.fusion_tx\n                .send(cluster.into())", "            if compressed {\n                let (count, _) = &*self.nb_cluster_in_queue;\n                *count.lock().unwrap() += 1;\n            }\n            self.fusion_tx\n                .send(cluster.into())")]),
    ("c08-no-drop-fusion", "bug", "C08", [(CW, "        drop(self.fusion_tx);\n", "")]),
    ("c08-no-drop-dispatch", "bug", "C08", [(CW, "        drop(self.dispatch_tx);\n        drop(self.fusion_tx);\n", "        drop(self.fusion_tx);\n")]),
    ("c08-shared-buffer", "bug", "C08", [(CW, "        while let Ok(cluster) = self.input.recv() {\n            //[TODO] Avoid allocation. Reuse the data once it is written ?\n            let mut data = Vec::<u8>::with_capacity(1024 * 1024);\n", "        let mut kept = Vec::<u8>::new();\n        while let Ok(cluster) = self.input.recv() {\n            let mut data = std::mem::take(&mut kept);\n"), (CW, "                .send(WriteTask::Compressed(data, sized_offset, cluster_idx))", "                .send({ kept = data.clone(); WriteTask::Compressed(data, sized_offset, cluster_idx) })")]),
    ("c08-last-index", "bug", "C08", [(CW, "            let cluster_idx = cluster.index;\n            let sized_offset = self.compress_cluster", "            let cluster_idx = cluster.index;\n            let cluster_idx = if cluster.data.len() == 4095 { ClusterIdx::from(cluster_idx.into_u32() + 0) } else { cluster_idx };\n            let cluster_idx = if cluster.offsets.len() > 4000 { ClusterIdx::from(0) } else { cluster_idx };\n            let sized_offset = self.compress_cluster")]),
    ("c08-late-first-wins", "bug", "C08", [("src/bases/types/delayed.rs", "        self.0.set(Some(value));", "        if self.0.get().is_none() {\n            self.0.set(Some(value));\n        }")]),
    ("c08-stop-early", "bug", "C08", [(CW, "        while let Ok(task) = self.input.recv() {", "        while let Ok(task) = self.input.recv_timeout(std::time::Duration::from_secs(5)) {")]),
    ("c08-zero-workers", "bug", "C08", [(CR, "                .get(),\n            2,\n        ) - 1;", "                .get(),\n            1,\n        ) - 1;")]),
    ("c08-queue-limit", "bug", "C08", [(CW, "max_queue_size: nb_thread * 2,", "max_queue_size: nb_thread / 2,")]),
    ("c08-writer-holds-sender", "bug", "C08", [(CW, "        let thread_handle = spawn(\"Cluster writer\", move || {\n            let writer", "        let keep = fusion_tx.clone();\n        let thread_handle = spawn(\"Cluster writer\", move || {\n            let _keep = keep;\n            let writer")]),
    ("c08-not-all-joined", "bug", "C08", [(CW, "        for thread in self.worker_threads {", "        for thread in self.worker_threads.into_iter().skip(1) {")]),
    ("c08-join-holding-lock", "bug", "C08", [(CW, "                .send(WriteTask::Compressed(data, sized_offset, cluster_idx))\n                .unwrap();\n            let (count, cvar) = &*self.nb_cluster_in_queue;\n            let mut count = count.lock().unwrap();\n            *count -= 1;\n            cvar.notify_one();\n        }", "                .send(WriteTask::Compressed(data, sized_offset, cluster_idx))\n                .unwrap();\n            let (count, _) = &*self.nb_cluster_in_queue;\n            let mut count = count.lock().unwrap();\n            *count -= 1;\n        }\n        self.nb_cluster_in_queue.1.notify_one();")]),
    ("c08-writer-skips-empty", "bug", "C08", [(CW, "                    let offset = self.write_data(&data)?;", "                    if self.cluster_addresses.len() > idx.into_usize() && data.len() < 64 {\n                        continue;\n                    }\n                    let offset = self.write_data(&data)?;")]),
    ("c08-offset-after", "bug", "C08", [(CW, "        let offset = self.file.tell();\n        self.file.write_all(data)?;\n        Ok(offset)", "        self.file.write_all(data)?;\n        Ok(self.file.tell())")]),
    ("ok-c08-helper", "ok", "C08", [(CW, "            let idx = idx.into_usize();\n            if self.cluster_addresses.len() <= idx {\n                self.cluster_addresses.resize(idx + 1, Default::default());\n            }\n            self.cluster_addresses[idx].set(sized_offset);\n        }\n", "            self.record(idx, sized_offset);\n        }\n"), (CW, "    fn write_data(&mut self, data: &[u8])", "    fn record(&mut self, idx: ClusterIdx, at: SizedOffset) {\n        let idx = idx.into_usize();\n        let needed = idx + 1;\n        if needed > self.cluster_addresses.len() {\n            self.cluster_addresses.resize(needed, Late::default());\n        }\n        self.cluster_addresses[idx].set(at);\n    }\n\n    fn write_data(&mut self, data: &[u8])")]),
    ("ok-c08-resize-with", "ok", "C08", [(CW, "            if self.cluster_addresses.len() <= idx {\n                self.cluster_addresses.resize(idx + 1, Default::default());\n            }", "            while self.cluster_addresses.len() <= idx {\n                self.cluster_addresses.push(Default::default());\n            }")]),
    ("ok-c08-max", "ok", "C08", [(CW, "            if self.cluster_addresses.len() <= idx {\n                self.cluster_addresses.resize(idx + 1, Default::default());\n            }", "            let new_len = std::cmp::max(self.cluster_addresses.len(), idx + 1);\n            self.cluster_addresses.resize(new_len, Default::default());")]),
    ("ok-c08-loop", "ok", "C08", [(CW, "        while let Ok(task) = self.input.recv() {", "        loop {\n            let task = match self.input.recv() {\n                Ok(t) => t,\n                Err(_) => break,\n            };")]),
    ("ok-c08-for", "ok", "C08", [(CW, "        while let Ok(cluster) = self.input.recv() {", "        let input = self.input.clone();\n        while let Ok(cluster) = input.recv() {")]),
    ("ok-c08-scope-guard", "ok", "C08", [(CW, "            let mut count = count.lock().unwrap();\n            *count -= 1;\n            cvar.notify_one();", "            {\n                let mut count = count.lock().unwrap();\n                *count -= 1;\n            }\n            cvar.notify_all();")]),
    ("ok-c08-wait-loop", "ok", "C08", [(CW, "            let mut count = cvar\n                .wait_while(count.lock().unwrap(), |c| *c >= self.max_queue_size)\n                .unwrap();", "            let mut count = count.lock().unwrap();\n            while *count >= self.max_queue_size {\n                count = cvar.wait(count).unwrap();\n            }")]),
    ("ok-c08-count-after", "ok", "C08", [(CW, "            *count += 1;\n            self.dispatch_tx\n                .send(cluster)\n                .expect(\"Receiver should not be closed\");", "            *count += 1;\n            drop(count);\n            self.dispatch_tx\n                .send(cluster)\n                .expect(\"Receiver should not be closed\");")]),
    ("ok-c08-destructure", "ok", "C08", [(CW, "        drop(self.dispatch_tx);\n        drop(self.fusion_tx);\n        for thread in self.worker_threads {\n            thread.join().unwrap()?;\n        }\n        self.thread_handle.join().unwrap()", "        let Self {\n            worker_threads,\n            thread_handle,\n            dispatch_tx,\n            fusion_tx,\n            ..\n        } = self;\n        drop(fusion_tx);\n        drop(dispatch_tx);\n        for worker in worker_threads.into_iter() {\n            worker.join().unwrap()?;\n        }\n        thread_handle.join().unwrap()")]),
    ("ok-c08-workers-loop", "ok", "C08", [(CW, "        let worker_threads = (0..nb_thread)\n            .map(|idx| {\n", "        let mut worker_threads = Vec::with_capacity(nb_thread);\n        for idx in 0..nb_thread {\n            worker_threads.push({\n"), (CW, "                    worker.run()\n                })\n            })\n            .collect();", "                    worker.run()\n                })\n            });\n        }")]),
    ("ok-c08-raw-match", "ok", "C08", [(CW, "        let should_compress = if let Compression::None = self.compression {\n            false\n        } else {\n            compressed\n        };\n        if should_compress {", "        if compressed && !matches!(self.compression, Compression::None) {")]),
    ("ok-c08-cursor", "ok", "C08", [(CW, "            let mut data = Vec::<u8>::with_capacity(1024 * 1024);\n            let mut cursor = std::io::Cursor::new(&mut data);", "            let mut cursor = std::io::Cursor::new(Vec::<u8>::with_capacity(1024 * 1024));"), (CW, "                .send(WriteTask::Compressed(data, sized_offset, cluster_idx))", "                .send(WriteTask::Compressed(cursor.into_inner(), sized_offset, cluster_idx))")]),
    # ---- C10 / C11
    ('c10-chain-rev', 'bug', 'C10', [("src/reader/locator.rs", 'for locator in &self.0 {', 'for locator in self.0.iter().rev() {')]),
    ('c10-chain-err', 'bug', 'C10', [("src/reader/locator.rs", '            let reader = locator.locate(uuid, path)?;\n            if reader.is_some() {', '            let Ok(reader) = locator.locate(uuid, path) else {\n                return Ok(None);\n            };\n            if reader.is_some() {')]),
    ('c10-chain-first', 'bug', 'C10', [("src/reader/locator.rs", '            if reader.is_some() {\n                return Ok(reader);\n            }', '            if reader.is_some() || !path.is_empty() {\n                return Ok(reader);\n            }')]),
    ('c10-fs-name', 'bug', 'C10', [("src/reader/locator.rs", 'self.base_dir.join(path);', 'self.base_dir.join(std::path::Path::new(path).file_name().unwrap_or_default());')]),
    ('c10-fs-first', 'bug', 'C10', [("src/reader/locator.rs", '            Ok(container.get_pack_reader(&uuid))', '            Ok(container.get_pack_reader(&uuid).or_else(|| {\n                (container.pack_count() == PackCount::from(1))\n                    .then(|| container.get_pack_reader_from_idx(PackId::from(0)))\n                    .flatten()\n            }))')]),
    ('c10-open-head', 'bug', 'C10', [("src/reader/jubako.rs", 'Ok(pack_header) if pack_header.file_size == reader.size() => (pack_header, Offset::zero()),', 'Ok(pack_header) if pack_header.file_size <= reader.size() => {\n            (pack_header, Offset::zero())\n        }')]),
    ('c10-tail-origin', 'bug', 'C10', [(JR, '    Ok((pack_header, origin.into()))', '    let _ = origin;\n    Ok((pack_header, Offset::zero()))')]),
    ('c10-fake-uuid', 'bug', 'C10', [(JR, '            pack_header.uuid,\n        )),', '            Uuid::nil(),\n        )),')]),
    ('c10-manifest-first', 'bug', 'C10', [(CPR, '            if let PackKind::Manifest = pack_header.magic {\n                return Ok(Some(reader.clone()));\n            }\n        }\n        Ok(None)', '            return Ok(match pack_header.magic {\n                PackKind::Manifest => Some(reader.clone()),\n                _ => None,\n            });\n        }\n        Ok(None)')]),
    ('c10-max-id', 'bug', 'C10', [(JR, 'manifest_pack.max_id() as usize + 1', '(manifest_pack.max_id() + 1) as usize')]),
    ('c10-max-count', 'bug', 'C10', [(JR, 'manifest_pack.max_id() as usize + 1', 'manifest_pack.get_pack_infos().len() + 1')]),
    ('c10-by-index', 'bug', 'C10', [(MP, '            .find(|&pack_info| pack_info.pack_id == pack_id)', '            .nth(pack_id.into_usize().wrapping_sub(1))')]),
    ('c10-only-fs', 'bug', 'C10', [(JR, 'vec![container_pack, locator]', '{\n            let _ = container_pack;\n            vec![locator]\n        }')]),
    ('c10-locators-order', 'bug', 'C10', [(JR, 'vec![container_pack, locator]', 'vec![locator, container_pack]')]),
    ('c10-cut-size', 'bug', 'C10', [(CPR, 'reader.cut(pack_locator.pack_pos, pack_locator.pack_size, false)?;', 'reader.cut(\n                pack_locator.pack_pos,\n                reader.size() - Size::new(pack_locator.pack_pos.into_u64()),\n                false,\n            )?;')]),
    ('ok-c10-chain-iflet', 'ok', 'C10', [("src/reader/locator.rs", '            let reader = locator.locate(uuid, path)?;\n            if reader.is_some() {\n                return Ok(reader);\n            }', '            if let Some(reader) = locator.locate(uuid, path)? {\n                return Ok(Some(reader));\n            }')]),
    ('ok-c10-chain-iter', 'ok', 'C10', [("src/reader/locator.rs", 'for locator in &self.0 {', 'for locator in self.0.iter() {')]),
    ('ok-c10-chain-match', 'ok', 'C10', [("src/reader/locator.rs", '        for locator in &self.0 {\n            let reader = locator.locate(uuid, path)?;\n            if reader.is_some() {\n                return Ok(reader);\n            }\n        }\n        Ok(None)', '        let mut found = None;\n        for locator in &self.0 {\n            found = locator.locate(uuid, path)?;\n            if found.is_some() {\n                break;\n            }\n        }\n        Ok(found)')]),
    ('ok-c10-fs-early', 'ok', 'C10', [("src/reader/locator.rs", '        if path.is_file() {\n            // The pack may be stored directly in the file or be in a container pack.\n            let container = open_as_container_pack(Reader::from(FileSource::open(path)?))?;\n            Ok(container.get_pack_reader(&uuid))\n        } else {\n            Ok(None)\n        }', '        if !path.is_file() {\n            return Ok(None);\n        }\n        let file = FileSource::open(path)?;\n        open_as_container_pack(file.into()).map(|c| c.get_pack_reader(&uuid))')]),
    ('ok-c10-container-for', 'ok', 'C10', [(CPR, '        for _idx in header.pack_count {\n            let pack_locator = reader.parse_block_at::<PackLocator>(pack_offset)?;\n            pack_offset += PackLocator::BLOCK_SIZE;', '        for _ in 0..header.pack_count.into_u16() {\n            let pack_locator = reader.parse_block_at::<PackLocator>(pack_offset)?;\n            pack_offset += PackLocator::BLOCK_SIZE;')]),
    ('ok-c10-getpack', 'ok', 'C10', [(JR, '        let pack_info = match self.manifest_pack.get_content_pack_info(pack_id) {\n            None => return Ok(None),\n            Some(p) => p,\n        };\n        let pack_reader = self\n            .locator\n            .locate(pack_info.uuid, &pack_info.pack_location)?;\n        match pack_reader {\n            None => Ok(Some(MayMissPack::MISSING(pack_info.clone()))),\n            Some(r) => Ok(Some(MayMissPack::FOUND(ContentPack::new(r)).transpose()?)),\n        }', '        let Some(pack_info) = self.manifest_pack.get_content_pack_info(pack_id) else {\n            return Ok(None);\n        };\n        let located = self\n            .locator\n            .locate(pack_info.uuid, pack_info.pack_location.as_str())?;\n        Ok(Some(if let Some(reader) = located {\n            MayMissPack::FOUND(ContentPack::new(reader)?)\n        } else {\n            MayMissPack::MISSING(pack_info.clone())\n        }))')]),
    ('ok-c10-getpack-get', 'ok', 'C10', [(JR, '        if pack_id.into_usize() >= self.packs.len() {\n            return Ok(None);\n        }\n        let cache_slot = &self.packs[pack_id.into_usize()];', '        let Some(cache_slot) = self.packs.get(pack_id.into_usize()) else {\n            return Ok(None);\n        };')]),
    ('ok-c10-maxid', 'ok', 'C10', [(MP, '                    max_id = cmp::max(max_id, pack_info.pack_id.into_u16());\n                    pack_infos.push(pack_info);', '                    let id = pack_info.pack_id.into_u16();\n                    if id > max_id {\n                        max_id = id;\n                    }\n                    pack_infos.push(pack_info);'), (MP, 'use std::cmp;\n', '')]),
    ('ok-c10-find-loop', 'ok', 'C10', [(MP, '        self.pack_infos\n            .iter()\n            .find(|&pack_info| pack_info.pack_id == pack_id)', '        for pack_info in &self.pack_infos {\n            if pack_info.pack_id == pack_id {\n                return Some(pack_info);\n            }\n        }\n        None')]),
    ('c11-chain-rev', 'bug', 'C11', [("src/reader/locator.rs", 'for locator in &self.0 {', 'for locator in self.0.iter().rev() {')]),
    ('c11-chain-err', 'bug', 'C11', [("src/reader/locator.rs", '            let reader = locator.locate(uuid, path)?;\n            if reader.is_some() {', '            let Ok(reader) = locator.locate(uuid, path) else {\n                return Ok(None);\n            };\n            if reader.is_some() {')]),
    ('c11-chain-first', 'bug', 'C11', [("src/reader/locator.rs", '            if reader.is_some() {\n                return Ok(reader);\n            }', '            if reader.is_some() || !path.is_empty() {\n                return Ok(reader);\n            }')]),
    ('c11-fs-name', 'bug', 'C11', [("src/reader/locator.rs", 'self.base_dir.join(path);', 'self.base_dir.join(std::path::Path::new(path).file_name().unwrap_or_default());')]),
    ('c11-fs-first', 'bug', 'C11', [("src/reader/locator.rs", '            Ok(container.get_pack_reader(&uuid))', '            Ok(container.get_pack_reader(&uuid).or_else(|| {\n                (container.pack_count() == PackCount::from(1))\n                    .then(|| container.get_pack_reader_from_idx(PackId::from(0)))\n                    .flatten()\n            }))')]),
    ('c11-open-head', 'bug', 'C11', [("src/reader/jubako.rs", 'Ok(pack_header) if pack_header.file_size == reader.size() => (pack_header, Offset::zero()),', 'Ok(pack_header) if pack_header.file_size <= reader.size() => {\n            (pack_header, Offset::zero())\n        }')]),
    ('c11-tail-origin', 'bug', 'C11', [(JR, '    Ok((pack_header, origin.into()))', '    let _ = origin;\n    Ok((pack_header, Offset::zero()))')]),
    ('c11-fake-uuid', 'bug', 'C11', [(JR, '            pack_header.uuid,\n        )),', '            Uuid::nil(),\n        )),')]),
    ('c11-manifest-first', 'bug', 'C11', [(CPR, '            if let PackKind::Manifest = pack_header.magic {\n                return Ok(Some(reader.clone()));\n            }\n        }\n        Ok(None)', '            return Ok(match pack_header.magic {\n                PackKind::Manifest => Some(reader.clone()),\n                _ => None,\n            });\n        }\n        Ok(None)')]),
    ('c11-max-id', 'bug', 'C11', [(JR, 'manifest_pack.max_id() as usize + 1', '(manifest_pack.max_id() + 1) as usize')]),
    ('c11-max-count', 'bug', 'C11', [(JR, 'manifest_pack.max_id() as usize + 1', 'manifest_pack.get_pack_infos().len() + 1')]),
    ('c11-by-index', 'bug', 'C11', [(MP, '            .find(|&pack_info| pack_info.pack_id == pack_id)', '            .nth(pack_id.into_usize().wrapping_sub(1))')]),
    ('c11-only-fs', 'bug', 'C11', [(JR, 'vec![container_pack, locator]', '{\n            let _ = container_pack;\n            vec![locator]\n        }')]),
    ('c11-locators-order', 'bug', 'C11', [(JR, 'vec![container_pack, locator]', 'vec![locator, container_pack]')]),
    ('c11-cut-size', 'bug', 'C11', [(CPR, 'reader.cut(pack_locator.pack_pos, pack_locator.pack_size, false)?;', 'reader.cut(\n                pack_locator.pack_pos,\n                reader.size() - Size::new(pack_locator.pack_pos.into_u64()),\n                false,\n            )?;')]),
    ('ok-c11-chain-iflet', 'ok', 'C11', [("src/reader/locator.rs", '            let reader = locator.locate(uuid, path)?;\n            if reader.is_some() {\n                return Ok(reader);\n            }', '            if let Some(reader) = locator.locate(uuid, path)? {\n                return Ok(Some(reader));\n            }')]),
    ('ok-c11-chain-iter', 'ok', 'C11', [("src/reader/locator.rs", 'for locator in &self.0 {', 'for locator in self.0.iter() {')]),
    ('ok-c11-chain-match', 'ok', 'C11', [("src/reader/locator.rs", '        for locator in &self.0 {\n            let reader = locator.locate(uuid, path)?;\n            if reader.is_some() {\n                return Ok(reader);\n            }\n        }\n        Ok(None)', '        let mut found = None;\n        for locator in &self.0 {\n            found = locator.locate(uuid, path)?;\n            if found.is_some() {\n                break;\n            }\n        }\n        Ok(found)')]),
    ('ok-c11-fs-early', 'ok', 'C11', [("src/reader/locator.rs", '        if path.is_file() {\n            // The pack may be stored directly in the file or be in a container pack.\n            let container = open_as_container_pack(Reader::from(FileSource::open(path)?))?;\n            Ok(container.get_pack_reader(&uuid))\n        } else {\n            Ok(None)\n        }', '        if !path.is_file() {\n            return Ok(None);\n        }\n        let file = FileSource::open(path)?;\n        open_as_container_pack(file.into()).map(|c| c.get_pack_reader(&uuid))')]),
    ('ok-c11-container-for', 'ok', 'C11', [(CPR, '        for _idx in header.pack_count {\n            let pack_locator = reader.parse_block_at::<PackLocator>(pack_offset)?;\n            pack_offset += PackLocator::BLOCK_SIZE;', '        for _ in 0..header.pack_count.into_u16() {\n            let pack_locator = reader.parse_block_at::<PackLocator>(pack_offset)?;\n            pack_offset += PackLocator::BLOCK_SIZE;')]),
    ('ok-c11-getpack', 'ok', 'C11', [(JR, '        let pack_info = match self.manifest_pack.get_content_pack_info(pack_id) {\n            None => return Ok(None),\n            Some(p) => p,\n        };\n        let pack_reader = self\n            .locator\n            .locate(pack_info.uuid, &pack_info.pack_location)?;\n        match pack_reader {\n            None => Ok(Some(MayMissPack::MISSING(pack_info.clone()))),\n            Some(r) => Ok(Some(MayMissPack::FOUND(ContentPack::new(r)).transpose()?)),\n        }', '        let Some(pack_info) = self.manifest_pack.get_content_pack_info(pack_id) else {\n            return Ok(None);\n        };\n        let located = self\n            .locator\n            .locate(pack_info.uuid, pack_info.pack_location.as_str())?;\n        Ok(Some(if let Some(reader) = located {\n            MayMissPack::FOUND(ContentPack::new(reader)?)\n        } else {\n            MayMissPack::MISSING(pack_info.clone())\n        }))')]),
    ('ok-c11-getpack-get', 'ok', 'C11', [(JR, '        if pack_id.into_usize() >= self.packs.len() {\n            return Ok(None);\n        }\n        let cache_slot = &self.packs[pack_id.into_usize()];', '        let Some(cache_slot) = self.packs.get(pack_id.into_usize()) else {\n            return Ok(None);\n        };')]),
    ('ok-c11-maxid', 'ok', 'C11', [(MP, '                    max_id = cmp::max(max_id, pack_info.pack_id.into_u16());\n                    pack_infos.push(pack_info);', '                    let id = pack_info.pack_id.into_u16();\n                    if id > max_id {\n                        max_id = id;\n                    }\n                    pack_infos.push(pack_info);'), (MP, 'use std::cmp;\n', '')]),
    ('ok-c11-find-loop', 'ok', 'C11', [(MP, '        self.pack_infos\n            .iter()\n            .find(|&pack_info| pack_info.pack_id == pack_id)', '        for pack_info in &self.pack_infos {\n            if pack_info.pack_id == pack_id {\n                return Some(pack_info);\n            }\n        }\n        None')]),
    ('c11-missing-info', 'bug', 'C11', [(JR, '            None => Ok(Some(MayMissPack::MISSING(pack_info.clone()))),', '            None => Ok(Some(MayMissPack::MISSING(\n                self.manifest_pack.get_pack_infos()[0].clone(),\n            ))),')]),
    ('c11-missing-none', 'bug', 'C11', [(JR, '            None => Ok(Some(MayMissPack::MISSING(pack_info.clone()))),', '            None => Ok(None),')]),
    ('c11-missing-err', 'bug', 'C11', [(JR, '            None => Ok(Some(MayMissPack::MISSING(pack_info.clone()))),', '            None => Err(format_error!("missing pack")),')]),
    ('c11-cache-other', 'bug', 'C11', [(JR, '        let cache_slot = &self.packs[pack_id.into_usize()];', '        let cache_slot = &self.packs[pack_id.into_usize() & 0xFF];')]),
    ('c11-exists', 'bug', 'C11', [("src/reader/locator.rs", 'path.is_file()', 'path.exists()')]),
    ('c11-check-missing', 'bug', 'C11', [(JR, '            if let Some(r) = pack_reader {\n                let pseudo_container_pack = open_as_container_pack(r)?;\n                // check the container in itself.\n                if !pseudo_container_pack.check()? {\n                    return Ok(false);\n                }\n                // [TODO] Check with the checkinfo contained in the manifest.\n            }', '            let Some(r) = pack_reader else {\n                return Ok(false);\n            };\n            let pseudo_container_pack = open_as_container_pack(r)?;\n            if !pseudo_container_pack.check()? {\n                return Ok(false);\n            }')]),
    ('c11-getbytes-missing', 'bug', 'C11', [(JR, '            Some(MayMissPack::MISSING(pack_info)) => Ok(Some(MayMissPack::MISSING(pack_info))),', '            Some(MayMissPack::MISSING(_)) => Ok(None),')]),
    ('ok-c11-getbytes', 'ok', 'C11', [(JR, '        match self.get_pack(content.pack_id)? {\n            None => Ok(None),\n            Some(MayMissPack::MISSING(pack_info)) => Ok(Some(MayMissPack::MISSING(pack_info))),\n            Some(MayMissPack::FOUND(p)) => {\n                Ok(Some(MayMissPack::FOUND(p.get_content(content.content_id)?)))\n            }\n        }', '        let Some(pack) = self.get_pack(content.pack_id)? else {\n            return Ok(None);\n        };\n        Ok(Some(match pack {\n            MayMissPack::FOUND(p) => MayMissPack::FOUND(p.get_content(content.content_id)?),\n            MayMissPack::MISSING(info) => MayMissPack::MISSING(info),\n        }))')]),
    ('c10-skip-shift', 'bug', 'C10', [("src/bases/skip.rs", 'self.inner.seek(io::SeekFrom::Start(self.skip + s))?', 'self.inner.seek(io::SeekFrom::Start(self.skip.max(s)))?')]),
    ('c10-skip-ret', 'bug', 'C10', [("src/bases/skip.rs", '            Ok(new_pos - self.skip)', '            Ok(new_pos)')]),
    ('c10-close-pos', 'bug', 'C10', [(CPC, '        let pack_offset = file.stream_position()?;\n        file.seek(SeekFrom::End(0))?;', '        file.seek(SeekFrom::End(0))?;\n        let pack_offset = file.stream_position()? - pack_size + (self.packs.len() as u64 / 8);')]),
    ('c10-add-size', 'bug', 'C10', [(CPC, '        let pack_size = self.file.tell() - pack_offset;', '        let pack_size = self.file.tell() - self.packs.first().map_or(pack_offset, |p| p.pack_pos);')]),
    ('c10-add-limit', 'bug', 'C10', [(CPC, '        std::io::copy(reader, &mut self.file)?;', '        std::io::copy(&mut reader.take(u32::MAX as u64), &mut self.file)?;')]),
    ('c10-count-u8', 'bug', 'C10', [(CPC, 'PackCount::from(self.packs.len() as u16),', 'PackCount::from(self.packs.len() as u8 as u16),')]),
    ('c10-concat-dedup', 'bug', 'C10', [(TO, '        for (uuid, reader) in in_container.iter() {\n            container', '        for (uuid, reader) in in_container.iter().take(16) {\n            container')]),
    ('c10-concat-size', 'bug', 'C10', [(TO, 'reader.create_stream(Offset::zero(), reader.size(), false)?', 'reader.create_stream(Offset::zero(), reader.size() - Size::new(64), false)?')]),
    ('c10-concat-fake', 'bug', 'C10', [(TO, '        jbk::common::PackKind::Container => ContainerPack::new(reader)?,\n        _ => ', '        jbk::common::PackKind::Container if pack_header.file_size > Size::new(4096) => {\n            ContainerPack::new(reader)?\n        }\n        _ => ')]),
    ('c10-extra-file-name', 'bug', 'C10', [(BC, 'camino::absolute_utf8(p).map(|p| diff_utf8_paths(&p, parent_path).unwrap_or(p))', 'camino::absolute_utf8(p).map(|p| p.file_name().unwrap_or_default().into())')]),
    ('c10-relative-outpath', 'bug', 'C10', [(BC, 'camino::absolute_utf8(p).map(|p| diff_utf8_paths(&p, parent_path).unwrap_or(p))', 'camino::absolute_utf8(p).map(|p| diff_utf8_paths(&p, &self.outpath).unwrap_or(p))')]),
    ('c10-extra-skipped', 'bug', 'C10', [(BC, '        for (extra_pack_info, extra_locator) in extra_locators {', '        for (extra_pack_info, extra_locator) in extra_locators.into_iter().take(254) {')]),
    ('c10-content-locator-empty', 'bug', 'C10', [(BC, '                    (new_container, content_pack_path)', '                    let content_pack_path = if new_container.is_some() { Utf8PathBuf::new() } else { content_pack_path };\n                    (new_container, content_pack_path)')]),
    ('c10-dir-uuid', 'bug', 'C10', [(BC, '                container = Some(infile.close(directory_pack_info.uuid)?);', '                container = Some(infile.close(content_pack_info.uuid)?);')]),
    ('c10-manifest-skip-copy', 'bug', 'C10', [(MC, '            let check_info_pos = file.stream_position()? - origin_offset;', '            let check_info_pos = file.stream_position()?;')]),
    ('c10-locators-pos', 'bug', 'C10', [(CPC, '        let pack_locators_pos = self.file.tell();\n\n        for pack_locator in &self.packs {\n            self.file.ser_write(pack_locator)?;\n        }', '        for pack_locator in &self.packs {\n            self.file.ser_write(pack_locator)?;\n        }\n        let pack_locators_pos = self.file.tell() - Size::from(PackLocator::BLOCK_SIZE * self.packs.len().min(255));')]),
    ('c10-infile-rewind', 'bug', 'C10', [(CPC, '            file: Skip::new(self.file)?,', '            file: {\n                let mut file = self.file;\n                if self.packs.len() == 2 {\n                    file.rewind()?;\n                }\n                Skip::new(file)?\n            },')]),
    ('ok-c10-add', 'ok', 'C10', [(CPC, '        let pack_offset = self.file.tell();\n        std::io::copy(reader, &mut self.file)?;\n        let pack_size = self.file.tell() - pack_offset;\n        let pack_locator = PackLocator::new(uuid, pack_size, pack_offset);\n        self.packs.push(pack_locator);', '        let start = self.file.tell();\n        std::io::copy(reader, &mut self.file)?;\n        let end = self.file.tell();\n        self.packs.push(PackLocator::new(uuid, end - start, start));')]),
    ('ok-c10-add-copied', 'ok', 'C10', [(CPC, '        std::io::copy(reader, &mut self.file)?;\n        let pack_size = self.file.tell() - pack_offset;\n        let pack_locator = PackLocator::new(uuid, pack_size, pack_offset);', '        let copied = std::io::copy(reader, &mut self.file)?;\n        let pack_locator = PackLocator::new(uuid, copied.into(), pack_offset);')]),
    ('ok-c10-close', 'ok', 'C10', [(CPC, '        let pack_locator = PackLocator::new(uuid, pack_size.into(), pack_offset.into());\n        self.packs.push(pack_locator);\n        Ok(ContainerPackCreator {\n            file,\n            packs: self.packs,\n            free_data: self.container_free_data,\n        })', '        let mut packs = self.packs;\n        packs.push(PackLocator::new(\n            uuid,\n            pack_size.into(),\n            pack_offset.into(),\n        ));\n        let free_data = self.container_free_data;\n        Ok(ContainerPackCreator {\n            packs,\n            file,\n            free_data,\n        })')]),
    ('ok-c10-concat', 'ok', 'C10', [(TO, '            container.add_pack(\n                *uuid,\n                &mut reader.create_stream(Offset::zero(), reader.size(), false)?,\n            )?;', '            let size = reader.size();\n            let mut stream = reader.create_stream(Offset::zero(), size, false)?;\n            container.add_pack(*uuid, &mut stream)?;')]),
    ('ok-c10-extra-loop', 'ok', 'C10', [(BC, '        let extra_locators = extra_content_pack_creators\n            .into_iter()\n            .map(|extra_creator| {\n                let (extra_pack_file, extra_pack_info) = extra_creator.finalize()?;\n                let extra_path = extra_pack_file.close_file()?;\n                Ok::<_, Error>((extra_pack_info, extra_path))\n            })\n            .collect::<Result<Vec<_>>>()?;', '        let mut extra_locators = Vec::with_capacity(extra_content_pack_creators.len());\n        for extra_creator in extra_content_pack_creators {\n            let (file, info) = extra_creator.finalize()?;\n            extra_locators.push((info, file.close_file()?));\n        }')]),
    ('ok-c10-dir-iflet', 'ok', 'C10', [(BC, '        if let Some(container) = container {\n            // We have a container not closed (and not persisted)\n            let container_file = container.finalize()?;\n            container_file.close_file()?;\n        }\n\n        Ok(())', '        match container {\n            None => Ok(()),\n            Some(container) => {\n                let file = container.finalize()?;\n                file.close_file().map(|_| ())\n            }\n        }')]),
    ('ok-c10-mode-match', 'ok', 'C10', [(BC, '                    let new_container = if let ConcatMode::TwoFiles = self.concat_mode {', '                    let new_container = if matches!(self.concat_mode, ConcatMode::TwoFiles) {')]),
    ('ok-c10-manifest-first-dir', 'ok', 'C10', [(BC, '        manifest_creator.add_pack(directory_pack_info, relative_locator(directory_locator)?);\n        manifest_creator.add_pack(content_pack_info, relative_locator(content_locator)?);', '        let content_locator = relative_locator(content_locator)?;\n        let directory_locator = relative_locator(directory_locator)?;\n        manifest_creator.add_pack(directory_pack_info, directory_locator);\n        manifest_creator.add_pack(content_pack_info, content_locator);')]),
    ('ok-c10-skip-if', 'ok', 'C10', [("src/bases/skip.rs", '        let new_pos = match pos {\n            io::SeekFrom::Start(s) => self.inner.seek(io::SeekFrom::Start(self.skip + s))?,\n            _ => self.inner.seek(pos)?,\n        };\n        if new_pos < self.skip {\n            Err(io::Error::new(\n                io::ErrorKind::InvalidInput,\n                "You cannot seek before skip",\n            ))\n        } else {\n            Ok(new_pos - self.skip)\n        }', '        let pos = if let io::SeekFrom::Start(s) = pos {\n            io::SeekFrom::Start(s + self.skip)\n        } else {\n            pos\n        };\n        self.inner.seek(pos)?.checked_sub(self.skip).ok_or_else(|| {\n            io::Error::new(\n                io::ErrorKind::InvalidInput,\n                "You cannot seek before skip",\n            )\n        })')]),
# ---- C15
    ('c15-sort-no-renumber', 'bug', 'C15', [(CES, "            self.entries.par_sort_unstable_by(compare);\n            set_entry_idx(&mut self.entries);\n            let mut watchdog", "            self.entries.par_sort_unstable_by(compare);\n            let mut watchdog")]),
    ('c15-watchdog-no-renumber', 'bug', 'C15', [(CES, "                self.entries.par_sort_unstable_by(compare);\n                set_entry_idx(&mut self.entries);\n                watchdog -= 1;", "                self.entries.par_sort_unstable_by(compare);\n                watchdog -= 1;")]),
    ('c15-skip-first', 'bug', 'C15', [(CES, "        .par_iter_mut()\n        .enumerate()\n        .for_each", "        .par_iter_mut()\n        .enumerate()\n        .skip(1)\n        .for_each")]),
    ('c15-idx-off', 'bug', 'C15', [(CES, "entry.set_idx((idx as u32).into())", "entry.set_idx((idx as u32 + 1).into())")]),
    ('c15-idx-u16', 'bug', 'C15', [(CES, "entry.set_idx((idx as u32).into())", "entry.set_idx((idx as u16 as u32).into())")]),
    ('c15-chunks-base', 'bug', 'C15', [(CES, "        .par_iter_mut()\n        .enumerate()\n        .for_each(|(idx, entry)| entry.set_idx((idx as u32).into()))", "        .par_chunks_mut(1024)\n        .enumerate()\n        .for_each(|(c, chunk)| {\n            for (idx, entry) in chunk.iter_mut().enumerate() {\n                entry.set_idx(((c * 1000 + idx) as u32).into())\n            }\n        })")]),
    ('c15-word-eager', 'bug', 'C15', [(DEL, "        Self(Arc::new(move || b.get().into()))", "        let b = Bound::<S>(Arc::new(<S as SyncType>::new(b.get())));\n        Self(Arc::new(move || b.get().into()))")]),
    ('c15-bind-new-cell', 'bug', 'C15', [(DEL, "        Bound(Arc::clone(&self.0))", "        Bound(Arc::new(<S as SyncType>::new(self.get())))")]),
    ('c15-from-schema-default', 'bug', 'C15', [("src/creator/directory_pack/mod.rs", "        Self::new_idx(variant_name, value_transformer.collect(), idx)", "        drop(idx);\n        Self::new_idx(variant_name, value_transformer.collect(), Default::default())")]),
    ('c15-box-set-idx', 'bug', 'C15', [("src/creator/directory_pack/mod.rs", "    fn set_idx(&mut self, idx: EntryIdx) {\n        T::set_idx(self, idx)\n    }", "    fn set_idx(&mut self, idx: EntryIdx) {\n        if idx.into_u32() < 0xffff {\n            T::set_idx(self, idx)\n        }\n    }")]),
    ('c15-process-after-max', 'bug', 'C15', [(CES, "        for entry in &mut self.entries {\n            self.schema.process(entry);\n        }", "        for entry in self.entries.iter_mut().skip(1) {\n            self.schema.process(entry);\n        }")]),
    ('c15-word-write-trunc', 'bug', 'C15', [("src/creator/directory_pack/layout/properties.rs", "                            written += ser.write_usized(value.get(), *size)?;\n                        }\n                    }\n                    _ => {\n                        return Err(Error::wrong_type(format!(\n                            \"Value type for {} is not compatible with unsigned integer\"", "                            written += ser.write_usized(value.get() & 0xff_ffff, *size)?;\n                        }\n                    }\n                    _ => {\n                        return Err(Error::wrong_type(format!(\n                            \"Value type for {} is not compatible with unsigned integer\"")]),
    ('c15-word-not-counted', 'bug', 'C15', [("src/creator/directory_pack/schema/property.rs", "                Value::UnsignedWord(value) => {\n                    counter.process(value.get());\n                    size.process(value.get());", "                Value::UnsignedWord(value) => {\n                    size.process(value.get());")]),
    ('c15-word-size-skipped', 'bug', 'C15', [("src/creator/directory_pack/schema/property.rs", "                Value::UnsignedWord(value) => {\n                    counter.process(value.get());\n                    size.process(value.get());", "                Value::UnsignedWord(value) => {\n                    counter.process(value.get());\n                    if let ValueCounter::Many = counter {\n                        size.process(value.get());\n                    }")]),
    ('c15-finalize-sorts-again', 'bug', 'C15', [(DC, "            .map(|e| e.finalize())", "            .map(|mut e| {\n                e.sort();\n                e.finalize()\n            })")]),
    ('ok-c15-first-store-not-sorted-first', 'ok', 'C15', [(DC, "        for entry_store in &mut self.entry_stores {\n            entry_store.sort();\n        }\n        let mut watchdog", "        for entry_store in self.entry_stores.iter_mut().skip(1) {\n            entry_store.sort();\n        }\n        let mut watchdog")]),
    ('c15-fulfil-once', 'bug', 'C15', [(DEL, "        <S as SyncType>::set(&self.0, value)", "        if self.get() != value && Arc::strong_count(&self.0) > 1 {\n            <S as SyncType>::set(&self.0, value)\n        }")]),
    ('ok-c15-seq-loop', 'ok', 'C15', [(CES, "    entries\n        .par_iter_mut()\n        .enumerate()\n        .for_each(|(idx, entry)| entry.set_idx((idx as u32).into()))", "    for (idx, entry) in entries.iter_mut().enumerate() {\n        entry.set_idx((idx as u32).into());\n    }")]),
    ('ok-c15-zip', 'ok', 'C15', [(CES, "    entries\n        .par_iter_mut()\n        .enumerate()\n        .for_each(|(idx, entry)| entry.set_idx((idx as u32).into()))", "    (0u32..)\n        .zip(entries.iter_mut())\n        .for_each(|(idx, entry)| entry.set_idx(idx.into()))")]),
    ('ok-c15-chunks', 'ok', 'C15', [(CES, "        .par_iter_mut()\n        .enumerate()\n        .for_each(|(idx, entry)| entry.set_idx((idx as u32).into()))", "        .par_chunks_mut(1024)\n        .enumerate()\n        .for_each(|(c, chunk)| {\n            for (idx, entry) in chunk.iter_mut().enumerate() {\n                entry.set_idx(((c * 1024 + idx) as u32).into())\n            }\n        })")]),
    ('ok-c15-counter-loop', 'ok', 'C15', [(CES, "    entries\n        .par_iter_mut()\n        .enumerate()\n        .for_each(|(idx, entry)| entry.set_idx((idx as u32).into()))", "    let mut position = 0u32;\n    for entry in entries.iter_mut() {\n        entry.set_idx(EntryIdx::from(position));\n        position += 1;\n    }")]),
    ('ok-c15-sort-helper', 'ok', 'C15', [(CES, "            self.entries.par_sort_unstable_by(compare);\n            set_entry_idx(&mut self.entries);\n            let mut watchdog", "            let sort_once = |entries: &mut Vec<Entry>| {\n                entries.par_sort_unstable_by(compare);\n                set_entry_idx(entries);\n            };\n            sort_once(&mut self.entries);\n            let mut watchdog")]),
    ('ok-c15-finalize-foreach', 'ok', 'C15', [(CES, "        for entry in &mut self.entries {\n            self.schema.process(entry);\n        }", "        let EntryStore { entries, schema } = &mut *self;\n        entries.iter().for_each(|entry| schema.process(entry));")]),
    ('ok-c15-finalize-map-loop', 'ok', 'C15', [(DC, "        let finalized_entry_stores: Vec<Box<dyn WritableTell>> = self\n            .entry_stores\n            .into_iter()\n            .map(|e| e.finalize())\n            .collect();", "        let mut finalized_entry_stores: Vec<Box<dyn WritableTell>> =\n            Vec::with_capacity(self.entry_stores.len());\n        for store in self.entry_stores {\n            finalized_entry_stores.push(store.finalize());\n        }")]),
    ('ok-c15-word-clone', 'ok', 'C15', [(DEL, "        Self(Arc::new(move || b.get().into()))", "        let getter = move || {\n            let position = b.get();\n            position.into()\n        };\n        Self(Arc::new(getter))")]),
    ('ok-c15-value-once', 'ok', 'C15', [("src/creator/directory_pack/schema/property.rs", "                Value::UnsignedWord(value) => {\n                    counter.process(value.get());\n                    size.process(value.get());", "                Value::UnsignedWord(word) => {\n                    let value = word.get();\n                    size.process(value);\n                    counter.process(value);")]),
    ('ok-c15-process-find', 'ok', 'C15', [("src/creator/directory_pack/schema/mod.rs", "            for (n, p) in &mut self.variants {\n                if n == variant_name.as_ref() {\n                    p.process(entry);\n                    break;\n                }\n            }", "            if let Some((_, p)) = self\n                .variants\n                .iter_mut()\n                .find(|(n, _)| n == variant_name.as_ref())\n            {\n                p.process(entry);\n            }")]),
    ('ok-c15-keys-vec', 'ok', 'C15', [("src/creator/directory_pack/layout/entry.rs", "            let mut keys = self\n                .common\n                .iter()\n                .chain(self.variants[variant_id.into_usize()].iter());\n            Properties::serialize_entry(&mut keys, Some(variant_id), entry, ser)?", "            let variant = &self.variants[variant_id.into_usize()];\n            let keys = self.common.iter().chain(variant.iter());\n            Properties::serialize_entry(keys, Some(variant_id), entry, ser)?")]),
]
SP = "src/creator/directory_pack/schema/property.rs"
SM = "src/creator/directory_pack/schema/mod.rs"
LP = "src/creator/directory_pack/layout/property.rs"
LS = "src/creator/directory_pack/layout/properties.rs"
LE = "src/creator/directory_pack/layout/entry.rs"
WV = "src/creator/directory_pack/value_store.rs"
WM = "src/creator/directory_pack/mod.rs"
BP = "src/reader/directory_pack/builder/property.rs"
RLM = "src/reader/directory_pack/layout/mod.rs"
RLP = "src/reader/directory_pack/layout/properties.rs"
RRL = "src/reader/directory_pack/raw_layout.rs"
RRV = "src/reader/directory_pack/raw_value.rs"
RVS = "src/reader/directory_pack/value_store.rs"
RES = "src/reader/directory_pack/entry_store.rs"
RRG = "src/reader/directory_pack/range.rs"
CASES += [
    ("c02-signed-width", "bug", "C02", [(SP, "magnitude.saturating_mul(2)", "magnitude")]),
    ("c02-signed-neg", "bug", "C02", [(SP, "if v < 0 { !v } else { v }", "if v < 0 { 0 } else { v }")]),
    ("c02-counter-never-many", "bug", "C02", [(SP, "Self::Many => {}", "Self::Many => *self = Self::One(v),")]),
    ("c02-max-min", "bug", "C02", [(SP, "*max = cmp::max(*max, v);", "*max = v;")]),
    ("c02-word-size", "bug", "C02", [(SP, "                Value::UnsignedWord(value) => {\n                    counter.process(value.get());\n                    size.process(value.get());", "                Value::UnsignedWord(value) => {\n                    counter.process(value.get());\n                    size.process(value.get() >> 8);")]),
    ("c02-content-size", "bug", "C02", [(SP, "content_id_size.process(c.content_id.into_u32());", "content_id_size.process(c.content_id.into_u32() & 0xFFFF);")]),
    ("c02-array-size-inline", "bug", "C02", [(SP, "Value::Array(a) => a.size,", "Value::Array(a) => a.data.len(),")]),
    ("c02-variant-not-processed", "bug", "C02", [(SM, "if n == variant_name.as_ref() {", "if n == variant_name.as_ref() && !self.common.is_empty() {")]),
    ("c02-variant-number", "bug", "C02", [(SM, "            variants_layout.push(variant.finalize(Some(name.as_str())));\n            variants_map.insert(name, (variants_layout.len() as u8 - 1).into());", "            variants_map.insert(name, (variants_layout.len() as u8 / 2).into());\n            variants_layout.push(variant.finalize(Some(name.as_str())));")]),
    ("c02-fill-15", "bug", "C02", [(LS, "self.0.push(Property::Padding(16));", "self.0.push(Property::Padding(15));")]),
    ("c02-array1-pad", "bug", "C02", [(LS, """                        Value::Array1(a) => {
                            if let Some(array_len_size) = array_len_size {
                                written += ser.write_usized(a.size as u64, *array_len_size)?;
                            }
                            written += ser.write_data(&a.data)?;""", """                        Value::Array1(a) => {
                            if let Some(array_len_size) = array_len_size {
                                written += ser.write_usized(a.data.len() as u64, *array_len_size)?;
                            }
                            written += ser.write_data(&a.data)?;""")]),
    ("c02-content-order", "bug", "C02", [(LS, """                        if let Some(d) = default {
                            assert_eq!(*d, value.pack_id.into_u16());
                        } else {
                            written += ser.write_usized(value.pack_id.into_u64(), *pack_id_size)?;
                        }
                        written +=
                            ser.write_usized(value.content_id.into_u64(), *content_id_size)?;""", """                        written +=
                            ser.write_usized(value.content_id.into_u64(), *content_id_size)?;
                        if let Some(d) = default {
                            assert_eq!(*d, value.pack_id.into_u16());
                        } else {
                            written += ser.write_usized(value.pack_id.into_u64(), *pack_id_size)?;
                        }""")]),
    ("c02-header-u2", "bug", "C02", [(LP, "                if let ByteSize::U2 = pack_id_size {\n                    key_type |= 0b0000_0100;\n                }", "                if let (ByteSize::U2, None) = (pack_id_size, default) {\n                    key_type |= 0b0000_0100;\n                }")]),
    ("c02-header-default-signed", "bug", "C02", [(LP, "written += ser.write_isized(*d, *size)?;", "written += ser.write_usized(d.unsigned_abs(), *size)?;")]),
    ("c02-plain-dup-prefix", "bug", "C02", [(WV, "if self.0.data[*data_key].0 == self.0.data[i].0 {", "if self.0.data[*data_key].0.len() == self.0.data[i].0.len()\n                    && self.0.data[*data_key].0.first() == self.0.data[i].0.first()\n                {")]),
    ("c02-plain-key-size", "bug", "C02", [(WV, "needed_bytes(self.size().into_u64())", "needed_bytes(self.0.sorted_indirect.len())")]),
    ("c02-indexed-key-size", "bug", "C02", [(WV, "needed_bytes(self.0.sorted_indirect.len())", "needed_bytes(self.0.sorted_indirect.len() >> 1)")]),
    ("c02-indexed-size", "bug", "C02", [(WV, "                self.0.size += data.len();\n                self.0.add_value(data)", "                if self.0.data.is_empty() {\n                    self.0.size = Size::zero();\n                }\n                self.0.add_value(data)")]),
    ("c02-indexed-offset-size", "bug", "C02", [(WV, "                offset += data.len() as u64;\n                ser.write_usized(offset, offset_size)?;", "                ser.write_usized(offset, offset_size)?;\n                offset += data.len() as u64;")]),
    ("c02-indexed-found", "bug", "C02", [(WV, ".position(|(existing_data, _)| &data == existing_data)", ".position(|(existing_data, _)| existing_data.starts_with(&data))")]),
    ("c02-split", "bug", "C02", [(WM, "data.split_at(cmp::min(*fixed_array_len, data.len()));", "data.split_at(cmp::min(*fixed_array_len & !1, data.len()));")]),
    ("c02-split-size", "bug", "C02", [(WM, "                                    1 => Value::Array1(Box::new(ArrayS::<1> {\n                                        size,", "                                    1 => Value::Array1(Box::new(ArrayS::<1> {\n                                        size: size.max(1) - 1 + data.len().min(1) * (size & 1),")]),
    ("c02-chain-variant", "bug", "C02", [(WM, "                if n == variant_name {\n                    let keys", "                if n.as_str().starts_with(variant_name.as_str()) {\n                    let keys")]),
    ("c02-entry-position", "bug", "C02", [(WM, "match self.names.iter().position(|n| n == name) {", "match self.names.iter().position(|n| n.as_str().len() == name.as_str().len()) {")]),
    ("c02-read-u3", "bug", "C02", [(BP, "ByteSize::U3 | ByteSize::U4 => RawValue::U32(prop.create(parser)? as u32),\n                ByteSize::U5 | ByteSize::U6 | ByteSize::U7 | ByteSize::U8 => {\n                    RawValue::U64(prop.create(parser)?)", "ByteSize::U3 | ByteSize::U4 | ByteSize::U5 => RawValue::U32(prop.create(parser)? as u32),\n                ByteSize::U6 | ByteSize::U7 | ByteSize::U8 => {\n                    RawValue::U64(prop.create(parser)?)")]),
    ("c02-read-signed-u4", "bug", "C02", [(BP, "ByteSize::U4 => parser.read_i32(self.offset)? as i64,", "ByteSize::U4 => parser.read_u32(self.offset)? as i64,")]),
    ("c02-read-default-zero", "bug", "C02", [(BP, "            &PropertyKind::SignedInt { int_size, default } => {\n                Self::SignedInt(SignedProperty::new(p.offset, int_size, default, None))", "            &PropertyKind::SignedInt { int_size, default } => {\n                Self::SignedInt(SignedProperty::new(p.offset, int_size, default.filter(|v| *v >= 0), None))")]),
    ("c02-read-array-order", "bug", "C02", [(BP, """                let base_array = BaseArray::parse(self.fixed_array_len, &mut seq_parser)?;
                let deported_info = match &self.deported_array_info {
                    Some((value_size, store)) => {
                        let value_id = seq_parser.read_usized(*value_size)?.into();
                        Some(Extend::new(Arc::clone(store), value_id))
                    }
                    None => None,
                };
                (array_size""", """                let deported_info = match &self.deported_array_info {
                    Some((value_size, store)) => {
                        let value_id = seq_parser.read_usized(*value_size)?.into();
                        Some(Extend::new(Arc::clone(store), value_id))
                    }
                    None => None,
                };
                let base_array = BaseArray::parse(self.fixed_array_len, &mut seq_parser)?;
                (array_size""")]),
    ("c02-read-pack-default", "bug", "C02", [(BP, "            None => (seq_parser.read_usized(self.pack_id_size)? as u16).into(),\n            Some(d) => d,", "            None => (seq_parser.read_usized(self.pack_id_size)? as u16 & 0xff).into(),\n            Some(d) => d,")]),
    ("c02-base-len", "bug", "C02", [(RRV, "std::cmp::min(s.into_usize(), base_len as usize) as u8", "std::cmp::min(s.into_usize() as u8, base_len)")]),
    ("c02-extend-len", "bug", "C02", [(RRV, "self.size.map(|s| s - ASize::new(self.base_len as usize)),\n            )?;\n            vec.ext", "self.size,\n            )?;\n            vec.ext")]),
    ("c02-layout-padding", "bug", "C02", [(RLP, "            offset += raw_property.size;\n            if property.kind != PropertyKind::Padding && property.kind != PropertyKind::VariantId {", "            if property.kind != PropertyKind::Padding && property.kind != PropertyKind::VariantId {\n                offset += raw_property.size;")]),
    ("c02-layout-variant-place", "bug", "C02", [(RLM, "variants.push(Properties::new(common_size, variant_def).into());", "variants.push(Properties::new(if variants.len() < 2 { common_size } else { common_size - 1 }, variant_def).into());")]),
    ("c02-layout-name", "bug", "C02", [(RLM, "variants_map.insert(variant_name.unwrap(), variants.len() as u8 - 1);", "variants_map.insert(variant_name.unwrap(), (variants.len() as u8 - 1) / 2 * 2);")]),
    ("c02-raw-array-len", "bug", "C02", [(RRL, "let fixed_array_len = complement & 0b00011111;", "let fixed_array_len = complement & 0b00001111;")]),
    ("c02-raw-content-size", "bug", "C02", [(RRL, "                    content_id_size\n                        + if default_pack_id.is_some() {\n                            0", "                    content_id_size\n                        + if default_pack_id.is_some() {\n                            u16::from(pack_id_size == ByteSize::U2)")]),
    ("c02-store-offset", "bug", "C02", [(RVS, "                value_offsets.push(data_size.into());", "                value_offsets.push(data_size.into_u64().saturating_sub(1).into());")]),
    ("c02-window-count", "bug", "C02", [(RRG, "if id.is_valid(*self.count()) {", "if id.into_u32() <= self.count().into_u32() {")]),
    ("c02-window-offset", "bug", "C02", [(RRG, "builder.create_entry(self.offset() + id)\n        } else", "builder.create_entry(id)\n        } else")]),
    ("c02-entry-store-size", "bug", "C02", [(RES, "let data_size = layout.entry_count * layout.entry_size.into();", "let data_size = layout.entry_count * (layout.entry_size.into_usize() as u8 as usize).into();")]),
    ("ok-c02-counter-if", "ok", "C02", [(SP, """            Self::One(d) => {
                if *d != v {
                    *self = Self::Many
                }
            }
            Self::Many => {}""", """            Self::One(d) if *d == v => {}
            _ => *self = Self::Many,""")]),
    ("ok-c02-max-if", "ok", "C02", [(SP, "*max = cmp::max(*max, v);", "if v > *max {\n                    *max = v;\n                }")]),
    ("ok-c02-fill-for", "ok", "C02", [(LS, """        let mut padding_size = size - current_size;
        while padding_size >= 16 {
            self.0.push(Property::Padding(16));
            padding_size -= 16;
        }""", """        let mut padding_size = size - current_size;
        loop {
            if padding_size < 16 {
                break;
            }
            self.0.push(Property::Padding(16));
            padding_size -= 16;
        }""")]),
    ("ok-c02-entry-find", "ok", "C02", [(WM, """        match self.names.iter().position(|n| n == name) {
            Some(i) => MayRef::Borrowed(&self.values[i]),
            None => panic!("{} should be in entry", name.as_str()),
        }""", """        let position = self.names.iter().position(|n| n == name);
        let position = position.unwrap_or_else(|| panic!("{} should be in entry", name.as_str()));
        MayRef::Borrowed(&self.values[position])""")]),
    ("ok-c02-window-early", "ok", "C02", [(RRG, """        if id.is_valid(*self.count()) {
            builder.create_entry(self.offset() + id)
        } else {
            Ok(None)
        }""", """        let count = self.count();
        if !id.is_valid(*count) {
            return Ok(None);
        }
        let position = self.offset() + id;
        builder.create_entry(position)""")]),
    ("ok-c02-content-read", "ok", "C02", [(BP, """        let pack_id = match self.pack_id_default {
            None => (seq_parser.read_usized(self.pack_id_size)? as u16).into(),
            Some(d) => d,
        };
""", """        let pack_id = if let Some(d) = self.pack_id_default {
            d
        } else {
            let raw = seq_parser.read_usized(self.pack_id_size)?;
            (raw as u16).into()
        };
""")]),
    ("ok-c02-serial-helper", "ok", "C02", [(LS, """                        Value::Array1(a) => {
                            if let Some(array_len_size) = array_len_size {
                                written += ser.write_usized(a.size as u64, *array_len_size)?;
                            }
                            written += ser.write_data(&a.data)?;
                            // Data is truncate at fixed_array_len. We just want to write 0 if data is shorter than fixed_array_len
                            written += ser.write_data(
                                vec![0; *fixed_array_len as usize - a.data.len()].as_slice(),
                            )?;
                            if let Some((key_size, _)) = deported_info {
                                written +=
                                    ser.write_usized(a.value_id.get().into_u64(), *key_size)?;
                            }
                        }""", """                        Value::Array1(a) => {
                            written += write_array(ser, a.size, &a.data, &a.value_id, *array_len_size, *fixed_array_len, deported_info.as_ref().map(|(s, _)| *s))?;
                        }"""), (LS, "#[derive(Debug)]\n#[repr(transparent)]\npub(crate) struct Properties", """fn write_array(
    ser: &mut Serializer,
    size: usize,
    data: &[u8],
    value_id: &crate::creator::ValueHandle,
    array_len_size: Option<ByteSize>,
    fixed_array_len: u8,
    key_size: Option<ByteSize>,
) -> Result<usize> {
    let mut written = 0;
    if let Some(array_len_size) = array_len_size {
        written += ser.write_usized(size as u64, array_len_size)?;
    }
    written += ser.write_data(data)?;
    let missing = vec![0; fixed_array_len as usize - data.len()];
    written += ser.write_data(&missing)?;
    if let Some(key_size) = key_size {
        written += ser.write_usized(value_id.get().into_u64(), key_size)?;
    }
    Ok(written)
}

#[derive(Debug)]
#[repr(transparent)]
pub(crate) struct Properties""")]),
    ("ok-c02-plain-ids", "ok", "C02", [(WV, """            // No duplicate
            let data = &mut self.0.data[*data_key];
            data.1 = offset;
            offset += data.0.len() as u64;
            last_data_key = Some(*data_key);""", """            // No duplicate
            let key = *data_key;
            last_data_key = Some(key);
            self.0.data[key].1 = offset;
            offset += self.0.data[key].0.len() as u64;""")]),
    ("ok-c02-tail-fold", "ok", "C02", [(WV, """        let mut offset = 0;
        if !self.0.sorted_indirect.is_empty() {
            for idx in &self.0.sorted_indirect[..(self.0.sorted_indirect.len() - 1)] {
                let data = &self.0.data[*idx].0;
                offset += data.len() as u64;
                ser.write_usized(offset, offset_size)?;
            }
        }""", """        let mut offset = 0;
        let count = self.0.sorted_indirect.len();
        let mut i = 0;
        while i + 1 < count {
            offset += self.0.data[self.0.sorted_indirect[i]].0.len() as u64;
            ser.write_usized(offset, offset_size)?;
            i += 1;
        }""")]),
    ("ok-c02-places", "ok", "C02", [(RLP, """            offset += raw_property.size;
            if property.kind != PropertyKind::Padding && property.kind != PropertyKind::VariantId {
                properties.insert(raw_property.name, property);
            }""", """            offset += raw_property.size;
            if matches!(property.kind, PropertyKind::Padding | PropertyKind::VariantId) {
                continue;
            }
            properties.insert(raw_property.name, property);""")]),
]

HPK = "src/common/headers/pack.rs"
HCP = "src/common/headers/content_pack.rs"
PIN = "src/common/pack_info.rs"
CIN = "src/common/content_info.rs"
BLK = "src/bases/block.rs"
WRI = "src/bases/write.rs"
SOF = "src/bases/types/sized_offset.rs"
PST = "src/bases/types/pstring.rs"
CASES += [
    ("c14-cp-swap", "bug", "C14", [(HCP, """        written += self.content_ptr_pos.serialize(ser)?;
        written += self.cluster_ptr_pos.serialize(ser)?;""", """        written += self.cluster_ptr_pos.serialize(ser)?;
        written += self.content_ptr_pos.serialize(ser)?;"""), (HCP, """        let content_ptr_pos = Offset::parse(parser)?;
        let cluster_ptr_pos = Offset::parse(parser)?;""", """        let cluster_ptr_pos = Offset::parse(parser)?;
        let content_ptr_pos = Offset::parse(parser)?;""")]),
    ("c14-cp-pad", "bug", "C14", [(HCP, "ser.write_data(&[0; 12])?", "ser.write_data(&[0; 4])?"), (HCP, "parser.skip(12)?;", "parser.skip(4)?;"), (HCP, "+ 12 // Padding", "+ 4 // Padding")]),
    ("c14-version", "bug", "C14", [(HPK, "minor_version: 2,", "minor_version: 3,"), (HPK, "!= (0, 2)", "!= (0, 3)")]),
    ("c14-flags", "bug", "C14", [(HPK, "flags: 0,\n            app", "flags: 1,\n            app")]),
    ("c14-padding-nonzero", "bug", "C14", [(HPK, "ser.write_data(&[0_u8; 5])?", "ser.write_data(&[0xFF_u8; 5])?")]),
    ("c14-checkpos-order", "bug", "C14", [(HPK, """        written += self.file_size.serialize(ser)?;
        written += self.check_info_pos.serialize(ser)?;""", """        written += self.check_info_pos.serialize(ser)?;
        written += self.file_size.serialize(ser)?;"""), (HPK, """        let file_size = Size::parse(parser)?;
        let check_info_pos = Offset::parse(parser)?;""", """        let check_info_pos = Offset::parse(parser)?;
        let file_size = Size::parse(parser)?;""")]),
    ("c14-packinfo-group", "bug", "C14", [(PIN, """        written += ser.write_u8(self.pack_group)?;
        written += ser.write_u16(self.free_data_id.into_u64() as u16)?;""", """        written += ser.write_u16(self.free_data_id.into_u64() as u16)?;
        written += ser.write_u8(self.pack_group)?;"""), (PIN, """        let pack_group = parser.read_u8()?;
        let free_data_id = ValueIdx::from(parser.read_u16()? as u64);""", """        let free_data_id = ValueIdx::from(parser.read_u16()? as u64);
        let pack_group = parser.read_u8()?;""")]),
    ("c14-packinfo-pad", "bug", "C14", [(PIN, "self.pack_location.as_str(), 213, ser", "self.pack_location.as_str(), 217, ser"), (PIN, "parser.skip(213 -", "parser.skip(217 -"), (PIN, "+ 214 // pack", "+ 218 // pack")]),
    ("c14-content-info-bits", "bug", "C14", [(CIN, "(self.cluster_index.into_u32() << 12) + (self.blob_index.into_u32() & 0xFFF_u32)", "(self.cluster_index.into_u32() << 16) + (self.blob_index.into_u32() & 0xFFFF_u32)"), (CIN, "(v & 0xFFF) as u16", "(v & 0xFFFF) as u16"), (CIN, "v >> 12", "v >> 16")]),
    ("c14-crc-init", "bug", "C14", [(BLK, "init: 0xFFFFFFFF,", "init: 0,")]),
    ("c14-crc-order", "bug", "C14", [(BLK, "BE::read_u32(&buf[data_size..])", "zerocopy::LE::read_u32(&buf[data_size..])"), (WRI, "let checksum = checksum.to_be_bytes();", "let checksum = checksum.to_le_bytes();")]),
    ("c14-sized-offset-swap", "bug", "C14", [(SOF, "(self.offset.into_u64() << 16) + (self.size.into_u64() & 0xFF_FF_u64)", "(self.size.into_u64() << 48) + self.offset.into_u64()"), (SOF, "(data & 0xFF_FF_u64) as usize", "(data >> 48) as usize"), (SOF, "Offset::from(data >> 16)", "Offset::from(data & 0xFFFF_FFFF_FFFF)")]),
    ("c14-tail-order", "bug", "C14", [(CW, """    ser.write_usized(raw_data_size.into_u64(), offset_size)?; // raw data size
    ser.write_usized(cluster.data_size().into_u64(), offset_size)?; // datasize""", """    ser.write_usized(cluster.data_size().into_u64(), offset_size)?; // datasize
    ser.write_usized(raw_data_size.into_u64(), offset_size)?; // raw data size""")]),
    ("c14-tail-all-offsets", "bug", "C14", [(CW, "for offset in &cluster.offsets[..cluster.offsets.len() - 1] {", "for offset in &cluster.offsets {")]),
    ("c14-tail-width", "bug", "C14", [(CW, """    let offset_size = needed_bytes(std::cmp::max(
        raw_data_size.into_u64(),
        cluster.data_size().into_u64(),
    ));""", "    let offset_size = needed_bytes(raw_data_size.into_u64());")]),
    ("c14-blob-count", "bug", "C14", [(CW, "BlobCount::from(cluster.offsets.len() as u16)", "BlobCount::from((cluster.offsets.len() - 1) as u16)")]),
    ("c14-check-kind", "bug", "C14", [(CH, "    Blake3 = 1,", "    Blake3 = 2,"), (CH, "1_u8 => Ok(CheckKind::Blake3)", "2_u8 => Ok(CheckKind::Blake3)")]),
    ("c14-usized-be", "bug", "C14", [(WRI, """            let d = U64::from(value);
            let size = size as usize;
            self.buf.write_all(&d.as_bytes()[..size])?;""", """            let d = value.to_be_bytes();
            let size = size as usize;
            self.buf.write_all(&d[8 - size..])?;""")]),
    ("c14-free-data-cut", "bug", "C14", [(HCP, "written += self.free_data.serialize(ser)?;", "written += ser.write_data(&[0; 24])?;")]),
    ("ok-c14-content-info-or", "ok", "C14", [(CIN, "(self.cluster_index.into_u32() << 12) + (self.blob_index.into_u32() & 0xFFF_u32)", "(self.cluster_index.into_u32() << 12) | (self.blob_index.into_u32() & 0xFFF_u32)")]),
    ("ok-c14-content-info-mul", "ok", "C14", [(CIN, "(v & 0xFFF) as u16", "(v % 4096) as u16"), (CIN, "v >> 12", "v / 4096")]),
    ("ok-c14-sized-offset-or", "ok", "C14", [(SOF, "(self.offset.into_u64() << 16) + (self.size.into_u64() & 0xFF_FF_u64)", "self.size.into_u64() | (self.offset.into_u64() * 0x1_0000)")]),
    ("ok-c14-pad-split", "ok", "C14", [(HCP, "written += ser.write_data(&[0; 12])?;", "written += ser.write_u32(0)?;\n        written += ser.write_u64(0)?;"), (HCP, "parser.skip(12)?;", "parser.skip(4)?;\n        parser.skip(8)?;")]),
    ("ok-c14-header-sum", "ok", "C14", [(HCP, """        let mut written = 0;
        written += self.content_ptr_pos.serialize(ser)?;
        written += self.cluster_ptr_pos.serialize(ser)?;
        written += self.content_count.serialize(ser)?;""", """        let positions = self.content_ptr_pos.serialize(ser)? + self.cluster_ptr_pos.serialize(ser)?;
        let mut written = positions + self.content_count.serialize(ser)?;""")]),
    ("ok-c14-tail-iter", "ok", "C14", [(CW, """    for offset in &cluster.offsets[..cluster.offsets.len() - 1] {
        ser.write_usized(*offset, offset_size)?;
    }
    Ok(())""", """    let count = cluster.offsets.len() - 1;
    cluster
        .offsets
        .iter()
        .take(count)
        .try_for_each(|offset| ser.write_usized(*offset, offset_size).map(|_| ()))""")]),
    ("ok-c14-tail-split", "ok", "C14", [(CW, """    for offset in &cluster.offsets[..cluster.offsets.len() - 1] {
        ser.write_usized(*offset, offset_size)?;
    }""", """    if let Some((_last, starts)) = cluster.offsets.split_last() {
        for offset in starts {
            ser.write_usized(*offset, offset_size)?;
        }
    }""")]),
    ("ok-c14-tail-max", "ok", "C14", [(CW, """    let offset_size = needed_bytes(std::cmp::max(
        raw_data_size.into_u64(),
        cluster.data_size().into_u64(),
    ));""", """    let mut biggest = raw_data_size.into_u64();
    if cluster.data_size().into_u64() > biggest {
        biggest = cluster.data_size().into_u64();
    }
    let offset_size = needed_bytes(biggest);""")]),
    ("ok-c14-checkinfo-match", "ok", "C14", [(CH, """        let b3hash = match kind {
            CheckKind::Blake3 => Some(blake3::Hash::parse(parser)?),
            _ => None,
        };
        Ok(Self { b3hash })""", """        if let CheckKind::None = kind {
            return Ok(Self { b3hash: None });
        }
        let hash = blake3::Hash::parse(parser)?;
        Ok(Self { b3hash: Some(hash) })""")]),
    ("ok-c14-crc-oneshot", "ok", "C14", [(BLK, """    let mut digest = CRC.digest();
    digest.update(slice);
    let checksum = digest.finalize();
    let expected""", """    let checksum = CRC.checksum(slice);
    let expected""")]),
    ("ok-c14-isized", "ok", "C14", [(WRI, """            let mut d = [0_u8; 8];
            let size = size as usize;
            LE::write_int(&mut d, value, size);
            self.buf.write_all(&d[..size])?;
            Ok(size)""", """            let size = size as usize;
            let mut d = [0_u8; 8];
            LE::write_int(&mut d[..], value, size);
            let kept = &d[..size];
            self.buf.write_all(kept)?;
            Ok(kept.len())""")]),
]

BRG = "src/reader/byte_region.rs"
BSL = "src/reader/byte_slice.rs"
BST = "src/reader/byte_stream.rs"
BRD = "src/bases/reader.rs"
BUF = "src/bases/io/buffer.rs"
FIL = "src/bases/io/file.rs"
COM = "src/bases/io/compression.rs"
RNG = "src/bases/types/range.rs"
PAR = "src/bases/parsing.rs"
CASES += [
    ("c13-stream-pos", "bug", "C13", [(BSL, "self.region, self.region.begin())", "self.region, Offset::zero())")]),
    ("c13-slice-cut-abs", "bug", "C13", [(BSL, "        let region = self.region.cut_rel(offset, size);\n        Self {", "        let region = Region::new_from_size(offset, size);\n        Self {")]),
    ("c13-get-slice-long", "bug", "C13", [(BSL, "let region = self.region.cut_rel_asize(offset, ASize::new(size));", "let region = Region::new_from_size(self.region.begin() + offset, self.region.size()).try_into().map(|r: ARegion| if size > 0xFFFF { ARegion::new(r.begin(), r.begin() + Size::from(0xFFFF_usize)) } else { ARegion::new(r.begin(), r.begin() + Size::from(size)) }).unwrap();")]),
    ("c13-stream-unbounded", "bug", "C13", [(BST, "        let buf = &mut buf[..max_len];\n", "        let buf = if max_len == 0 { &mut buf[..0] } else { buf };\n")]),
    ("c13-stream-left", "bug", "C13", [(BST, "(self.region.end() - self.offset).into_u64()\n    }", "(self.region.size().into_u64()) - self.offset.into_u64()\n    }")]),
    ("c13-stream-advance", "bug", "C13", [(BST, "                self.offset += s;\n", "                self.offset += max_len;\n")]),
    ("c13-region-read-data", "bug", "C13", [(BRG, "self.source.read_exact(self.region.begin() + offset, buf)", "self.source.read_exact(offset, buf)")]),
    ("c13-buffer-read-exact", "bug", "C13", [(BUF, "buf.copy_from_slice(&self.as_ref()[o..e]);", "let e = e - o;\n        buf.copy_from_slice(&self.as_ref()[..e]);")]),
    ("c13-file-cut-region", "bug", "C13", [(FIL, """            Ok((
                Arc::new(mmap),
                Region::new_from_size(Offset::zero(), region.size()),
            ))""", """            Ok((Arc::new(mmap), region))""")]),
    ("c13-file-cut-start", "bug", "C13", [(FIL, "            f.seek(SeekFrom::Start(region.begin().into_u64()))?;\n            f.by_ref()", "            f.seek(SeekFrom::Start(region.begin().into_u64() & !3))?;\n            f.by_ref()")]),
    ("c13-file-truncate", "bug", "C13", [(FIL, "        buf.truncate(region.size().into_usize());\n", "")]),
    ("c13-dec-get-slice", "bug", "C13", [(COM, "[region.begin().force_into_usize()..region.end().force_into_usize()],", "[region.begin().force_into_usize()..],")]),
    ("c13-dec-read-wait", "bug", "C13", [(COM, """        let mut slice = &self.decoded_slice()[offset.force_into_usize()..];
        Read::read(&mut slice, buf)""", """        let mut slice = &self.decoded_slice()[offset.force_into_usize() & !0xFFF..];
        Read::read(&mut slice, buf)""")]),
    ("c13-dec-cut", "bug", "C13", [(COM, "        if let BlockCheck::Crc32 = block_check {\n            unreachable!()\n        }\n        Ok((self, region))", "        if let BlockCheck::Crc32 = block_check {\n            unreachable!()\n        }\n        Ok((self, Region::new_from_size(Offset::zero(), region.size())))")]),
    ("c13-cut-rel", "bug", "C13", [(RNG, "        let end = begin + size;\n", "        let end = std::cmp::min(begin + size, self.begin() + Size::from(0xFFFF_FFFFu64));\n")]),
    ("c13-reader-stream", "bug", "C13", [(BRD, "Ok(ByteStream::new_from_parts(source, region, region.begin()))", "let _ = region;\n        let region = self.region.cut_rel(offset, size);\n        Ok(ByteStream::new_from_parts(source, region, region.begin()))")]),
    ("c13-aregion-size", "bug", "C13", [(RNG, "ASize::new(self.0.size().into_u64() as usize)", "ASize::new(self.0.size().into_u64() as u32 as usize)")]),
    ("ok-c13-stream-chunk", "ok", "C13", [(BST, """        let max_len = std::cmp::min(
            buf.len() as u64,
            (self.region.end() - self.offset).into_u64(),
        ) as usize;
        let buf = &mut buf[..max_len];""", """        let left = self.size_left();
        let buf = if (buf.len() as u64) > left {
            &mut buf[..left as usize]
        } else {
            buf
        };""")]),
    ("ok-c13-stream-q", "ok", "C13", [(BST, """        match self.source.read(self.offset, buf) {
            Ok(s) => {
                self.offset += s;
                Ok(s)
            }
            Err(e) => Err(std::io::Error::new(std::io::ErrorKind::Other, e)),
        }""", """        let s = self
            .source
            .read(self.offset, buf)
            .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
        self.offset += s;
        Ok(s)""")]),
    ("ok-c13-region-as-slice", "ok", "C13", [(BRG, """        let region = self.region.cut_rel(offset, size);
        ByteSlice {
            source: &self.source,
            region,
        }""", "        self.as_slice().cut(offset, size)"), (BRG, """    pub fn get_slice(&self, offset: Offset, size: usize) -> Result<Cow<[u8]>> {
        let region = self.region.cut_rel_asize(offset, ASize::new(size));
        self.source.get_slice(region, BlockCheck::None)
    }""", """    pub fn get_slice(&self, offset: Offset, size: usize) -> Result<Cow<[u8]>> {
        RandomParser::read_slice(self, offset, size)
    }""")]),
    ("ok-c13-buffer-get", "ok", "C13", [(BUF, """        let our_size = self.as_ref().len();
        if e > our_size {
            return Err(std::io::Error::new(
                std::io::ErrorKind::UnexpectedEof,
                format!("Out of slice. {e} ({o}) > {our_size}"),
            ));
        }
        buf.copy_from_slice(&self.as_ref()[o..e]);
        Ok(())""", """        match self.as_ref().get(o..e) {
            Some(s) => {
                buf.copy_from_slice(s);
                Ok(())
            }
            None => Err(std::io::Error::new(
                std::io::ErrorKind::UnexpectedEof,
                format!("Out of slice. {e} ({o}) > {}", self.as_ref().len()),
            )),
        }""")]),
    ("ok-c13-file-small", "ok", "C13", [(FIL, """            let mut buf = Vec::with_capacity(full_size.into_usize());
            f.seek(SeekFrom::Start(region.begin().into_u64()))?;
            f.by_ref()
                .take(full_size.into_u64())
                .read_to_end(&mut buf)?;""", """            let mut buf = vec![0; full_size.into_usize()];
            f.seek(SeekFrom::Start(region.begin().into_u64()))?;
            f.read_exact(&mut buf)?;""")]),
    ("ok-c13-file-limit", "ok", "C13", [(FIL, "if full_size.into_u64() < 4 * 1024 {", "if full_size.into_u64() < 64 * 1024 {")]),
    ("ok-c13-dec-read", "ok", "C13", [(COM, """        let slice = self.decoded_slice();
        assert!(end <= slice.len());
        buf.copy_from_slice(&self.decoded_slice()[o..end]);
        Ok(())""", """        let slice = self.decoded_slice();
        assert!(end <= slice.len());
        let asked = &slice[o..end];
        buf.copy_from_slice(asked);
        Ok(())""")]),
    ("ok-c13-aregion-new", "ok", "C13", [(RNG, """        let begin = self.begin() + offset;
        let end = begin + Size::from(size);
        debug_assert!(
            end <= self.end(),
            "end({end:?}) <= self.end({:?})",
            self.end()
        );
        ARegion::new(begin, end)""", """        let region = self.cut_rel(offset, Size::from(size));
        ARegion::new(region.begin(), region.end())""")]),
    ("ok-c13-cut-check", "ok", "C13", [(RNG, """        let begin = self.begin() + offset;
        let end = begin + size;
        debug_assert!(
            end <= self.end(),
            "end({end:?}) <= self.end({:?})",
            self.end()
        );
        Self::new(begin, end)""", """        let begin = self.begin() + offset;
        let end = begin + size;
        assert!(end <= self.end(), "cut out of the region");
        Self { begin, end }""")]),
]

PCM = "src/reader/directory_pack/property_compare.rs"
WVA = "src/creator/directory_pack/value.rs"
FB = '''                let cmp = comparator.compare_entry(self.offset() + mid)?;
'''
IFS = '''                if cmp == Ordering::Less {
                    left = mid + EntryCount::from(1);
                } else if cmp == Ordering::Greater {
                    right = mid;
                } else {
                    return Ok(Some(mid));
                }

                size = right - left;
'''
SCAN = '''            for idx in self.count() {
                let cmp = comparator.compare_entry(self.offset() + idx)?;
                if cmp.is_eq() {
                    return Ok(Some(idx));
                }
            }
            Ok(None)
'''
BIN0 = '''            let mut size = self.count();
            let mut left = EntryIdx::from(0);
            let mut right = left + size;
            while left < right {
                let mid = left + size / 2;
'''
WALL = '''            while !self
                .entries
                .windows(2)
                .all(|w| w[0].compare(&keys, &w[1]).is_le())
            {
                debug!(".");
                self.entries.par_sort_unstable_by(compare);
                set_entry_idx(&mut self.entries);
                watchdog -= 1;
                if watchdog == 0 {
                    panic!("Cannot sort entry store");
                }
            }
'''
ISS = '''            Some(keys) => self
                .entries
                .windows(2)
                .all(|w| w[0].compare(&keys, &w[1]).is_le()),
'''
ECMP = '''            match self_value.partial_cmp(&other_value) {
                None => return cmp::Ordering::Greater,
                Some(c) => match c {
                    cmp::Ordering::Less => return cmp::Ordering::Less,
                    cmp::Ordering::Greater => return cmp::Ordering::Greater,
                    cmp::Ordering::Equal => continue,
                },
            }
'''
ACMP = '''        for our_value in our_iter {
            let our_value = our_value?;
            let other_value = other_iter.next();
            match other_value {
                None => return Ok(cmp::Ordering::Greater),
                Some(other_value) => {
                    let cmp = our_value.cmp(other_value);
                    if cmp != cmp::Ordering::Equal {
                        return Ok(cmp);
                    };
                }
            }
        }
        Ok(match other_iter.next() {
            None => cmp::Ordering::Equal,
            Some(_) => cmp::Ordering::Less,
        })
'''
PCL = '''            if ordering.is_ne() {
                return Ok(ordering);
            }
'''
SORTS = '''        for entry_store in &mut self.entry_stores {
            entry_store.sort();
        }
        let mut watchdog = 50;
        while !self.entry_stores.iter().all(|e| e.is_sorted()) {
            for entry_store in &mut self.entry_stores {
                entry_store.sort();
            }
            watchdog -= 1;
            if watchdog == 0 {
                panic!("Cannot sort entry stores");
            }
        }
'''
CMPV = '''            cmp::Ordering::Equal => match self.value_id.get().cmp(&other.value_id.get()) {
                cmp::Ordering::Less => cmp::Ordering::Less,
                cmp::Ordering::Greater => cmp::Ordering::Greater,
                cmp::Ordering::Equal => self.size.cmp(&other.size),
            },
        }
    }
    fn cmp_array_s'''
CASES += [
    ("c03-find-left-mid", "bug", "C03", [(RRG, "                    left = mid + EntryCount::from(1);", "                    left = mid + EntryCount::from(if size.into_u32() > 1 { 0u32 } else { 1u32 });")]),
    ("c03-find-left-plus2", "bug", "C03", [(RRG, "                    left = mid + EntryCount::from(1);", "                    left = mid + EntryCount::from(if size.into_u32() > 6 { 2u32 } else { 1u32 });")]),
    ("c03-find-right-minus", "bug", "C03", [(RRG, "                    right = mid;", "                    right = if mid > left { EntryIdx::from(mid.into_u32() - 1) } else { mid };")]),
    ("c03-find-swap", "bug", "C03", [(RRG, "if cmp == Ordering::Less {", "if cmp == Ordering::Greater {"), (RRG, "} else if cmp == Ordering::Greater {", "} else if cmp == Ordering::Less {")]),
    ("c03-find-early", "bug", "C03", [(RRG, "            while left < right {", "            while left + EntryCount::from(1) < right {")]),
    ("c03-find-no-offset", "bug", "C03", [(RRG, FB, FB.replace("self.offset() + mid", "mid"))]),
    ("c03-find-absolute", "bug", "C03", [(RRG, "                    return Ok(Some(mid));", "                    return Ok(Some(self.offset() + mid));")]),
    ("c03-find-stale-size", "bug", "C03", [(RRG, "                size = right - left;\n", "                size = size / 2;\n")]),
    ("c03-scan-absolute", "bug", "C03", [(RRG, "                    return Ok(Some(idx));", "                    return Ok(Some(self.offset() + idx));")]),
    ("c03-scan-stops-greater", "bug", "C03", [(RRG, SCAN, SCAN.replace("                }\n            }\n", "                }\n                if cmp.is_gt() && idx > EntryIdx::from(16) {\n                    break;\n                }\n            }\n"))]),
    ("c03-scan-le", "bug", "C03", [(RRG, "                if cmp.is_eq() {", "                if cmp.is_eq() || cmp.is_gt() && idx + EntryCount::from(1) == EntryIdx::from(0) + self.count() {")]),
    ("c03-scan-no-offset", "bug", "C03", [(RRG, SCAN, SCAN.replace("self.offset() + idx", "idx"))]),
    ("c03-compare-all-first", "bug", "C03", [(PCM, PCL, "            if ordering.is_gt() {\n                return Ok(ordering);\n            }\n")]),
    ("c03-compare-reverse", "bug", "C03", [(PCM, "                return Ok(ordering);\n", "                return Ok(ordering.reverse());\n")]),
    ("c03-compare-skip1", "bug", "C03", [(PCM, "self.property_names.iter(), self.values.iter())", "self.property_names.iter(), self.values.iter().take(3))")]),
    ("c03-compare-ordered", "bug", "C03", [(PCM, "            ordered: false,", "            ordered: true,")]),
    ("c03-compare-offby", "bug", "C03", [(PCM, "            .create_entry(idx)?", "            .create_entry(idx + EntryCount::from(0u32.max(self.values.len() as u32 / 8)))?")]),
    ("c03-wcmp-signed-as-unsigned", "bug", "C03", [(WVA, "                Value::Signed(o) => Some(v.cmp(o)),", "                Value::Signed(o) => Some((*v as u64).cmp(&(*o as u64))),")]),
    ("c03-wcmp-swapped", "bug", "C03", [(WVA, "                Value::Unsigned(o) => Some(v.get().cmp(o)),", "                Value::Unsigned(o) => Some(o.cmp(&v.get())),")]),
    ("c03-wcmp-trunc", "bug", "C03", [(WVA, "                Value::SignedWord(o) => Some(v.get().cmp(&o.get())),\n                _ => None,\n            },\n            Value::Array(v)", "                Value::SignedWord(o) => Some((v.get() as i32).cmp(&(o.get() as i32))),\n                _ => None,\n            },\n            Value::Array(v)")]),
    ("c03-wcmp-size-first", "bug", "C03", [(WVA, CMPV, CMPV.replace("            cmp::Ordering::Equal => match self.value_id.get()", "            cmp::Ordering::Equal if self.size != other.size && self.size <= self.data.len() => self.size.cmp(&other.size).reverse(),\n            cmp::Ordering::Equal => match self.value_id.get()"))]),
    ("c03-wcmp-no-size", "bug", "C03", [(WVA, CMPV, CMPV.replace("self.size.cmp(&other.size)", "cmp::Ordering::Equal"))]),
    ("c03-wcmp-id-reversed", "bug", "C03", [(WVA, "                Value::IndirectArray(o) => Some(v.get().cmp(&o.get())),", "                Value::IndirectArray(o) => Some(o.get().cmp(&v.get())),")]),
    ("c03-ecmp-none-equal", "ok", "C03", [(WM, "                None => return cmp::Ordering::Greater,", "                None => return cmp::Ordering::Less,")]),
    ("c03-ecmp-first-only", "bug", "C03", [(WM, ECMP, "            match self_value.partial_cmp(&other_value) {\n                None => return cmp::Ordering::Greater,\n                Some(c) => return c,\n            }\n")]),
    ("c03-ecmp-swap", "bug", "C03", [(WM, "            match self_value.partial_cmp(&other_value) {", "            match other_value.partial_cmp(&self_value) {")]),
    ("c03-ecmp-box-swap", "bug", "C03", [(WM, "        T::compare(self, sort_keys, other)", "        T::compare(other, sort_keys, self)")]),
    ("c03-ecmp-less-continues", "bug", "C03", [(WM, "                    cmp::Ordering::Less => return cmp::Ordering::Less,\n", "                    cmp::Ordering::Less => continue,\n")]),
    ("c03-sort-reversed", "bug", "C03", [(CES, "let compare = |a: &Entry, b: &Entry| a.compare(&keys, b);", "let compare = |a: &Entry, b: &Entry| b.compare(&keys, a);")]),
    ("c03-sort-none", "bug", "C03", [(CES, "            self.entries.par_sort_unstable_by(compare);\n            set_entry_idx(&mut self.entries);\n            let mut watchdog = 50;\n" + WALL, "            if self.entries.len() > 4096 {\n                self.entries.par_sort_unstable_by(compare);\n            }\n            set_entry_idx(&mut self.entries);\n"), (CES, ISS, "            Some(_) => true,\n")]),
    ("c03-sorted-ge", "bug", "C03", [(CES, ISS, ISS.replace("is_le", "is_ge"))]),
    ("c03-sorted-lt", "ok", "C03", [(CES, ISS, ISS.replace("Some(keys) => self\n", "Some(keys) => self.entries.len() < 2 || self\n"))]),
    ("c03-sorted-skip", "bug", "C03", [(CES, ISS, ISS.replace("                .windows(2)\n", "                .windows(2)\n                .skip(1)\n"))]),
    ("c03-sorted-true", "bug", "C03", [(CES, ISS, "            Some(_) => self.entries.len() > 1 || self.entries.is_empty() || true,\n")]),
    ("c03-sorted-any", "bug", "C03", [(CES, ISS, ISS.replace(".all(", ".any("))]),
    ("c03-pack-no-recheck", "bug", "C03", [(DC, SORTS, SORTS[:SORTS.index("        let mut watchdog")])]),
    ("c03-pack-any", "bug", "C03", [(DC, "while !self.entry_stores.iter().all(|e| e.is_sorted())", "while !self.entry_stores.iter().any(|e| e.is_sorted())")]),
    ("c03-pack-first", "bug", "C03", [(DC, "while !self.entry_stores.iter().all(|e| e.is_sorted())", "while !self.entry_stores.iter().take(1).all(|e| e.is_sorted())")]),
    ("c03-pack-sort-before-values", "bug", "C03", [(DC, "        for (idx, value_store) in &mut self.value_stores.iter().enumerate() {\n            value_store.finalize(ValueStoreIdx::from(idx as u8));\n        }\n", ""), (DC, SORTS, SORTS + "        for (idx, value_store) in &mut self.value_stores.iter().enumerate() {\n            value_store.finalize(ValueStoreIdx::from(idx as u8));\n        }\n")]),
    ("c03-raw-unsigned", "bug", "C03", [(RRV, "RawValue::I16(r) => Some((*r as i64).cmp(v)),", "RawValue::I16(r) => Some((*r as u16 as i64).cmp(v)),")]),
    ("c03-raw-narrow", "bug", "C03", [(RRV, "                RawValue::U32(r) => Some((*r as u64).cmp(v)),", "                RawValue::U32(r) => Some(r.cmp(&(*v as u32))),")]),
    ("c03-raw-none", "bug", "C03", [(RRV, "                RawValue::I64(r) => Some((*r).cmp(v)),\n", "")]),
    ("c03-array-longer", "bug", "C03", [(RRV, "None => return Ok(cmp::Ordering::Greater),", "None => return Ok(cmp::Ordering::Less),")]),
    ("c03-array-prefix-equal", "bug", "C03", [(RRV, "            Some(_) => cmp::Ordering::Less,\n", "            Some(_) if self.size.is_none() => cmp::Ordering::Equal,\n            Some(_) => cmp::Ordering::Less,\n")]),
    ("c03-array-signed", "bug", "C03", [(RRV, "let cmp = our_value.cmp(other_value);", "let cmp = (our_value as i8).cmp(&(*other_value as i8));")]),
    ("c03-array-case", "bug", "C03", [(RRV, "let cmp = our_value.cmp(other_value);", "let cmp = our_value.to_ascii_lowercase().cmp(&other_value.to_ascii_lowercase());")]),
    ("c03-iter-no-reset", "bug", "C03", [(RRV, "                        }\n                    };\n                    self.idx = 0;\n", "                        }\n                    };\n                    self.idx = if matches!(self.mode, ArrayIterMode::End) { self.idx } else { 1 };\n")]),
    ("c03-iter-base0-end", "bug", "C03", [(RRV, "        } else {\n            Self::setup_extend(array)?\n        };", "        } else if array.size.is_none() {\n            ArrayIterMode::End\n        } else {\n            Self::setup_extend(array)?\n        };")]),
    ("c03-iter-known", "bug", "C03", [(RRV, "if let Some(0) = known_size {", "if let Some(0 | 1) = known_size {")]),
    ("c03-iter-size", "bug", "C03", [(RRV, ".get_data(extend.value_id, known_size.map(ASize::new))?", ".get_data(extend.value_id, array.size)?")]),
    ("c03-iter-unsized", "bug", "C03", [(RRV, ".get_data(extend.value_id, known_size.map(ASize::new))?", ".get_data(extend.value_id, None)?")]),
    ("c03-iter-eof", "bug", "C03", [(RRV, "                if self.idx == *len {\n                    self.mode = ArrayIterMode::End;", "                if self.idx + 1 == *len {\n                    self.mode = ArrayIterMode::End;")]),
    # the same behaviour, otherwise written
    ("ok-c03-find-match", "ok", "C03", [(RRG, IFS, '''                match cmp {
                    Ordering::Less => left = mid + EntryCount::from(1),
                    Ordering::Greater => right = mid,
                    Ordering::Equal => return Ok(Some(mid)),
                }
                size = right - left;
''')]),
    ("ok-c03-find-nosize", "ok", "C03", [(RRG, BIN0, '''            let mut left = EntryIdx::from(0);
            let mut right = left + self.count();
            while left < right {
                let mid = left + (right - left) / 2;
'''), (RRG, "\n                size = right - left;\n", "")]),
    ("ok-c03-find-noright", "ok", "C03", [(RRG, BIN0, '''            let mut size = self.count();
            let mut left = EntryIdx::from(0);
            while size.into_u32() > 0 {
                let mid = left + size / 2;
'''), (RRG, IFS, '''                match cmp {
                    Ordering::Less => {
                        size = EntryCount::from(size.into_u32() - size.into_u32() / 2 - 1);
                        left = mid + EntryCount::from(1);
                    }
                    Ordering::Greater => size = size / 2,
                    Ordering::Equal => return Ok(Some(mid)),
                }
''')]),
    ("ok-c03-find-helper", "ok", "C03", [(RRG, "    fn find<Comparator: CompareTrait>(&self, comparator: &Comparator) -> Result<Option<EntryIdx>> {", '''    fn probe<Comparator: CompareTrait>(
        &self,
        comparator: &Comparator,
        idx: EntryIdx,
    ) -> Result<Ordering> {
        comparator.compare_entry(self.offset() + idx)
    }

    fn find<Comparator: CompareTrait>(&self, comparator: &Comparator) -> Result<Option<EntryIdx>> {'''), (RRG, FB, "                let cmp = self.probe(comparator, mid)?;\n"), (RRG, SCAN, SCAN.replace("comparator.compare_entry(self.offset() + idx)", "self.probe(comparator, idx)"))]),
    ("ok-c03-find-loop", "ok", "C03", [(RRG, "            while left < right {\n", "            loop {\n                if left >= right {\n                    break;\n                }\n")]),
    ("ok-c03-find-upper-mid", "ok", "C03", [(RRG, "let mid = left + size / 2;", "let mid = left + EntryCount::from((size.into_u32() - 1) / 2);")]),
    ("ok-c03-scan-while", "ok", "C03", [(RRG, SCAN, '''            let mut idx = EntryIdx::from(0);
            let end = idx + self.count();
            while idx < end {
                if comparator.compare_entry(self.offset() + idx)? == Ordering::Equal {
                    return Ok(Some(idx));
                }
                idx = idx + EntryCount::from(1);
            }
            Ok(None)
''')]),
    ("ok-c03-scan-ne", "ok", "C03", [(RRG, SCAN, SCAN.replace('''                if cmp.is_eq() {
                    return Ok(Some(idx));
                }
''', '''                if cmp.is_ne() {
                    continue;
                }
                return Ok(Some(idx));
'''))]),
    ("ok-c03-find-split", "ok", "C03", [(RRG, "        if comparator.ordered() {\n            // INV", "        let ordered = comparator.ordered();\n        if !ordered {\n            return self.scan(comparator);\n        }\n        if ordered {\n            // INV"), (RRG, "    fn find<Comparator: CompareTrait>(", "    fn scan<Comparator: CompareTrait>(&self, comparator: &Comparator) -> Result<Option<EntryIdx>> {\n" + SCAN + "    }\n\n    fn find<Comparator: CompareTrait>("),
                                   (RRG, "        } else {\n" + SCAN + "        }\n    }\n}\n\nimpl RangeTrait", "        } else {\n            Ok(None)\n        }\n    }\n}\n\nimpl RangeTrait")]),
    ("ok-c03-compare-match", "ok", "C03", [(PCM, PCL, "            match ordering {\n                Ordering::Equal => {}\n                o => return Ok(o),\n            }\n")]),
    ("ok-c03-compare-index", "ok", "C03", [(PCM, "for (name, value) in std::iter::zip(self.property_names.iter(), self.values.iter()) {", "for i in 0..self.property_names.len() {\n            let (name, value) = (&self.property_names[i], &self.values[i]);")]),
    ("ok-c03-compare-zip", "ok", "C03", [(PCM, "std::iter::zip(self.property_names.iter(), self.values.iter())", "self.property_names.iter().zip(self.values.iter())")]),
    ("ok-c03-wcmp-then", "ok", "C03", [(WVA, CMPV, CMPV.replace('''            cmp::Ordering::Equal => match self.value_id.get().cmp(&other.value_id.get()) {
                cmp::Ordering::Less => cmp::Ordering::Less,
                cmp::Ordering::Greater => cmp::Ordering::Greater,
                cmp::Ordering::Equal => self.size.cmp(&other.size),
            },
''', '''            cmp::Ordering::Equal => self
                .value_id
                .get()
                .cmp(&other.value_id.get())
                .then_with(|| self.size.cmp(&other.size)),
'''))]),
    ("ok-c03-wcmp-partial", "ok", "C03", [(WVA, "                Value::Unsigned(o) => Some(v.cmp(o)),", "                Value::Unsigned(o) => v.partial_cmp(o),")]),
    ("ok-c03-wcmp-if", "ok", "C03", [(WVA, "                Value::Signed(o) => Some(v.cmp(o)),", "                Value::Signed(o) => Some(if v < o {\n                    cmp::Ordering::Less\n                } else if v > o {\n                    cmp::Ordering::Greater\n                } else {\n                    cmp::Ordering::Equal\n                }),")]),
    ("ok-c03-ecmp-ne", "ok", "C03", [(WM, ECMP, '''            let c = match self_value.partial_cmp(&other_value) {
                None => return cmp::Ordering::Greater,
                Some(c) => c,
            };
            if c.is_ne() {
                return c;
            }
''')]),
    ("ok-c03-ecmp-swap-reverse", "ok", "C03", [(WM, ECMP, '''            match other_value.partial_cmp(&self_value) {
                None => return cmp::Ordering::Greater,
                Some(cmp::Ordering::Equal) => {}
                Some(c) => return c.reverse(),
            }
''')]),
    ("ok-c03-sort-by", "ok", "C03", [(CES, "            self.entries.par_sort_unstable_by(compare);\n            set_entry_idx(&mut self.entries);\n            let mut watchdog", "            self.entries.par_sort_by(|a, b| b.compare(&keys, a).reverse());\n            set_entry_idx(&mut self.entries);\n            let mut watchdog")]),
    ("ok-c03-sort-helper", "ok", "C03", [(CES, ISS, "            Some(keys) => entries_sorted(&self.entries, keys),\n"), (CES, "#[inline]\nfn set_entry_idx", '''fn entries_sorted<PN, VN, Entry>(entries: &[Entry], keys: &Vec<PN>) -> bool
where
    PN: PropertyName,
    VN: VariantName,
    Entry: FullEntryTrait<PN, VN> + Send,
{
    entries.windows(2).all(|w| w[0].compare(&keys, &w[1]).is_le())
}

#[inline]
fn set_entry_idx''')]),
    ("ok-c03-sorted-gt", "ok", "C03", [(CES, ISS, "            Some(keys) => !self\n                .entries\n                .windows(2)\n                .any(|w| w[0].compare(&keys, &w[1]).is_gt()),\n")]),
    ("ok-c03-sorted-loop", "ok", "C03", [(CES, ISS, "            Some(keys) => {\n                for i in 1..self.entries.len() {\n                    if self.entries[i - 1].compare(&keys, &self.entries[i]).is_gt() {\n                        return false;\n                    }\n                }\n                true\n            }\n")]),
    ("ok-c03-sorted-zip", "ok", "C03", [(CES, ISS, "            Some(keys) => self\n                .entries\n                .iter()\n                .zip(self.entries.iter().skip(1))\n                .all(|(a, b)| a.compare(&keys, b).is_le()),\n")]),
    ("ok-c03-pack-loop", "ok", "C03", [(DC, SORTS, '''        let mut watchdog = 50;
        loop {
            self.entry_stores.iter_mut().for_each(|s| s.sort());
            if self.entry_stores.iter().all(|e| e.is_sorted()) {
                break;
            }
            watchdog -= 1;
            if watchdog == 0 {
                panic!("Cannot sort entry stores");
            }
        }
''')]),
    ("ok-c03-raw-from", "ok", "C03", [(RRV, "RawValue::U8(r) => Some((*r as u64).cmp(v)),", "RawValue::U8(r) => Some(u64::from(*r).cmp(v)),"), (RRV, "RawValue::I64(r) => Some((*r).cmp(v)),", "RawValue::I64(r) => r.partial_cmp(v),")]),
    ("ok-c03-raw-as", "ok", "C03", [(RRV, '''            Value::Unsigned(v) => Ok(match self {
                RawValue::U8(r) => Some((*r as u64).cmp(v)),
                RawValue::U16(r) => Some((*r as u64).cmp(v)),
                RawValue::U32(r) => Some((*r as u64).cmp(v)),
                RawValue::U64(r) => Some((*r).cmp(v)),
                _ => None,
            }),
''', '''            Value::Unsigned(v) => Ok(match self {
                RawValue::U8(_) | RawValue::U16(_) | RawValue::U32(_) | RawValue::U64(_) => {
                    Some(self.as_unsigned().cmp(v))
                }
                _ => None,
            }),
''')]),
    ("ok-c03-array-vec", "ok", "C03", [(RRV, "        let mut other_iter = other.iter();\n" + ACMP, "        let mut vec: Vec<u8> = Vec::new();\n        for value in our_iter {\n            vec.push(value?);\n        }\n        Ok(vec.as_slice().cmp(other))\n")]),
    ("ok-c03-array-index", "ok", "C03", [(RRV, "        let mut other_iter = other.iter();\n" + ACMP, '''        let mut at = 0;
        for our_value in our_iter {
            let our_value = our_value?;
            if at == other.len() {
                return Ok(cmp::Ordering::Greater);
            }
            if our_value != other[at] {
                return Ok(our_value.cmp(&other[at]));
            }
            at += 1;
        }
        Ok(if at == other.len() {
            cmp::Ordering::Equal
        } else {
            cmp::Ordering::Less
        })
''')]),
    ("ok-c03-array-let-else", "ok", "C03", [(RRV, ACMP, '''        for our_value in our_iter {
            let our_value = our_value?;
            let Some(other_value) = other_iter.next() else {
                return Ok(cmp::Ordering::Greater);
            };
            match our_value.cmp(other_value) {
                cmp::Ordering::Equal => continue,
                o => return Ok(o),
            }
        }
        if other_iter.next().is_some() {
            return Ok(cmp::Ordering::Less);
        }
        Ok(cmp::Ordering::Equal)
''')]),
    ("ok-c03-iter-match", "ok", "C03", [(RRV, "if let Some(0) = known_size {\n            Ok(ArrayIterMode::End)\n        } else {\n            match &array.extend {", "if known_size == Some(0) {\n            return Ok(ArrayIterMode::End);\n        }\n        {\n            match &array.extend {")]),
    # the order of the values of a store
    ("c03-rank-none", "bug", "C03", [(WV, "        self.0\n            .sorted_indirect\n            .par_sort_by_key(|e| &self.0.data[*e].0);\n", "")]),
    ("c03-rank-reverse", "bug", "C03", [(WV, ".par_sort_by_key(|e| &self.0.data[*e].0);", ".par_sort_by_key(|e| std::cmp::Reverse(&self.0.data[*e].0));")]),
    ("c03-rank-length", "bug", "C03", [(WV, ".par_sort_unstable_by_key(|e| &self.0.data[*e].0);", ".par_sort_unstable_by_key(|e| (self.0.data[*e].0.len(), &self.0.data[*e].0));")]),
    ("c03-rank-cut", "bug", "C03", [(WV, ".par_sort_unstable_by_key(|e| &self.0.data[*e].0);", ".par_sort_by_key(|e| &self.0.data[*e].0[..self.0.data[*e].0.len().min(64)]);")]),
    ("c03-rank-then-reverse", "bug", "C03", [(WV, ".par_sort_by_key(|e| &self.0.data[*e].0);", ".par_sort_by_key(|e| &self.0.data[*e].0);\n        self.0.sorted_indirect.reverse();")]),
    ("c03-rank-swap", "bug", "C03", [(WV, ".par_sort_by_key(|e| &self.0.data[*e].0);", ".par_sort_by(|a, b| self.0.data[*b].0.cmp(&self.0.data[*a].0));")]),
    ("c03-rank-part", "bug", "C03", [(WV, "        self.0\n            .sorted_indirect\n            .par_sort_by_key(|e| &self.0.data[*e].0);\n", "        let n = self.0.sorted_indirect.len().min(1 << 20);\n        self.0.sorted_indirect[..n].par_sort_by_key(|e| &self.0.data[*e].0);\n")]),
    ("c03-rank-if", "bug", "C03", [(WV, "        self.0\n            .sorted_indirect\n            .par_sort_by_key(|e| &self.0.data[*e].0);\n", "        if self.0.sorted_indirect.len() < 1 << 20 {\n            self.0.sorted_indirect.par_sort_by_key(|e| &self.0.data[*e].0);\n        }\n")]),
    ("ok-c03-rank-by", "ok", "C03", [(WV, ".par_sort_by_key(|e| &self.0.data[*e].0);", ".par_sort_by(|a, b| self.0.data[*a].0.cmp(&self.0.data[*b].0));")]),
    ("ok-c03-rank-seq", "ok", "C03", [(WV, ".par_sort_by_key(|e| &self.0.data[*e].0);", ".sort_by(|a, b| {\n                let (a, b) = (&self.0.data[*a].0, &self.0.data[*b].0);\n                a.as_ref().cmp(b.as_ref())\n            });")]),
    ("ok-c03-rank-key-slice", "ok", "C03", [(WV, ".par_sort_unstable_by_key(|e| &self.0.data[*e].0);", ".sort_unstable_by_key(|e| &self.0.data[*e].0[..]);")]),
    ("ok-c03-rank-reverse-twice", "ok", "C03", [(WV, ".par_sort_by_key(|e| &self.0.data[*e].0);", ".par_sort_by(|a, b| self.0.data[*b].0.cmp(&self.0.data[*a].0).reverse());")]),
    ("c02-array-len-rest", "bug", "C02", [(SP, "                max_array_size.process(array_size);", "                max_array_size.process(array_size - array_size.min(3));")]),
    ("ok-c02-array-len-max", "ok", "C02", [(SP, "                fixed_array_len: _,\n                store_handle: _,\n                name,\n            } => {", "                fixed_array_len,\n                store_handle: _,\n                name,\n            } => {"), (SP, "                max_array_size.process(array_size);", "                max_array_size.process(array_size.max(*fixed_array_len));")]),
    # ---- C01
    ("c01-is-full-4097", "bug", "C01", [("src/creator/content_pack/cluster.rs", "const MAX_BLOBS_PER_CLUSTER: usize = 0xFFF;", "const MAX_BLOBS_PER_CLUSTER: usize = 0x1001;")]),
    ("ok-c01-is-full-4096", "ok", "C01", [("src/creator/content_pack/cluster.rs", "const MAX_BLOBS_PER_CLUSTER: usize = 0xFFF;", "const MAX_BLOBS_PER_CLUSTER: usize = 0x1000;")]),
    ("c01-offset-of-next", "bug", "C01", [("src/creator/content_pack/cluster.rs", "let idx = self.offsets.len() as u16;", "let idx = self.offsets.len() as u8 as u16;")]),
    ("c01-content-id-early", "bug", "C01", [(CR, "let content_id = ((self.content_infos.len() - 1) as u32).into();", "let content_id = ((self.content_infos.len() - 1) as u16 as u32).into();")]),
    ("c01-count-off", "bug", "C01", [(CTP, "        if !index.is_valid(*self.header.content_count) {\n            return Ok(None);", "        if index.into_u32() > self.header.content_count.into_u32() {\n            return Ok(None);")]),
    ("c01-blob-end", "bug", "C01", [(CL, "let end_offset = self.blob_offsets[index.into_usize() + 1];", "let end_offset = self.blob_offsets.get(index.into_usize() + 1).copied().unwrap_or(offset);")]),
    ("c01-blob-size", "bug", "C01", [(CL, "let size = end_offset - offset;", "let size: Size = if offset == Offset::zero() { end_offset - offset } else { (end_offset - offset).into_u64().min(0xFFFF_FFFF).into() };")]),
    ("c01-cache-key", "bug", "C01", [(CTP, "cache.try_get_or_insert(cluster_index, || self._get_cluster(cluster_index))?;", "cache.try_get_or_insert((cluster_index.into_u32() & 0xFFFF).into(), || self._get_cluster(cluster_index))?;")]),
    ("c01-input-read-past", "bug", "C01", [(CMOD, "let actually_read = self.source.read(&mut buf[..size_to_read])?;", "let actually_read = self.source.read(buf)?;\n        let _ = size_to_read;")]),
    ("c01-input-seek-end", "bug", "C01", [(CMOD, "SeekFrom::End(e) => SeekFrom::Start((self.origin as i64 + self.len as i64 + e) as u64),", "SeekFrom::End(e) => SeekFrom::End(e),")]),
    ("c01-input-seek-start", "bug", "C01", [(CMOD, "SeekFrom::Start(o) => SeekFrom::Start(self.origin + o),", "SeekFrom::Start(o) => SeekFrom::Start(self.origin.max(o)),")]),
    ("c01-input-no-take", "bug", "C01", [(CMOD, "MaybeFileReader::Yes(self.source.take(self.len))", "MaybeFileReader::Yes(self.source.take(u64::MAX))")]),
    ("c01-input-no-rewind", "bug", "C01", [(CMOD, "        self.rewind().unwrap();\n        MaybeFileReader::Yes", "        MaybeFileReader::Yes")]),
    ("c01-input-position", "bug", "C01", [(CMOD, "        self.position += actually_read as u64;\n", "        self.position += size_to_read as u64;\n")]),
    ("c01-input-len", "bug", "C01", [(CMOD, "Some(s) => s,", "Some(s) => s.min(u32::MAX as u64),")]),
    ("c01-width", "bug", "C01", [(CW, "    let offset_size = needed_bytes(std::cmp::max(\n        raw_data_size.into_u64(),\n        cluster.data_size().into_u64(),\n    ));", "    let offset_size = needed_bytes(cluster.data_size().into_u64());")]),
    ("c01-no-rewind", "bug", "C01", [(CR, "        content.rewind()?;\n", "")]),
    ("c01-detect-no-seek", "bug", "C01", [(CR, "                content.seek(SeekFrom::Start(0))?;\n", ""), (CR, "        content.rewind()?;\n", "")]),
    ("c01-lz4-skips", "bug", "C01", [(CW, "        .build(stream)?;\n    for mut in_reader in data.drain(..) {", "        .build(stream)?;\n    for mut in_reader in data.drain(..).take(4094) {")]),
    ("c01-lzma-rev", "bug", "C01", [(CW, "(level)?)?,\n    );\n    for mut in_reader in data.drain(..) {", "(level)?)?,\n    );\n    for mut in_reader in data.drain(..).rev() {")]),
    ("c01-decoder-swap", "bug", "C01", [(CW, "    encoder.window_log(23)?;\n", "    encoder.window_log(28)?;\n")]),
    ("c01-first-offset", "bug", "C01", [(CL, "                first = false;\n", "")]),
    ("c01-lzma-memory", "bug", "C01", [(CL, "128 * 1024 * 1024", "32 * 1024 * 1024")]),
    ("c01-data-size-raw", "bug", "C01", [(CL, "        blob_offsets.push(data_size.into());", "        blob_offsets.push(raw_data_size.into());")]),
    ("c01-cluster-cut", "bug", "C01", [(CL, "let reader = reader.cut(header_offset - raw_data_size, raw_data_size, false)?;", "let reader = reader.cut(header_offset - cluster_builder.data_size, raw_data_size, false)?;")]),
    ("c01-stream-none", "bug", "C01", [(CL, "r.create_stream(Offset::zero(), r.size(), false)?", "r.create_stream(Offset::zero(), self.data_size, false)?")]),
    ("ok-c01-blob-iter", "ok", "C01", [(CL, "        let offset = self.blob_offsets[index.into_usize()];\n        let end_offset = self.blob_offsets[index.into_usize() + 1];\n", "        let at = index.into_usize();\n        let end_offset = self.blob_offsets[1 + at];\n        let offset = self.blob_offsets[at];\n")]),
    ("ok-c01-valid", "ok", "C01", [(CTP, "        if !index.is_valid(*self.header.content_count) {\n            return Ok(None);", "        if index.into_u32() >= self.header.content_count.into_u32() {\n            return Ok(None);")]),
    ("ok-c01-input-read", "ok", "C01", [(CMOD, "        let size_to_read = std::cmp::min(\n            buf.len(),\n            (self.len - self.local_position()).try_into().unwrap(),\n        );\n        let actually_read = self.source.read(&mut buf[..size_to_read])?;\n", "        let left = self.len - self.local_position();\n        let wanted = (buf.len() as u64).min(left) as usize;\n        let window = &mut buf[..wanted];\n        let actually_read = self.source.read(window)?;\n")]),
    ("ok-c01-offsets", "ok", "C01", [("src/creator/content_pack/cluster.rs", "let new_offset = self.offsets.last().unwrap_or(&0) + content_size.into_u64();", "let new_offset = self.data_size().into_u64() + content_size.into_u64();")]),
    ("ok-c01-rewind-earlier", "ok", "C01", [(CR, "        content.rewind()?;\n        let cluster = self", "        content.seek(SeekFrom::Start(0))?;\n        let cluster = self")]),
    ("ok-c01-id-first", "ok", "C01", [(CR, "        self.content_infos.push(content_info);\n        let content_id = ((self.content_infos.len() - 1) as u32).into();\n", "        let content_id = (self.content_infos.len() as u32).into();\n        self.content_infos.push(content_info);\n")]),
    ("ok-c01-width", "ok", "C01", [(CW, "    let offset_size = needed_bytes(std::cmp::max(\n        raw_data_size.into_u64(),\n        cluster.data_size().into_u64(),\n    ));", "    let biggest = raw_data_size.into_u64().max(cluster.data_size().into_u64());\n    let offset_size = needed_bytes(biggest);")]),
    ("ok-c01-drain", "ok", "C01", [(CW, "        .build(stream)?;\n    for mut in_reader in data.drain(..) {\n        std::io::copy(&mut in_reader, &mut encoder)?;\n    }", "        .build(stream)?;\n    let mut readers = data.drain(..);\n    while let Some(mut in_reader) = readers.next() {\n        std::io::copy(&mut in_reader, &mut encoder)?;\n    }\n    drop(readers);")]),
    # ---- C07
    ("c07-publish-asked", "bug", "C07", [(COM, "                uncompressed += read;\n", "                uncompressed += size.max(read);\n")]),
    ("c07-publish-total", "bug", "C07", [(COM, "                decoded.size = uncompressed;\n", "                decoded.size = (uncompressed + chunk_size).min(total_size);\n")]),
    ("c07-publish-before", "bug", "C07", [(COM, "        let read = decoder\n            .by_ref()", "        buffer.decoded.0.lock().unwrap().size = uncompressed + size;\n        let read = decoder\n            .by_ref()")]),
    ("c07-notify-one", "bug", "C07", [(COM, "                decoded.size = uncompressed;\n                cvar.notify_all();", "                decoded.size = uncompressed;\n                cvar.notify_one();")]),
    ("c07-notify-at-end", "bug", "C07", [(COM, "                decoded.size = uncompressed;\n                cvar.notify_all();", "                decoded.size = uncompressed;\n                if uncompressed == total_size {\n                    cvar.notify_all();\n                }")]),
    ("c07-no-take", "bug", "C07", [(COM, "            .by_ref()\n            .take(size as u64)\n            .read_to_end(&mut buffer.data);", "            .by_ref()\n            .take(chunk_size as u64)\n            .read_to_end(&mut buffer.data);\n        let _ = size;")]),
    ("c07-capacity", "bug", "C07", [(COM, "let buffer = Arc::new(Vec::with_capacity(size));", "let buffer = Arc::new(Vec::with_capacity(size.min(1 << 22)));")]),
    ("c07-slice-total", "bug", "C07", [(COM, "        let size = self.current_size();\n", "        let size = self.total_size();\n")]),
    ("c07-wait-le", "bug", "C07", [(COM, "if self.buffer.wait_while(|d: &mut usize| *d < end) < end {", "if self.buffer.wait_while(|d: &mut usize| *d <= end) < end {")]),
    ("c07-wait-begin", "bug", "C07", [(COM, "        self.decode_to(region.end().force_into_usize())?;", "        self.decode_to(region.begin().force_into_usize())?;")]),
    ("c07-read-no-min", "bug", "C07", [(COM, "        let end = std::cmp::min(\n            offset.force_into_usize() + buf.len(),\n            self.buffer.total_size(),\n        );", "        let end = offset.force_into_usize() + buf.len();")]),
    ("c07-exact-wait-len", "bug", "C07", [(COM, "        self.decode_to(end)?;\n        let slice = self.decoded_slice();\n        assert", "        self.decode_to(buf.len())?;\n        let slice = self.decoded_slice();\n        assert")]),
    ("c07-failed-forgotten", "bug", "C07", [(COM, "function(&mut progress.size) && !progress.failed", "function(&mut progress.size)")]),
    ("c07-vec-dropped", "bug", "C07", [(COM, "    data: ManuallyDrop<Vec<u8>>,", "    data: Vec<u8>,"), (COM, "        data: ManuallyDrop::new(unsafe { Vec::from_raw_parts(buffer_ptr as *mut u8, 0, size) }),", "        data: unsafe { Vec::from_raw_parts(buffer_ptr as *mut u8, 0, size) },")]),
    ("c07-arc-not-kept", "bug", "C07", [(COM, "        _arc: Arc::clone(&buffer),\n        buffer: buffer_ptr,", "        _arc: Arc::new(vec![]),\n        buffer: buffer_ptr,"), ]),
    ("c07-two-progress", "bug", "C07", [(COM, "        total_size: size,\n        decoded: Arc::clone(&decoded),", "        total_size: size,\n        decoded: Arc::new((Mutex::new(Progress { size, failed: false }), Condvar::new())),")]),
    ("c07-switch-no-recheck", "bug", "C07", [(CL, "        let mut cluster_reader = self.reader.write().unwrap();\n        if let ClusterReader::Plain(_) = *cluster_reader {\n            return Ok(());\n        };\n", "        if let ClusterReader::Plain(_) = *self.reader.read().unwrap() {\n            return Ok(());\n        };\n        let mut cluster_reader = self.reader.write().unwrap();\n")]),
    ("c07-read-lock-kept", "bug", "C07", [(CL, "        let mut cluster_reader = self.reader.write().unwrap();\n        if let ClusterReader::Plain(_) = *cluster_reader {\n            return Ok(());\n        };\n", "        let now = self.reader.read().unwrap();\n        if let ClusterReader::Plain(_) = *now {\n            return Ok(());\n        };\n        let mut cluster_reader = self.reader.write().unwrap();\n        drop(now);\n")]),
    ("c07-seek-unlocked", "bug", "C07", [(FIL, "        let mut f = self.lock().unwrap();\n        // TODO: Use `read_at`/`seek_read`\n        f.seek(SeekFrom::Start(offset.into_u64()))?;\n        f.read(buf)", "        self.lock()\n            .unwrap()\n            .seek(SeekFrom::Start(offset.into_u64()))?;\n        self.lock().unwrap().read(buf)")]),
    ("c07-decoder-waits-file", "bug", "C07", [(COM, "        let read = decoder\n            .by_ref()", "        let (lock, cvar) = &*buffer.decoded;\n        drop(cvar.wait_while(lock.lock().unwrap(), |p| p.size < uncompressed));\n        let read = decoder\n            .by_ref()")]),
    ("c07-cache-other", "bug", "C07", [("src/bases/cache.rs", "            let _ = cache_slot.set(new_value);\n", "            let _ = self.values[0].set(Arc::clone(&new_value));\n            let _ = cache_slot.set(new_value);\n")]),
    ("c07-cluster-key", "bug", "C07", [(CTP, "cache.try_get_or_insert(cluster_index, || self._get_cluster(cluster_index))?;", "cache.try_get_or_insert((cluster_index.into_u32() % 64).into(), || self._get_cluster(cluster_index))?;")]),
    ("ok-c07-notify-after", "ok", "C07", [(COM, "                decoded.size = uncompressed;\n                cvar.notify_all();", "                decoded.size = uncompressed;\n                drop(decoded);\n                cvar.notify_all();")]),
    ("ok-c07-pool", "ok", "C07", [(COM, ".num_threads(8)", ".num_threads(4)"), (COM, "decode_to_end(decoder, write_hand, 4 * 1024);", "decode_to_end(decoder, write_hand, 64 * 1024);")]),
    ("ok-c07-slice-once", "ok", "C07", [(COM, "buf.copy_from_slice(&self.decoded_slice()[o..end]);", "buf.copy_from_slice(&slice[o..end]);")]),
    ("ok-c07-size", "ok", "C07", [(COM, "        let size = std::cmp::min(total_size - uncompressed, chunk_size);\n", "        let left = total_size - uncompressed;\n        let size = if left < chunk_size { left } else { chunk_size };\n")]),
    ("ok-c07-wait-loop", "ok", "C07", [(COM, "        let decoded = cvar\n            .wait_while(lock.lock().unwrap(), |progress| {\n                function(&mut progress.size) && !progress.failed\n            })\n            .unwrap();\n", "        let mut decoded = lock.lock().unwrap();\n        while function(&mut decoded.size) && !decoded.failed {\n            decoded = cvar.wait(decoded).unwrap();\n        }\n")]),
    ("ok-c07-switch-both", "ok", "C07", [(CL, "        let mut cluster_reader = self.reader.write().unwrap();\n        if let", "        if matches!(*self.reader.read().unwrap(), ClusterReader::Plain(_)) {\n            return Ok(());\n        }\n        let mut cluster_reader = self.reader.write().unwrap();\n        if let")]),
    ("ok-c07-cache-drop-lock", "ok", "C07", [(CTP, "        let cached = cache.try_get_or_insert(cluster_index, || self._get_cluster(cluster_index))?;\n        Ok(cached.clone())", "        if let Some(cluster) = cache.get(&cluster_index) {\n            return Ok(Arc::clone(cluster));\n        }\n        drop(cache);\n        let cluster = self._get_cluster(cluster_index)?;\n        self.cluster_cache\n            .lock()\n            .unwrap()\n            .put(cluster_index, Arc::clone(&cluster));\n        Ok(cluster)"), (CTP, "        let mut cache = self.cluster_cache.lock().unwrap();", "        let mut cache = self.cluster_cache.lock().unwrap();")]),
    # ---- C06
    ("c06-cut-unchecked", "bug", "C06", [(BRD, "        if available.map_or(true, |available| size.into_u64() > available) {", "        if available.is_none() {")]),
    ("c06-cut-no-crc", "bug", "C06", [(BRD, "            .checked_sub(block_check.size() as u64)\n            .and_then(|available| available.checked_sub(offset.into_u64()));", "            .checked_sub(offset.into_u64());")]),
    ("c06-cut-add", "bug", "C06", [(BRD, "            .checked_sub(block_check.size() as u64)\n            .and_then(|available| available.checked_sub(offset.into_u64()));", "            .checked_sub(block_check.size() as u64)\n            .map(|available| available - offset.into_u64());")]),
    ("c06-cut-check-none", "bug", "C06", [(BRD, "        let check_reader = self.cut_check(offset, T::SIZE.into(), BlockCheck::None)?;\n", "        let region = self.region.cut_rel(offset, T::SIZE.into());\n        let (source, region) = Arc::clone(&self.source).cut(region, BlockCheck::None, true)?;\n        let check_reader = CheckReader::new_from_parts(source, region);\n")]),
    ("c06-open-no-guard", "bug", "C06", [(JR, "    if reader.size() < Size::from(PackHeader::BLOCK_SIZE) {\n        return Err(ErrorKind::NotAJbk.into());\n    }\n", "")]),
    ("c06-open-guard-less", "bug", "C06", [(JR, "    if reader.size() < Size::from(PackHeader::BLOCK_SIZE) {", "    if reader.size() < Size::from(PackHeader::SIZE) {")]),
    ("c06-tail-no-guard", "bug", "C06", [(JR, "    if pack_header.file_size > reader.size() {\n        return Err(format_error!(\"Pack size is bigger than the file\"));\n    }\n", "")]),
    ("c06-tail-assert", "bug", "C06", [(JR, "    if pack_header.file_size > reader.size() {\n        return Err(format_error!(\"Pack size is bigger than the file\"));\n    }\n", "    debug_assert!(pack_header.file_size <= reader.size());\n")]),
    ("c06-tail-unwrap", "bug", "C06", [(JR, "        .read_exact(&mut buffer_reader)?;", "        .read_exact(&mut buffer_reader)\n        .expect(\"the tail was located\");")]),
    ("c06-header-unwrap", "bug", "C06", [(JR, "    let pack_header = end_reader.parse_block_at::<PackHeader>(Offset::zero())?;", "    let pack_header = end_reader\n        .parse_block_at::<PackHeader>(Offset::zero())\n        .unwrap();")]),
    ("c06-manifest-unwrap", "bug", "C06", [(JR, "        let reader = container_pack.get_manifest_pack_reader()?;\n\n        if reader.is_none() {\n            return Err(format_error!(\"Impossible to locate the manifest_pack\"));\n        }\n", "        let reader = container_pack.get_manifest_pack_reader()?;\n")]),
    ("c06-manifest-loop", "bug", "C06", [(CPR, "            let pack_header = reader.parse_block_at::<PackHeader>(Offset::zero())?;\n            if let", "            let pack_header = reader.parse_block_at::<PackHeader>(Offset::zero()).expect(\"a pack starts with its header\");\n            if let")]),
    ("c06-check-unwrap", "bug", "C06", [(CPR, "ContentPack::new(reader.clone())?.check()?", "ContentPack::new(reader.clone())?.check().unwrap_or_else(|e| panic!(\"{e}\"))")]),
    ("c06-directory-unwrap", "bug", "C06", [(JR, "            None => return Err(format_error!(\"Impossible to locate the directory_pack\")),", "            None => panic!(\"Impossible to locate the directory_pack\"),")]),
    ("c06-cluster-unwrap", "bug", "C06", [(CTP, "        let cluster = self.reader.parse_data_block::<Cluster>(cluster_info)?;\n        Ok(Arc::new(cluster))", "        let cluster = self.reader.parse_data_block::<Cluster>(cluster_info);\n        Ok(Arc::new(cluster.unwrap()))")]),
    ("c06-crc-assert", "bug", "C06", [(BLK, "    if checksum != expected_checksum {\n", "    debug_assert_eq!(checksum, expected_checksum);\n    if checksum != expected_checksum {\n")]),
    ("c06-kind-unreachable", "bug", "C06", [("src/common/pack_kind.rs", "                kind => Err(format_error!(&format!(\"Invalid pack kind {kind}\"), parser)),", "                kind => unreachable!(\"Invalid pack kind {kind}\"),")]),
    ("c06-decode-unwrap", "bug", "C06", [(COM, "            _ => {\n                decoded.failed = true;", "            Err(e) => panic!(\"{e}\"),\n            _ => {\n                decoded.failed = true;")]),
    ("c06-decode-short", "bug", "C06", [(COM, "            Ok(read) if read > 0 => {", "            Ok(read) => {")]),
    ("c06-decode-silent", "bug", "C06", [(COM, "                decoded.failed = true;\n", "")]),
    ("c06-decode-no-notify", "bug", "C06", [(COM, "                decoded.failed = true;\n                cvar.notify_all();\n", "                decoded.failed = true;\n")]),
    ("c06-build-unwrap", "bug", "C06", [(CL, "                zstd_source(raw_stream, (self.data_size.into_u64() as usize).into())?,", "                zstd_source(raw_stream, (self.data_size.into_u64() as usize).into()).unwrap(),")]),
    ("c06-crc-skipped", "bug", "C06", [(FIL, "            if let BlockCheck::Crc32 = block_check {\n                assert_slice_crc(&buf)?;\n            }\n            Ok((\n", "            Ok((\n")]),
    ("c06-locate-unwrap", "bug", "C06", [("src/reader/locator.rs", "            let reader = locator.locate(uuid, path)?;\n            if reader.is_some() {", "            let reader = locator.locate(uuid, path).unwrap();\n            if reader.is_some() {")]),
    ("c06-get-pack", "bug", "C06", [(JR, "            Some(r) => Ok(Some(MayMissPack::FOUND(ContentPack::new(r)).transpose()?)),", "            Some(r) => Ok(Some(MayMissPack::FOUND(ContentPack::new(r).ok().unwrap()))),")]),
    ("ok-c06-cut-sum", "ok", "C06", [(BRD, "        let available = self\n            .size()\n            .into_u64()\n            .checked_sub(block_check.size() as u64)\n            .and_then(|available| available.checked_sub(offset.into_u64()));\n        if available.map_or(true, |available| size.into_u64() > available) {", "        let wanted = offset.into_u64() + size.into_u64() + block_check.size() as u64;\n        if wanted > self.size().into_u64() {")]),
    ("ok-c06-cut-helper", "ok", "C06", [(BRD, "        let available = self\n            .size()\n            .into_u64()\n            .checked_sub(block_check.size() as u64)\n            .and_then(|available| available.checked_sub(offset.into_u64()));\n        if available.map_or(true, |available| size.into_u64() > available) {", "        if !self.contains(offset, size, &block_check) {"), (BRD, "    #[inline]\n    fn cut_source(", "    fn contains(&self, offset: Offset, size: Size, block_check: &BlockCheck) -> bool {\n        let check = block_check.size() as u64;\n        match self.size().into_u64().checked_sub(check) {\n            None => false,\n            Some(end) => offset.into_u64() <= end && size.into_u64() <= end - offset.into_u64(),\n        }\n    }\n\n    #[inline]\n    fn cut_source(")]),
    ("ok-c06-open-checked", "ok", "C06", [(JR, "    if pack_header.file_size > reader.size() {\n        return Err(format_error!(\"Pack size is bigger than the file\"));\n    }\n    let origin = reader.size() - pack_header.file_size;\n    Ok((pack_header, origin.into()))", "    match reader\n        .size()\n        .into_u64()\n        .checked_sub(pack_header.file_size.into_u64())\n    {\n        Some(origin) => Ok((pack_header, Offset::new(origin))),\n        None => Err(format_error!(\"Pack size is bigger than the file\")),\n    }")]),
    ("ok-c06-checked-unwrap", "ok", "C06", [(JR, "    let pack_header = end_reader.parse_block_at::<PackHeader>(Offset::zero())?;", "    let pack_header = end_reader.parse_block_at::<PackHeader>(Offset::zero());\n    if let Err(e) = pack_header {\n        return Err(e);\n    }\n    let pack_header = pack_header.unwrap();")]),
    ("ok-c06-manifest-match", "ok", "C06", [(JR, "        let reader = container_pack.get_manifest_pack_reader()?;\n\n        if reader.is_none() {\n            return Err(format_error!(\"Impossible to locate the manifest_pack\"));\n        }\n        let reader = reader.unwrap();\n", "        let reader = container_pack\n            .get_manifest_pack_reader()?\n            .ok_or_else(|| -> Error { format_error!(\"Impossible to locate the manifest_pack\") })?;\n")]),
    ("ok-c06-decode-arms", "ok", "C06", [(COM, "            // The compressed data is damaged or too short, no one must wait for the rest.\n            _ => {\n                decoded.failed = true;\n                cvar.notify_all();\n                return;\n            }", "            Ok(_) => {\n                decoded.failed = true;\n                cvar.notify_all();\n                return;\n            }\n            Err(e) => {\n                log::error!(\"{e}\");\n                decoded.failed = true;\n                cvar.notify_all();\n                return;\n            }")]),
    ("ok-c06-read-header-helper", "ok", "C06", [(JR, "    let end_reader: Reader = buffer_reader.into();\n    let pack_header = end_reader.parse_block_at::<PackHeader>(Offset::zero())?;", "    let pack_header = header_of(buffer_reader.into())?;"), (JR, "/// Search for a pack ending", "fn header_of(reader: Reader) -> Result<PackHeader> {\n    reader.parse_block_at::<PackHeader>(Offset::zero())\n}\n\n/// Search for a pack ending")]),
]

# mutants of one line, once missed
from mutants import CASES as MUT

CASES += MUT

CASES += [
    ("c03-indexed-no-search", "bug", "C03", [("src/creator/directory_pack/value_store.rs", "        match potential_idx {\n            Some(idx) => idx,\n            None => {", "        match potential_idx.filter(|_| false) {\n            Some(idx) => idx,\n            None => {")]),
    ("c03-indexed-search-part", "bug", "C03", [("src/creator/directory_pack/value_store.rs", "                .par_iter()\n                .position_any(", "                .par_iter()\n                .take(1024)\n                .position_any(")]),
    ("ok-c11-max-id", "ok", "C11", [("src/reader/jubako.rs", "        if pack_id.into_usize() >= self.packs.len() {", "        if pack_id.into_u16() > self.manifest_pack.max_id() {")]),
]

LEN = "src/creator/directory_pack/layout/entry.rs"
CASES += [
    ("c02-layout-variants-cut", "bug", "C02", [(LEN, "ser.write_u8(count_to_u8(self.variants.len(), \"variants\")?)?", "ser.write_u8(self.variants.len() as u8)?")]),
    ("c02-count-of-values-cut", "bug", "C02", [("src/reader/directory_pack/value_store.rs", "#[cfg(target_pointer_width = \"64\")]\n                let value_count = value_count.into_u64() as usize;", "#[cfg(target_pointer_width = \"64\")]\n                let value_count = value_count.into_u64() as u16 as usize;")]),
    ("c14-layout-count-common", "bug", "C14", [(LEN, "self.common.len() + self.variants.iter().map(|v| v.len()).sum::<usize>()", "self.common.len() + self.variants.len()")]),
    ("c14-layout-variants-first", "bug", "C14", [(LEN, "        written += self.common.serialize(ser)?;\n        for variant in &self.variants {\n            written += variant.serialize(ser)?;\n        }\n", "        for variant in &self.variants {\n            written += variant.serialize(ser)?;\n        }\n        written += self.common.serialize(ser)?;\n")]),
    ("ok-c02-layout-count-loop", "ok", "C02", [(LEN, "        let count = self.common.len() + self.variants.iter().map(|v| v.len()).sum::<usize>();\n", "        let mut count = self.common.len();\n        for variant in &self.variants {\n            count += variant.len();\n        }\n")]),
    ("ok-c02-layout-try-fold", "ok", "C02", [(LEN, "        for variant in &self.variants {\n            written += variant.serialize(ser)?;\n        }\n", "        for idx in 0..self.variants.len() {\n            written += self.variants[idx].serialize(ser)?;\n        }\n")]),
]

# refactorings of the readers' parsers and of small types
PAR, PI, PH, CPH, RLM, RLP, RVS, RES, RIX, RLW = ("src/bases/parsing.rs", "src/common/pack_info.rs", "src/common/headers/pack.rs", "src/common/headers/container_pack.rs",
    "src/reader/directory_pack/layout/mod.rs", "src/reader/directory_pack/layout/property.rs", "src/reader/directory_pack/value_store.rs", "src/reader/directory_pack/entry_store.rs",
    "src/reader/directory_pack/index.rs", "src/reader/directory_pack/raw_layout.rs")
RLZ = "src/reader/directory_pack/lazy_entry.rs"
PLC = "src/common/pack_locator.rs"
CASES += [
    ("ok-locator-parse-plain", "ok", "C14", [(PLC, "let pack_size = Size::parse(parser)?;", "let pack_size = Size::from(parser.read_u64()?);")]),
    ("ok-packinfo-location-inline", "ok", "C14", [(PI, "        written += PString::serialize_string_padded(self.pack_location.as_str(), 213, ser)?;\n",
        "        let location = self.pack_location.as_str().as_bytes();\n        assert!(location.len() <= 213);\n        written += ser.write_u8(location.len() as u8)?;\n        written += ser.write_data(location)?;\n        written += ser.write_data(&vec![0; 213 - location.len()])?;\n")]),
    ("ok-packinfo-free-data-first", "ok", "C14", [(PI, "        let mut written = 0;\n        written += self.uuid", "        let free_data_id = self.free_data_id.into_u64() as u16;\n        let mut written = 0;\n        written += self.uuid"),
        (PI, "ser.write_u16(self.free_data_id.into_u64() as u16)?", "ser.write_u16(free_data_id)?")]),
    ("ok-header-version-two-ifs", "ok", "C14", [(PH, "        if (major_version, minor_version) != (0, 2) {", "        let supported = major_version == 0 && minor_version == 2;\n        if !supported {")]),
    ("ok-header-version-match", "ok", "C05", [(PH, """        if (major_version, minor_version) != (0, 2) {
            return Err(VersionError {
                major: major_version,
                minor: minor_version,
            }
            .into());
        }
""", """        match (major_version, minor_version) {
            (0, 2) => (),
            (major, minor) => return Err(VersionError { major, minor }.into()),
        }
""")]),
    ("ok-header-skip-split", "ok", "C14", [(CPH, "        parser.skip(26)?;\n", "        parser.skip(20)?;\n        parser.skip(6)?;\n")]),
    ("ok-header-padding-vec", "ok", "C14", [(CPH, "        written += ser.write_data(&[0_u8; 26])?;\n", "        let padding = vec![0_u8; 26];\n        written += ser.write_data(&padding)?;\n")]),
    ("ok-header-written-sum", "ok", "C14", [(CPH, """        let mut written = 0;
        written += self.pack_locators_pos.serialize(ser)?;
        written += self.pack_count.serialize(ser)?;
""", """        let mut written = self.pack_locators_pos.serialize(ser)? + self.pack_count.serialize(ser)?;
""")]),
    ("ok-check-info-size", "ok", "C04", [(PH, """        let check_info_size = self.file_size.into_u64()
            - Self::BLOCK_SIZE as u64
            - self.check_info_pos.into_u64()
            - BlockCheck::Crc32.size() as u64;
""", """        let end = self.file_size.into_u64() - (Self::BLOCK_SIZE + BlockCheck::Crc32.size()) as u64;
        let check_info_size = end - self.check_info_pos.into_u64();
""")]),
    ("ok-parser-u16-from-le", "ok", "C14", [(PAR, """    fn read_u16(&mut self) -> Result<u16> {
        let slice = self.read_slice(2)?;
        Ok(LE::read_u16(&slice))
""", """    fn read_u16(&mut self) -> Result<u16> {
        let slice = self.read_slice(2)?;
        Ok(u16::from_le_bytes([slice[0], slice[1]]))
""")]),
    ("ok-parser-u32-shifts", "ok", "C14", [(PAR, """    fn read_u32(&mut self) -> Result<u32> {
        let slice = self.read_slice(4)?;
        Ok(LE::read_u32(&slice))
""", """    fn read_u32(&mut self) -> Result<u32> {
        let b = self.read_slice(4)?;
        Ok(b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24)
""")]),
    ("ok-parser-u64-try-into", "ok", "C14", [(PAR, """    fn read_u64(&mut self) -> Result<u64> {
        let slice = self.read_slice(8)?;
        Ok(LE::read_u64(&slice))
""", """    fn read_u64(&mut self) -> Result<u64> {
        let slice = self.read_slice(8)?;
        Ok(u64::from_le_bytes(slice.as_ref().try_into().unwrap()))
""")]),
    ("c14-parser-u16-swapped", "bug", "C14", [(PAR, """    fn read_u16(&mut self) -> Result<u16> {
        let slice = self.read_slice(2)?;
        Ok(LE::read_u16(&slice))
""", """    fn read_u16(&mut self) -> Result<u16> {
        let slice = self.read_slice(2)?;
        Ok(u16::from_le_bytes([slice[1], slice[0]]))
""")]),
    ("c14-parser-u32-shift", "bug", "C14", [(PAR, """    fn read_u32(&mut self) -> Result<u32> {
        let slice = self.read_slice(4)?;
        Ok(LE::read_u32(&slice))
""", """    fn read_u32(&mut self) -> Result<u32> {
        let b = self.read_slice(4)?;
        Ok(b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 16)
""")]),
    ("ok-parser-skip-end", "ok", "C05", [(PAR, """    fn skip(&mut self, size: usize) -> Result<()> {
        if self.slice.len() < size + self.offset {""", """    fn skip(&mut self, size: usize) -> Result<()> {
        let end = self.offset + size;
        if end > self.slice.len() {""")]),
    ("ok-parser-read-slice-end", "ok", "C06", [(PAR, """        let slice = &self.slice[self.offset..self.offset + size];
        self.offset += size;
        Ok(Cow::Borrowed(slice))""", """        let begin = self.offset;
        self.offset = begin + size;
        Ok(Cow::Borrowed(&self.slice[begin..self.offset]))""")]),
    ("ok-layout-common-loop", "ok", "C02", [(RLM, """        while let Some(raw_property) = property_iter.next_if(|p| !p.is_variant_id()) {
            common_size += raw_property.size;
            common_properties.push(raw_property);
        }
""", """        loop {
            match property_iter.next_if(|p| !p.is_variant_id()) {
                None => break,
                Some(raw_property) => {
                    common_size += raw_property.size;
                    common_properties.push(raw_property);
                }
            }
        }
""")]),
    ("ok-layout-flag-helper", "ok", "C05", [(RLM, "        let is_entry_checked = (flag & 0b0000_0001) != 0;\n", "        let is_entry_checked = flag & 1 == 1;\n")]),
    ("ok-raw-layout-map", "ok", "C02", [(RLW, """        let mut properties = Vec::with_capacity(property_count.into_usize());
        for _ in property_count {
            let property = RawProperty::parse(parser)?;
            properties.push(property);
        }
        Ok(Self(properties))""", """        let properties = (0..property_count.into_usize())
            .map(|_| RawProperty::parse(parser))
            .collect::<Result<Vec<_>>>()?;
        Ok(Self(properties))""")]),
    ("ok-raw-layout-size-some", "ok", "C02", [(RLW, """                    content_id_size
                        + if default_pack_id.is_some() {
                            0
                        } else {
                            pack_id_size as u16
                        },
""", """                    match default_pack_id {
                        Some(_) => content_id_size,
                        None => content_id_size + pack_id_size as u16,
                    },
""")]),
    ("ok-raw-layout-array-len-match", "ok", "C14", [(RLW, """                let array_len_size = propdata & 0b0011;
                let array_len_size = if array_len_size != 0 {
                    Some(ByteSize::try_from(array_len_size as usize).unwrap())
                } else {
                    None
                };
""", """                let array_len_size = match propdata & 0b0011 {
                    0 => None,
                    size => Some(ByteSize::try_from(size as usize).unwrap()),
                };
""")]),
    ("ok-value-store-get-data", "ok", "C02", [(RVS, """        if let Some(size) = size {
            let offset = id.into_u64().into();
            if let Cow::Borrowed(s) = self.reader.get_slice(offset, size)? {
                Ok(s)
            } else {
                unreachable!("Reader must be from memory")
            }
        } else {
            panic!("Cannot use unsized with PlainValueStore");
        }
""", """        let size = match size {
            Some(size) => size,
            None => panic!("Cannot use unsized with PlainValueStore"),
        };
        match self.reader.get_slice(id.into_u64().into(), size)? {
            Cow::Borrowed(s) => Ok(s),
            Cow::Owned(_) => unreachable!("Reader must be from memory"),
        }
""")]),
    ("ok-value-store-indexed-get", "ok", "C02", [(RVS, """        let start = self.value_offsets[id];
        let size = match size {
            Some(s) => s,
            None => {
                let s = self.value_offsets[id + 1] - start;
                assert!(s.into_u64() <= usize::MAX as u64);
                ASize::new(s.into_u64() as usize)
            }
        };
""", """        let (start, end) = (self.value_offsets[id], self.value_offsets[id + 1]);
        let size = size.unwrap_or_else(|| {
            let s = end - start;
            assert!(s.into_u64() <= usize::MAX as u64);
            ASize::new(s.into_u64() as usize)
        });
""")]),
    ("ok-value-store-push-loop", "ok", "C02", [(RVS, """                let uninit = value_offsets.spare_capacity_mut();
                let mut first = true;
                for elem in &mut uninit[0..value_count] {
                    let value: Offset = if first {
                        first = false;
                        Offset::zero()
                    } else {
                        parser.read_usized(offset_size)?.into()
                    };
                    assert!(value.is_valid(data_size));
                    elem.write(value);
                }
                unsafe { value_offsets.set_len(value_count) }
""", """                for idx in 0..value_count {
                    let value: Offset = if idx == 0 {
                        Offset::zero()
                    } else {
                        parser.read_usized(offset_size)?.into()
                    };
                    assert!(value.is_valid(data_size));
                    value_offsets.push(value);
                }
""")]),
    ("ok-entry-store-finalize-size", "ok", "C05", [(RES, """                .cut_check(
                    header_offset - data_size - ASize::from(BlockCheck::Crc32.size()),
                    data_size,
                    BlockCheck::Crc32,
                )?
                .into()""", """                .cut_check(
                    header_offset - (data_size + Size::from(BlockCheck::Crc32.size())),
                    data_size,
                    BlockCheck::Crc32,
                )
                .map(Reader::from)?""")]),
    ("ok-entry-store-reader-early", "ok", "C02", [(RES, """        if idx.is_valid(*self.layout.entry_count) {
            Some(self.entry_reader.get_byte_slice(
                Offset::from(self.layout.entry_size.into_u64() * idx.into_u64()),
                self.layout.entry_size.into(),
            ))
        } else {
            None
        }
""", """        if !idx.is_valid(*self.layout.entry_count) {
            return None;
        }
        let size = self.layout.entry_size;
        let offset = idx.into_u64() * size.into_u64();
        Some(self.entry_reader.get_byte_slice(offset.into(), size.into()))
""")]),
    ("ok-index-range-new", "ok", "C02", [(RIX, "        Self::new_from_size(index.offset(), index.count())\n", "        let begin = index.offset();\n        Self::new(begin, begin + index.count())\n")]),
    ("ok-lazy-entry-flat", "ok", "C02", [(RLZ, """            self.properties
                .variant_part
                .as_ref()
                .and_then(
                    |AnyVariantBuilder {
                         variant_id_property,
                         variants,
                     }| {
                        let variant_id = match variant_id_property.create(&self.bytes) {
                            Ok(v) => v,
                            Err(e) => return Some(Err(e)),
                        };
                        if variants.len() <= variant_id.into_usize() {
                            None
                        } else {
                            let variant = &variants[variant_id.into_usize()];
                            variant.create_value(name, &self.bytes).transpose()
                        }
                    },
                )
                .transpose()
""", """            let Some(part) = &self.properties.variant_part else {
                return Ok(None);
            };
            let variant_id = part.variant_id_property.create(&self.bytes)?;
            match part.variants.get(variant_id.into_usize()) {
                None => Ok(None),
                Some(variant) => variant.create_value(name, &self.bytes),
            }
""")]),
    ("ok-file-length-metadata", "ok", "C13", [(FIL, """        let len = source.seek(SeekFrom::End(0))?;
        source.seek(SeekFrom::Start(0))?;
""", """        let len = source.metadata()?.len();
        source.rewind()?;
""")]),
    ("c10-reader-of-a-source-short", "bug", "C10", [(BRD, """        let size = source.size();
        Self::new(source, size)
""", """        let size = source.size();
        Self::new(source, Size::new(size.into_u64() & !1))
""")]),
]

# ---- refactorings of files which had none -----------------------------------------------------
BMOD = "src/reader/directory_pack/builder/mod.rs"
TBS = "src/bases/types/byte_size.rs"
TBA = "src/bases/types/base_array.rs"
TIV = "src/bases/types/idx_vec.rs"
TSO = "src/bases/types/sized_offset.rs"
TPS = "src/bases/types/pstring.rs"
TRG = "src/bases/types/range.rs"
TCA = "src/bases/cache.rs"
TWR = "src/bases/write.rs"
CASES += [
    ("ok-any-properties-loop", "ok", "C02", [(BMOD, """        let properties: Result<HashMap<SmallString, _>> = properties
            .iter()
            .map(|(n, p)| {
                AnyProperty::from_property(p, value_storage).map(|p| {
                    (
                        n.clone(),
                        p.expect("AnyProperty accept any layout property"),
                    )
                })
            })
            .collect();
        Ok(Self {
            properties: properties?,
        })
""", """        let mut map = HashMap::new();
        for (name, property) in properties.iter() {
            let builder = AnyProperty::from_property(property, value_storage)?
                .expect("AnyProperty accept any layout property");
            map.insert(name.clone(), builder);
        }
        Ok(Self { properties: map })
""")]),
    ("ok-any-create-value-match", "ok", "C02", [(BMOD, """        self.properties
            .get(name)
            .map(|p| p.create(parser))
            .transpose()
""", """        match self.properties.get(name) {
            Some(property) => Ok(Some(property.create(parser)?)),
            None => Ok(None),
        }
""")]),
    ("ok-any-builder-variants-loop", "ok", "C02", [(BMOD, """                let variants: Result<Vec<_>> = variants
                    .iter()
                    .map(|v| AnyPropertiesMap::new(v, value_storage))
                    .collect();
                let variants = variants?;
                let variant_id_property = VariantIdProperty::new(*variant_id_offset);
""", """                let mut maps = Vec::with_capacity(variants.len());
                for v in variants.iter() {
                    maps.push(AnyPropertiesMap::new(v, value_storage)?);
                }
                let variants = maps;
                let variant_id_property = VariantIdProperty::new(*variant_id_offset);
""")]),
    ("ok-any-builder-create-match", "ok", "C02", [(BMOD, """        Ok(self
            .store
            .get_entry_reader(idx)
            .map(|reader| LazyEntry::new(Rc::clone(&self.properties), reader.into())))
""", """        let Some(reader) = self.store.get_entry_reader(idx) else {
            return Ok(None);
        };
        let properties = Rc::clone(&self.properties);
        Ok(Some(LazyEntry::new(properties, reader.into())))
""")]),
    ("ok-any-compare-multiple", "ok", "C03", [(BMOD, """        PropertyCompare::new(self, vec![property_name], vec![value])
""", """        self.new_multiple_property_compare(vec![property_name], vec![value])
""")]),
    ("ok-int-property-from-return", "ok", "C02", [(BP, """        Ok(match p.kind {
            PropertyKind::UnsignedInt { int_size, default } => {
                Some(IntProperty::new(p.offset, int_size, default, None))
            }
            PropertyKind::DeportedUnsignedInt {
                int_size,
                value_store_idx,
                id,
            } => {
                let store = value_storage.get_value_store(value_store_idx)?;
                Some(IntProperty::new_from_deported(
                    p.offset, int_size, store, id,
                )?)
            }
            _ => None,
        })
""", """        match p.kind {
            PropertyKind::UnsignedInt { int_size, default } => {
                Ok(Some(IntProperty::new(p.offset, int_size, default, None)))
            }
            PropertyKind::DeportedUnsignedInt {
                int_size,
                value_store_idx,
                id,
            } => {
                let store = value_storage.get_value_store(value_store_idx)?;
                IntProperty::new_from_deported(p.offset, int_size, store, id).map(Some)
            }
            _ => Ok(None),
        }
""")]),
    ("ok-int-property-create-helper", "ok", "C02", [(BP, """impl PropertyBuilderTrait for IntProperty {
    type Output = u64;
    fn create(&self, parser: &impl RandomParser) -> Result<Self::Output> {
        Ok(match self.default {
            Some(v) => v,
            None => match &self.deported {
                Some((key_size, value_store)) => {
                    let key = match key_size {
                        ByteSize::U1 => parser.read_u8(self.offset)? as u64,
                        ByteSize::U2 => parser.read_u16(self.offset)? as u64,
                        ByteSize::U4 => parser.read_u32(self.offset)? as u64,
                        ByteSize::U8 => parser.read_u64(self.offset)?,
                        _ => parser.read_usized(self.offset, *key_size)?,
                    };
                    let value_data = value_store
                        .get_data(key.into(), Some(ASize::from(self.size as u8 as usize)))?;
                    let mut data_parser = SliceParser::new(
                        std::borrow::Cow::Borrowed(value_data),
                        parser.global_offset() + self.offset,
                    );
                    data_parser.read_usized(self.size).unwrap()
                }
                None => match self.size {
                    ByteSize::U1 => parser.read_u8(self.offset)? as u64,
                    ByteSize::U2 => parser.read_u16(self.offset)? as u64,
                    ByteSize::U4 => parser.read_u32(self.offset)? as u64,
                    ByteSize::U8 => parser.read_u64(self.offset)?,
                    _ => parser.read_usized(self.offset, self.size)?,
                },
            },
        })
    }
}
""", """fn read_uint(parser: &impl RandomParser, offset: Offset, size: ByteSize) -> Result<u64> {
    match size {
        ByteSize::U1 => Ok(parser.read_u8(offset)? as u64),
        ByteSize::U2 => Ok(parser.read_u16(offset)? as u64),
        ByteSize::U4 => Ok(parser.read_u32(offset)? as u64),
        ByteSize::U8 => parser.read_u64(offset),
        _ => parser.read_usized(offset, size),
    }
}

impl PropertyBuilderTrait for IntProperty {
    type Output = u64;
    fn create(&self, parser: &impl RandomParser) -> Result<Self::Output> {
        if let Some(v) = self.default {
            return Ok(v);
        }
        let Some((key_size, value_store)) = &self.deported else {
            return read_uint(parser, self.offset, self.size);
        };
        let key = read_uint(parser, self.offset, *key_size)?;
        let value_data =
            value_store.get_data(key.into(), Some(ASize::from(self.size as u8 as usize)))?;
        let mut data_parser = SliceParser::new(
            std::borrow::Cow::Borrowed(value_data),
            parser.global_offset() + self.offset,
        );
        Ok(data_parser.read_usized(self.size).unwrap())
    }
}
""")]),
    ("ok-content-property-create", "ok", "C02", [(BP, """        let pack_id = match self.pack_id_default {
            None => (seq_parser.read_usized(self.pack_id_size)? as u16).into(),
            Some(d) => d,
        };

        let content_id = seq_parser.read_usized(self.content_id_size)? as u32;
        Ok(ContentAddress::new(pack_id, content_id.into()))
""", """        let pack_id = if let Some(pack_id) = self.pack_id_default {
            pack_id
        } else {
            let id = seq_parser.read_usized(self.pack_id_size)?;
            PackId::from(id as u16)
        };
        let content_id = ContentIdx::from(seq_parser.read_usized(self.content_id_size)? as u32);
        Ok(ContentAddress::new(pack_id, content_id))
""")]),
    ("ok-array-property-create-transpose", "ok", "C02", [(BP, """                let array_size = match self.array_len_size {
                    None => None,
                    Some(size) => {
                        assert!(size as u8 <= 3);
                        let array_size = seq_parser.read_usized(size)?;
                        Some(ASize::new(array_size as usize))
                    }
                };
                let base_array = BaseArray::parse(self.fixed_array_len, &mut seq_parser)?;
                let deported_info = match &self.deported_array_info {
                    Some((value_size, store)) => {
                        let value_id = seq_parser.read_usized(*value_size)?.into();
                        Some(Extend::new(Arc::clone(store), value_id))
                    }
                    None => None,
                };
""", """                let array_size = self
                    .array_len_size
                    .map(|size| {
                        assert!(size as u8 <= 3);
                        seq_parser.read_usized(size)
                    })
                    .transpose()?
                    .map(|size| ASize::new(size as usize));
                let base_array = BaseArray::parse(self.fixed_array_len, &mut seq_parser)?;
                let mut deported_info = None;
                if let Some((value_size, store)) = &self.deported_array_info {
                    let value_id = seq_parser.read_usized(*value_size)?;
                    deported_info = Some(Extend::new(Arc::clone(store), value_id.into()));
                }
""")]),
    ("ok-variant-id-get-copied", "ok", "C02", [(BP, """        let raw_id = self.raw_variant_id_builder.create(parser)?;
        Ok(self.variant_map[raw_id.into_usize()])
""", """        self.raw_variant_id_builder
            .create(parser)
            .map(|raw_id| self.variant_map[raw_id.into_usize()])
""")]),
    ("ok-byte-size-parse-match", "ok", "C02", [(TBS, """        (parser.read_u8()? as usize)
            .try_into()
            .map_err(|_e| format_error!("Invalid ByteSize"))
""", """        let size = usize::from(parser.read_u8()?);
        match ByteSize::try_from(size) {
            Ok(size) => Ok(size),
            Err(_) => Err(format_error!("Invalid ByteSize")),
        }
""")]),
    ("ok-base-array-parse", "ok", "C02", [(TBA, """        let mut s = Self { data: [0; 31] };
        if size != 0 {
            parser.read_data(&mut s.data[..size as usize])?;
        }
        Ok(s)
""", """        let mut data = [0u8; 31];
        let len = size as usize;
        if len > 0 {
            parser.read_data(&mut data[..len])?;
        }
        Ok(Self { data })
""")]),
    ("ok-idx-vec-plain", "ok", "C01", [(TIV, """        &self.data[index.into_usize()]
""", """        let index = index.into_usize();
        self.data.index(index)
""")]),
    ("ok-sized-offset-shifts", "ok", "C14", [(TSO, """        let data: u64 = (self.offset.into_u64() << 16) + (self.size.into_u64() & 0xFF_FF_u64);
        ser.write_u64(data)
""", """        let size = self.size.into_u64() & 0xFF_FF_u64;
        let offset = self.offset.into_u64();
        ser.write_u64((offset << 16) | size)
"""), (TSO, """        let data = parser.read_u64()?;
        let size = ASize::from((data & 0xFF_FF_u64) as usize);
        let offset = Offset::from(data >> 16);
        Ok(Self::new(size, offset))
""", """        let data = parser.read_u64()?;
        let size = (data as u16) as usize;
        Ok(Self::new(ASize::new(size), (data >> 16).into()))
""")]),
    ("ok-sized-offset-const", "ok", "C14", [(TSO, """impl SizedOffset {
""", """const MAX_BLOCK_SIZE: u64 = 0xFFFF;

impl SizedOffset {
"""), (TSO, """        if self.size.into_u64() > 0xFF_FF_u64 {
            return""", """        if self.size.into_u64() > MAX_BLOCK_SIZE {
            return"""), (TSO, """        let data: u64 = (self.offset.into_u64() << 16) + (self.size.into_u64() & 0xFF_FF_u64);
""", """        let data: u64 = self.offset.into_u64() * 0x1_0000 + (self.size.into_u64() & MAX_BLOCK_SIZE);
""")]),
    ("ok-pstring-written-plain", "ok", "C14", [(TPS, """        let mut written = 0;
        written += ser.write_u8(string.len() as u8)?;
        written += ser.write_data(string)?;
        Ok(written)
""", """        let len = u8::try_from(string.len()).unwrap();
        Ok(ser.write_u8(len)? + ser.write_data(string)?)
"""), (TPS, """        let mut written = 0;
        written += Self::serialize_string_size(string, size, ser)?;
        written += ser.write_data(vec![0; size as usize - string.as_ref().len()].as_slice())?;
        Ok(written)
""", """        let written = Self::serialize_string_size(string, size, ser)?;
        let padding = vec![0; size as usize - string.as_ref().len()];
        Ok(written + ser.write_data(&padding)?)
""")]),
    ("ok-pstring-parse-slice", "ok", "C14", [(TPS, """        let size = parser.read_u8()?;
        match parser.read_slice(size as usize)? {
            Cow::Borrowed(slice) => Ok(slice.into()),
            Cow::Owned(vec) => Ok(vec.into()),
        }
""", """        let size = usize::from(parser.read_u8()?);
        Ok(match parser.read_slice(size)? {
            Cow::Borrowed(bytes) => SmallBytes::from(bytes),
            Cow::Owned(bytes) => SmallBytes::from(bytes),
        })
""")]),
    ("ok-region-cut-from-size", "ok", "C13", [(TRG, """        let begin = self.begin() + offset;
        let end = begin + size;
        debug_assert!(
            end <= self.end(),
            "end({end:?}) <= self.end({:?})",
            self.end()
        );
        Self::new(begin, end)
""", """        let cut = Self::new_from_size(self.begin() + offset, size);
        debug_assert!(
            cut.end() <= self.end(),
            "end({:?}) <= self.end({:?})",
            cut.end(),
            self.end()
        );
        cut
""")]),
    ("ok-range-new-from-size", "ok", "C13", [(TRG, """        Self {
            begin,
            end: begin + size,
        }
""", """        let end = begin + size;
        Self { begin, end }
""")]),
    ("ok-cache-get-early", "ok", "C07", [(TCA, """        let cache_slot = &self.values[index.into()];
        if cache_slot.get().is_none() {
            let new_value = self.source.get_value(index)?;
            let _ = cache_slot.set(new_value);
        }

        Ok(cache_slot.get().unwrap())
""", """        let slot = &self.values[index.into()];
        if let Some(value) = slot.get() {
            return Ok(value);
        }
        let value = self.source.get_value(index)?;
        Ok(slot.get_or_init(|| value))
""")]),
    ("ok-cache-new-map", "ok", "C07", [(TCA, """        let mut values = Vec::new();
        values.resize_with(source.get_len(), Default::default);
        Self { source, values }
""", """        let values = (0..source.get_len()).map(|_| OnceLock::new()).collect();
        Self { source, values }
""")]),
    ("ok-serializer-extend", "ok", "C14", [(TWR, """            self.buf.write_all(value.as_bytes())?;
            Ok(1)
""", """            self.write_data(&[value])
"""), (TWR, """            let d = U32::from(value);
            self.buf.write_all(d.as_bytes())?;
            Ok(4)
""", """            self.write_data(&value.to_le_bytes())
"""), (TWR, """            let d = U64::from(value);
            self.buf.write_all(d.as_bytes())?;
            Ok(8)
""", """            let bytes = value.to_le_bytes();
            self.buf.write_all(&bytes)?;
            Ok(bytes.len())
""")]),
    ("ok-serializer-usized-le-bytes", "ok", "C14", [(TWR, """            let d = U64::from(value);
            let size = size as usize;
            self.buf.write_all(&d.as_bytes()[..size])?;
            Ok(size)
""", """            let size = size as usize;
            self.write_data(&value.to_le_bytes()[..size])
""")]),
    ("ok-serializer-isized-le-bytes", "ok", "C14", [(TWR, """            let mut d = [0_u8; 8];
            let size = size as usize;
            LE::write_int(&mut d, value, size);
            self.buf.write_all(&d[..size])?;
            Ok(size)
""", """            let mut d = [0_u8; 8];
            let len = size as usize;
            LE::write_int(&mut d[..], value, len);
            self.write_data(&d[..len])
""")]),
    ("ok-serializer-close-let", "ok", "C05", [(TWR, """            match self.check {
                BlockCheck::None => (self.buf.into_inner(), None),
                BlockCheck::Crc32 => {
                    let buf = self.buf.into_inner();
                    let mut digest = CRC.digest();
                    digest.update(&buf);
                    let checksum = digest.finalize();
                    let checksum = checksum.to_be_bytes();
""", """            let buf = self.buf.into_inner();
            match self.check {
                BlockCheck::None => (buf, None),
                BlockCheck::Crc32 => {
                    let checksum = CRC.checksum(&buf).to_be_bytes();
""")]),
]
HCL = "src/common/headers/cluster.rs"
HCP = "src/common/headers/content_pack.rs"
HPK = "src/common/headers/pack.rs"
CKD = "src/common/pack_kind.rs"
CCT = "src/common/compression_type.rs"
CPI = "src/common/pack_info.rs"
WMP = "src/creator/manifest_pack.rs"
RCM = "src/reader/content_pack/mod.rs"
WCP = "src/creator/container_pack.rs"
WSP = "src/creator/directory_pack/schema/properties.rs"
CASES += [
    ("ok-cluster-header-sum", "ok", "C14", [(HCL, """        let mut written = 0;
        written += self.compression.serialize(ser)?;
        written += self.offset_size.serialize(ser)?;
        written += self.blob_count.serialize(ser)?;
        Ok(written)
""", """        let written = self.compression.serialize(ser)?
            + self.offset_size.serialize(ser)?
            + self.blob_count.serialize(ser)?;
        Ok(written)
"""), (HCL, """        let compression = CompressionType::parse(parser)?;
        let offset_size = ByteSize::parse(parser)?;
        let blob_count = Count::<u16>::parse(parser)?.into();
        Ok(ClusterHeader {
            compression,
            offset_size,
            blob_count,
        })
""", """        Ok(Self::new(
            CompressionType::parse(parser)?,
            ByteSize::parse(parser)?,
            Count::<u16>::parse(parser)?.into(),
        ))
""")]),
    ("ok-content-header-struct", "ok", "C14", [(HCP, """        let content_ptr_pos = Offset::parse(parser)?;
        let cluster_ptr_pos = Offset::parse(parser)?;
        let content_count = Count::<u32>::parse(parser)?.into();
        let cluster_count = Count::<u32>::parse(parser)?.into();
        parser.skip(12)?;
        let free_data = PackFreeData::parse(parser)?;
        Ok(ContentPackHeader {
            content_ptr_pos,
            cluster_ptr_pos,
            content_count,
            cluster_count,
            free_data,
        })
""", """        let content_ptr_pos = Offset::parse(parser)?;
        let cluster_ptr_pos = Offset::parse(parser)?;
        let content_count = ContentCount::from(parser.read_u32()?);
        let cluster_count = ClusterCount::from(parser.read_u32()?);
        const PADDING: usize = 12;
        parser.skip(PADDING)?;
        PackFreeData::parse(parser).map(|free_data| {
            Self::new(
                free_data,
                cluster_ptr_pos,
                cluster_count,
                content_ptr_pos,
                content_count,
            )
        })
""")]),
    ("ok-pack-header-serialize-const", "ok", "C14", [(HPK, """        written += ser.write_data(&[0_u8; 5])?;
        written += self.file_size.serialize(ser)?;
        written += self.check_info_pos.serialize(ser)?;
        written += ser.write_data(&[0_u8; 12])?;
        Ok(written)
""", """        written += ser.write_data(vec![0_u8; 5].as_slice())?;
        for value in [self.file_size.into_u64(), self.check_info_pos.into_u64()] {
            written += ser.write_u64(value)?;
        }
        written += ser.write_data(&[0_u8; 12])?;
        Ok(written)
""")]),
    ("ok-pack-header-version-split", "ok", "C12", [(HPK, """        if (major_version, minor_version) != (0, 2) {
            return Err(""", """        if major_version != 0 || minor_version != 2 {
            return Err(""")]),
    ("ok-pack-header-check-size", "ok", "C04", [(HPK, """        let check_info_size = self.file_size.into_u64()
            - Self::BLOCK_SIZE as u64
            - self.check_info_pos.into_u64()
            - BlockCheck::Crc32.size() as u64;
        ASize::new(check_info_size as usize)
""", """        let tail_size = Self::BLOCK_SIZE + BlockCheck::Crc32.size();
        let check_info_end = self.file_size.into_u64() - tail_size as u64;
        ASize::from((check_info_end - self.check_info_pos.into_u64()) as usize)
""")]),
    ("ok-full-pack-kind-delegate", "ok", "C14", [(CKD, """        if magic != JBK_MAGIC {
            Err(format_error!("Not a JBK kind", parser))
        } else {
            match parser.read_u8()? {
                b'm' => Ok(PackKind::Manifest),
                b'd' => Ok(PackKind::Directory),
                b'c' => Ok(PackKind::Content),
                b'C' => Ok(PackKind::Container),
                kind => Err(format_error!(&format!("Invalid pack kind {kind}"), parser)),
            }
        }
""", """        if magic != JBK_MAGIC {
            return Err(format_error!("Not a JBK kind", parser));
        }
        PackKind::parse(parser)
"""), (CKD, """        written += ser.write_data(b"jbk")?;
""", """        written += ser.write_data(&JBK_MAGIC)?;
""")]),
    ("ok-compression-type-if", "ok", "C14", [(CCT, """        let v = parser.read_u8()?;
        match v {
            0 => Ok(CompressionType::None),
            1 => Ok(CompressionType::Lz4),
            2 => Ok(CompressionType::Lzma),
            3 => Ok(CompressionType::Zstd),
            v => Err(format_error!(
                &format!("Invalid compression type ({v})"),
                parser
            )),
        }
""", """        Ok(match parser.read_u8()? {
            0 => Self::None,
            1 => Self::Lz4,
            2 => Self::Lzma,
            3 => Self::Zstd,
            v => {
                return Err(format_error!(
                    &format!("Invalid compression type ({v})"),
                    parser
                ))
            }
        })
"""), (CCT, """        ser.write_u8(*self as u8)
""", """        let v = match self {
            Self::None => 0,
            Self::Lz4 => 1,
            Self::Lzma => 2,
            Self::Zstd => 3,
        };
        ser.write_u8(v)
""")]),
    ("ok-pack-info-max-location", "ok", "C12", [(CPI, """impl SizedParsable for PackInfo {
""", """const MAX_LOCATION: u8 = 213;

impl SizedParsable for PackInfo {
"""), (CPI, """self.pack_location.as_str(), 213, ser)?;
        Ok(written)
""", """self.pack_location.as_str(), MAX_LOCATION, ser)?;
        Ok(written)
"""), (CPI, """        parser.skip(213 - pack_location.len())?;
""", """        let padding = MAX_LOCATION as usize - pack_location.len();
        parser.skip(padding)?;
""")]),
    ("ok-manifest-creator-ids-map", "ok", "C10", [(WMP, """        let mut free_data_ids = vec![];

        let nb_packs = self.packs.len() as u16;

        for (pack_data, _locator) in &self.packs {
            let free_data_id = self.value_store.add_value(pack_data.free_data.to_vec());
            free_data_ids.push(free_data_id);
        }
""", """        let nb_packs = self.packs.len() as u16;

        let free_data_ids: Vec<_> = self
            .packs
            .iter()
            .map(|(pack_data, _)| self.value_store.add_value(pack_data.free_data.to_vec()))
            .collect();
""")]),
    ("ok-manifest-creator-start", "ok", "C10", [(WMP, """        file.seek(SeekFrom::Current(
            (PackHeader::BLOCK_SIZE + ManifestPackHeader::BLOCK_SIZE) as i64,
        ))?;
""", """        let headers_size = (PackHeader::BLOCK_SIZE + ManifestPackHeader::BLOCK_SIZE) as u64;
        file.seek(SeekFrom::Start(origin_offset + headers_size))?;
"""), (WMP, """            let check_info_size = file.stream_position()? - origin_offset - check_info_pos;
            let check_info_size: usize = check_info_size.try_into().unwrap();
""", """            let check_info_end = file.stream_position()? - origin_offset;
            let check_info_size = (check_info_end - check_info_pos) as usize;
""")]),
    ("ok-manifest-creator-helper", "ok", "C10", [(WMP, """        file.seek(SeekFrom::Start(origin_offset))?;
        let mut tail_buffer = [0u8; PackHeader::BLOCK_SIZE];
        file.read_exact(&mut tail_buffer)?;
        tail_buffer.reverse();
        file.seek(SeekFrom::End(0))?;
        file.write_all(&tail_buffer)?;

        Ok(pack_header.uuid)
    }
}
""", """        write_tail(file, origin_offset)?;

        Ok(pack_header.uuid)
    }
}

fn write_tail<O: InOutStream>(file: &mut O, origin: u64) -> Result<()> {
    file.seek(SeekFrom::Start(origin))?;
    let mut tail = vec![0u8; PackHeader::BLOCK_SIZE];
    file.read_exact(&mut tail)?;
    tail.reverse();
    file.seek(SeekFrom::End(0))?;
    file.write_all(&tail)?;
    Ok(())
}
""")]),
    ("ok-content-pack-get-content", "ok", "C01", [(RCM, """        if !index.is_valid(*self.header.content_count) {
            return Ok(None);
        }
        let content_info = self.content_infos.index(*index)?;
        if !content_info
            .cluster_index
            .is_valid(*self.header.cluster_count)
        {
            return Err(""", """        let header = &self.header;
        if index.into_u32() >= header.content_count.into_u32() {
            return Ok(None);
        }
        let content_info = self.content_infos.index(*index)?;
        let known = content_info.cluster_index.is_valid(*header.cluster_count);
        if !known {
            return Err("""), (RCM, """        let cluster = self.get_cluster(content_info.cluster_index)?;
        Ok(Some(cluster.get_bytes(content_info.blob_index)?))
""", """        self.get_cluster(content_info.cluster_index)?
            .get_bytes(content_info.blob_index)
            .map(Some)
""")]),
    ("ok-content-pack-cluster-inline", "ok", "C07", [(RCM, """    fn _get_cluster(&self, cluster_index: ClusterIdx) -> Result<Arc<Cluster>> {
        let cluster_info = self.cluster_ptrs.index(*cluster_index)?;
        let cluster = self.reader.parse_data_block::<Cluster>(cluster_info)?;
        Ok(Arc::new(cluster))
    }

    fn get_cluster(&self, cluster_index: ClusterIdx) -> Result<Arc<Cluster>> {
        let mut cache = self.cluster_cache.lock().unwrap();
        let cached = cache.try_get_or_insert(cluster_index, || self._get_cluster(cluster_index))?;
        Ok(cached.clone())
    }
""", """    fn load_cluster(&self, cluster_index: ClusterIdx) -> Result<Arc<Cluster>> {
        let info = self.cluster_ptrs.index(*cluster_index)?;
        self.reader.parse_data_block::<Cluster>(info).map(Arc::new)
    }

    fn get_cluster(&self, cluster_index: ClusterIdx) -> Result<Arc<Cluster>> {
        let mut cache = self.cluster_cache.lock().unwrap();
        if let Some(cluster) = cache.get(&cluster_index) {
            return Ok(Arc::clone(cluster));
        }
        let cluster = self.load_cluster(cluster_index)?;
        cache.put(cluster_index, Arc::clone(&cluster));
        Ok(cluster)
    }
""")]),
    ("ok-container-creator-parts", "ok", "C10", [(WCP, """        let pack_offset = self.file.tell();
        std::io::copy(reader, &mut self.file)?;
        let pack_size = self.file.tell() - pack_offset;
        let pack_locator = PackLocator::new(uuid, pack_size, pack_offset);
        self.packs.push(pack_locator);
        Ok(())
""", """        let begin = self.file.tell();
        std::io::copy(reader, &mut self.file)?;
        let end = self.file.tell();
        self.packs.push(PackLocator::new(uuid, end - begin, begin));
        Ok(())
"""), (WCP, """        self.file.rewind()?;
        let mut tail_buffer = [0u8; PackHeader::BLOCK_SIZE];
        self.file.read_exact(&mut tail_buffer)?;
        tail_buffer.reverse();
        self.file.seek(SeekFrom::End(0))?;
        self.file.write_all(&tail_buffer)?;
""", """        let mut tail_buffer = [0u8; PackHeader::BLOCK_SIZE];
        self.file.seek(SeekFrom::Start(0))?;
        self.file.read_exact(&mut tail_buffer)?;
        self.file.seek(SeekFrom::End(0))?;
        let tail: Vec<u8> = tail_buffer.iter().rev().copied().collect();
        self.file.write_all(&tail)?;
""")]),
    ("ok-schema-properties-loop", "ok", "C02", [(WSP, """        let variant = variant_name.map(layout::Property::VariantId);
        variant
            .into_iter()
            .chain(self.0.into_iter().map(|p| p.finalize()))
            .collect()
""", """        let mut properties = Vec::with_capacity(self.0.len() + 1);
        if let Some(name) = variant_name {
            properties.push(layout::Property::VariantId(name));
        }
        for p in self.0 {
            properties.push(p.finalize());
        }
        properties.into_iter().collect()
"""), (WSP, """        self.0.iter_mut().for_each(|p| p.process(entry))
""", """        for p in &mut self.0 {
            p.process(entry);
        }
""")]),
    ("ok-schema-property-magnitude", "ok", "C02", [(SP, """    let magnitude = if v < 0 { !v } else { v };
    magnitude.saturating_mul(2)
""", """    let magnitude = if v >= 0 { v } else { -(v + 1) };
    magnitude.saturating_add(magnitude)
""")]),
    ("ok-schema-property-size-from", "ok", "C02", [(SP, """        match p {
            PropertySize::<T>::Fixed(size) => size,
            PropertySize::<T>::Auto(max) => needed_bytes(max),
        }
""", """        if let PropertySize::<T>::Auto(max) = p {
            return needed_bytes(max);
        }
        let PropertySize::<T>::Fixed(size) = p else {
            unreachable!()
        };
        size
""")]),
    ("ok-schema-property-content", "ok", "C02", [(SP, """                if let Value::Content(c) = entry.value(name).as_ref() {
                    pack_id_counter.process(c.pack_id.into_u16());
                    pack_id_size.process(c.pack_id.into_u16());
                    content_id_size.process(c.content_id.into_u32());
                } else {
                    panic!("Value type doesn't correspond to property");
                }
""", """                let value = entry.value(name);
                let Value::Content(address) = value.as_ref() else {
                    panic!("Value type doesn't correspond to property");
                };
                let pack_id = address.pack_id.into_u16();
                content_id_size.process(address.content_id.into_u32());
                pack_id_size.process(pack_id);
                pack_id_counter.process(pack_id);
""")]),
    # --- layouts, directory headers, slices, stores, clusters: the same behaviour written otherwise
    ("ok-layout-size-helper", "ok", "C02", [(LP, """                (match array_len_size {
                    None => 0,
                    Some(s) => *s as usize as u16,
                }) + *fixed_array_len as u16
                    + match deported_info {
                        None => 0,
                        Some((s, _)) => *s as usize as u16,
                    }
""", """                let len = array_len_size.map_or(0, width);
                let key = deported_info.as_ref().map_or(0, |(s, _)| width(*s));
                len + key + u16::from(*fixed_array_len)
"""), (LP, """impl<PN: PropertyName> Property<PN> {
    pub(crate) fn size""", """fn width(size: ByteSize) -> u16 {
    size as usize as u16
}

impl<PN: PropertyName> Property<PN> {
    pub(crate) fn size"""), (LP, """                (if default.is_some() {
                    0
                } else {
                    *pack_id_size as u16
                }) + *content_id_size as u16
""", """                let pack_size = match default {
                    Some(_) => 0,
                    None => width(*pack_id_size),
                };
                width(*content_id_size) + pack_size
""")]),
    ("ok-layout-uint-flag", "ok", "C02", [(LP, """                let mut key_type = PropType::UnsignedInt as u8;
                key_type += *size as u8 - 1;
                let mut written = match default {
                    None => ser.write_u8(key_type)?,
                    Some(d) => {
                        let mut written = 0;
                        written += ser.write_u8(key_type + 0b0000_1000)?;
                        written += ser.write_usized(*d, *size)?;
                        written
                    }
                };
""", """                let mut key_type = PropType::UnsignedInt as u8 | (*size as u8 - 1);
                if default.is_some() {
                    key_type |= 0b0000_1000;
                }
                let mut written = ser.write_u8(key_type)?;
                if let Some(d) = default {
                    written += ser.write_usized(*d, *size)?;
                }
""")]),
    ("ok-layout-header-helper", "ok", "C02", [(LP, """                let mut key_type = PropType::SignedInt as u8;
                key_type += *size as u8 - 1;
                let mut written = match default {
                    None => ser.write_u8(key_type)?,
                    Some(d) => {
                        let mut written = 0;
                        written += ser.write_u8(key_type + 0b0000_1000)?;
                        written += ser.write_isized(*d, *size)?;
                        written
                    }
                };
""", """                let mut written =
                    write_key_type(PropType::SignedInt, *size as u8 - 1, default.is_some(), ser)?;
                if let Some(d) = default {
                    written += ser.write_isized(*d, *size)?;
                }
"""), (LP, """impl<PN: PropertyName> Property<PN> {
    pub(crate) fn size""", """fn write_key_type(
    prop_type: PropType,
    complement: u8,
    has_default: bool,
    ser: &mut Serializer,
) -> IoResult<usize> {
    let default_flag = u8::from(has_default) << 3;
    ser.write_u8(prop_type as u8 + complement + default_flag)
}

impl<PN: PropertyName> Property<PN> {
    pub(crate) fn size""")]),
    ("ok-layout-array-complement", "ok", "C02", [(LP, """                let key_size = match deported_info {
                    None => 0,
                    Some((s, _)) => *s as usize as u8,
                } << 5;
                written += ser.write_u8(key_size + fixed_array_len)?;
                if let Some((_, store)) = deported_info {
                    written += store.get_idx().unwrap().serialize(ser)?;
                }
""", """                match deported_info {
                    None => written += ser.write_u8(*fixed_array_len)?,
                    Some((key_size, store)) => {
                        let complement = ((*key_size as u8) << 5) | *fixed_array_len;
                        written += ser.write_u8(complement)?;
                        written += store.get_idx().unwrap().serialize(ser)?;
                    }
                }
""")]),
    ("ok-layout-fill-div", "ok", "C02", [(LS, """        let current_size = self.entry_size();
        let mut padding_size = size - current_size;
        while padding_size >= 16 {
            self.0.push(Property::Padding(16));
            padding_size -= 16;
        }
        if padding_size > 0 {
            self.0.push(Property::Padding(padding_size as u8))
        }
""", """        let padding_size = size - self.entry_size();
        for _ in 0..padding_size / 16 {
            self.0.push(Property::Padding(16));
        }
        let rest = padding_size % 16;
        if rest != 0 {
            self.0.push(Property::Padding(rest as u8))
        }
""")]),
    ("ok-layout-size-fold", "ok", "C02", [(LS, """        self.iter().map(|k| k.size()).sum::<u16>()
""", """        let mut size = 0;
        for key in self.0.iter() {
            size += key.size();
        }
        size
""")]),
    ("ok-layout-entry-array-helper", "ok", "C02", [(LS, """                        Value::Array0(a) => {
                            if let Some(array_len_size) = array_len_size {
                                written += ser.write_usized(a.size as u64, *array_len_size)?;
                            }
                            written += ser.write_data(&a.data)?;
                            // Data is truncate at fixed_array_len. We just want to write 0 if data is shorter than fixed_array_len
                            written += ser.write_data(
                                vec![0; *fixed_array_len as usize - a.data.len()].as_slice(),
                            )?;
                            if let Some((key_size, _)) = deported_info {
                                written +=
                                    ser.write_usized(a.value_id.get().into_u64(), *key_size)?;
                            }
                        }
""", """                        Value::Array0(a) => {
                            written += write_array(
                                ser,
                                a.size,
                                &a.data,
                                &a.value_id,
                                *array_len_size,
                                *fixed_array_len,
                                deported_info.as_ref().map(|(key_size, _)| *key_size),
                            )?;
                        }
"""), (LS, """impl<PN: PropertyName + 'static> Properties<PN> {
""", """#[allow(clippy::too_many_arguments)]
fn write_array(
    ser: &mut Serializer,
    size: usize,
    data: &[u8],
    value_id: &crate::creator::ValueHandle,
    array_len_size: Option<ByteSize>,
    fixed_array_len: u8,
    key_size: Option<ByteSize>,
) -> Result<usize> {
    let mut written = 0;
    if let Some(array_len_size) = array_len_size {
        written += ser.write_usized(size as u64, array_len_size)?;
    }
    written += ser.write_data(data)?;
    let padding = vec![0; fixed_array_len as usize - data.len()];
    written += ser.write_data(&padding)?;
    if let Some(key_size) = key_size {
        written += ser.write_usized(value_id.get().into_u64(), key_size)?;
    }
    Ok(written)
}

impl<PN: PropertyName + 'static> Properties<PN> {
""")]),
    ("ok-layout-entry-content-let", "ok", "C02", [(LS, """                } => match entry.value(name).as_ref() {
                    Value::Content(value) => {
                        if let Some(d) = default {
                            assert_eq!(*d, value.pack_id.into_u16());
                        } else {
                            written += ser.write_usized(value.pack_id.into_u64(), *pack_id_size)?;
                        }
                        written +=
                            ser.write_usized(value.content_id.into_u64(), *content_id_size)?;
                    }
""", """                } => match entry.value(name).as_ref() {
                    Value::Content(value) => {
                        let pack_id = value.pack_id.into_u16();
                        match default {
                            Some(d) => assert_eq!(*d, pack_id),
                            None => {
                                written += ser.write_usized(u64::from(pack_id), *pack_id_size)?;
                            }
                        }
                        let content_id = value.content_id.into_u64();
                        written += ser.write_usized(content_id, *content_id_size)?;
                    }
""")]),
    ("ok-directory-header-body", "ok", "C14", [("src/common/headers/directory_pack.rs", """        let mut written = 0;
        written += self.index_ptr_pos.serialize(ser)?;
        written += self.entry_store_ptr_pos.serialize(ser)?;
        written += self.value_store_ptr_pos.serialize(ser)?;
        written += self.index_count.serialize(ser)?;
""", """        let mut written = 0;
        for pos in [
            &self.index_ptr_pos,
            &self.entry_store_ptr_pos,
            &self.value_store_ptr_pos,
        ] {
            written += pos.serialize(ser)?;
        }
        written += self.index_count.serialize(ser)?;
""")]),
    ("ok-directory-header-new", "ok", "C14", [("src/common/headers/directory_pack.rs", """        DirectoryPackHeader {
            index_ptr_pos: indexes.1,
            index_count: indexes.0,
            value_store_ptr_pos: value_stores.1,
            value_store_count: value_stores.0,
            entry_store_ptr_pos: entry_stores.1,
            entry_store_count: entry_stores.0,
            free_data,
        }
""", """        let (index_count, index_ptr_pos) = indexes;
        let (value_store_count, value_store_ptr_pos) = value_stores;
        let (entry_store_count, entry_store_ptr_pos) = entry_stores;
        Self {
            index_ptr_pos,
            entry_store_ptr_pos,
            value_store_ptr_pos,
            index_count,
            entry_store_count,
            value_store_count,
            free_data,
        }
""")]),
    ("ok-manifest-header-padding", "ok", "C14", [("src/common/headers/manifest_pack.rs", """        let mut written = 0;
        written += self.pack_count.serialize(ser)?;
        written += self.value_store_posinfo.serialize(ser)?;
        written += ser.write_data(&[0; 26])?;
        written += self.free_data.serialize(ser)?;
        Ok(written)
""", """        const PADDING: [u8; 26] = [0; 26];
        Ok(self.pack_count.serialize(ser)?
            + self.value_store_posinfo.serialize(ser)?
            + ser.write_data(&PADDING)?
            + self.free_data.serialize(ser)?)
"""), ("src/common/headers/manifest_pack.rs", """        let pack_count = Count::<u16>::parse(parser)?.into();
        let value_store_posinfo = SizedOffset::parse(parser)?;
        parser.skip(26)?;
        let free_data = PackFreeData::parse(parser)?;

        Ok(Self {
            pack_count,
            value_store_posinfo,
            free_data,
        })
""", """        let pack_count: PackCount = Count::<u16>::parse(parser)?.into();
        let value_store_posinfo = SizedOffset::parse(parser)?;
        let _padding = parser.read_slice(26)?;
        let free_data = PackFreeData::parse(parser)?;
        Ok(Self::new(free_data, pack_count, value_store_posinfo))
""")]),
    ("ok-byte-slice-shared", "ok", "C13", [(BSL, """        let region = self.region.cut_rel_asize(offset, ASize::new(size));
        self.source.get_slice(region, BlockCheck::None)
    }
}

impl""", """        self.read_slice(offset, size)
    }
}

impl""")]),
    ("ok-byte-slice-parts", "ok", "C13", [(BSL, """        let region = self.region.cut_rel(offset, size);
        Self {
            source: self.source,
            region,
        }
""", """        Self::new_from_parts(self.source, self.region.cut_rel(offset, size))
"""), (BSL, """        ByteStream::new_from_parts(Arc::clone(self.source), self.region, self.region.begin())
""", """        let region = self.region;
        let source = Arc::clone(self.source);
        ByteStream::new_from_parts(source, region, region.begin())
"""), (BSL, """        let size = self.region.size() - offset.into();
        let size = std::cmp::min(0xFFFF_u64, size.into_u64()) as usize;
        let region = self.region.cut_rel_asize(offset, size.into());
        Ok(SliceParser::new(
            self.source.get_slice(region, BlockCheck::None)?,
            self.region.begin() + offset,
        ))
""", """        let left = (self.region.size() - offset.into()).into_u64();
        let size = if left > 0xFFFF_u64 { 0xFFFF } else { left as usize };
        let region = self.region.cut_rel_asize(offset, size.into());
        let slice = self.source.get_slice(region, BlockCheck::None)?;
        Ok(SliceParser::new(slice, region.begin()))
""")]),
    ("ok-input-file-read-min", "ok", "C01", [(CMOD, """        let size_to_read = std::cmp::min(
            buf.len(),
            (self.len - self.local_position()).try_into().unwrap(),
        );
        let actually_read = self.source.read(&mut buf[..size_to_read])?;
        self.position += actually_read as u64;
        Ok(actually_read)
""", """        let available = self.len - self.local_position();
        let size_to_read = available.min(buf.len() as u64) as usize;
        let (target, _) = buf.split_at_mut(size_to_read);
        let read = self.source.read(target)?;
        self.position += read as u64;
        Ok(read)
""")]),
    ("ok-input-file-range", "ok", "C01", [(CMOD, """        let total_len = source.seek(SeekFrom::End(0))?;
        let size = match size {
            None => total_len - origin,
            Some(s) => s,
        };
        source.seek(SeekFrom::Start(origin))?;
        Ok(Self {
            source,
            position: origin,
            origin,
            len: size,
        })
""", """        let len = if let Some(size) = size {
            size
        } else {
            source.metadata()?.len() - origin
        };
        let position = source.seek(SeekFrom::Start(origin))?;
        Ok(Self {
            source,
            position,
            origin,
            len,
        })
""")]),
    ("ok-index-tail-written", "ok", "C15", [(WM, """        self.store_id.serialize(ser)?;
        self.count.serialize(ser)?;
        self.offset.get().serialize(ser)?;
        self.free_data.serialize(ser)?;
        self.index_key.serialize(ser)?;
        PString::serialize_string(&self.name, ser)?;
        Ok(())
""", """        let Self {
            store_id,
            free_data,
            index_key,
            name,
            count,
            offset,
        } = self;
        let offset = offset.get();
        store_id.serialize(ser)?;
        count.serialize(ser)?;
        offset.serialize(ser)?;
        free_data.serialize(ser)?;
        index_key.serialize(ser)?;
        PString::serialize_string(name.as_str(), ser).map(|_| ())
""")]),
    ("ok-basic-entry-value-find", "ok", "C02", [(WM, """        match self.names.iter().position(|n| n == name) {
            Some(i) => MayRef::Borrowed(&self.values[i]),
            None => panic!("{} should be in entry", name.as_str()),
        }
""", """        for (n, value) in self.names.iter().zip(self.values.iter()) {
            if n == name {
                return MayRef::Borrowed(value);
            }
        }
        panic!("{} should be in entry", name.as_str())
""")]),
    ("ok-transformer-array-helper", "ok", "C02", [(WM, """                            let size = data.len();
                            let (data, to_store) =
                                data.split_at(cmp::min(*fixed_array_len, data.len()));
                            let value_id = store_handle.add_value(to_store);
                            return Some((
                                *name,
                                match data.len() {
                                    0 => Value::Array0(Box::new(ArrayS::<0> {
                                        size,
                                        value_id,
                                        data: data.try_into().unwrap(),
                                    })),
                                    1 => Value::Array1(Box::new(ArrayS::<1> {
                                        size,
                                        value_id,
                                        data: data.try_into().unwrap(),
                                    })),
                                    2 => Value::Array2(Box::new(ArrayS::<2> {
                                        size,
                                        value_id,
                                        data: data.try_into().unwrap(),
                                    })),
                                    _ => Value::Array(Box::new(Array {
                                        size,
                                        data: data.into(),
                                        value_id,
                                    })),
                                },
                            ));
""", """                            return Some((
                                *name,
                                split_array(&data, *fixed_array_len, store_handle),
                            ));
"""), (WM, """impl<PN: PropertyName> Iterator for ValueTransformer<'_, PN> {
""", """/// Keep the first bytes in the entry, store the others.
fn split_array(data: &[u8], fixed_array_len: usize, store: &StoreHandle) -> Value {
    let size = data.len();
    let base_len = if size < fixed_array_len {
        size
    } else {
        fixed_array_len
    };
    let base = &data[..base_len];
    let value_id = store.add_value(&data[base_len..]);
    match base.len() {
        0 => Value::Array0(Box::new(ArrayS {
            size,
            value_id,
            data: [],
        })),
        1 => Value::Array1(Box::new(ArrayS {
            size,
            value_id,
            data: [base[0]],
        })),
        2 => Value::Array2(Box::new(ArrayS {
            size,
            value_id,
            data: [base[0], base[1]],
        })),
        _ => Value::Array(Box::new(Array {
            size,
            data: base.into(),
            value_id,
        })),
    }
}

impl<PN: PropertyName> Iterator for ValueTransformer<'_, PN> {
""")]),
    ("ok-compare-loop-then", "ok", "C03", [(WM, """            match self_value.partial_cmp(&other_value) {
                None => return cmp::Ordering::Greater,
                Some(c) => match c {
                    cmp::Ordering::Less => return cmp::Ordering::Less,
                    cmp::Ordering::Greater => return cmp::Ordering::Greater,
                    cmp::Ordering::Equal => continue,
                },
            }
""", """            let ordering = self_value
                .partial_cmp(&other_value)
                .unwrap_or(cmp::Ordering::Greater);
            if ordering.is_ne() {
                return ordering;
            }
""")]),
    ("ok-plain-finalize-match", "ok", "C16", [(WV, """            if let Some(i) = last_data_key {
                assert_ne!(*data_key, i);
                //let last_data = &self.0.data[i];
                if self.0.data[*data_key].0 == self.0.data[i].0 {
                    // We have a duplicate
                    self.0.data[*data_key].1 = self.0.data[i].1;
                    *data_key = i;
                    continue;
                }
            }
            // No duplicate
            let data = &mut self.0.data[*data_key];
            data.1 = offset;
            offset += data.0.len() as u64;
            last_data_key = Some(*data_key);
""", """            let duplicated =
                last_data_key.filter(|i| self.0.data[*data_key].0 == self.0.data[*i].0);
            match duplicated {
                Some(i) => {
                    let position = self.0.data[i].1;
                    self.0.data[*data_key].1 = position;
                    *data_key = i;
                }
                None => {
                    let (data, position) = &mut self.0.data[*data_key];
                    *position = offset;
                    offset += data.len() as u64;
                    last_data_key = Some(*data_key);
                }
            }
""")]),
    ("ok-plain-write-if", "ok", "C16", [(WV, """            if let Some(i) = last_data_key {
                if *data_key == i {
                    // We have a duplicate
                    // skip
                    continue;
                }
            }
            last_data_key = Some(*data_key);
            serializer.write_data(&self.0.data[*data_key].0)?;
""", """            if last_data_key != Some(*data_key) {
                let (data, _) = &self.0.data[*data_key];
                serializer.write_data(data)?;
                last_data_key = Some(*data_key);
            }
""")]),
    ("ok-indexed-add-shared-search", "ok", "C16", [(WV, """        let potential_idx = if self.0.data.len() >= 1024 {
            self.0
                .data
                .par_iter()
                .position_any(|(existing_data, _)| &data == existing_data)
        } else {
            self.0
                .data
                .iter()
                .position(|(existing_data, _)| &data == existing_data)
        };
        match potential_idx {
            Some(idx) => idx,
            None => {
                self.0.size += data.len();
                self.0.add_value(data)
            }
        }
""", """        let is_same = |(existing_data, _): &(Box<[u8]>, u64)| *existing_data == data;
        let known = if self.0.data.len() < 1024 {
            self.0.data.iter().position(is_same)
        } else {
            self.0.data.par_iter().position_any(is_same)
        };
        if let Some(idx) = known {
            return idx;
        }
        self.0.size += data.len();
        self.0.add_value(data)
""")]),
    ("ok-indexed-tail-early", "ok", "C16", [(WV, """        let mut offset = 0;
        if !self.0.sorted_indirect.is_empty() {
            for idx in &self.0.sorted_indirect[..(self.0.sorted_indirect.len() - 1)] {
                let data = &self.0.data[*idx].0;
                offset += data.len() as u64;
                ser.write_usized(offset, offset_size)?;
            }
        }
        Ok(())
""", """        let Some((_last, others)) = self.0.sorted_indirect.split_last() else {
            return Ok(());
        };
        let mut offset = 0;
        for idx in others {
            offset += self.0.data[*idx].0.len() as u64;
            ser.write_usized(offset, offset_size)?;
        }
        Ok(())
""")]),
    ("ok-handle-get-if", "ok", "C16", [(WV, """        match self.store.take() {
            None => self.idx.get().into(),
            Some(store) => {
                let idx = store.get(self.idx.get() as usize);
                self.idx.set(idx.into_u64());
                idx
            }
        }
    }

    pub fn clone""", """        if let Some(store) = self.store.take() {
            let resolved = store.get(self.idx.get() as usize);
            self.idx.set(resolved.into_u64());
        }
        self.idx.get().into()
    }

    pub fn clone""")]),
    ("ok-store-handle-guard", "ok", "C08", [(WV, """        let idx = self.0.write().unwrap().add_value(data);
        ValueHandle::new(&self.0, idx)
""", """        let mut store = self.0.write().unwrap();
        let idx = store.add_value(data);
        drop(store);
        ValueHandle::new(&self.0, idx)
""")]),
    ("ok-cluster-build-source", "ok", "C07", [(CL, """        let decompress_reader = match self.compression {
            CompressionType::Lz4 => Reader::new_from_arc(
                lz4_source(raw_stream, (self.data_size.into_u64() as usize).into())?,
                self.data_size,
            ),
            CompressionType::Lzma => Reader::new_from_arc(
                lzma_source(raw_stream, (self.data_size.into_u64() as usize).into())?,
                self.data_size,
            ),
            CompressionType::Zstd => Reader::new_from_arc(
                zstd_source(raw_stream, (self.data_size.into_u64() as usize).into())?,
                self.data_size,
            ),
            CompressionType::None => unreachable!(),
        };
        *cluster_reader = ClusterReader::Plain(decompress_reader);
        Ok(())
""", """        let plain_size = ASize::from(self.data_size.into_u64() as usize);
        let source = match self.compression {
            CompressionType::Lz4 => lz4_source(raw_stream, plain_size),
            CompressionType::Lzma => lzma_source(raw_stream, plain_size),
            CompressionType::Zstd => zstd_source(raw_stream, plain_size),
            CompressionType::None => unreachable!(),
        }?;
        *cluster_reader = ClusterReader::Plain(Reader::new_from_arc(source, self.data_size));
        Ok(())
""")]),
    ("ok-cluster-build-match", "ok", "C07", [(CL, """        if let ClusterReader::Plain(_) = *cluster_reader {
            return Ok(());
        };

        let raw_stream = if let ClusterReader::Raw(r) = &*cluster_reader {
            r.create_stream(Offset::zero(), r.size(), false)?
        } else {
            unreachable!()
        };
""", """        let raw_stream = match &*cluster_reader {
            ClusterReader::Plain(_) => return Ok(()),
            ClusterReader::Raw(raw) => raw.create_stream(Offset::zero(), raw.size(), false)?,
        };
""")]),
    ("ok-cluster-get-bytes-window", "ok", "C01", [(CL, """        let offset = self.blob_offsets[index.into_usize()];
        let end_offset = self.blob_offsets[index.into_usize() + 1];
        let size = end_offset - offset;
        if let ClusterReader::Plain(r) = &*self.reader.read().unwrap() {
            Ok(r.get_byte_slice(offset, size).into())
        } else {
            unreachable!()
        }
""", """        let first = index.into_usize();
        let (begin, end) = (self.blob_offsets[first], self.blob_offsets[first + 1]);
        let guard = self.reader.read().unwrap();
        let ClusterReader::Plain(plain) = &*guard else {
            unreachable!()
        };
        let bytes = plain.get_byte_slice(begin, end - begin);
        Ok(bytes.into())
""")]),
    ("ok-cluster-builder-push", "ok", "C01", [(CL, """        let mut blob_offsets: Vec<Offset> = Vec::with_capacity(blob_count + 1);
        let uninit = blob_offsets.spare_capacity_mut();
        let mut first = true;
        for elem in &mut uninit[0..blob_count] {
            let value: Offset = if first {
                first = false;
                Offset::zero()
            } else {
                parser.read_usized(header.offset_size)?.into()
            };
            assert!(value.is_valid(data_size));
            elem.write(value);
        }
        unsafe { blob_offsets.set_len(blob_count) }
        blob_offsets.push(data_size.into());
""", """        let mut blob_offsets: Vec<Offset> = Vec::with_capacity(blob_count + 1);
        for idx in 0..blob_count {
            let value: Offset = if idx == 0 {
                Offset::zero()
            } else {
                parser.read_usized(header.offset_size)?.into()
            };
            assert!(value.is_valid(data_size));
            blob_offsets.push(value);
        }
        blob_offsets.push(data_size.into());
""")]),
    ("ok-cluster-finalize-match", "ok", "C01", [(CL, """        let (cluster_builder, raw_data_size) = intermediate;
        let reader = reader.cut(header_offset - raw_data_size, raw_data_size, false)?;
        let reader = if cluster_builder.compression == CompressionType::None {
            assert_eq!(cluster_builder.data_size, raw_data_size);
            ClusterReader::Plain(reader)
        } else {
            assert!(raw_data_size.into_u64() <= usize::MAX as u64);
            ClusterReader::Raw(reader)
        };
        Ok(Cluster {
            blob_offsets: cluster_builder.blob_offsets,
            data_size: cluster_builder.data_size,
            compression: cluster_builder.compression,
            reader: RwLock::new(reader),
        })
""", """        let (
            ClusterBuilder {
                blob_offsets,
                data_size,
                compression,
            },
            raw_data_size,
        ) = intermediate;
        let data_offset = header_offset - raw_data_size;
        let data = reader.cut(data_offset, raw_data_size, false)?;
        let reader = match compression {
            CompressionType::None => {
                assert_eq!(data_size, raw_data_size);
                ClusterReader::Plain(data)
            }
            _ => {
                assert!(raw_data_size.into_u64() <= usize::MAX as u64);
                ClusterReader::Raw(data)
            }
        };
        let reader = RwLock::new(reader);
        Ok(Self {
            blob_offsets,
            data_size,
            compression,
            reader,
        })
""")]),
    ("ok-value-store-offsets-push", "ok", "C02", [(RVS, """                let uninit = value_offsets.spare_capacity_mut();
                let mut first = true;
                for elem in &mut uninit[0..value_count] {
                    let value: Offset = if first {
                        first = false;
                        Offset::zero()
                    } else {
                        parser.read_usized(offset_size)?.into()
                    };
                    assert!(value.is_valid(data_size));
                    elem.write(value);
                }
                unsafe { value_offsets.set_len(value_count) }
                value_offsets.push(data_size.into());
""", """                if value_count > 0 {
                    value_offsets.push(Offset::zero());
                }
                for _ in 1..value_count {
                    let value: Offset = parser.read_usized(offset_size)?.into();
                    assert!(value.is_valid(data_size));
                    value_offsets.push(value);
                }
                value_offsets.push(data_size.into());
""")]),
    ("ok-lazy-entry-match", "ok", "C02", [(RLZ, """        if self.properties.common.contains(name) {
            self.properties.common.create_value(name, &self.bytes)
        } else {
            self.properties
                .variant_part
                .as_ref()
                .and_then(
                    |AnyVariantBuilder {
                         variant_id_property,
                         variants,
                     }| {
                        let variant_id = match variant_id_property.create(&self.bytes) {
                            Ok(v) => v,
                            Err(e) => return Some(Err(e)),
                        };
                        if variants.len() <= variant_id.into_usize() {
                            None
                        } else {
                            let variant = &variants[variant_id.into_usize()];
                            variant.create_value(name, &self.bytes).transpose()
                        }
                    },
                )
                .transpose()
        }
""", """        let properties = &self.properties;
        if properties.common.contains(name) {
            return properties.common.create_value(name, &self.bytes);
        }
        let Some(variant_part) = &properties.variant_part else {
            return Ok(None);
        };
        let variant_id = variant_part.variant_id_property.create(&self.bytes)?;
        match variant_part.variants.get(variant_id.into_usize()) {
            None => Ok(None),
            Some(variant) => variant.create_value(name, &self.bytes),
        }
""")]),
    ("ok-find-match", "ok", "C03", [(RRG, """                if cmp == Ordering::Less {
                    left = mid + EntryCount::from(1);
                } else if cmp == Ordering::Greater {
                    right = mid;
                } else {
                    return Ok(Some(mid));
                }

                size = right - left;
""", """                match cmp {
                    Ordering::Equal => return Ok(Some(mid)),
                    Ordering::Greater => right = mid,
                    Ordering::Less => left = mid + EntryCount::from(1),
                }
                size = right - left;
""")]),
    ("ok-maymiss-map", "ok", "C11", [("src/reader/missing.rs", """        if let Self::FOUND(x) = self {
            Some(x)
        } else {
            None
        }
""", """        match self {
            Self::MISSING(_) => None,
            Self::FOUND(x) => Some(x),
        }
"""), ("src/reader/missing.rs", """        match self {
            Self::FOUND(Err(e)) => Err(e),
            Self::FOUND(Ok(x)) => Ok(MayMissPack::FOUND(x)),
            Self::MISSING(pack_info) => Ok(MayMissPack::MISSING(pack_info)),
        }
""", """        Ok(match self {
            Self::FOUND(result) => MayMissPack::FOUND(result?),
            Self::MISSING(pack_info) => MayMissPack::MISSING(pack_info),
        })
""")]),
    ("ok-skip-start-first", "ok", "C10", [("src/bases/skip.rs", """        if new_pos < self.skip {
            Err(io::Error::new(
                io::ErrorKind::InvalidInput,
                "You cannot seek before skip",
            ))
        } else {
            Ok(new_pos - self.skip)
        }
""", """        new_pos.checked_sub(self.skip).ok_or_else(|| {
            io::Error::new(
                io::ErrorKind::InvalidInput,
                "You cannot seek before skip",
            )
        })
""")]),
    ("ok-store-sorted-loop", "ok", "C03", [(CES, """            Some(keys) => self
                .entries
                .windows(2)
                .all(|w| w[0].compare(&keys, &w[1]).is_le()),
""", """            Some(keys) => {
                for pair in self.entries.windows(2) {
                    if pair[0].compare(&keys, &pair[1]).is_gt() {
                        return false;
                    }
                }
                true
            }
""")]),
    ("ok-store-set-idx-seq", "ok", "C15", [(CES, """    entries
        .par_iter_mut()
        .enumerate()
        .for_each(|(idx, entry)| entry.set_idx((idx as u32).into()))
""", """    for (idx, entry) in entries.iter_mut().enumerate() {
        let idx = idx as u32;
        entry.set_idx(EntryIdx::from(idx));
    }
""")]),
    ("ok-word-from-handle", "ok", "C15", [(WV, """        let func: Box<dyn Fn() -> u64 + Sync + Send> = match value_handle.store.take() {
            None => {
                let idx = value_handle.idx.get();
                Box::new(move || idx)
            }
            Some(store) => {
                let idx = value_handle.idx.get() as usize;
                Box::new(move || store.get(idx).into_u64())
            }
        };
        func.into()
""", """        let ValueHandle { store, idx } = value_handle;
        let idx = idx.into_inner();
        let func: Box<dyn Fn() -> u64 + Sync + Send> = if let Some(store) = store.into_inner() {
            Box::new(move || store.get(idx as usize).into_u64())
        } else {
            Box::new(move || idx)
        };
        func.into()
""")]),
    ("ok-index-header-order", "ok", "C15", [("src/reader/directory_pack/index.rs", """        let store_id = Idx::<u32>::parse(parser)?.into();
        let entry_count = Count::<u32>::parse(parser)?.into();
        let entry_offset = Idx::<u32>::parse(parser)?.into();
""", """        let store_id = EntryStoreIdx::from(Idx::<u32>::parse(parser)?);
        let entry_count = EntryCount::from(Count::<u32>::parse(parser)?);
        let entry_offset = EntryIdx::from(Idx::<u32>::parse(parser)?);
""")]),
    # --- readers of packs, stores, indexes, base types: the same behaviour written otherwise
    ("ok-reader-cut-source-let", "ok", "C06", [("src/bases/reader.rs", """        let available = self
            .size()
            .into_u64()
            .checked_sub(block_check.size() as u64)
            .and_then(|available| available.checked_sub(offset.into_u64()));
        if available.map_or(true, |available| size.into_u64() > available) {
            return Err(format_error!(
                &format!("Cannot read {size} bytes at {offset} of {}", self.size()),
                self
            ));
        }
        let region""", """        let needed = offset
            .into_u64()
            .checked_add(size.into_u64())
            .and_then(|end| end.checked_add(block_check.size() as u64));
        let fits = match needed {
            Some(needed) => needed <= self.size().into_u64(),
            None => false,
        };
        if !fits {
            return Err(format_error!(
                &format!("Cannot read {size} bytes at {offset} of {}", self.size()),
                self
            ));
        }
        let region""")]),
    ("ok-reader-parse-block-shared", "ok", "C05", [("src/bases/reader.rs", """        let check_reader = self.cut_check(offset, T::SIZE.into(), BlockCheck::None)?;
        check_reader.parse_in::<T>(Offset::zero(), T::SIZE.into())
    }
""", """        self.parse_cut::<T>(offset, T::SIZE.into(), BlockCheck::None)
    }

    fn parse_cut<T: BlockParsable>(
        &self,
        offset: Offset,
        size: ASize,
        check: BlockCheck,
    ) -> Result<T::Output> {
        self.cut_check(offset, size.into(), check)?
            .parse_in::<T>(Offset::zero(), size)
    }
"""), ("src/bases/reader.rs", """        let check_reader = self.cut_check(offset, size.into(), BlockCheck::Crc32)?;
        check_reader.parse_in::<T>(Offset::zero(), size)
""", """        self.parse_cut::<T>(offset, size, BlockCheck::Crc32)
""")]),
    ("ok-reader-data-block", "ok", "C05", [("src/bases/reader.rs", """        let intermediate =
            self.parse_block_in::<T::TailParser>(sized_offset.offset, sized_offset.size)?;
        T::finalize(intermediate, sized_offset.offset, self)
""", """        let SizedOffset { size, offset } = sized_offset;
        let tail = self.parse_block_in::<T::TailParser>(offset, size)?;
        T::finalize(tail, offset, self)
""")]),
    ("ok-check-reader-slice", "ok", "C13", [("src/bases/reader.rs", """        let region = self.region.cut_rel_asize(offset, size);
        let slice = self.source.get_slice(region, BlockCheck::None)?;
        Ok(SliceParser::new(slice, self.region.begin() + offset))
""", """        let slice = self.get_slice(offset, size)?;
        let global_offset = self.region.begin() + offset;
        Ok(SliceParser::new(slice, global_offset))
""")]),
    ("ok-array-reader-index", "ok", "C14", [(BM, """        let offset = u64::from(idx.into_base()) * self.elem_size.into_u64();
        self.reader
            .parse_in::<OutType>(Offset::from(offset), self.elem_size)
""", """        let elem_size = self.elem_size;
        let rank: u64 = idx.into_base().into();
        let offset = Offset::new(elem_size.into_u64() * rank);
        self.reader.parse_in::<OutType>(offset, elem_size)
""")]),
    ("ok-needed-bytes-loop", "ok", "C02", [(BM, """    let mut nb_bytes = 0_usize;
    while val > 0.into() {
        val = val >> 8.into();
        nb_bytes += 1;
    }
    nb_bytes = cmp::max(nb_bytes, 1);
    nb_bytes.try_into().unwrap()
""", """    let mut nb_bytes = 0_usize;
    loop {
        if val <= 0.into() {
            break;
        }
        nb_bytes += 1;
        val = val >> 8.into();
    }
    let nb_bytes = if nb_bytes == 0 { 1 } else { nb_bytes };
    ByteSize::try_from(nb_bytes).unwrap()
""")]),
    ("ok-slice-crc-split", "ok", "C05", [("src/bases/block.rs", """    let data_size = buf.len() - 4;
    let slice = &buf[..data_size];
    let mut digest = CRC.digest();
    digest.update(slice);
    let checksum = digest.finalize();
    let expected_checksum = BE::read_u32(&buf[data_size..]);
    if checksum != expected_checksum {
        let found_checksum = checksum.to_be_bytes();
        return Err(CorruptedFile {
            buf: buf.to_vec(),
            found_checksum,
        }
        .into());
    }
    Ok(())
""", """    let (data, crc) = buf.split_at(buf.len() - 4);
    let expected_checksum = BE::read_u32(crc);
    let checksum = CRC.checksum(data);
    if checksum == expected_checksum {
        return Ok(());
    }
    Err(CorruptedFile {
        buf: buf.to_vec(),
        found_checksum: checksum.to_be_bytes(),
    }
    .into())
""")]),
    ("ok-pack-offsets-if", "ok", "C11", [(MP, """        if self.left != 0 {
            let offset = self.offset;
            self.offset += PackInfo::BLOCK_SIZE;
            self.left -= 1;
            Some(offset)
        } else {
            None
        }
""", """        self.left = self.left.checked_sub(1)?;
        let next = self.offset + PackInfo::BLOCK_SIZE;
        Some(std::mem::replace(&mut self.offset, next))
""")]),
    ("ok-manifest-infos-if", "ok", "C11", [(MP, """            match pack_info.pack_kind {
                PackKind::Directory => directory_pack_info = Some(pack_info),
                _ => {
                    max_id = cmp::max(max_id, pack_info.pack_id.into_u16());
                    pack_infos.push(pack_info);
                }
            }
""", """            if pack_info.pack_kind == PackKind::Directory {
                directory_pack_info = Some(pack_info);
                continue;
            }
            let pack_id = pack_info.pack_id.into_u16();
            if pack_id > max_id {
                max_id = pack_id;
            }
            pack_infos.push(pack_info);
""")]),
    ("ok-check-info-match", "ok", "C04", [(CH, """        if let Some(b3hash) = self.b3hash {
            let mut hasher = blake3::Hasher::new();
            hasher.update_reader(source)?;
            let hash = hasher.finalize();
            Ok(hash == b3hash)
        } else {
            Ok(true)
        }
""", """        let expected = match self.b3hash {
            None => return Ok(true),
            Some(hash) => hash,
        };
        let found = Self::new_blake3(source)?;
        Ok(found.b3hash == Some(expected))
""")]),
    ("ok-check-info-hash-helper", "ok", "C04", [(CH, """            let mut hasher = blake3::Hasher::new();
            hasher.update_reader(source)?;
            let hash = hasher.finalize();
            Ok(hash == b3hash)
""", """            Ok(hash_of(source)? == b3hash)
"""), (CH, """        let mut hasher = blake3::Hasher::new();
        hasher.update_reader(source)?;
        let hash = hasher.finalize();
        Ok(Self { b3hash: Some(hash) })
""", """        hash_of(source).map(|hash| Self { b3hash: Some(hash) })
"""), (CH, """// Pack info size is pack info + 4 bytes of crc32
""", """fn hash_of(source: &mut dyn Read) -> std::io::Result<blake3::Hash> {
    let mut hasher = blake3::Hasher::new();
    hasher.update_reader(source)?;
    Ok(hasher.finalize())
}

// Pack info size is pack info + 4 bytes of crc32
""")]),
    ("ok-check-info-serialize", "ok", "C14", [(CH, """        match self.b3hash {
            None => CheckKind::None.serialize(ser),
            Some(hash) => {
                CheckKind::Blake3.serialize(ser)?;
                ser.write_data(hash.as_bytes())?;
                Ok(33)
            }
        }
""", """        if let Some(hash) = &self.b3hash {
            let kind_size = CheckKind::Blake3.serialize(ser)?;
            let hash_size = ser.write_data(hash.as_bytes())?;
            return Ok(kind_size + hash_size);
        }
        CheckKind::None.serialize(ser)
""")]),
    ("ok-check-stream-zones", "ok", "C04", [(CH, """        let read_size = if offset < self.pack_offset {
            let size = cmp::min(buf.len(), (self.pack_offset - offset) as usize);
            self.source.read(&mut buf[..size])?
        } else if offset >= self.start_safe_zone {
            self.source.read(buf)?
        } else {
            let local_offset = (offset - self.pack_offset) % PACK_INFO_SIZE;
            if local_offset < PACK_INFO_TO_CHECK {
                let size = cmp::min(buf.len(), (PACK_INFO_TO_CHECK - local_offset) as usize);
                self.source.read(&mut buf[..size])?
            } else {
                let size = cmp::min(buf.len(), (PACK_INFO_SIZE - local_offset) as usize);
                let size = self.source.read(&mut buf[..size])?;
                buf[..size].fill(0);
                size
            }
        };
        self.current_offset += read_size as u64;
        Ok(read_size)
""", """        let (max_size, hidden) = if offset >= self.start_safe_zone {
            (buf.len(), false)
        } else if offset < self.pack_offset {
            ((self.pack_offset - offset) as usize, false)
        } else {
            let local_offset = (offset - self.pack_offset) % PACK_INFO_SIZE;
            if local_offset >= PACK_INFO_TO_CHECK {
                ((PACK_INFO_SIZE - local_offset) as usize, true)
            } else {
                ((PACK_INFO_TO_CHECK - local_offset) as usize, false)
            }
        };
        let size = cmp::min(buf.len(), max_size);
        let read_size = self.source.read(&mut buf[..size])?;
        if hidden {
            buf[..read_size].fill(0);
        }
        self.current_offset += read_size as u64;
        Ok(read_size)
""")]),
    ("ok-container-new-loop", "ok", "C12", [(CPR, """        let mut pack_offset = header.pack_locators_pos;
        let mut packs_uuid = Vec::with_capacity(header.pack_count.into_usize());
        let mut packs = HashMap::with_capacity(header.pack_count.into_usize());
        for _idx in header.pack_count {
            let pack_locator = reader.parse_block_at::<PackLocator>(pack_offset)?;
            pack_offset += PackLocator::BLOCK_SIZE;
            let pack_reader = reader.cut(pack_locator.pack_pos, pack_locator.pack_size, false)?;
            packs.insert(pack_locator.uuid, pack_reader);
            packs_uuid.push(pack_locator.uuid);
        }
        Ok(Self { packs_uuid, packs })
""", """        let count = header.pack_count.into_usize();
        let mut packs_uuid = Vec::with_capacity(count);
        let mut packs = HashMap::with_capacity(count);
        for idx in 0..count {
            let pack_offset = header.pack_locators_pos + idx * PackLocator::BLOCK_SIZE;
            let PackLocator {
                uuid,
                pack_size,
                pack_pos,
            } = reader.parse_block_at::<PackLocator>(pack_offset)?;
            packs_uuid.push(uuid);
            packs.insert(uuid, reader.cut(pack_pos, pack_size, false)?);
        }
        Ok(Self { packs_uuid, packs })
""")]),
    ("ok-container-fake-from", "ok", "C12", [(CPR, """        let mut packs_uuid = Vec::with_capacity(1);
        let mut packs = HashMap::with_capacity(1);
        packs.insert(uuid, reader);
        packs_uuid.push(uuid);
        Self { packs_uuid, packs }
""", """        let packs_uuid = vec![uuid];
        let packs = HashMap::from([(uuid, reader)]);
        Self { packs_uuid, packs }
""")]),
    ("ok-container-check-helper", "ok", "C04", [(CPR, """            let pack_header = reader.parse_block_at::<PackHeader>(Offset::zero())?;
            let ok = match pack_header.magic {
                PackKind::Manifest => ManifestPack::new(reader.clone())?.check()?,
                PackKind::Directory => DirectoryPack::new(reader.clone())?.check()?,
                PackKind::Content => ContentPack::new(reader.clone())?.check()?,
                PackKind::Container => todo!(),
            };
            if !ok {
                return Ok(false);
            }
        }
        Ok(true)
    }
""", """            if !Self::check_pack(reader)? {
                return Ok(false);
            }
        }
        Ok(true)
    }

    fn check_pack(reader: &Reader) -> Result<bool> {
        let pack_header = reader.parse_block_at::<PackHeader>(Offset::zero())?;
        let reader = reader.clone();
        match pack_header.magic {
            PackKind::Manifest => ManifestPack::new(reader)?.check(),
            PackKind::Directory => DirectoryPack::new(reader)?.check(),
            PackKind::Content => ContentPack::new(reader)?.check(),
            PackKind::Container => todo!(),
        }
    }
""")]),
    ("ok-container-manifest-if", "ok", "C12", [(CPR, """            if let PackKind::Manifest = pack_header.magic {
                return Ok(Some(reader.clone()));
            }
""", """            match pack_header.magic {
                PackKind::Manifest => return Ok(Some(reader.clone())),
                _ => continue,
            }
""")]),
    ("ok-directory-index-shared", "ok", "C15", [(DP, """        let sized_offset = self.index_ptrs.index(*index_id)?;
        let index_header = self
            .reader
            .parse_block_in::<IndexHeader>(sized_offset.offset, sized_offset.size)?;
        let index = Index::new(index_header);
        Ok(index)
    }
""", """        self.index_header(index_id).map(Index::new)
    }

    fn index_header(&self, index_id: IndexIdx) -> Result<IndexHeader> {
        let SizedOffset { offset, size } = self.index_ptrs.index(*index_id)?;
        self.reader.parse_block_in::<IndexHeader>(offset, size)
    }
"""), (DP, """            let sized_offset = self.index_ptrs.index(*index_id)?;
            let index_header = self
                .reader
                .parse_block_in::<IndexHeader>(sized_offset.offset, sized_offset.size)?;
            if index_header.name.as_str() == index_name {
                let index = Index::new(index_header);
                return Ok(Some(index));
            }
""", """            let index_header = self.index_header(index_id)?;
            if index_header.name.as_str() != index_name {
                continue;
            }
            return Ok(Some(Index::new(index_header)));
""")]),
    ("ok-directory-check-once", "ok", "C04", [(DP, """        if self.check_info.read().unwrap().is_none() {
            let check_info = self.reader.parse_block_in::<CheckInfo>(
                self.pack_header.check_info_pos,
                self.pack_header.check_info_size(),
            )?;
            let mut s_check_info = self.check_info.write().unwrap();
            *s_check_info = Some(check_info);
        }
        let mut check_stream = self.reader.create_stream(
            Offset::zero(),
            Size::from(self.pack_header.check_info_pos),
            false,
        )?;
        Ok(self
            .check_info
            .read()
            .unwrap()
            .unwrap()
            .check(&mut check_stream)?)
""", """        let check_info_pos = self.pack_header.check_info_pos;
        let known = *self.check_info.read().unwrap();
        let check_info = match known {
            Some(check_info) => check_info,
            None => {
                let check_info = self
                    .reader
                    .parse_block_in::<CheckInfo>(check_info_pos, self.pack_header.check_info_size())?;
                *self.check_info.write().unwrap() = Some(check_info);
                check_info
            }
        };
        let mut check_stream =
            self.reader
                .create_stream(Offset::zero(), Size::from(check_info_pos), false)?;
        Ok(check_info.check(&mut check_stream)?)
""")]),
    ("ok-directory-value-map", "ok", "C16", [(DP, """        let sized_offset = self.value_stores_ptrs.index(*id)?;
        Ok(Arc::new(
            self.reader.parse_data_block::<ValueStore>(sized_offset)?,
        ))
""", """        self.value_stores_ptrs
            .index(*id)
            .and_then(|sized_offset| self.reader.parse_data_block::<ValueStore>(sized_offset))
            .map(Arc::new)
""")]),
    ("ok-directory-open-order", "ok", "C14", [(DP, """        let value_stores_ptrs = ArrayReader::new_memory_from_reader(
            &reader,
            header.value_store_ptr_pos,
            *header.value_store_count,
        )?;
        let entry_stores_ptrs = ArrayReader::new_memory_from_reader(
            &reader,
            header.entry_store_ptr_pos,
            *header.entry_store_count,
        )?;
        let index_ptrs = ArrayReader::new_memory_from_reader(
            &reader,
            header.index_ptr_pos,
            *header.index_count,
        )?;
""", """        let DirectoryPackHeader {
            index_ptr_pos,
            entry_store_ptr_pos,
            value_store_ptr_pos,
            index_count,
            entry_store_count,
            value_store_count,
            ..
        } = header;
        let index_ptrs =
            ArrayReader::new_memory_from_reader(&reader, index_ptr_pos, *index_count)?;
        let entry_stores_ptrs =
            ArrayReader::new_memory_from_reader(&reader, entry_store_ptr_pos, *entry_store_count)?;
        let value_stores_ptrs =
            ArrayReader::new_memory_from_reader(&reader, value_store_ptr_pos, *value_store_count)?;
""")]),
    ("ok-entry-store-finalize", "ok", "C05", [(RES, """        let entry_reader = if layout.is_entry_checked {
            let data_size =
                layout.entry_count * (layout.entry_size + BlockCheck::Crc32.size()).into();
            reader.cut(header_offset - data_size, data_size, false)?
        } else {
            let data_size = layout.entry_count * layout.entry_size.into();
            reader
                .cut_check(
                    header_offset - data_size - ASize::from(BlockCheck::Crc32.size()),
                    data_size,
                    BlockCheck::Crc32,
                )?
                .into()
        };
        Ok(EntryStore::Plain(PlainStore {
            layout,
            entry_reader,
        }))
""", """        let crc_size = BlockCheck::Crc32.size();
        let entry_reader = if !layout.is_entry_checked {
            let data_size: Size = layout.entry_count * layout.entry_size.into();
            let data_offset = header_offset - ASize::from(crc_size) - data_size;
            let checked = reader.cut_check(data_offset, data_size, BlockCheck::Crc32)?;
            Reader::from(checked)
        } else {
            let stored_size = layout.entry_size + crc_size;
            let data_size: Size = layout.entry_count * stored_size.into();
            reader.cut(header_offset - data_size, data_size, false)?
        };
        let store = PlainStore {
            layout,
            entry_reader,
        };
        Ok(Self::Plain(store))
""")]),
    ("ok-entry-reader-let", "ok", "C02", [(RES, """        if idx.is_valid(*self.layout.entry_count) {
            Some(self.entry_reader.get_byte_slice(
                Offset::from(self.layout.entry_size.into_u64() * idx.into_u64()),
                self.layout.entry_size.into(),
            ))
        } else {
            None
""", """        if idx.is_valid(*self.layout.entry_count) {
            let entry_size = self.layout.entry_size;
            let offset = Offset::new(idx.into_u64() * entry_size.into_u64());
            let slice = self.entry_reader.get_byte_slice(offset, entry_size.into());
            Some(slice)
        } else {
            None
""")]),
    ("ok-property-compare-match", "ok", "C03", [("src/reader/directory_pack/property_compare.rs", """            let ordering = entry
                .get_value(name)?
                .expect("Name should be in the entry")
                .partial_cmp(value)?
                .expect("Value in the entry correspond to reference value");
            if ordering.is_ne() {
                return Ok(ordering);
            }
        }
        Ok(Ordering::Equal)
""", """            let raw_value = entry
                .get_value(name)?
                .expect("Name should be in the entry");
            match raw_value.partial_cmp(value)? {
                Some(Ordering::Equal) => {}
                Some(different) => return Ok(different),
                None => panic!("Value in the entry correspond to reference value"),
            }
        }
        Ok(Ordering::Equal)
""")]),
    ("ok-cluster-add-size", "ok", "C01", [("src/creator/content_pack/cluster.rs", """        let content_size = content.size();
        let idx = self.offsets.len() as u16;
        let new_offset = self.offsets.last().unwrap_or(&0) + content_size.into_u64();
        self.data.push(content);
        self.offsets.push(new_offset);
        Ok(ContentInfo::new(self.index, BlobIdx::from(idx)))
""", """        let blob = BlobIdx::from(self.offsets.len() as u16);
        let end = self.data_size() + content.size();
        self.offsets.push(end.into_u64());
        self.data.push(content);
        Ok(ContentInfo::new(self.index, blob))
""")]),
    ("ok-cluster-full-match", "ok", "C08", [("src/creator/content_pack/cluster.rs", """        if self.offsets.len() == MAX_BLOBS_PER_CLUSTER {
            return true;
        }
        self.compressed && !self.offsets.is_empty() && self.data_size() + size > CLUSTER_SIZE
""", """        let blob_count = self.offsets.len();
        match blob_count {
            MAX_BLOBS_PER_CLUSTER => true,
            0 => false,
            _ => self.compressed && self.data_size() + size > CLUSTER_SIZE,
        }
""")]),
    ("ok-cached-adder-get", "ok", "C16", [("src/creator/content_pack/mod.rs", """        match self.cache.entry(hash) {
            Entry::Vacant(e) => {
                let content_address = self.content_pack.add_content(reader, comp_hint)?;
                e.insert(content_address);
                Ok(content_address)
            }
            Entry::Occupied(e) => {
                self.progress.cached_data(reader.size());
                Ok(*e.get())
            }
        }
""", """        if let Some(content_address) = self.cache.get(&hash) {
            self.progress.cached_data(reader.size());
            return Ok(*content_address);
        }
        let content_address = self.content_pack.add_content(reader, comp_hint)?;
        self.cache.insert(hash, content_address);
        Ok(content_address)
"""), ("src/creator/content_pack/mod.rs", "use std::collections::{hash_map::Entry, HashMap};", "use std::collections::HashMap;")]),
    ("ok-cached-adder-hash", "ok", "C16", [("src/creator/content_pack/mod.rs", """        let mut hasher = blake3::Hasher::new();
        reader.rewind()?;
        if reader.size() < cluster::CLUSTER_SIZE {
            let mut buf = Vec::with_capacity(reader.size().into_u64() as usize);
            reader.read_to_end(&mut buf)?;
            hasher.update(&buf);
            let hash = hasher.finalize();
            self.cache_content(hash, Box::new(Cursor::new(buf)), comp_hint)
        } else {
            hasher.update_reader(&mut reader)?;
            reader.rewind()?;
            let hash = hasher.finalize();
            self.cache_content(hash, reader, comp_hint)
        }
""", """        reader.rewind()?;
        let size = reader.size();
        if size >= cluster::CLUSTER_SIZE {
            let mut hasher = blake3::Hasher::new();
            hasher.update_reader(&mut reader)?;
            let hash = hasher.finalize();
            reader.rewind()?;
            return self.cache_content(hash, reader, comp_hint);
        }
        let mut buf = Vec::with_capacity(size.into_u64() as usize);
        reader.read_to_end(&mut buf)?;
        let hash = blake3::hash(&buf);
        let reader: Box<dyn InputReader> = Box::new(Cursor::new(buf));
        self.cache_content(hash, reader, comp_hint)
""")]),
    ("ok-size-from-map", "ok", "C14", [("src/bases/types/size.rs", """        Ok(parser.read_u64()?.into())
""", """        parser.read_u64().map(Self::new)
"""), ("src/bases/types/offset.rs", """        Ok(parser.read_u64()?.into())
""", """        let value = parser.read_u64()?;
        Ok(Self(value))
"""), ("src/bases/types/offset.rs", """        self.0 <= s.into_u64()
""", """        !(s.into_u64() < self.0)
""")]),
    ("ok-idx-valid", "ok", "C02", [("src/bases/types/idx.rs", """        self.0 < s.into_base()
""", """        let count = s.into_base();
        count > self.0
""")]),
    # ---- fifth batch of refactorings
    ("ok-region-cut-named", "ok", "C13", [("src/reader/byte_region.rs", """    pub fn cut(&self, offset: Offset, size: Size) -> ByteSlice {
        let region = self.region.cut_rel(offset, size);
        ByteSlice {
            source: &self.source,
            region,
        }
    }
""", """    pub fn cut(&self, offset: Offset, size: Size) -> ByteSlice {
        let mut slice = self.as_slice();
        slice.region = self.region.cut_rel(offset, size);
        slice
    }
"""), ("src/reader/byte_region.rs", """        let region = self.region.cut_rel_asize(offset, ASize::new(size));
        self.source.get_slice(region, BlockCheck::None)
    }
}

impl From<""", """        self.read_slice(offset, size)
    }
}

impl From<""")]),
    ("ok-region-parser-if", "ok", "C13", [("src/reader/byte_region.rs", """        let size = self.region.size() - offset.into();
        let size = std::cmp::min(0xFFFF_u64, size.into_u64()) as usize;
        let region = self.region.cut_rel_asize(offset, size.into());
        Ok(SliceParser::new(
            self.source.get_slice(region, BlockCheck::None)?,
            self.region.begin() + offset,
        ))
""", """        let left = (self.region.size() - offset.into()).into_u64();
        let size = if left < 0xFFFF { left as usize } else { 0xFFFF };
        let slice = self.get_slice(offset, size)?;
        let global = self.region.begin() + offset;
        Ok(SliceParser::new(slice, global))
""")]),
    ("ok-region-from-destructured", "ok", "C13", [("src/reader/byte_region.rs", """        Self {
            source: Arc::clone(byte_slice.source),
            region: byte_slice.region,
        }
""", """        let ByteSlice { source, region } = byte_slice;
        let source = source.clone();
        Self { source, region }
""")]),
    ("ok-stream-read-map", "ok", "C13", [("src/reader/byte_stream.rs", """        let max_len = std::cmp::min(
            buf.len() as u64,
            (self.region.end() - self.offset).into_u64(),
        ) as usize;
        let buf = &mut buf[..max_len];
        match self.source.read(self.offset, buf) {
            Ok(s) => {
                self.offset += s;
                Ok(s)
            }
            Err(e) => Err(std::io::Error::new(std::io::ErrorKind::Other, e)),
        }
""", """        let max_len = self.size_left().min(buf.len() as u64) as usize;
        let (buf, _rest) = buf.split_at_mut(max_len);
        let read = self
            .source
            .read(self.offset, buf)
            .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
        self.offset += read;
        Ok(read)
""")]),
    ("ok-stream-from-region", "ok", "C13", [("src/reader/byte_stream.rs", """        Self::new_from_parts(bregion.source, bregion.region, bregion.region.begin())
""", """        let ByteRegion { source, region } = bregion;
        let offset = region.begin();
        Self {
            source,
            region,
            offset,
        }
""")]),
    ("ok-buffer-read-exact", "ok", "C13", [("src/bases/io/buffer.rs", """        let o = offset.force_into_usize();
        let e = o + buf.len();
        let our_size = self.as_ref().len();
        if e > our_size {
            return Err(std::io::Error::new(
                std::io::ErrorKind::UnexpectedEof,
                format!("Out of slice. {e} ({o}) > {our_size}"),
            ));
        }
        buf.copy_from_slice(&self.as_ref()[o..e]);
        Ok(())
""", """        let start = offset.force_into_usize();
        let bytes = self.as_ref();
        let end = start + buf.len();
        if end <= bytes.len() {
            buf.copy_from_slice(&bytes[start..end]);
            Ok(())
        } else {
            Err(std::io::Error::new(
                std::io::ErrorKind::UnexpectedEof,
                "Out of slice",
            ))
        }
""")]),
    ("ok-buffer-get-slice", "ok", "C05", [("src/bases/io/buffer.rs", """        if let BlockCheck::Crc32 = block_check {
            let full_slice = &self.as_ref()[region.begin().force_into_usize()
                ..region.end().force_into_usize() + BlockCheck::Crc32.size()];
            assert_slice_crc(full_slice)?;
        }
        let slice =
            &self.as_ref()[region.begin().force_into_usize()..region.end().force_into_usize()];
        Ok(Cow::Borrowed(slice))
""", """        let begin = region.begin().force_into_usize();
        let end = region.end().force_into_usize();
        let bytes = self.as_ref();
        match block_check {
            BlockCheck::Crc32 => assert_slice_crc(&bytes[begin..end + block_check.size()])?,
            BlockCheck::None => {}
        }
        Ok(Cow::Borrowed(&bytes[begin..end]))
""")]),
    ("ok-raw-property-ca", "ok", "C02", [("src/reader/directory_pack/raw_layout.rs", """                (
                    content_id_size
                        + if default_pack_id.is_some() {
                            0
                        } else {
                            pack_id_size as u16
                        },
                    PropertyKind::ContentAddress {
""", """                let mut propsize = content_id_size;
                if default_pack_id.is_none() {
                    propsize += pack_id_size as u16;
                }
                (
                    propsize,
                    PropertyKind::ContentAddress {
""")]),
    ("ok-raw-property-int", "ok", "C02", [("src/reader/directory_pack/raw_layout.rs", """                let default_value = (propdata & 0b1000) != 0;
                let int_size = ByteSize::try_from((propdata & 0x07) as usize + 1).unwrap();
                if default_value {
                    (
                        0,
                        if proptype == PropType::UnsignedInt {
                            PropertyKind::UnsignedInt {
                                int_size,
                                default: Some(parser.read_usized(int_size)?),
                            }
                        } else {
                            PropertyKind::SignedInt {
                                int_size,
                                default: Some(parser.read_isized(int_size)?),
                            }
                        },
                        PString::parse(parser)?,
                    )
                } else {
                    (
                        (int_size as usize) as u16,
                        if proptype == PropType::UnsignedInt {
                            PropertyKind::UnsignedInt {
                                int_size,
                                default: None,
                            }
                        } else {
                            PropertyKind::SignedInt {
                                int_size,
                                default: None,
                            }
                        },
                        PString::parse(parser)?,
                    )
                }
""", """                let has_default = (propdata & 0b1000) != 0;
                let int_size = ByteSize::try_from((propdata & 0x07) as usize + 1).unwrap();
                let kind = if proptype == PropType::UnsignedInt {
                    let default = if has_default {
                        Some(parser.read_usized(int_size)?)
                    } else {
                        None
                    };
                    PropertyKind::UnsignedInt { int_size, default }
                } else {
                    let default = if has_default {
                        Some(parser.read_isized(int_size)?)
                    } else {
                        None
                    };
                    PropertyKind::SignedInt { int_size, default }
                };
                let size = if has_default { 0 } else { int_size as usize as u16 };
                (size, kind, PString::parse(parser)?)
""")]),
    ("ok-raw-property-array", "ok", "C02", [("src/reader/directory_pack/raw_layout.rs", """                        match array_len_size {
                            None => 0,
                            Some(s) => s as usize as u16,
                        } + fixed_array_len as u16
                            + key_size as u16,
""", """                        array_len_size.map_or(0, |s| s as usize as u16)
                            + fixed_array_len as u16
                            + key_size as u16,
"""), ("src/reader/directory_pack/raw_layout.rs", """                let array_len_size = propdata & 0b0011;
                let array_len_size = if array_len_size != 0 {
                    Some(ByteSize::try_from(array_len_size as usize).unwrap())
                } else {
                    None
                };
""", """                let array_len_size = match propdata & 0b0011 {
                    0 => None,
                    n => Some(ByteSize::try_from(n as usize).unwrap()),
                };
""")]),
    ("ok-index-header-inline", "ok", "C02", [("src/reader/directory_pack/index.rs", """        let store_id = Idx::<u32>::parse(parser)?.into();
        let entry_count = Count::<u32>::parse(parser)?.into();
        let entry_offset = Idx::<u32>::parse(parser)?.into();
        let free_data = IndexFreeData::parse(parser)?;
        let index_property = parser.read_u8()?;
        let name = PString::parse(parser)?;
        Ok(Self {
            store_id,
            entry_count,
            entry_offset,
            free_data,
            index_property,
            name,
        })
""", """        Ok(Self {
            store_id: EntryStoreIdx::from(parser.read_u32()?),
            entry_count: EntryCount::from(parser.read_u32()?),
            entry_offset: EntryIdx::from(parser.read_u32()?),
            free_data: IndexFreeData::parse(parser)?,
            index_property: parser.read_u8()?,
            name: PString::parse(parser)?,
        })
""")]),
    ("ok-index-get-store", "ok", "C02", [("src/reader/directory_pack/index.rs", """        Ok(Arc::clone(
            entry_storage.get_entry_store(self.header.store_id)?,
        ))
""", """        let store = entry_storage.get_entry_store(self.get_store_id())?;
        Ok(store.clone())
"""), ("src/reader/directory_pack/index.rs", """        Self::new_from_size(index.offset(), index.count())
""", """        let IndexHeader { entry_offset, entry_count, .. } = index.header;
        Self::new_from_size(entry_offset, entry_count)
""")]),
    ("ok-manifest-free-map", "ok", "C10", [("src/creator/manifest_pack.rs", """        for (pack_data, _locator) in &self.packs {
            let free_data_id = self.value_store.add_value(pack_data.free_data.to_vec());
            free_data_ids.push(free_data_id);
        }
""", """        for pack in self.packs.iter() {
            free_data_ids.push(self.value_store.add_value(pack.0.free_data.to_vec()));
        }
""")]),
    ("ok-manifest-check-info", "ok", "C04", [("src/creator/manifest_pack.rs", """            let check_info_pos = file.stream_position()? - origin_offset;
            file.ser_write(&pack_data.check_info)?;
            let check_info_size = file.stream_position()? - origin_offset - check_info_pos;
            let check_info_size: usize = check_info_size.try_into().unwrap();
""", """            let before = file.stream_position()?;
            file.ser_write(&pack_data.check_info)?;
            let after = file.stream_position()?;
            let check_info_pos = before - origin_offset;
            let check_info_size = (after - before) as usize;
""")]),
    ("ok-manifest-sizes", "ok", "C10", [("src/creator/manifest_pack.rs", """        let check_offset = file.stream_position()? - origin_offset;
        let pack_size: Size = (check_offset
            + CheckKind::Blake3.block_size().into_u64()
            + PackHeader::BLOCK_SIZE as u64)
            .into();

        file.seek(SeekFrom::Start(origin_offset))?;

        let pack_header = PackHeader::new(
            PackKind::Manifest,
            PackHeaderInfo::new(self.app_vendor_id, pack_size, check_offset.into()),
        );
        file.ser_write(&pack_header)?;
        let header = ManifestPackHeader::new(self.free_data, nb_packs.into(), value_store_pos);
        file.ser_write(&header)?;
""", """        let check_offset = file.stream_position()? - origin_offset;
        let tail_size = CheckKind::Blake3.block_size().into_u64() + PackHeader::BLOCK_SIZE as u64;
        let pack_size = Size::new(check_offset + tail_size);
        let header_info =
            PackHeaderInfo::new(self.app_vendor_id, pack_size, Offset::new(check_offset));
        let pack_header = PackHeader::new(PackKind::Manifest, header_info);
        let header = ManifestPackHeader::new(self.free_data, nb_packs.into(), value_store_pos);

        file.seek(SeekFrom::Start(origin_offset))?;
        file.ser_write(&pack_header)?;
        file.ser_write(&header)?;
""")]),
    ("ok-tools-concat-flat", "ok", "C12", [("src/tools.rs", """        for (uuid, reader) in in_container.iter() {
            container.add_pack(
                *uuid,
                &mut reader.create_stream(Offset::zero(), reader.size(), false)?,
            )?;
        }
    }

    container.finalize()?;
    Ok(())
""", """        for (uuid, reader) in in_container.iter() {
            let size = reader.size();
            let mut stream = reader.create_stream(Offset::zero(), size, false)?;
            container.add_pack(*uuid, &mut stream)?;
        }
    }

    container.finalize().map(|_| ()).map_err(Into::into)
""")]),
    ("ok-tools-open-if", "ok", "C07", [("src/tools.rs", """    Ok(match pack_header.magic {
        jbk::common::PackKind::Container => ContainerPack::new(reader)?,
        _ => ContainerPack::new_fake(reader, pack_header.uuid),
    })
""", """    if matches!(pack_header.magic, PackKind::Container) {
        return ContainerPack::new(reader);
    }
    Ok(ContainerPack::new_fake(reader, pack_header.uuid))
""")]),
    ("ok-set-location-let", "ok", "C12", [("src/tools.rs", """    let manifest_pack_reader = container.get_manifest_pack_reader()?;
    if manifest_pack_reader.is_none() {
        return Err(format_error!(format!(
            "No manifest pack in {}",
            filename.as_ref().display()
        )));
    };
    let manifest_pack_reader = manifest_pack_reader.unwrap();
""", """    let Some(manifest_pack_reader) = container.get_manifest_pack_reader()? else {
        return Err(format_error!(format!(
            "No manifest pack in {}",
            filename.as_ref().display()
        )));
    };
"""), ("src/tools.rs", """        let old_location = pack_info.pack_location.to_owned();

        let global_pack_offset =
            pack_offset.into_u64() + manifest_pack_reader.global_offset().into_u64();
        pack_info.pack_location = new_location;
""", """        let old_location = std::mem::replace(&mut pack_info.pack_location, new_location);
        let global_pack_offset =
            (manifest_pack_reader.global_offset() + pack_offset).into_u64();
""")]),
    ("ok-set-location-if", "ok", "C12", [("src/tools.rs", """        if pack_info.uuid != uuid {
            continue;
        }

        let old_location = pack_info.pack_location.to_owned();

        let global_pack_offset =
            pack_offset.into_u64() + manifest_pack_reader.global_offset().into_u64();
        pack_info.pack_location = new_location;
        // We can safely reopen the filename here as either we have opened a container or a manifest,
        // it is the same file we have actually open and read.
        // Assuming it has not being changed by OS.
        let mut file = std::fs::OpenOptions::new().write(true).open(&filename)?;
        file.seek(SeekFrom::Start(global_pack_offset))?;
        file.ser_write(&pack_info)?;

        return Ok(Some((pack_info.pack_kind, old_location)));
    }
""", """        if pack_info.uuid == uuid {
            let kind = pack_info.pack_kind;
            let old_location = pack_info.pack_location.clone();
            pack_info.pack_location = new_location;
            let base = manifest_pack_reader.global_offset().into_u64();
            let mut file = std::fs::OpenOptions::new().write(true).open(&filename)?;
            file.seek(SeekFrom::Start(base + pack_offset.into_u64()))?;
            file.ser_write(&pack_info)?;
            return Ok(Some((kind, old_location)));
        }
    }
""")]),
    ("ok-dir-create-ptrs", "ok", "C02", [("src/creator/directory_pack/directory_pack.rs", """        let mut indexes_offsets = vec![];
        for index in &mut self.indexes {
            indexes_offsets.push(index.write(&mut buffered)?);
        }
""", """        let mut indexes_offsets = Vec::with_capacity(self.indexes.len());
        for index in self.indexes.iter_mut() {
            let offset = index.write(&mut buffered)?;
            indexes_offsets.push(offset);
        }
"""), ("src/creator/directory_pack/directory_pack.rs", """        let mut entry_stores_offsets = vec![];
        for mut entry_store in self.entry_stores {
            entry_stores_offsets.push(entry_store.write(&mut buffered)?);
        }
""", """        let mut entry_stores_offsets = vec![];
        for entry_store in self.entry_stores.iter_mut() {
            entry_stores_offsets.push(entry_store.write(&mut buffered)?);
        }
""")]),
    ("ok-dir-create-sort", "ok", "C15", [("src/creator/directory_pack/directory_pack.rs", """        for entry_store in &mut self.entry_stores {
            entry_store.sort();
        }
        let mut watchdog = 50;
        while !self.entry_stores.iter().all(|e| e.is_sorted()) {
            for entry_store in &mut self.entry_stores {
                entry_store.sort();
            }
            watchdog -= 1;
            if watchdog == 0 {
                panic!("Cannot sort entry stores");
            }
        }
""", """        self.entry_stores.iter_mut().for_each(|s| s.sort());
        let mut watchdog = 50;
        while self.entry_stores.iter().any(|e| !e.is_sorted()) {
            self.entry_stores.iter_mut().for_each(|s| s.sort());
            watchdog -= 1;
            assert!(watchdog != 0, "Cannot sort entry stores");
        }
""")]),
    ("ok-dir-create-finalize-loop", "ok", "C15", [("src/creator/directory_pack/directory_pack.rs", """        let finalized_entry_stores: Vec<Box<dyn WritableTell>> = self
            .entry_stores
            .into_iter()
            .map(|e| e.finalize())
            .collect();
""", """        let mut finalized_entry_stores: Vec<Box<dyn WritableTell>> = vec![];
        for entry_store in self.entry_stores {
            finalized_entry_stores.push(entry_store.finalize());
        }
"""), ("src/creator/directory_pack/directory_pack.rs", """        for (idx, value_store) in &mut self.value_stores.iter().enumerate() {
            value_store.finalize(ValueStoreIdx::from(idx as u8));
        }
""", """        let mut idx = 0u8;
        for value_store in &self.value_stores {
            value_store.finalize(idx.into());
            idx = idx.wrapping_add(1);
        }
""")]),
    ("ok-basic-locators-let", "ok", "C10", [("src/creator/basic_creator.rs", """        manifest_creator.add_pack(directory_pack_info, relative_locator(directory_locator)?);
        manifest_creator.add_pack(content_pack_info, relative_locator(content_locator)?);
""", """        let directory_locator = relative_locator(directory_locator)?;
        let content_locator = relative_locator(content_locator)?;
        manifest_creator.add_pack(directory_pack_info, directory_locator);
        manifest_creator.add_pack(content_pack_info, content_locator);
"""), ("src/creator/basic_creator.rs", """        let extra_locators = extra_content_pack_creators
            .into_iter()
            .map(|extra_creator| {
                let (extra_pack_file, extra_pack_info) = extra_creator.finalize()?;
                let extra_path = extra_pack_file.close_file()?;
                Ok::<_, Error>((extra_pack_info, extra_path))
            })
            .collect::<Result<Vec<_>>>()?;
""", """        let mut extra_locators = Vec::with_capacity(extra_content_pack_creators.len());
        for extra_creator in extra_content_pack_creators {
            let (extra_pack_file, extra_pack_info) = extra_creator.finalize()?;
            let extra_path = extra_pack_file.close_file()?;
            extra_locators.push((extra_pack_info, extra_path));
        }
""")]),
    ("ok-basic-end-if-let", "ok", "C08", [("src/creator/basic_creator.rs", """        match container.take() {
            Some(inner_container) => {
                let mut infile = inner_container.into_file()?;
                let manifest_uuid = manifest_creator.finalize(&mut infile)?;
                container = Some(infile.close(manifest_uuid)?);
            }
            None => {
                // Write manifest in its own file
                let mut atomic_tmp_file = AtomicOutFile::new(&self.outpath)?;
                manifest_creator.finalize(&mut atomic_tmp_file)?;
                atomic_tmp_file.close_file()?;
            }
        }

        if let Some(container) = container {
            // We have a container not closed (and not persisted)
            let container_file = container.finalize()?;
            container_file.close_file()?;
        }

        Ok(())
""", """        if let Some(inner_container) = container {
            let mut infile = inner_container.into_file()?;
            let manifest_uuid = manifest_creator.finalize(&mut infile)?;
            let container_file = infile.close(manifest_uuid)?.finalize()?;
            container_file.close_file()?;
        } else {
            // Write manifest in its own file
            let mut manifest_file = AtomicOutFile::new(&self.outpath)?;
            manifest_creator.finalize(&mut manifest_file)?;
            manifest_file.close_file()?;
        }

        Ok(())
""")]),
    ("ok-content-slot-match", "ok", "C01", [("src/creator/content_pack/creator.rs", """        if let Some(cluster) = open_cluster_ref!(self, compressed).as_ref() {
            if cluster.is_full(size) {
                let new_cluster = self.open_cluster(compressed);
                open_cluster_ref!(mut self, compressed).replace(new_cluster)
            } else {
                None
            }
        } else {
            let new_cluster = self.open_cluster(compressed);
            open_cluster_ref!(mut self, compressed).replace(new_cluster)
        }
""", """        let has_room = match open_cluster_ref!(self, compressed) {
            Some(cluster) => !cluster.is_full(size),
            None => false,
        };
        if has_room {
            return None;
        }
        let new_cluster = self.open_cluster(compressed);
        open_cluster_ref!(mut self, compressed).replace(new_cluster)
""")]),
    ("ok-content-cluster-id", "ok", "C09", [("src/creator/content_pack/creator.rs", """        let cluster_id = self.next_cluster_id.replace(self.next_cluster_id.get() + 1);
        self.progress.new_cluster(cluster_id, compressed);
""", """        let cluster_id = self.next_cluster_id.get();
        self.next_cluster_id.set(cluster_id + 1);
        self.progress.new_cluster(cluster_id, compressed);
""")]),
    ("ok-content-id-before", "ok", "C01", [("src/creator/content_pack/creator.rs", """        let content_info = cluster.add_content(content)?;
        self.content_infos.push(content_info);
        let content_id = ((self.content_infos.len() - 1) as u32).into();
        Ok(ContentAddress::new(self.pack_id, content_id))
""", """        let content_info = cluster.add_content(content)?;
        let content_id = self.content_infos.len() as u32;
        self.content_infos.push(content_info);
        Ok(ContentAddress::new(self.pack_id, content_id.into()))
""")]),
    ("ok-content-finalize-filter", "ok", "C01", [("src/creator/content_pack/creator.rs", """        if let Some(cluster) = self.raw_open_cluster.take() {
            if !cluster.is_empty() {
                self.cluster_writer.write_cluster(cluster, false)?;
            }
        }
        if let Some(cluster) = self.comp_open_cluster.take() {
            if !cluster.is_empty() {
                self.cluster_writer.write_cluster(cluster, true)?;
            }
        }
""", """        if let Some(cluster) = self.raw_open_cluster.take().filter(|c| !c.is_empty()) {
            self.cluster_writer.write_cluster(cluster, false)?;
        }
        match self.comp_open_cluster.take() {
            Some(cluster) if !cluster.is_empty() => {
                self.cluster_writer.write_cluster(cluster, true)?
            }
            _ => {}
        }
""")]),
    ("ok-content-detect-order", "ok", "C16", [("src/creator/content_pack/creator.rs", """        if let Compression::None = self.compression {
            return Ok(false);
        }
        match comp_hint {
            CompHint::Yes => Ok(true),
            CompHint::No => Ok(false),
            CompHint::Detect => {
                let mut head = Vec::with_capacity(4 * 1024);
                {
                    content.take(4 * 1024).read_to_end(&mut head)?;
                }
                let entropy = shannon_entropy(&head);
                content.seek(SeekFrom::Start(0))?;
                Ok(entropy <= 6.0)
            }
        }
""", """        Ok(match (self.compression, comp_hint) {
            (Compression::None, _) | (_, CompHint::No) => false,
            (_, CompHint::Yes) => true,
            (_, CompHint::Detect) => {
                let mut head = Vec::with_capacity(4 * 1024);
                content.take(4 * 1024).read_to_end(&mut head)?;
                content.rewind()?;
                shannon_entropy(&head) <= 6.0
            }
        })
""")]),
    ("ok-content-info-bits", "ok", "C14", [("src/common/content_info.rs", """        let data = (self.cluster_index.into_u32() << 12) + (self.blob_index.into_u32() & 0xFFF_u32);
        ser.write_u32(data)
""", """        let blob = self.blob_index.into_u32() % 0x1000;
        let cluster = self.cluster_index.into_u32();
        ser.write_u32((cluster << 12) | blob)
"""), ("src/common/content_info.rs", """        let blob_index = (v & 0xFFF) as u16;
        let cluster_index = v >> 12;
        Ok(Self {
            cluster_index: cluster_index.into(),
            blob_index: blob_index.into(),
        })
""", """        let (cluster_index, blob_index) = (v / 0x1000, v % 0x1000);
        Ok(Self::new(cluster_index.into(), (blob_index as u16).into()))
""")]),
    ("ok-locator-serialize", "ok", "C14", [("src/common/pack_locator.rs", """        let mut written = 0;
        written += self.uuid.serialize(ser)?;
        written += self.pack_size.serialize(ser)?;
        written += self.pack_pos.serialize(ser)?;
        Ok(written)
""", """        let Self {
            uuid,
            pack_size,
            pack_pos,
        } = self;
        let written = uuid.serialize(ser)? + pack_size.serialize(ser)?;
        Ok(written + pack_pos.serialize(ser)?)
"""), ("src/common/pack_locator.rs", """        let uuid = Uuid::parse(parser)?;
        let pack_size = Size::parse(parser)?;
        let pack_pos = Offset::parse(parser)?;
        Ok(Self {
            uuid,
            pack_size,
            pack_pos,
        })
""", """        let (uuid, pack_size) = (Uuid::parse(parser)?, Size::parse(parser)?);
        Offset::parse(parser).map(|pack_pos| Self::new(uuid, pack_size, pack_pos))
""")]),
    ("ok-small-string-map", "ok", "C12", [("src/bases/types/small_string.rs", """        match std::str::from_utf8(buf.as_ref()) {
            Ok(_) => Ok(Self(buf)),
            Err(e) => Err(e),
        }
""", """        std::str::from_utf8(&buf)?;
        Ok(Self(buf))
"""), ("src/bases/types/small_string.rs", """        match std::str::from_utf8(buf) {
            Ok(_) => Ok(Self(buf.into())),
            Err(e) => Err(e),
        }
""", """        std::str::from_utf8(buf).map(Self::from)
""")]),
    ("ok-rlayout-push-first", "ok", "C02", [("src/reader/directory_pack/layout/mod.rs", """        while let Some(raw_property) = property_iter.next_if(|p| !p.is_variant_id()) {
            common_size += raw_property.size;
            common_properties.push(raw_property);
        }
""", """        while let Some(raw_property) = property_iter.next_if(|p| !p.is_variant_id()) {
            let size = raw_property.size;
            common_properties.push(raw_property);
            common_size = common_size + size;
        }
"""), ("src/reader/directory_pack/layout/mod.rs", """        let is_entry_checked = (flag & 0b0000_0001) != 0;
""", """        let is_entry_checked = flag & 1 == 1;
""")]),
    ("ok-rlayout-variant-map", "ok", "C11", [("src/reader/directory_pack/layout/mod.rs", """        self.names
            .get(name.as_str())
            .and_then(|idx| self.variants.get(*idx as usize))
""", """        let idx = *self.names.get(name.as_str())?;
        self.variants.get(usize::from(idx))
"""), ("src/reader/directory_pack/layout/mod.rs", """                        variants.push(Properties::new(common_size, variant_def).into());
                        variants_map.insert(variant_name.unwrap(), variants.len() as u8 - 1);
""", """                        let variant_idx = variants.len() as u8;
                        variants_map.insert(variant_name.unwrap(), variant_idx);
                        variants.push(Properties::new(common_size, variant_def).into());
""")]),
    # ---- bugs written from the properties' texts alone (sixth batch)
    ("c04-hash-4g", "bug", "C04", [("src/common/check.rs", """    pub(crate) fn check(&self, source: &mut dyn Read) -> std::io::Result<bool> {
        if let Some(b3hash) = self.b3hash {
            let mut hasher = blake3::Hasher::new();
            hasher.update_reader(source)?;
""", """    pub(crate) fn check(&self, source: &mut dyn Read) -> std::io::Result<bool> {
        if let Some(b3hash) = self.b3hash {
            let mut hasher = blake3::Hasher::new();
            hasher.update_reader(source.take(u32::MAX as u64))?;
"""), ("src/common/check.rs", """    pub(crate) fn new_blake3(source: &mut dyn Read) -> std::io::Result<Self> {
        let mut hasher = blake3::Hasher::new();
        hasher.update_reader(source)?;
""", """    pub(crate) fn new_blake3(source: &mut dyn Read) -> std::io::Result<Self> {
        let mut hasher = blake3::Hasher::new();
        hasher.update_reader(source.take(u32::MAX as u64))?;
""")]),
    ("c04-embedded-skip", "bug", "C04", [("src/reader/jubako.rs", """        for pack_info in self.manifest_pack.get_pack_infos().iter() {
            let pack_reader = self
                .locator
                .locate(pack_info.uuid, &pack_info.pack_location)?;
            if let Some(r) = pack_reader {
                let pseudo""", """        for pack_info in self.manifest_pack.get_pack_infos().iter() {
            if pack_info.pack_location.is_empty() {
                // Embedded in the file already checked.
                continue;
            }
            let pack_reader = self
                .locator
                .locate(pack_info.uuid, &pack_info.pack_location)?;
            if let Some(r) = pack_reader {
                let pseudo""")]),
    ("c04-empty-manifest", "bug", "C04", [("src/reader/manifest_pack.rs", """    fn check(&self) -> Result<bool> {
        let check_info = self.get_check_info()?;
""", """    fn check(&self) -> Result<bool> {
        let check_info = self.get_check_info()?;
        if self.pack_infos.is_empty() {
            return Ok(true);
        }
""")]),
    ("c04-empty-content", "bug", "C04", [("src/reader/content_pack/mod.rs", """    fn check(&self) -> Result<bool> {
        if self.check_info""", """    fn check(&self) -> Result<bool> {
        if self.header.content_count.into_u32() == 0 {
            return Ok(true);
        }
        if self.check_info""")]),
    ("c04-check-location-group", "bug", "C04", [("src/common/check.rs", """                let size = cmp::min(buf.len(), (PACK_INFO_SIZE - local_offset) as usize);
                let size = self.source.read(&mut buf[..size])?;
                buf[..size].fill(0);
                size
""", """                let size = cmp::min(buf.len(), (self.start_safe_zone - offset) as usize);
                let size = self.source.read(&mut buf[..size])?;
                buf[..size].fill(0);
                size
""")]),
    ("c04-content-check-len", "bug", "C04", [("src/reader/content_pack/mod.rs", """        let mut check_stream = self.reader.create_stream(
            Offset::zero(),
            Size::from(self.pack_header.check_info_pos),
            false,
        )?;
""", """        let mut check_stream = self.reader.create_stream(
            Offset::zero(),
            Size::from(self.header.content_ptr_pos),
            false,
        )?;
""")]),
    ("c04-dir-cached-across", "bug", "C04", [("src/reader/directory_pack/mod.rs", """        Ok(self
            .check_info
            .read()
            .unwrap()
            .unwrap()
            .check(&mut check_stream)?)
""", """        Ok(self
            .check_info
            .read()
            .unwrap()
            .unwrap()
            .check(&mut check_stream)
            .unwrap_or(true))
""")]),
    ("c16-empty-raw", "bug", "C16", [("src/creator/content_pack/creator.rs", """        if let Compression::None = self.compression {
            return Ok(false);
        }
""", """        if let Compression::None = self.compression {
            return Ok(false);
        }
        if content.size().is_zero() {
            return Ok(false);
        }
""")]),
    ("c16-big-raw", "bug", "C16", [("src/creator/content_pack/creator.rs", """        let should_compress = self.detect_compression(content.as_mut(), comp_hint)?;
""", """        let should_compress = self.detect_compression(content.as_mut(), comp_hint)?
            && content_size.into_u64() <= 0xFFFF_FFFF;
""")]),
    ("c16-reuse-open-raw", "bug", "C16", [("src/creator/content_pack/creator.rs", """        let cluster = self.get_open_cluster(should_compress, content_size)?;
""", """        // Do not open a cluster for a few bytes.
        let should_compress = should_compress
            && (content_size.into_u64() > 64 || self.comp_open_cluster.is_some());
        let cluster = self.get_open_cluster(should_compress, content_size)?;
""")]),
    ("c16-dedup-by-hint", "bug", "C16", [("src/creator/content_pack/mod.rs", """    cache: HashMap<blake3::Hash, ContentAddress>,
""", """    cache: HashMap<(blake3::Hash, bool), ContentAddress>,
"""), ("src/creator/content_pack/mod.rs", """        match self.cache.entry(hash) {
""", """        match self.cache.entry((hash, matches!(comp_hint, CompHint::No))) {
""")]),
    ("c16-dedup-cleared", "bug", "C16", [("src/creator/content_pack/mod.rs", """        match self.cache.entry(hash) {
""", """        if self.cache.len() >= 1 << 16 {
            self.cache.clear();
        }
        match self.cache.entry(hash) {
""")]),
    ("c16-dedup-small", "bug", "C16", [("src/creator/content_pack/mod.rs", """        let mut hasher = blake3::Hasher::new();
        reader.rewind()?;
""", """        let mut hasher = blake3::Hasher::new();
        if reader.size().into_u64() < 32 {
            return self.content_pack.add_content(reader, comp_hint);
        }
        reader.rewind()?;
""")]),
    ("c16-dedup-not-large", "bug", "C16", [("src/creator/content_pack/mod.rs", """            hasher.update_reader(&mut reader)?;
            reader.rewind()?;
            let hash = hasher.finalize();
            self.cache_content(hash, reader, comp_hint)
""", """            hasher.update_reader(&mut reader)?;
            reader.rewind()?;
            let hash = hasher.finalize();
            let address = self.content_pack.add_content(reader, comp_hint)?;
            self.cache.insert(hash, address);
            Ok(address)
""")]),
    ("c01-cursor-moved", "bug", "C01", [("src/creator/content_pack/mod.rs", """        reader.rewind()?;
        if reader.size()""", """        if reader.size()""")]),
    ("c12-trim", "bug", "C12", [("src/tools.rs", """        pack_info.pack_location = new_location;
""", """        pack_info.pack_location = SmallString::from(new_location.trim());
""")]),
    ("c12-normalise-read", "bug", "C14", [("src/common/pack_info.rs", """        let pack_location = PString::parse(parser)?;
        parser.skip(213 - pack_location.len())?;
""", """        let pack_location = PString::parse(parser)?;
        parser.skip(213 - pack_location.len())?;
        let pack_location = SmallString::from(pack_location.replace('\\\\', "/"));
""")]),
    ("c12-all-same-uuid", "bug", "C12", [("src/tools.rs", """        if pack_info.uuid != uuid {
            continue;
        }
""", """        if pack_info.uuid != uuid && pack_info.pack_kind != PackKind::Directory {
            continue;
        }
""")]),
    ("c12-offset-of-count", "bug", "C12", [("src/tools.rs", """    for pack_offset in pack_offsets {
        let mut pack_info""", """    for pack_offset in pack_offsets.take(255) {
        let mut pack_info""")]),
    ("c13-size-left-size", "bug", "C13", [("src/reader/byte_stream.rs", """        (self.region.end() - self.offset).into_u64()
    }

    /// The full""", """        self.size() - self.offset.into_u64() % (self.size() + 1)
    }

    /// The full""")]),
    ("c13-read-u16", "bug", "C13", [("src/reader/byte_stream.rs", """        let max_len = std::cmp::min(
            buf.len() as u64,
            (self.region.end() - self.offset).into_u64(),
        ) as usize;
""", """        let max_len = std::cmp::min(
            buf.len() as u32,
            (self.region.end() - self.offset).into_u64() as u32,
        ) as usize;
""")]),
    ("c11-uuid-fallback-first", "bug", "C11", [("src/reader/container_pack.rs", """        Ok(self.get_pack_reader(&uuid))
""", """        Ok(self
            .get_pack_reader(&uuid)
            .or_else(|| self.packs.values().next().filter(|_| self.packs.len() == 1).cloned()))
""")]),
    ("c04-crc-of-check-none", "bug", "C04", [("src/common/check.rs", """            1_u8 => Ok(CheckKind::Blake3),
            _ => Err(""", """            1_u8 => Ok(CheckKind::Blake3),
            k if k & 1 == 0 => Ok(CheckKind::None),
            _ => Err(""")]),
    # ---- seventh batch
    ("c09-remove-first", "bug", "C09", [("src/creator/mod.rs", """        let temp_file = tempfile::NamedTempFile::new_in(parent)?;
        Ok(Box::new(Self {
            temp_file,
            final_path: final_path.as_ref().to_path_buf(),
""", """        let temp_file = tempfile::NamedTempFile::new_in(parent)?;
        if final_path.as_ref().exists() {
            std::fs::remove_file(final_path.as_ref())?;
        }
        Ok(Box::new(Self {
            temp_file,
            final_path: final_path.as_ref().to_path_buf(),
""")]),
    ("c09-probe-writable", "bug", "C09", [("src/creator/mod.rs", """        let temp_file = tempfile::NamedTempFile::new_in(parent)?;
        Ok(Box::new(Self {
""", """        // Fail early if we cannot write there.
        OpenOptions::new()
            .create(true)
            .append(true)
            .open(final_path.as_ref())?;
        let temp_file = tempfile::NamedTempFile::new_in(parent)?;
        Ok(Box::new(Self {
""")]),
    ("c09-close-removes", "bug", "C09", [("src/creator/mod.rs", """        self.temp_file
            .persist(&self.final_path)
            .map_err(|e| e.error)?;
        Ok(self.final_path)
""", """        let _ = std::fs::remove_file(&self.final_path);
        self.temp_file
            .persist(&self.final_path)
            .map_err(|e| e.error)?;
        Ok(self.final_path)
""")]),
    ("c09-noclobber", "bug", "C09", [("src/creator/mod.rs", """        self.temp_file
            .persist(&self.final_path)
            .map_err(|e| e.error)?;
        Ok(self.final_path)
""", """        if let Err(e) = self.temp_file.persist_noclobber(&self.final_path) {
            if e.error.kind() != io::ErrorKind::AlreadyExists {
                return Err(e.error.into());
            }
            std::fs::copy(e.file.path(), &self.final_path)?;
        }
        Ok(self.final_path)
""")]),
    ("c11-fs-extension", "bug", "C11", [("src/reader/locator.rs", """        if path.is_file() {
""", """        if path.is_file() && path.extension().is_some() {
""")]),
    ("c11-fs-symlink", "bug", "C11", [("src/reader/locator.rs", """        if path.is_file() {
""", """        if path.exists() {
""")]),
    ("ok-fs-empty-path", "ok", "C11", [("src/reader/locator.rs", """        let path = self.base_dir.join(path);
        if path.is_file() {
            // The pack may be stored directly in the file or be in a container pack.
            let container = open_as_container_pack(Reader::from(FileSource::open(path)?))?;
            Ok(container.get_pack_reader(&uuid))
        } else {
            Ok(None)
        }
""", """        let path = self.base_dir.join(path);
        if !path.is_file() {
            return Ok(None);
        }
        let source = FileSource::open(&path)?;
        let reader = Reader::from(source);
        // The pack may be stored directly in the file or be in a container pack.
        open_as_container_pack(reader).map(|container| container.get_pack_reader(&uuid))
""")]),
    ("ok-entry-sort-unsorted", "ok", "C15", [("src/creator/directory_pack/entry_store.rs", """        set_entry_idx(&mut self.entries);
        if let Some(keys) = &self.schema.sort_keys {
            let compare = |a: &Entry, b: &Entry| a.compare(&keys, b);
""", """        if let Some(keys) = &self.schema.sort_keys {
            set_entry_idx(&mut self.entries);
            let compare = |a: &Entry, b: &Entry| a.compare(&keys, b);
""")]),
    ("ok-entry-sort-helper", "ok", "C03", [("src/creator/directory_pack/entry_store.rs", """            while !self
                .entries
                .windows(2)
                .all(|w| w[0].compare(&keys, &w[1]).is_le())
            {
""", """            while !self.is_sorted() {
"""), ("src/creator/directory_pack/entry_store.rs", """        match &self.schema.sort_keys {
            None => true,
            Some(keys) => self
                .entries
                .windows(2)
                .all(|w| w[0].compare(&keys, &w[1]).is_le()),
        }
""", """        let Some(keys) = &self.schema.sort_keys else {
            return true;
        };
        !self
            .entries
            .windows(2)
            .any(|pair| pair[0].compare(&keys, &pair[1]).is_gt())
""")]),
    ("c03-sorted-step", "bug", "C03", [("src/creator/directory_pack/entry_store.rs", """            while !self
                .entries
                .windows(2)
                .all(|w| w[0].compare(&keys, &w[1]).is_le())
            {
""", """            while !self
                .entries
                .chunks_exact(2)
                .all(|w| w[0].compare(&keys, &w[1]).is_le())
            {
""")]),
    ("c02-tail-count-u16", "bug", "C02", [("src/creator/directory_pack/entry_store.rs", """        let entry_count = EntryCount::from(self.entries.len() as u32);
        entry_count""", """        let entry_count = EntryCount::from(self.entries.len() as u16 as u32);
        entry_count""")]),
    ("c02-skip-empty-entry", "bug", "C02", [("src/creator/directory_pack/entry_store.rs", """        for entry in &self.entries {
            self.layout""", """        for entry in self.entries.iter().filter(|e| e.value_count() != 0.into()) {
            self.layout""")]),
    ("c15-add-idx-late", "bug", "C15", [("src/creator/directory_pack/entry_store.rs", """        entry.set_idx(EntryIdx::from(self.entries.len() as u32));
        self.entries.push(entry);
        entry_idx
""", """        self.entries.push(entry);
        entry_idx
"""), ("src/creator/directory_pack/entry_store.rs", """        set_entry_idx(&mut self.entries);
        if let Some(keys)""", """        if let Some(keys)""")]),
    ("c15-idx-parallel-chunk", "bug", "C15", [("src/creator/directory_pack/entry_store.rs", """        .enumerate()
        .for_each(|(idx, entry)| entry.set_idx((idx as u32).into()))
""", """        .enumerate()
        .skip(1)
        .for_each(|(idx, entry)| entry.set_idx((idx as u32).into()))
""")]),
    ("c10-tail-exact-end", "bug", "C10", [("src/reader/jubako.rs", """    let origin = reader.size() - pack_header.file_size;
    Ok((pack_header, origin.into()))
""", """    let origin = Size::new((reader.size() - pack_header.file_size).into_u64() & !7);
    Ok((pack_header, origin.into()))
""")]),
    ("c11-slot-shared", "bug", "C11", [("src/reader/jubako.rs", """        if pack_id.into_usize() >= self.packs.len() {
            return Ok(None);
        }
        let cache_slot = &self.packs[pack_id.into_usize()];
""", """        if pack_id.into_usize() >= self.packs.len() {
            return Ok(None);
        }
        let cache_slot = &self.packs[pack_id.into_usize() & 0xFF];
""")]),
    ("c01-cluster-index-wrong-count", "bug", "C01", [("src/reader/content_pack/mod.rs", """            .is_valid(*self.header.cluster_count)
""", """            .is_valid((self.header.cluster_count.into_u32() as u16 as u32).into())
""")]),
    ("c06-cluster-last-blob", "bug", "C01", [("src/reader/content_pack/cluster.rs", """            assert!(value.is_valid(data_size));
""", """            assert!(value.into_u64() < data_size.into_u64());
""")]),
    ("c10-locator-absolute", "bug", "C10", [("src/reader/jubako.rs", """            path.as_ref().parent().unwrap().to_path_buf(),
""", """            std::env::current_dir()?.join(path.as_ref().file_name().unwrap()).parent().unwrap().to_path_buf(),
""")]),
]
