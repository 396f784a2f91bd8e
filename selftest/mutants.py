"""Single-line mutants of the code once missed."""
CASES = [
    ("mut105", "bug", "C05", [('src/bases/io/file.rs', '            f.seek(SeekFrom::Start(region.begin().into_u64()))?;', '            let _ = f.seek(SeekFrom::Start(region.begin().into_u64()));')]),
    ("mut681", "bug", "C13", [('src/bases/io/buffer.rs', '        if e > our_size {', '        if e >= our_size {')]),
    ("mut244", "bug", "C03", [('src/creator/directory_pack/directory_pack.rs', '            if watchdog == 0 {', '            if watchdog != 0 {')]),
    ("mut241", "bug", "C09", [('src/creator/content_pack/mod.rs', '            reader.read_to_end(&mut buf)?;', '            let _ = reader.read_to_end(&mut buf);')]),
    ("mut178", "bug", "C09", [('src/creator/mod.rs', '        source.seek(SeekFrom::Start(origin))?;', '        let _ = source.seek(SeekFrom::Start(origin));')]),
    ("mut285", "bug", "C09", [('src/creator/container_pack.rs', '        std::io::copy(reader, &mut self.file)?;', '        let _ = std::io::copy(reader, &mut self.file);')]),
    ("mut446", "bug", "C11", [('src/reader/jubako.rs', '        if pack_id.into_usize() >= self.packs.len() {', '        if pack_id.into_usize() > self.packs.len() {')]),
    ("mut535", "bug", "C03", [('src/creator/directory_pack/entry_store.rs', '                .windows(2)\n                .all(|w| w[0].compare(&keys, &w[1]).is_le())\n            {', '                .windows(1)\n                .all(|w| w[0].compare(&keys, &w[1]).is_le())\n            {')]),
    ("mut465", "bug", "C03", [('src/creator/directory_pack/entry_store.rs', '                if watchdog == 0 {', '                if watchdog != 0 {')]),
    ("mut536", "bug", "C02", [('src/creator/directory_pack/schema/property.rs', '                assert!(fixed_array_len <= 0x1F_usize);', '                assert!(fixed_array_len < 0x1F_usize);')]),
    ("mut690", "bug", "C02", [('src/creator/directory_pack/schema/property.rs', '                assert!(*size >= needed_bytes(v));', '                assert!(*size > needed_bytes(v));')]),
    ("mut441", "bug", "C14", [('src/bases/types/sized_offset.rs', '        if self.size.into_u64() > 0xFF_FF_u64 {', '        if false && (self.size.into_u64() > 0xFF_FF_u64) {')]),
    ("mut338", "bug", "C03", [('src/creator/directory_pack/value_store.rs', '                if self.0.data[*data_key].0 == self.0.data[i].0 {', '                if false && (self.0.data[*data_key].0 == self.0.data[i].0) {')]),
    ("mut388", "bug", "C10", [('src/reader/container_pack.rs', '            packs_uuid.push(pack_locator.uuid);', '            ')]),
    ("mut330", "bug", "C10", [('src/reader/container_pack.rs', '        (self.packs.len() as u16).into()', '        (self.packs.len() as u8 as u16).into()')]),
    ("mut312", "bug", "C01", [('src/creator/directory_pack/directory_pack.rs', '        file.read_exact(&mut tail_buffer)?;', '        ')]),
    ("mut408", "bug", "C01", [('src/creator/content_pack/creator.rs', '        file.read_exact(&mut tail_buffer)?;', '        ')]),
    ("mut976", "bug", "C10", [('src/creator/container_pack.rs', '        self.file.read_exact(&mut tail_buffer)?;', '        ')]),
    ("mut646", "bug", "C10", [('src/creator/container_pack.rs', '        std::io::copy(reader, &mut self.file)?;', '        ')]),
    ("mut386", "bug", "C12", [('src/creator/manifest_pack.rs', '            file.ser_write(&pack_data.check_info)?;', '            ')]),
    ("mut411", "bug", "C12", [('src/tools.rs', '        if pack_info.uuid != uuid {', '        if true || pack_info.uuid != uuid {')]),
    ("mut902", "bug", "C02", [('src/creator/directory_pack/layout/entry.rs', '            written += variant.serialize(ser)?;', '            ')]),
    ("mut887", "bug", "C03", [('src/creator/directory_pack/entry_store.rs', '                .windows(2)\n                .all(|w| w[0].compare(&keys, &w[1]).is_le())\n            {', '                .windows(3)\n                .all(|w| w[0].compare(&keys, &w[1]).is_le())\n            {')]),
    ("mut830", "bug", "C03", [('src/creator/directory_pack/entry_store.rs', '                .windows(2)\n                .all(|w| w[0].compare(&keys, &w[1]).is_le()),', '                .windows(3)\n                .all(|w| w[0].compare(&keys, &w[1]).is_le()),')]),
    ("mut1028", "bug", "C11", [('src/reader/jubako.rs', '            return Ok(None);', '            ')]),
    ("mut881", "bug", "C02", [('src/reader/directory_pack/range.rs', '        if id.is_valid(*self.count()) {', '        if true || id.is_valid(*self.count()) {')]),
    ("mut913", "bug", "C01", [('src/creator/mod.rs', '        self.seek(SeekFrom::Start(0))?;', '        self.seek(SeekFrom::Start(1))?;')]),
    ("mut831", "bug", "C01", [('src/creator/mod.rs', '        Ok(self.position - self.origin)', '        Ok(self.position + self.origin)')]),
    ("mut913-c16", "bug", "C16", [('src/creator/mod.rs', '        self.seek(SeekFrom::Start(0))?;', '        self.seek(SeekFrom::Start(1))?;')]),
    ("mut1126", "bug", "C10", [('src/creator/container_pack.rs', '        self.file.ser_write(&header)?;', '        ')]),
    ("mut1129", "bug", "C01", [('src/creator/container_pack.rs', '        self.file.ser_write(&pack_header)?;', '        ')]),
    ("mut1128", "bug", "C02", [('src/creator/directory_pack/schema/mod.rs', '                    p.process(entry);', '                    ')]),
    ("mut1097", "bug", "C02", [('src/creator/directory_pack/value_store.rs', '                let idx = value_handle.idx.get() as usize;', '                let idx = value_handle.idx.get() as u16 as usize;')]),
    ("mut1198", "bug", "C13", [('src/bases/io/file.rs', '        let len = source.seek(SeekFrom::End(0))?;', '        let len = source.seek(SeekFrom::End(1))?;')]),
]
