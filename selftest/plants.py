PLANTS = [
 dict(id="c05-mmap-table", property="C05",
  edits=[("src/bases/io/file.rs", """            mmap.advise(Advice::WillNeed)?;
            if let BlockCheck::Crc32 = block_check {
                assert_slice_crc(&mmap)?;
            }

            Ok((
                Arc::new(mmap),
                Region::new_from_size(Offset::zero(), region.size()),
            ))""", """            mmap.advise(Advice::WillNeed)?;
            let region = Region::new_from_size(Offset::zero(), region.size());
            Ok((Arc::new(mmap), region))""")],
  needs="a block of 4 KiB or more read from a file (content table of a pack with more than 1023 contents), with an altered byte in it",
  breaks="the CRC of blocks that are memory mapped is not verified any more: an altered content table is decoded into other content addresses",
  main="""
fn main() {
    let d = Dir::new("c05-mmap");
    let contents = (0..3000).map(|i| (cur(format!("content number {i}")), CompHint::No)).collect();
    let addrs = make(&d.f("t.jbk"), ConcatMode::TwoFiles, Compression::None, contents);
    // the content pack is in a container of its own: find it by its magic, then its content table
    let f = d.f("t.jbkc");
    let mut b = std::fs::read(&f).unwrap();
    let start = b.windows(4).position(|w| w == b"jbkc").unwrap();
    let table = start + u64_at(&b, start + 64) as usize;
    b[table + 4 * 100] ^= 1;
    std::fs::write(&f, &b).unwrap();
    let c = jbk::reader::Container::new(d.f("t.jbk")).unwrap();
    use std::io::Read;
    for (i, a) in addrs.iter().enumerate() {
        if let Ok(r) = c.get_bytes(*a) {
            let r = r.and_then(|m| m.transpose()).unwrap().unwrap();
            let mut v = vec![];
            r.stream().read_to_end(&mut v).unwrap();
            assert_eq!(v, format!("content number {i}").into_bytes(), "another content is returned without an error");
        }
    }
}
"""),
 dict(id="c04-check-stops-at-missing", property="C04",
  edits=[("src/reader/jubako.rs", """            if let Some(r) = pack_reader {
                let pseudo_container_pack""", """            let Some(r) = pack_reader else {
                // Nothing more to look at
                break;
            };
            {
                let pseudo_container_pack""")],
  needs="several content packs, the damaged one listed in the manifest after one that is missing",
  breaks="Container::check stops at the first missing pack, so a later damaged pack is not seen",
  main="""
fn main() {
    let d = Dir::new("c04-stop");
    let extra = vec![(2u16, d.f("e2.jbkc"), vec![vec![1u8; 5000]]), (3u16, d.f("e3.jbkc"), vec![vec![2u8; 5000]])];
    make_extra(&d.f("t.jbk"), ConcatMode::OneFile, Compression::None, vec![(cur("hello"), CompHint::No)], extra);
    assert!(jbk::reader::Container::new(d.f("t.jbk")).unwrap().check().unwrap());
    std::fs::remove_file(d.f("e2.jbkc")).unwrap();
    assert!(jbk::reader::Container::new(d.f("t.jbk")).unwrap().check().unwrap());
    let mut b = std::fs::read(d.f("e3.jbkc")).unwrap();
    let p = b.windows(100).position(|w| w == [2u8; 100]).unwrap();
    b[p + 50] ^= 0x10;
    std::fs::write(d.f("e3.jbkc"), &b).unwrap();
    let r = jbk::reader::Container::new(d.f("t.jbk")).unwrap().check();
    assert!(!matches!(r, Ok(true)), "the damaged pack is not noticed");
}
"""),
 dict(id="c12-offset-in-container", property="C12",
  edits=[("src/tools.rs", """        let global_pack_offset =
            pack_offset.into_u64() + manifest_pack_reader.global_offset().into_u64();""", """        let global_pack_offset = pack_offset.into_u64();""")],
  needs="a manifest that is not at the start of its file (one- and two-file containers)",
  breaks="the location is rewritten at the manifest-relative position instead of the position in the file: other bytes of the container are overwritten",
  main="""
fn main() {
    let d = Dir::new("c12-off");
    make(&d.f("t.jbk"), ConcatMode::TwoFiles, Compression::None, vec![(cur("hello"), CompHint::No)]);
    let c = jbk::tools::open_pack(d.f("t.jbkc")).unwrap();
    let uuid = c.get_pack_uuid(0.into());
    std::fs::create_dir(d.f("sub")).unwrap();
    std::fs::rename(d.f("t.jbkc"), d.f("sub/t.jbkc")).unwrap();
    jbk::tools::set_location(d.f("t.jbk"), uuid, "sub/t.jbkc".into()).unwrap().unwrap();
    let c = jbk::reader::Container::new(d.f("t.jbk")).unwrap();
    assert!(c.check().unwrap(), "the manifest does not verify after a location was rewritten");
    assert_eq!(dump(d.f("t.jbk"))[0].2, Some(b"hello".to_vec()));
}
"""),
 dict(id="c16-dedup-prefix", property="C16",
  edits=[("src/creator/content_pack/mod.rs", "hasher.update(&buf);", "hasher.update(&buf[..buf.len().min(1 << 16)]);\n        hasher.update(&buf.len().to_le_bytes());")],
  needs="two small contents of the same size, equal in their first 64 KiB",
  breaks="the deduplicating adder only looks at the first 64 KiB and the size: the second content is replaced by the first",
  main="""
fn main() {
    let d = Dir::new("c16-dedup");
    let f = jbk::creator::AtomicOutFile::new(d.f("p.jbkc")).unwrap();
    let p = jbk::creator::ContentPackCreator::new_from_output(f, 1.into(), VENDOR, Default::default(), Compression::None).unwrap();
    let mut a = jbk::creator::CachedContentAdder::new(p, std::rc::Rc::new(()));
    let x = vec![7u8; 70000];
    let mut y = x.clone();
    y[69999] = 8;
    let a1 = a.add_content(cur(x.clone()), CompHint::No).unwrap();
    let a2 = a.add_content(cur(y.clone()), CompHint::No).unwrap();
    let a3 = a.add_content(cur(x.clone()), CompHint::No).unwrap();
    assert_eq!(a1, a3, "an identical content is stored twice");
    assert_ne!(a1, a2, "another content is taken for the first");
}
"""),
 dict(id="c13-cut-prefix", property="C13",
  edits=[("src/reader/byte_region.rs", """    pub fn cut(&self, offset: Offset, size: Size) -> ByteSlice {
        let region = self.region.cut_rel(offset, size);""", """    pub fn cut(&self, offset: Offset, size: Size) -> ByteSlice {
        if offset.is_zero() {
            return self.as_slice();
        }
        let region = self.region.cut_rel(offset, size);""")],
  needs="a sub-cut of a content that starts at its first byte",
  breaks="a cut at offset 0 is the whole content whatever the size asked for",
  main="""
fn main() {
    let d = Dir::new("c13-cut");
    let a = make(&d.f("t.jbk"), ConcatMode::OneFile, Compression::None, vec![(cur("hello world"), CompHint::No), (cur("after"), CompHint::No)]);
    let c = jbk::reader::Container::new(d.f("t.jbk")).unwrap();
    let r = c.get_bytes(a[0]).unwrap().and_then(|m| m.transpose()).unwrap().unwrap();
    for (o, n) in [(0u64, 11u64), (0, 5), (6, 5), (3, 0), (0, 0)] {
        let s = r.cut(o.into(), n.into());
        assert_eq!(s.size().into_u64(), n);
        assert_eq!(&s.get_slice(0u64.into(), n as usize).unwrap()[..], &b"hello world"[o as usize..(o + n) as usize]);
    }
}
"""),
 dict(id="c14-locator-order", property="C14",
  edits=[("src/common/pack_locator.rs", """        written += self.pack_size.serialize(ser)?;
        written += self.pack_pos.serialize(ser)?;""", """        written += self.pack_pos.serialize(ser)?;
        written += self.pack_size.serialize(ser)?;"""),
   ("src/common/pack_locator.rs", """        let pack_size = Size::parse(parser)?;
        let pack_pos = Offset::parse(parser)?;""", """        let pack_pos = Offset::parse(parser)?;
        let pack_size = Size::parse(parser)?;""")],
  needs="a file written by another version (or inspected against the documented layout); written and read by the same version everything agrees",
  breaks="size and position are swapped in the pack locators, in the writer and the reader",
  main="""
fn main() {
    let d = Dir::new("c14-locator");
    make(&d.f("t.jbk"), ConcatMode::OneFile, Compression::None, vec![(cur("hello world"), CompHint::No)]);
    let b = std::fs::read(d.f("t.jbk")).unwrap();
    assert_eq!(&b[..4], b"jbkC");
    let at = u64_at(&b, 64) as usize;
    for i in 0..3 {
        let l = &b[at + i * 36..];
        let (size, pos) = (u64_at(l, 16) as usize, u64_at(l, 24) as usize);
        assert_eq!(&b[pos..pos + 3], b"jbk", "the locator does not lead to a pack");
        assert_eq!(u64_at(&b, pos + 32) as usize, size);
    }
}
"""),
 dict(id="c09-content-last", property="C09",
  edits=[("src/creator/basic_creator.rs", """        let (mut container, content_locator) = {
            let container""", """        let mut content_file = None;
        let (mut container, content_locator) = {
            let container"""),
   ("src/creator/basic_creator.rs", """                    let content_pack_path = container_file.close_file()?;
                    let new_container""", """                    content_file = Some(container_file);
                    let content_pack_path = new_with_extension(&self.outpath, "jbkc");
                    let new_container"""),
   ("src/creator/basic_creator.rs", """            container_file.close_file()?;
        }

        Ok(())""", """            container_file.close_file()?;
        }
        if let Some(file) = content_file {
            file.close_file()?;
        }

        Ok(())""")],
  needs="a creation in several files that fails (or is interrupted) when the content pack is put in place: here its path is taken by a directory",
  breaks="the content pack is put in place after the entry point: a failure in between leaves an entry point without its content",
  main="""
fn main() {
    let d = Dir::new("c09-last");
    std::fs::create_dir(d.f("t.jbkc")).unwrap();
    std::fs::write(d.f("t.jbkc/x"), b"x").unwrap();
    let mut cr = jbk::creator::BasicCreator::new(d.f("t.jbk"), ConcatMode::TwoFiles, VENDOR, Compression::None, std::sync::Arc::new(())).unwrap();
    let mut es = Box::new(Es::new());
    let a = cr.add_content(cur("hello"), CompHint::No).unwrap();
    es.add("x", 1, a);
    assert!(cr.finalize(es, vec![]).is_err());
    assert!(!std::path::Path::new(&d.f("t.jbk")).exists(), "an entry point is left by a creation that failed");
}
"""),
 dict(id="c09-worker-error", property="C09",
  edits=[("src/creator/content_pack/clusterwriter.rs", """            thread.join().unwrap()?;""", """            if thread.join().unwrap().is_err() {
                break;
            }""")],
  needs="reading a content fails on a compression thread, in the last cluster (a content that cannot be read)",
  breaks="the failure of a compression thread is not reported: the creation succeeds without the cluster",
  main="""
fn main() {
    let d = Dir::new("c09-worker");
    std::fs::create_dir(d.f("dir")).unwrap();
    let out = d.f("t.jbk");
    let dir = d.f("dir");
    let r = std::panic::catch_unwind(move || {
        let mut cr = jbk::creator::BasicCreator::new(&out, ConcatMode::OneFile, VENDOR, Compression::zstd(), std::sync::Arc::new(())).unwrap();
        let mut es = Box::new(Es::new());
        // a directory can be opened but not read
        let a = cr.add_content(Box::new(jbk::creator::InputFile::open(&dir).unwrap()), CompHint::Yes).unwrap();
        es.add("x", 1, a);
        cr.finalize(es, vec![]).is_ok()
    });
    assert!(!matches!(r, Ok(true)), "the creation succeeds");
    assert!(!std::path::Path::new(&d.f("t.jbk")).exists(), "an entry point is left by a creation that failed");
}
"""),
 dict(id="c08-table-cut", property="C08",
  edits=[("src/creator/content_pack/clusterwriter.rs", """            if self.cluster_addresses.len() <= idx {
                self.cluster_addresses""", """            if self.cluster_addresses.len() != idx + 1 {
                self.cluster_addresses""")],
  needs="a cluster that reaches the writer after one with a bigger id (a big compressed cluster followed by a raw one)",
  breaks="recording the address of a late cluster cuts the table after it: clusters with bigger ids already written lose their address",
  main="""
fn main() {
    let d = Dir::new("c08-cut");
    let mut cr = jbk::creator::BasicCreator::new(d.f("t.jbk"), ConcatMode::OneFile, VENDOR, Compression::lzma(), std::sync::Arc::new(())).unwrap();
    let mut es = Box::new(Es::new());
    let mut big = vec![0u8; 3_000_000];
    let mut x = 7u32;
    for b in big.iter_mut() {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        *b = (x >> 24) as u8 & 15;
    }
    let a = cr.add_content(Box::new(std::io::Cursor::new(big.clone())), CompHint::Yes).unwrap();
    es.add("big", 1, a);
    // enough raw contents to fill clusters while the compressed one is worked on
    let mut all = vec![];
    for i in 0..9000u32 {
        let v = i.to_le_bytes().to_vec();
        let a = cr.add_content(Box::new(std::io::Cursor::new(v.clone())), CompHint::No).unwrap();
        all.push((a, v));
    }
    // and one more compressed cluster, so that the big one is sent
    let a2 = cr.add_content(Box::new(std::io::Cursor::new(vec![5u8; 4_000_000])), CompHint::Yes).unwrap();
    es.add("big2", 2, a2);
    cr.finalize(es, vec![]).unwrap();
    let c = jbk::reader::Container::new(d.f("t.jbk")).unwrap();
    assert!(c.check().unwrap());
    all.push((a, big));
    all.push((a2, vec![5u8; 4_000_000]));
    for (a, v) in all {
        assert!(content(&c, a) == Some(v), "{a:?} does not read back");
    }
}
"""),
 dict(id="c08-stale-base", property="C08",
  edits=[("src/creator/content_pack/clusterwriter.rs", """    dropper: Dropper<MaybeFileReader>,
    progress: Arc<dyn Progress>,
}

impl<O> ClusterWriter<O>""", """    dropper: Dropper<MaybeFileReader>,
    progress: Arc<dyn Progress>,
    end: Option<Offset>,
}

impl<O> ClusterWriter<O>"""),
   ("src/creator/content_pack/clusterwriter.rs", """            dropper: Dropper::new(),
            progress,""", """            dropper: Dropper::new(),
            progress,
            end: None,"""),
   ("src/creator/content_pack/clusterwriter.rs", """        let offset = self.file.tell();
        self.file.write_all(data)?;
        Ok(offset)""", """        // asking the file flushes the buffer: remember where the last one ended
        let offset = match self.end {
            Some(end) => end,
            None => self.file.tell(),
        };
        self.file.write_all(data)?;
        self.end = Some(offset + Size::new(data.len() as u64));
        Ok(offset)""")],
  needs="a raw cluster written between two compressed ones",
  breaks="the address of a compressed cluster ignores the raw clusters written since the last compressed one",
  main="""
fn main() {
    let d = Dir::new("c08-base");
    let mut cr = jbk::creator::BasicCreator::new(d.f("t.jbk"), ConcatMode::OneFile, VENDOR, Compression::zstd(), std::sync::Arc::new(())).unwrap();
    let es = Box::new(Es::new());
    let mut all = vec![];
    for round in 0..12u32 {
        for i in 0..4200u32 {
            let v = (i * 31 + round).to_le_bytes().to_vec();
            let hint = if round % 2 == 0 { CompHint::Yes } else { CompHint::No };
            let a = cr.add_content(Box::new(std::io::Cursor::new(v.clone())), hint).unwrap();
            all.push((a, v));
        }
        std::thread::sleep(std::time::Duration::from_millis(60));
    }
    cr.finalize(es, vec![]).unwrap();
    let c = jbk::reader::Container::new(d.f("t.jbk")).unwrap();
    for (a, v) in all {
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| content(&c, a)));
        assert!(matches!(got, Ok(ref g) if *g == Some(v.clone())), "{a:?} does not read back");
    }
}
"""),

 dict(id="c10-locators-order", property="C10",
  edits=[("src/reader/jubako.rs", "vec![container_pack, locator]", "vec![locator, container_pack]")],
  needs="a container re-assembled by concatenation, and another (damaged) file left at the recorded location of one of its packs",
  breaks="packs are looked for at their recorded location before the file at hand: a file which is not even needed makes the container unreadable",
  main="""
fn main() {
    let d = Dir::new("c10-order");
    make(&d.f("t.jbk"), ConcatMode::TwoFiles, Compression::None, vec![(cur("hello"), CompHint::No), (cur("world"), CompHint::No)]);
    let want = dump(d.f("t.jbk"));
    jbk::tools::concat(&[d.f("t.jbk"), d.f("t.jbkc")], d.f("all.jbk")).unwrap();
    assert_eq!(dump(d.f("all.jbk")), want);
    // what is left of the content file is no longer a pack
    std::fs::write(d.f("t.jbkc"), vec![7u8; 500]).unwrap();
    assert_eq!(dump(d.f("all.jbk")), want);
}
"""),
 dict(id="c10-file-name", property="C10",
  edits=[("src/reader/locator.rs", "        let path = self.base_dir.join(path);", "        let path = std::path::Path::new(path);\n        let path = self.base_dir.join(path.file_name().unwrap_or(path.as_os_str()));")],
  needs="a content pack stored in another directory than the manifest",
  breaks="a pack recorded in a sub directory is reported as missing",
  main="""
fn main() {
    let d = Dir::new("c10-sub");
    std::fs::create_dir_all(d.f("packs")).unwrap();
    let a = make_extra(&d.f("t.jbk"), ConcatMode::OneFile, Compression::None, vec![(cur("hello"), CompHint::No)],
        vec![(2, d.f("packs/e.jbkc"), vec![b"elsewhere".to_vec()])]);
    let c = jbk::reader::Container::new(d.f("t.jbk")).unwrap();
    assert_eq!(content(&c, a[0]), Some(b"hello".to_vec()));
    assert_eq!(content(&c, a[1]), Some(b"elsewhere".to_vec()));
}
"""),
 dict(id="c11-by-position", property="C11",
  edits=[("src/reader/manifest_pack.rs", """        self.pack_infos
            .iter()
            .find(|&pack_info| pack_info.pack_id == pack_id)""", """        // packs are numbered from 1
        pack_id
            .into_usize()
            .checked_sub(1)
            .and_then(|position| self.pack_infos.get(position))""")],
  needs="extra content packs whose ids do not follow their order in the manifest",
  breaks="a missing pack is reported with the description of another pack, and contents are read from another pack",
  main="""
fn main() {
    let d = Dir::new("c11-position");
    let a = make_extra(&d.f("t.jbk"), ConcatMode::OneFile, Compression::None, vec![(cur("hello"), CompHint::No)],
        vec![(3, d.f("three.jbkc"), vec![b"three".to_vec()]), (2, d.f("two.jbkc"), vec![b"two".to_vec()])]);
    std::fs::remove_file(d.f("two.jbkc")).unwrap();
    let c = jbk::reader::Container::new(d.f("t.jbk")).unwrap();
    assert_eq!(content(&c, a[0]), Some(b"hello".to_vec()));
    assert_eq!(content(&c, a[1]), Some(b"three".to_vec()));
    match c.get_bytes(a[2]).unwrap().unwrap() {
        jbk::reader::MayMissPack::MISSING(info) => {
            assert_eq!(info.pack_location.as_str(), "two.jbkc");
            assert_eq!(info.pack_id, jbk::PackId::from(2));
        }
        _ => panic!("the pack is not there"),
    }
}
"""),
 dict(id="c11-directory", property="C11",
  edits=[("src/reader/locator.rs", "if path.is_file() {", "if path.exists() {")],
  needs="a pack which is in no file and whose recorded location is empty (or names a directory)",
  breaks="an unavailable pack makes the access fail instead of being reported as missing",
  main="""
fn main() {
    let d = Dir::new("c11-dir");
    let a = make_extra(&d.f("t.jbk"), ConcatMode::OneFile, Compression::None, vec![(cur("hello"), CompHint::No)],
        vec![(2, d.f("two.jbkc"), vec![b"two".to_vec()])]);
    std::fs::remove_file(d.f("two.jbkc")).unwrap();
    std::fs::create_dir(d.f("two.jbkc")).unwrap();
    let c = jbk::reader::Container::new(d.f("t.jbk")).unwrap();
    assert_eq!(content(&c, a[0]), Some(b"hello".to_vec()));
    assert!(matches!(c.get_bytes(a[1]), Ok(Some(jbk::reader::MayMissPack::MISSING(_)))));
    assert!(c.check().unwrap());
}
"""),
 dict(id="c15-position-16bit", property="C15",
  edits=[("src/creator/directory_pack/entry_store.rs", "    assert!(entries.len() <= u32::MAX as usize);\n    //(0u32..).zip(entries.iter_mut()).for_each(|(idx, entry)| entry.set_idx(idx.into()))\n    entries\n        .par_iter_mut()\n        .enumerate()\n        .for_each(|(idx, entry)| entry.set_idx((idx as u32).into()))",
   "    assert!(entries.len() <= u32::MAX as usize);\n    // Positions are given by chunks to limit contention on the thread pool.\n    const CHUNK: usize = 0x8000;\n    entries\n        .par_chunks_mut(CHUNK)\n        .enumerate()\n        .for_each(|(chunk_idx, chunk)| {\n            let base = (chunk_idx & 0x1) * CHUNK;\n            for (idx, entry) in chunk.iter_mut().enumerate() {\n                entry.set_idx(((base + idx) as u32).into())\n            }\n        })")],
  needs="a store with more than 65536 entries, and an entry at a final position past 65535 that is referenced (or whose handle is read)",
  breaks="entries past position 65535 are given the position of an entry of the first 65536: references to them resolve to another entry",
  main='''
fn main() {
    let d = Dir::new("c15-16bit");
    let mut g = Gen::new(vec![], vec![schema::Property::new_uint("key"), schema::Property::new_uint("ref")], vec![], Some(vec!["key"]));
    let n = 70_000u64;
    let vows: Vec<_> = (0..n).map(|_| jbk::Vow::new(jbk::EntryIdx::from(0))).collect();
    let handles: Vec<_> = vows.iter().map(|v| v.bind()).collect();
    let mut it = vows.into_iter();
    for i in 0..n {
        // keys are written in decreasing order, entry i references entry i/2 (so that all the sorted positions are referenced)
        let target = handles[((i * 7919) % n) as usize].clone();
        g.add_idx(it.next().unwrap(), None, vec![("key", jbk::Value::Unsigned(n - 1 - i)), ("ref", jbk::Value::UnsignedWord(target.into()))]);
    }
    g.write(&d.f("t.jbk"));
    let r = rows(d.f("t.jbk"), "idx", &["key", "ref"]);
    assert_eq!(r.len(), n as usize);
    let key = |p: usize| r[p][0].as_ref().unwrap().as_unsigned();
    for (p, row) in r.iter().enumerate() {
        assert_eq!(key(p), p as u64);
        let i = n - 1 - p as u64;
        let target = (i * 7919) % n;
        let pos = row[1].as_ref().unwrap().as_unsigned() as usize;
        assert_eq!(key(pos), n - 1 - target, "the entry at {p} references another entry");
        assert_eq!(handles[i as usize].get(), jbk::EntryIdx::from(p as u32), "handle");
    }
}
'''),
 dict(id="c15-word-constant", property="C15",
  edits=[("src/creator/directory_pack/schema/property.rs", "                Value::UnsignedWord(value) => {\n                    counter.process(value.get());\n                    size.process(value.get());\n                }", "                Value::UnsignedWord(value) => {\n                    let value = value.get();\n                    // The size matters only if the property is stored in the entries.\n                    if let ValueCounter::One(_) | ValueCounter::Many = counter {\n                        size.process(value);\n                    }\n                    counter.process(value);\n                }")],
  needs="a deferred reference property whose first value (in final order) needs more bytes than all the other values",
  breaks="the first value of a deferred property is left out of the width of its column: when it is the largest, it is stored altered (the next bytes are cut)",
  main='''
fn main() {
    let d = Dir::new("c15-const");
    let mut g = Gen::new(vec![], vec![schema::Property::new_uint("key"), schema::Property::new_uint("ref")], vec![], Some(vec!["key"]));
    let n = 1000u64;
    let vows: Vec<_> = (0..n).map(|_| jbk::Vow::new(jbk::EntryIdx::from(0))).collect();
    let handles: Vec<_> = vows.iter().map(|v| v.bind()).collect();
    let mut it = vows.into_iter();
    for i in 0..n {
        // the first entry (key 0) references the last one, all the others reference one of the first
        let target = if i == n - 1 { 0 } else { n - 1 - (i % 200) };
        g.add_idx(it.next().unwrap(), None, vec![("key", jbk::Value::Unsigned(n - 1 - i)), ("ref", jbk::Value::UnsignedWord(handles[target as usize].clone().into()))]);
    }
    g.write(&d.f("t.jbk"));
    let r = rows(d.f("t.jbk"), "idx", &["key", "ref"]);
    assert_eq!(r.len(), n as usize);
    for (p, row) in r.iter().enumerate() {
        assert_eq!(row[0].as_ref().unwrap().as_unsigned(), p as u64);
        let i = n - 1 - p as u64;
        let target = if i == n - 1 { 0 } else { n - 1 - (i % 200) };
        assert_eq!(row[1].as_ref().unwrap().as_unsigned(), n - 1 - target, "the entry at {p} references another entry");
    }
}
'''),
 dict(id="c02-array-length", property="C02",
  edits=[("src/creator/directory_pack/schema/property.rs", "                max_array_size,\n                fixed_array_len: _,\n                store_handle: _,\n                name,\n            } => {", "                max_array_size,\n                fixed_array_len,\n                store_handle: _,\n                name,\n            } => {"),
         ("src/creator/directory_pack/schema/property.rs", "                assert!(array_size <= 0x00FFFFFF_usize);\n                max_array_size.process(array_size);", "                assert!(array_size <= 0x00FFFFFF_usize);\n                if array_size > *fixed_array_len {\n                    // What is inlined takes a fixed place, only the remaining part is counted.\n                    max_array_size.process(array_size - *fixed_array_len);\n                } else {\n                    max_array_size.process(array_size);\n                }")],
  needs="an array property with an inline prefix of n bytes, whose longest value has between 256 and 255+n bytes (or the same around 65536)",
  breaks="the width of the array length is computed on the part kept in the value store, the length written is the whole one: it doesn't fit and the entry can't be created (or is cut)",
  main='''
fn main() {
    let d = Dir::new("c02-alen");
    for (n, fixed) in [(255usize, 4usize), (256, 4), (258, 4), (65535, 31), (65550, 31), (65566, 31), (3, 5)] {
        let vs = jbk::creator::ValueStore::new_plain(None);
        let mut g = Gen::new(vec![vs.clone()], vec![schema::Property::new_array(fixed, vs, "a"), schema::Property::new_uint("n")], vec![], None);
        let vals: Vec<Vec<u8>> = [n, 0, 1, fixed, fixed + 1, n / 2].iter().map(|l| (0..*l).map(|i| (i * 7 % 251) as u8).collect()).collect();
        for (i, v) in vals.iter().enumerate() {
            g.add(None, vec![("a", jbk::Value::Array(v.as_slice().into())), ("n", jbk::Value::Unsigned(i as u64))]);
        }
        g.write(&d.f("t.jbk"));
        let r = rows(d.f("t.jbk"), "idx", &["a", "n"]);
        assert_eq!(r.len(), vals.len());
        for (i, v) in vals.iter().enumerate() {
            assert_eq!(r[i][0].as_ref().unwrap().as_vec().unwrap().to_vec(), *v, "array of {} bytes, {fixed} inlined", v.len());
            assert_eq!(r[i][1].as_ref().unwrap().as_unsigned(), i as u64);
        }
    }
}
'''),
 dict(id="c02-padding-16", property="C02",
  edits=[("src/creator/directory_pack/layout/properties.rs", "                    let data = vec![0x00; *size as usize];\n                    written += ser.write_data(&data)?;", "                    // Paddings are never longer than 16 bytes: no need to allocate.\n                    const ZEROS: [u8; 16] = [0; 16];\n                    written += ser.write_data(&ZEROS[..(*size & 0x0F) as usize])?;")],
  needs="a schema with a variant at least 16 bytes shorter than the longest one, and an entry after one of that variant",
  breaks="16 bytes paddings are not written: the entry is too short and all the following ones are shifted",
  main='''
fn main() {
    let d = Dir::new("c02-pad");
    for gap in [0usize, 1, 15, 16, 17, 31] {
        let vs = jbk::creator::ValueStore::new_indexed();
        let mut g = Gen::new(
            vec![vs.clone()],
            vec![schema::Property::new_uint("n")],
            vec![("small", vec![schema::Property::new_uint("u")]), ("large", vec![schema::Property::new_uint("u"), schema::Property::new_array(gap, vs, "a")])],
            None,
        );
        let val = |i: u64| (0..40u8).map(|b| b.wrapping_mul(3).wrapping_add(i as u8)).collect::<Vec<u8>>();
        for i in 0..20u64 {
            let mut v = vec![("n", jbk::Value::Unsigned(i)), ("u", jbk::Value::Unsigned(i * 11 % 256))];
            if i % 3 == 1 {
                g.add(Some("small"), v);
            } else {
                v.push(("a", jbk::Value::Array(val(i).as_slice().into())));
                g.add(Some("large"), v);
            }
        }
        g.write(&d.f("t.jbk"));
        let r = rows(d.f("t.jbk"), "idx", &["n", "u"]);
        assert_eq!(r.len(), 20);
        for i in 0..20u64 {
            assert_eq!(r[i as usize][0].as_ref().unwrap().as_unsigned(), i, "entry {i}, {gap}");
            assert_eq!(r[i as usize][1].as_ref().unwrap().as_unsigned(), i * 11 % 256, "entry {i}, {gap}");
        }
    }
}
'''),
 dict(id="c03-rank-cut", property="C03",
  edits=[("src/creator/directory_pack/value_store.rs", "            .par_sort_unstable_by_key(|e| &self.0.data[*e].0);", "            .par_sort_by_key(|e| {\n                // Most values differ early, don't walk the long ones.\n                let data = &self.0.data[*e].0;\n                &data[..data.len().min(64)]\n            });")],
  needs="a store sorted on an array property with values sharing more than 64 bytes after the inline prefix, added in decreasing order",
  breaks="the values of a plain store get their places in an order which is not the one of their bytes: a store sorted by places doesn't follow the order the reader compares with",
  main='''
fn main() {
    let d = Dir::new("c03-rank");
    for fixed in [0usize, 1, 3] {
        let vs = jbk::creator::ValueStore::new_plain(None);
        let mut g = Gen::new(vec![vs.clone()], vec![schema::Property::new_array(fixed, vs, "a"), schema::Property::new_uint("n")], vec![], Some(vec!["a"]));
        let mut keys: Vec<Vec<u8>> = vec![];
        for l in [0usize, 1, 63, 64, 65, 70, 100] {
            for e in [vec![], vec![0u8], vec![0xff], vec![1, 2], vec![0, 0]] {
                let mut k = vec![b'x'; l];
                k.extend(e);
                keys.push(k);
            }
        }
        keys.sort();
        keys.dedup();
        for (i, k) in keys.iter().enumerate().rev() {
            g.add(None, vec![("a", jbk::Value::Array(k.as_slice().into())), ("n", jbk::Value::Unsigned(i as u64))]);
        }
        g.write(&d.f("t.jbk"));
        let r = rows(d.f("t.jbk"), "idx", &["a", "n"]);
        let got: Vec<Vec<u8>> = r.iter().map(|x| x[0].as_ref().unwrap().as_vec().unwrap().to_vec()).collect();
        assert_eq!(got.len(), keys.len());
        for (i, w) in got.windows(2).enumerate() {
            assert!(w[0] < w[1], "entries {i} and {} are not in order (prefix {fixed})", i + 1);
        }
    }
}
'''),
 dict(id="c03-key-32bit", property="C03",
  edits=[("src/reader/directory_pack/raw_value.rs", "            Value::Unsigned(v) => Ok(match self {\n                RawValue::U8(r) => Some((*r as u64).cmp(v)),\n                RawValue::U16(r) => Some((*r as u64).cmp(v)),\n                RawValue::U32(r) => Some((*r as u64).cmp(v)),", "            Value::Unsigned(v) => Ok(match self {\n                RawValue::U8(r) => Some((*r as u64).cmp(v)),\n                RawValue::U16(r) => Some((*r as u64).cmp(v)),\n                RawValue::U32(r) => Some(r.cmp(&(*v as u32))),")],
  needs="looking up, in a column of three or four bytes, an absent key which is larger than 2^32",
  breaks="a key which was not written is found: the entry returned carries its low 32 bits",
  main='''
use jbk::reader::{builder::AnyBuilder, Range as _};

fn main() {
    let d = Dir::new("c03-key");
    for w in 1..=8u32 {
        let mut g = Gen::new(vec![], vec![schema::Property::new_uint("key"), schema::Property::new_uint("n")], vec![], Some(vec!["key"]));
        let top = if w == 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
        let keys = [0, 1, 7, top / 2, top - 1, top];
        for (i, k) in keys.iter().enumerate() {
            g.add(None, vec![("key", jbk::Value::Unsigned(*k)), ("n", jbk::Value::Unsigned(i as u64))]);
        }
        g.write(&d.f("t.jbk"));
        let container = jbk::reader::Container::new(d.f("t.jbk")).unwrap();
        let index = container.get_index_for_name("idx").unwrap().unwrap();
        let b = AnyBuilder::new(index.get_store(container.get_entry_storage()).unwrap(), container.get_value_storage().as_ref()).unwrap();
        let mut probes: Vec<u64> = keys.to_vec();
        for k in keys {
            for s in [8u32, 16, 24, 32, 40, 48, 56] {
                probes.push(k ^ (1u64 << s));
                probes.push(k.wrapping_add(1 << s));
            }
            probes.push(k ^ 2);
        }
        for p in probes {
            let cmp = b.new_property_compare("key".into(), jbk::Value::Unsigned(p));
            let found = index.find(&cmp).unwrap();
            assert_eq!(found.is_some(), keys.contains(&p), "key {p} in a column of {w} byte(s)");
            if let Some(i) = found {
                assert_eq!(keys[i.into_u32() as usize], p);
            }
        }
    }
}
'''),
 dict(id="c01-id-16bit", property="C01",
  edits=[("src/creator/content_pack/creator.rs", "let content_id = ((self.content_infos.len() - 1) as u32).into();", "let content_id = ((self.content_infos.len() - 1) as u16 as u32).into();")],
  needs="a content pack with more than 65536 contents",
  breaks="the address returned for content 65536 and the following is the one of the content 65536 places before: it reads back another content",
  main="""
fn main() {
    let d = Dir::new("c01-id");
    let n = 66_000u32;
    let contents = (0..n).map(|i| (cur(format!("content {i}")), CompHint::No)).collect();
    let addrs = make(&d.f("t.jbk"), ConcatMode::OneFile, Compression::None, contents);
    let c = jbk::reader::Container::new(d.f("t.jbk")).unwrap();
    for (i, a) in addrs.iter().enumerate() {
        if i % 97 == 0 || i > 65_000 {
            assert_eq!(content(&c, *a).unwrap(), format!("content {i}").into_bytes(), "content {i} does not read back");
        }
    }
}
"""),
 dict(id="c01-blob-limit", property="C01",
  edits=[("src/creator/content_pack/cluster.rs", "const MAX_BLOBS_PER_CLUSTER: usize = 0xFFF;", "const MAX_BLOBS_PER_CLUSTER: usize = 5000;")],
  needs="more than 4096 contents in a row stored in one cluster",
  breaks="the index of a blob does not fit its 12 bits: content 4096 of a cluster reads back as content 0 of it",
  main="""
fn main() {
    let d = Dir::new("c01-limit");
    for comp in [Compression::None, Compression::zstd()] {
        let contents = (0..9000).map(|i| (cur(format!("c{i}")), if i % 2 == 0 { CompHint::No } else { CompHint::Yes })).chain((0..9000).map(|i| (cur(format!("d{i}")), CompHint::No))).collect();
        let addrs = make(&d.f("t.jbk"), ConcatMode::OneFile, comp, contents);
        let c = jbk::reader::Container::new(d.f("t.jbk")).unwrap();
        for (i, a) in addrs.iter().enumerate() {
            let want = if i < 9000 { format!("c{i}") } else { format!("d{}", i - 9000) };
            assert_eq!(content(&c, *a).unwrap(), want.into_bytes(), "content {i} does not read back");
        }
    }
}
"""),
 dict(id="c07-switch-race", property="C07",
  edits=[("src/reader/content_pack/cluster.rs", "        let mut cluster_reader = self.reader.write().unwrap();\n        if let ClusterReader::Plain(_) = *cluster_reader {\n            return Ok(());\n        };\n", "        // Most of the time, there is nothing to do: no need of exclusive access to find it out.\n        if let ClusterReader::Plain(_) = *self.reader.read().unwrap() {\n            return Ok(());\n        };\n        let mut cluster_reader = self.reader.write().unwrap();\n")],
  needs="two threads which read a compressed cluster for the first time together",
  breaks="the second one finds the cluster switched to its plain data after having tested that it was not: it panics, and every later read of the cluster does",
  main="""
fn main() {
    let d = Dir::new("c07-switch");
    let mut contents: Vec<(Box<dyn InputReader>, CompHint)> = vec![];
    for i in 0..40u32 {
        let text: String = (0..300_000u32).map(|j| char::from(b'a' + ((j * (i + 3) / 7) % 23) as u8)).collect();
        contents.push((cur(text), CompHint::Yes));
        contents.push((cur(vec![i as u8; 4_000_000]), CompHint::Yes));
    }
    let addrs = make(&d.f("t.jbk"), ConcatMode::OneFile, Compression::zstd(), contents);
    for _ in 0..20 {
        let c = jbk::reader::Container::new(d.f("t.jbk")).unwrap();
        let barrier = std::sync::Barrier::new(8);
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..8)
                .map(|_| {
                    s.spawn(|| {
                        for a in &addrs {
                            barrier.wait();
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.get_bytes(*a).unwrap().and_then(|m| m.transpose()).unwrap().unwrap().size()));
                            if r.is_err() {
                                eprintln!("a reader panicked");
                                std::process::exit(1);
                            }
                        }
                    })
                })
                .collect();
            for h in hs {
                h.join().unwrap();
            }
        });
    }
}
"""),
 dict(id="c07-seek-read", property="C07",
  edits=[("src/bases/io/file.rs", "        let mut f = self.lock().unwrap();\n        // TODO: Use `read_at`/`seek_read`\n        f.seek(SeekFrom::Start(offset.into_u64()))?;\n        f.read(buf)", "        // TODO: Use `read_at`/`seek_read`\n        self.lock()\n            .unwrap()\n            .seek(SeekFrom::Start(offset.into_u64()))?;\n        self.lock().unwrap().read(buf)")],
  needs="two threads which read contents of one file at the same time, one of them moving the file between the seek and the read of the other",
  breaks="a reader gets the bytes at the place another thread wanted to read",
  main="""
use std::io::Read;

fn main() {
    let d = Dir::new("c07-seek");
    let contents = (0..64u8).map(|i| (cur(vec![i; 50_000]), CompHint::No)).collect();
    let addrs = make(&d.f("t.jbk"), ConcatMode::OneFile, Compression::None, contents);
    let c = jbk::reader::Container::new(d.f("t.jbk")).unwrap();
    let wrong = std::sync::atomic::AtomicBool::new(false);
    let (c, addrs, wrong) = (&c, &addrs, &wrong);
    std::thread::scope(|s| {
        for t in 0..8usize {
            s.spawn(move || {
                for round in 0..60usize {
                    for j in 0..8usize {
                        let i = (t * 8 + j + round) % 64;
                        let r = c.get_bytes(addrs[i]).unwrap().and_then(|m| m.transpose()).unwrap().unwrap();
                        let mut st = r.stream();
                        let mut buf = [0u8; 500];
                        loop {
                            let n = st.read(&mut buf).unwrap();
                            if n == 0 {
                                break;
                            }
                            if buf[..n].iter().any(|b| *b != i as u8) {
                                wrong.store(true, std::sync::atomic::Ordering::Relaxed);
                            }
                        }
                    }
                }
            });
        }
    });
    assert!(!wrong.load(std::sync::atomic::Ordering::Relaxed), "a thread read the bytes of another content");
}
"""),

 dict(id="c06-magic-unreachable", property="C06",
  edits=[("src/common/pack_kind.rs", """                kind => Err(format_error!(&format!("Invalid pack kind {kind}"), parser)),""",
"""                // Blocks are verified before they are parsed, so the kind is one a creator wrote
                kind => unreachable!("Invalid pack kind {kind}"),""")],
  needs="the fourth byte of a file's magic altered, with nothing readable at the end of the file, so that the header is parsed unverified for the version message",
  breaks="opening a file whose magic is damaged panics instead of being an error: the version probe parses the header without its CRC",
  main="""
fn main() {
    let d = Dir::new("c06-magic");
    let contents = (0..10).map(|i| (cur(format!("content number {i}")), CompHint::No)).collect();
    make(&d.f("t.jbk"), ConcatMode::OneFile, Compression::None, contents);
    let b = std::fs::read(d.f("t.jbk")).unwrap();
    let open = |b: &[u8]| {
        std::fs::write(d.f("x.jbk"), b).unwrap();
        let p = d.f("x.jbk");
        match std::panic::catch_unwind(move || jbk::reader::Container::new(p).is_ok()) {
            Ok(r) => r,
            Err(_) => {
                println!("opening a damaged file panics");
                std::process::exit(1)
            }
        }
    };
    assert!(open(&b));
    for mask in [1u8, 0x10, 0x80, 0xff] {
        // truncated, and an altered magic
        for at in 0..64 {
            let mut x = b[..b.len() - 7].to_vec();
            x[at] ^= mask;
            open(&x);
        }
    }
}
"""),
 dict(id="c06-cluster-expect", property="C06",
  edits=[("src/reader/content_pack/mod.rs", """        let cluster = self.reader.parse_data_block::<Cluster>(cluster_info)?;
        Ok(Arc::new(cluster))""", """        let cluster = self.reader.parse_data_block::<Cluster>(cluster_info);
        Ok(Arc::new(cluster.expect("The cluster table points to clusters")))""")],
  needs="a byte altered in the tail of a cluster (the block after its data), and a content of this cluster asked for",
  breaks="reading a content of a cluster whose tail is damaged panics, and every later read of the pack too (its cache stays locked), instead of being an error",
  main="""
fn main() {
    let d = Dir::new("c06-cluster");
    let contents: Vec<(Box<dyn InputReader>, CompHint)> = (0..10).map(|i| (cur(format!("content number {i}")), CompHint::No)).collect();
    let addrs = make(&d.f("t.jbk"), ConcatMode::TwoFiles, Compression::None, contents);
    let f = d.f("t.jbkc");
    let b = std::fs::read(&f).unwrap();
    let start = b.windows(4).position(|w| w == b"jbkc").unwrap();
    // the only cluster: its tail is at the position the cluster table gives
    let table = start + u64_at(&b, start + 64 + 8) as usize;
    let at = start + (u64_at(&b, table) >> 16) as usize;
    for delta in 0..4 {
        let mut x = b.clone();
        x[at + delta] ^= 0x41;
        std::fs::write(&f, &x).unwrap();
        let (p, a) = (d.f("t.jbk"), addrs[3]);
        let r = std::panic::catch_unwind(move || {
            let c = jbk::reader::Container::new(p).unwrap();
            c.get_bytes(a).is_ok()
        });
        match r {
            Ok(false) => (),
            Ok(true) => panic!("the tail is not where this looks for it"),
            Err(_) => {
                println!("reading a content of a damaged cluster panics");
                std::process::exit(1)
            }
        }
    }
}
"""),
]
