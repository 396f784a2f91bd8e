#![allow(dead_code)]
pub use jbk::creator::schema;
use jbk::creator::EntryStoreTrait;
pub use jbk::creator::{Compression, CompHint, ConcatMode, InputReader, ContentAdder};
use jbk::reader::{builder::AnyBuilder, EntryTrait, Range as _};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;

pub const VENDOR: jbk::VendorId = jbk::VendorId::new([1, 2, 3, 4]);
type Entry = jbk::creator::BasicEntry<&'static str, &'static str>;
type Store = jbk::creator::EntryStore<&'static str, &'static str, Entry>;

pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new(name: &str) -> Self {
        let p = std::env::temp_dir().join(format!("jbkdemo-{}-{}", name, std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Dir(p)
    }
    pub fn f(&self, n: &str) -> String {
        self.0.join(n).to_str().unwrap().to_string()
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct Es {
    vs: jbk::creator::StoreHandle,
    store: Box<Store>,
    n: u32,
}
impl Es {
    pub fn new() -> Self {
        let vs = jbk::creator::ValueStore::new_plain(None);
        let schema = schema::Schema::new(
            schema::CommonProperties::new(vec![
                schema::Property::new_array(1, vs.clone(), "a"),
                schema::Property::new_uint("n"),
                schema::Property::new_content_address("c"),
            ]),
            vec![],
            None,
        );
        Es { vs, store: Box::new(jbk::creator::EntryStore::new(schema, None)), n: 0 }
    }
    pub fn add(&mut self, name: &str, n: u64, c: jbk::ContentAddress) {
        let e = Entry::new_from_schema(
            &self.store.schema,
            None,
            HashMap::from([
                ("a", jbk::Value::Array(name.into())),
                ("n", jbk::Value::Unsigned(n)),
                ("c", jbk::Value::Content(c)),
            ]),
        );
        self.store.add_entry(e);
        self.n += 1;
    }
}
impl EntryStoreTrait for Es {
    fn finalize(self: Box<Self>, d: &mut jbk::creator::DirectoryPackCreator) {
        d.add_value_store(self.vs);
        let id = d.add_entry_store(self.store);
        d.create_index("idx", Default::default(), 0.into(), id, self.n.into(), jbk::EntryIdx::from(0).into());
    }
}

pub fn cur(v: impl Into<Vec<u8>>) -> Box<dyn InputReader> {
    Box::new(std::io::Cursor::new(v.into()))
}

/// one container whose i-th entry is ("name-i", i, content i)
pub fn make(out: &str, mode: ConcatMode, comp: Compression, contents: Vec<(Box<dyn InputReader>, CompHint)>) -> Vec<jbk::ContentAddress> {
    let mut cr = jbk::creator::BasicCreator::new(out, mode, VENDOR, comp, Arc::new(())).unwrap();
    let mut es = Box::new(Es::new());
    let mut r = vec![];
    for (i, (c, h)) in contents.into_iter().enumerate() {
        let a = cr.add_content(c, h).unwrap();
        es.add(&format!("name-{i}"), i as u64, a);
        r.push(a);
    }
    cr.finalize(es, vec![]).unwrap();
    r
}

pub fn content(container: &jbk::reader::Container, a: jbk::ContentAddress) -> Option<Vec<u8>> {
    use std::io::Read;
    let region = container.get_bytes(a).unwrap().and_then(|m| m.transpose())?.unwrap();
    let mut v = vec![];
    region.stream().read_to_end(&mut v).unwrap();
    Some(v)
}

/// (name, n, content) of every entry
pub fn dump(path: impl AsRef<Path>) -> Vec<(Vec<u8>, u64, Option<Vec<u8>>)> {
    let container = jbk::reader::Container::new(path).unwrap();
    let index = container.get_index_for_name("idx").unwrap().unwrap();
    let b = AnyBuilder::new(index.get_store(container.get_entry_storage()).unwrap(), container.get_value_storage().as_ref()).unwrap();
    let mut r = vec![];
    let mut i = 0u32;
    while let Some(e) = index.get_entry(&b, i.into()).unwrap() {
        r.push((
            e.get_value("a").unwrap().unwrap().as_vec().unwrap().to_vec(),
            e.get_value("n").unwrap().unwrap().as_unsigned(),
            content(&container, e.get_value("c").unwrap().unwrap().as_content()),
        ));
        i += 1;
    }
    r
}

/// same, with further content packs (id, contents) written beside; their first content is referenced by the last entries
pub fn make_extra(out: &str, mode: ConcatMode, comp: Compression, contents: Vec<(Box<dyn InputReader>, CompHint)>, extra: Vec<(u16, String, Vec<Vec<u8>>)>) -> Vec<jbk::ContentAddress> {
    let mut cr = jbk::creator::BasicCreator::new(out, mode, VENDOR, comp, Arc::new(())).unwrap();
    let mut es = Box::new(Es::new());
    let mut r = vec![];
    for (i, (c, h)) in contents.into_iter().enumerate() {
        let a = cr.add_content(c, h).unwrap();
        es.add(&format!("name-{i}"), i as u64, a);
        r.push(a);
    }
    let mut packs = vec![];
    for (id, path, cs) in extra {
        let f = jbk::creator::AtomicOutFile::new(&path).unwrap();
        let f: Box<dyn jbk::creator::PackRecipient> = f;
        let mut p = jbk::creator::ContentPackCreator::new_from_output(f, id.into(), VENDOR, Default::default(), comp).unwrap();
        for c in cs {
            let a = p.add_content(cur(c), CompHint::No).unwrap();
            es.add(&format!("extra-{}", r.len()), r.len() as u64, a);
            r.push(a);
        }
        packs.push(p);
    }
    cr.finalize(es, packs).unwrap();
    r
}

pub fn u64_at(b: &[u8], p: usize) -> u64 {
    u64::from_le_bytes(b[p..p + 8].try_into().unwrap())
}

/// CRC-32C as the format has it
pub fn crc(data: &[u8]) -> [u8; 4] {
    let mut c = 0xFFFF_FFFFu32;
    for b in data {
        c ^= (*b as u32) << 24;
        for _ in 0..8 {
            c = if c & 0x8000_0000 != 0 { (c << 1) ^ 0x1EDC6F41 } else { c << 1 };
        }
    }
    c.to_be_bytes()
}

/// any schema: the stores its arrays live in, its entries and its index windows (name, offset, count)
pub struct Gen {
    pub vs: Vec<jbk::creator::StoreHandle>,
    pub store: Box<Store>,
    pub indexes: Vec<(String, u32, u32)>,
}
impl Gen {
    pub fn new(
        vs: Vec<jbk::creator::StoreHandle>,
        common: Vec<schema::Property<&'static str>>,
        variants: Vec<(&'static str, Vec<schema::Property<&'static str>>)>,
        sort: Option<Vec<&'static str>>,
    ) -> Self {
        let schema = schema::Schema::new(
            schema::CommonProperties::new(common),
            variants.into_iter().map(|(n, p)| (n, schema::VariantProperties::new(p))).collect(),
            sort,
        );
        Gen { vs, store: Box::new(jbk::creator::EntryStore::new(schema, None)), indexes: vec![] }
    }
    pub fn add(&mut self, variant: Option<&'static str>, values: Vec<(&'static str, jbk::Value)>) -> jbk::Bound<jbk::EntryIdx> {
        self.add_idx(jbk::Vow::new(jbk::EntryIdx::from(0)), variant, values)
    }
    pub fn add_idx(&mut self, vow: jbk::Vow<jbk::EntryIdx>, variant: Option<&'static str>, values: Vec<(&'static str, jbk::Value)>) -> jbk::Bound<jbk::EntryIdx> {
        let e = Entry::new_from_schema_idx(&self.store.schema, vow, variant, values.into_iter().collect());
        self.store.add_entry(e)
    }
    /// write one container; `idx` covers all the entries when no index was asked for
    pub fn write(mut self, out: &str) {
        if self.indexes.is_empty() {
            self.indexes.push(("idx".into(), 0, self.store.len() as u32));
        }
        let cr = jbk::creator::BasicCreator::new(out, ConcatMode::OneFile, VENDOR, Compression::None, Arc::new(())).unwrap();
        cr.finalize(Box::new(self), vec![]).unwrap();
    }
}
impl EntryStoreTrait for Gen {
    fn finalize(self: Box<Self>, d: &mut jbk::creator::DirectoryPackCreator) {
        for v in self.vs {
            d.add_value_store(v);
        }
        let id = d.add_entry_store(self.store);
        for (n, o, c) in &self.indexes {
            d.create_index(n, Default::default(), 0.into(), id, (*c).into(), jbk::EntryIdx::from(*o).into());
        }
    }
}

/// the values of the properties `names` of every entry of an index
pub fn rows(path: impl AsRef<Path>, index: &str, names: &[&str]) -> Vec<Vec<Option<jbk::reader::RawValue>>> {
    let container = jbk::reader::Container::new(path).unwrap();
    let index = container.get_index_for_name(index).unwrap().unwrap();
    let b = AnyBuilder::new(index.get_store(container.get_entry_storage()).unwrap(), container.get_value_storage().as_ref()).unwrap();
    let mut r = vec![];
    let mut i = 0u32;
    while let Some(e) = index.get_entry(&b, i.into()).unwrap() {
        r.push(names.iter().map(|n| e.get_value(n).unwrap()).collect());
        i += 1;
    }
    r
}
