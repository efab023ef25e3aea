//! Stand-in for `rocksdb` (apendleton/rust-rocksdb, 0.12.3 with read-only opens): an ordered
//! byte-string map kept in one file of a directory, with the part of the original's interface
//! that carmen-core uses and some more. It keeps the original's contract where carmen-core can
//! see it: byte order of keys, iterators over a snapshot that own what they yield, values handed
//! out as owned buffers, read-only opens of missing databases failing, one writer at a time.

use std::collections::{BTreeMap, HashSet};
use std::fmt;
use std::fs;
use std::io::Write;
use std::ops::Deref;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex, OnceLock};

const FILE: &str = "000001.sst";
const MAGIC: &[u8; 8] = b"STANDDB1";

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error {
    message: String,
}

impl Error {
    fn new(message: String) -> Error {
        Error { message }
    }
    pub fn into_string(self) -> String {
        self.message
    }
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.message)
    }
}

impl std::error::Error for Error {}

impl From<Error> for String {
    fn from(e: Error) -> String {
        e.message
    }
}

fn io_err<T>(what: &str, path: &Path, r: std::io::Result<T>) -> Result<T, Error> {
    r.map_err(|e| Error::new(format!("IO error: {} {}: {}", what, path.display(), e)))
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum DBCompressionType {
    None,
    Snappy,
    Zlib,
    Bz2,
    Lz4,
    Lz4hc,
    Zstd,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum DBCompactionStyle {
    Level,
    Universal,
    Fifo,
}

#[derive(Debug, Clone, Default)]
pub struct Options {
    create_if_missing: bool,
    error_if_exists: bool,
    read_only: bool,
}

macro_rules! ignored {
    ($($name:ident: $t:ty),* $(,)?) => {
        impl Options { $( pub fn $name(&mut self, _v: $t) {} )* }
    };
}

ignored! {
    set_disable_auto_compactions: bool,
    set_allow_mmap_reads: bool,
    set_allow_mmap_writes: bool,
    increase_parallelism: i32,
    optimize_level_style_compaction: usize,
    optimize_for_point_lookup: u64,
    set_compression_type: DBCompressionType,
    set_compression_per_level: &[DBCompressionType],
    set_compaction_style: DBCompactionStyle,
    set_max_open_files: i32,
    set_use_fsync: bool,
    set_bytes_per_sync: u64,
    set_write_buffer_size: usize,
    set_max_write_buffer_number: i32,
    set_min_write_buffer_number: i32,
    set_min_write_buffer_number_to_merge: i32,
    set_max_bytes_for_level_base: u64,
    set_max_bytes_for_level_multiplier: f64,
    set_target_file_size_base: u64,
    set_level_zero_file_num_compaction_trigger: i32,
    set_max_background_compactions: i32,
    set_max_background_flushes: i32,
    set_num_levels: i32,
    set_use_direct_reads: bool,
    set_advise_random_on_open: bool,
    set_max_manifest_file_size: usize,
    set_report_bg_io_stats: bool,
}

impl Options {
    pub fn create_if_missing(&mut self, v: bool) {
        self.create_if_missing = v;
    }
    pub fn set_error_if_exists(&mut self, v: bool) {
        self.error_if_exists = v;
    }
    pub fn set_read_only(&mut self, v: bool) {
        self.read_only = v;
    }
    pub fn prepare_for_bulk_load(&mut self) {}
    pub fn enable_statistics(&mut self) {}
}

#[derive(Debug, Clone, Default)]
pub struct ReadOptions {}

impl ReadOptions {
    pub fn fill_cache(&mut self, _v: bool) {}
    pub fn set_verify_checksums(&mut self, _v: bool) {}
}

#[derive(Debug, Clone, Default)]
pub struct WriteOptions {}

impl WriteOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set_sync(&mut self, _v: bool) {}
    pub fn disable_wal(&mut self, _v: bool) {}
}

/// An owned value.
pub struct DBVector(Vec<u8>);

impl Deref for DBVector {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}

impl AsRef<[u8]> for DBVector {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}

impl fmt::Debug for DBVector {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

impl PartialEq for DBVector {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}

impl DBVector {
    pub fn to_utf8(&self) -> Option<&str> {
        std::str::from_utf8(&self.0).ok()
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Direction {
    Forward,
    Reverse,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}

pub type KVBytes = (Box<[u8]>, Box<[u8]>);
type Sorted = Arc<Vec<(Box<[u8]>, Box<[u8]>)>>;

pub struct DBIterator {
    data: Sorted,
    /// The next position going forward; going backward the position after the next one.
    pos: usize,
    dir: Direction,
}

impl DBIterator {
    fn at(data: Sorted, mode: IteratorMode<'_>) -> DBIterator {
        let mut it = DBIterator { data, pos: 0, dir: Direction::Forward };
        it.set_mode(mode);
        it
    }

    pub fn set_mode(&mut self, mode: IteratorMode<'_>) {
        match mode {
            IteratorMode::Start => {
                self.pos = 0;
                self.dir = Direction::Forward;
            }
            IteratorMode::End => {
                self.pos = self.data.len();
                self.dir = Direction::Reverse;
            }
            IteratorMode::From(key, dir) => {
                self.dir = dir;
                self.pos = match dir {
                    Direction::Forward => self.data.partition_point(|(k, _)| &k[..] < key),
                    Direction::Reverse => self.data.partition_point(|(k, _)| &k[..] <= key),
                };
            }
        }
    }

    pub fn valid(&self) -> bool {
        match self.dir {
            Direction::Forward => self.pos < self.data.len(),
            Direction::Reverse => self.pos > 0,
        }
    }
}

impl Iterator for DBIterator {
    type Item = KVBytes;
    fn next(&mut self) -> Option<KVBytes> {
        if !self.valid() {
            return None;
        }
        let (k, v) = match self.dir {
            Direction::Forward => {
                self.pos += 1;
                &self.data[self.pos - 1]
            }
            Direction::Reverse => {
                self.pos -= 1;
                &self.data[self.pos]
            }
        };
        Some((k.clone(), v.clone()))
    }
}

#[derive(Debug, Clone, Default)]
pub struct WriteBatch {
    ops: Vec<(Vec<u8>, Option<Vec<u8>>)>,
}

impl WriteBatch {
    pub fn len(&self) -> usize {
        self.ops.len()
    }
    pub fn is_empty(&self) -> bool {
        self.ops.is_empty()
    }
    pub fn clear(&mut self) {
        self.ops.clear()
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, key: K, value: V) -> Result<(), Error> {
        self.ops.push((key.as_ref().to_vec(), Some(value.as_ref().to_vec())));
        Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&mut self, key: K) -> Result<(), Error> {
        self.ops.push((key.as_ref().to_vec(), None));
        Ok(())
    }
}

enum Store {
    ReadOnly(Sorted),
    ReadWrite(Mutex<BTreeMap<Box<[u8]>, Box<[u8]>>>),
}

pub struct DB {
    path: PathBuf,
    store: Store,
    dirty: AtomicBool,
}

impl fmt::Debug for DB {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "RocksDB {{ path: {:?} }}", self.path)
    }
}

fn writers() -> &'static Mutex<HashSet<PathBuf>> {
    static W: OnceLock<Mutex<HashSet<PathBuf>>> = OnceLock::new();
    W.get_or_init(|| Mutex::new(HashSet::new()))
}

fn load(file: &Path) -> Result<Vec<(Box<[u8]>, Box<[u8]>)>, Error> {
    let bytes = io_err("while reading", file, fs::read(file))?;
    let bad = || Error::new(format!("Corruption: {}", file.display()));
    let mut rest: &[u8] = &bytes;
    let mut take = |n: usize| -> Result<&[u8], Error> {
        if rest.len() < n {
            return Err(bad());
        }
        let (a, b) = rest.split_at(n);
        rest = b;
        Ok(a)
    };
    let num = |b: &[u8]| {
        let mut a = [0u8; 8];
        a.copy_from_slice(b);
        u64::from_le_bytes(a) as usize
    };
    if take(8)? != MAGIC {
        return Err(bad());
    }
    let n = num(take(8)?);
    let mut out = Vec::with_capacity(n);
    for _ in 0..n {
        let kl = num(take(8)?);
        let vl = num(take(8)?);
        let k: Box<[u8]> = take(kl)?.into();
        let v: Box<[u8]> = take(vl)?.into();
        out.push((k, v));
    }
    Ok(out)
}

fn save(dir: &Path, data: &BTreeMap<Box<[u8]>, Box<[u8]>>) -> Result<(), Error> {
    let size: usize = data.iter().map(|(k, v)| 16 + k.len() + v.len()).sum();
    let mut buf = Vec::with_capacity(16 + size);
    buf.extend_from_slice(MAGIC);
    buf.extend_from_slice(&(data.len() as u64).to_le_bytes());
    for (k, v) in data {
        buf.extend_from_slice(&(k.len() as u64).to_le_bytes());
        buf.extend_from_slice(&(v.len() as u64).to_le_bytes());
        buf.extend_from_slice(k);
        buf.extend_from_slice(v);
    }
    let tmp = dir.join("tmp");
    let mut f = io_err("while creating", &tmp, fs::File::create(&tmp))?;
    io_err("while writing", &tmp, f.write_all(&buf))?;
    drop(f);
    io_err("while renaming", &tmp, fs::rename(&tmp, dir.join(FILE)))
}

fn read_only_error() -> Error {
    Error::new("Not implemented: Not supported operation in read only mode.".to_owned())
}

impl DB {
    pub fn open_default<P: AsRef<Path>>(path: P) -> Result<DB, Error> {
        let mut o = Options::default();
        o.create_if_missing(true);
        DB::open(&o, path)
    }

    pub fn open_for_read_only<P: AsRef<Path>>(
        _opts: &Options,
        path: P,
        _error_if_log_file_exist: bool,
    ) -> Result<DB, Error> {
        let mut o = Options::default();
        o.set_read_only(true);
        DB::open(&o, path)
    }

    pub fn open<P: AsRef<Path>>(opts: &Options, path: P) -> Result<DB, Error> {
        let path = path.as_ref().to_owned();
        let file = path.join(FILE);
        if opts.read_only {
            let data = load(&file)?;
            return Ok(DB { path, store: Store::ReadOnly(Arc::new(data)), dirty: AtomicBool::new(false) });
        }
        if !path.is_dir() {
            if !opts.create_if_missing {
                return Err(Error::new(format!(
                    "Invalid argument: {}: does not exist (create_if_missing is false)",
                    path.display()
                )));
            }
            io_err("while mkdir", &path, fs::create_dir_all(&path))?;
        }
        let path = io_err("while resolving", &path, fs::canonicalize(&path))?;
        let exists = file.exists();
        if !exists && !opts.create_if_missing {
            return Err(Error::new(format!(
                "Invalid argument: {}: does not exist (create_if_missing is false)",
                path.display()
            )));
        }
        if exists && opts.error_if_exists {
            return Err(Error::new(format!(
                "Invalid argument: {}: exists (error_if_exists is true)",
                path.display()
            )));
        }
        if !writers().lock().unwrap().insert(path.clone()) {
            return Err(Error::new(format!(
                "IO error: lock {}/LOCK: No locks available",
                path.display()
            )));
        }
        let data = if exists {
            match load(&file) {
                Ok(d) => d.into_iter().collect(),
                Err(e) => {
                    writers().lock().unwrap().remove(&path);
                    return Err(e);
                }
            }
        } else {
            BTreeMap::new()
        };
        Ok(DB { path, store: Store::ReadWrite(Mutex::new(data)), dirty: AtomicBool::new(true) })
    }

    pub fn destroy<P: AsRef<Path>>(_opts: &Options, path: P) -> Result<(), Error> {
        let file = path.as_ref().join(FILE);
        if file.exists() {
            io_err("while removing", &file, fs::remove_file(&file))?;
        }
        Ok(())
    }

    pub fn path(&self) -> &Path {
        &self.path
    }

    fn sorted(&self) -> Sorted {
        match &self.store {
            Store::ReadOnly(d) => d.clone(),
            Store::ReadWrite(m) => Arc::new(
                m.lock().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
            ),
        }
    }

    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<DBVector>, Error> {
        let key = key.as_ref();
        Ok(match &self.store {
            Store::ReadOnly(d) => match d.binary_search_by(|(k, _)| (&k[..]).cmp(key)) {
                Ok(i) => Some(DBVector(d[i].1.to_vec())),
                Err(_) => None,
            },
            Store::ReadWrite(m) => m.lock().unwrap().get(key).map(|v| DBVector(v.to_vec())),
        })
    }

    pub fn get_opt<K: AsRef<[u8]>>(
        &self,
        key: K,
        _o: &ReadOptions,
    ) -> Result<Option<DBVector>, Error> {
        self.get(key)
    }

    pub fn get_pinned<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<DBVector>, Error> {
        self.get(key)
    }

    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error> {
        match &self.store {
            Store::ReadOnly(_) => Err(read_only_error()),
            Store::ReadWrite(m) => {
                self.dirty.store(true, Ordering::SeqCst);
                m.lock().unwrap().insert(key.as_ref().into(), value.as_ref().into());
                Ok(())
            }
        }
    }

    pub fn put_opt<K: AsRef<[u8]>, V: AsRef<[u8]>>(
        &self,
        key: K,
        value: V,
        _o: &WriteOptions,
    ) -> Result<(), Error> {
        self.put(key, value)
    }

    pub fn delete<K: AsRef<[u8]>>(&self, key: K) -> Result<(), Error> {
        match &self.store {
            Store::ReadOnly(_) => Err(read_only_error()),
            Store::ReadWrite(m) => {
                self.dirty.store(true, Ordering::SeqCst);
                m.lock().unwrap().remove(key.as_ref());
                Ok(())
            }
        }
    }

    pub fn write(&self, batch: WriteBatch) -> Result<(), Error> {
        for (k, v) in batch.ops {
            match v {
                Some(v) => self.put(k, v)?,
                None => self.delete(k)?,
            }
        }
        Ok(())
    }

    pub fn write_opt(&self, batch: WriteBatch, _o: &WriteOptions) -> Result<(), Error> {
        self.write(batch)
    }

    pub fn write_without_wal(&self, batch: WriteBatch) -> Result<(), Error> {
        self.write(batch)
    }

    pub fn iterator(&self, mode: IteratorMode<'_>) -> DBIterator {
        DBIterator::at(self.sorted(), mode)
    }

    pub fn iterator_opt(&self, mode: IteratorMode<'_>, _o: &ReadOptions) -> DBIterator {
        self.iterator(mode)
    }

    pub fn full_iterator(&self, mode: IteratorMode<'_>) -> DBIterator {
        self.iterator(mode)
    }

    pub fn compact_range<S: AsRef<[u8]>, E: AsRef<[u8]>>(&self, _start: Option<S>, _end: Option<E>) {
        let _ = self.flush();
    }

    pub fn flush(&self) -> Result<(), Error> {
        match &self.store {
            Store::ReadOnly(_) => Ok(()),
            Store::ReadWrite(m) => {
                let data = m.lock().unwrap();
                if self.dirty.swap(false, Ordering::SeqCst) {
                    save(&self.path, &data)?;
                }
                Ok(())
            }
        }
    }

    pub fn latest_sequence_number(&self) -> u64 {
        0
    }
}

impl Drop for DB {
    fn drop(&mut self) {
        if let Store::ReadWrite(m) = &self.store {
            if let Ok(data) = m.lock() {
                if self.dirty.swap(false, Ordering::SeqCst) {
                    let _ = save(&self.path, &data);
                }
            }
            writers().lock().unwrap_or_else(|e| e.into_inner()).remove(&self.path);
        }
    }
}

#[cfg(test)]
mod test {
    use super::*;

    #[test]
    fn contract() {
        let dir = std::env::temp_dir().join(format!("standdb-{}", std::process::id()));
        let mut ro = Options::default();
        ro.set_read_only(true);
        assert!(DB::open(&ro, &dir).is_err());
        let mut rw = Options::default();
        assert!(DB::open(&rw, &dir).is_err());
        rw.create_if_missing(true);
        {
            let db = DB::open(&rw, &dir).unwrap();
            assert!(DB::open(&rw, &dir).is_err(), "one writer at a time");
            db.put(b"b", b"2").unwrap();
            db.put(b"a", b"1").unwrap();
            db.put(b"ab", b"").unwrap();
        }
        {
            let db = DB::open(&rw, &dir).unwrap();
            db.put(b"b", b"3").unwrap();
            db.put(b"c", b"4").unwrap();
        }
        let db = DB::open(&ro, &dir).unwrap();
        assert!(db.put(b"x", b"y").is_err());
        assert_eq!(&db.get(b"b").unwrap().unwrap()[..], b"3");
        assert!(db.get(b"bb").unwrap().is_none());
        let keys = |m: IteratorMode<'_>| -> Vec<Vec<u8>> {
            db.iterator(m).map(|(k, _)| k.to_vec()).collect()
        };
        let all: Vec<Vec<u8>> =
            [&b"a"[..], b"ab", b"b", b"c"].iter().map(|k| k.to_vec()).collect();
        assert_eq!(keys(IteratorMode::Start), all);
        let rev: Vec<_> = all.iter().rev().cloned().collect();
        assert_eq!(keys(IteratorMode::End), rev);
        assert_eq!(keys(IteratorMode::From(b"aa", Direction::Forward)), all[1..].to_vec());
        assert_eq!(keys(IteratorMode::From(b"aa", Direction::Reverse)), all[..1].to_vec());
        drop(db);
        fs::remove_dir_all(&dir).unwrap();
    }
}
