//! The interface of rust-rocksdb 0.12 (plus the fork's read-only opens) over the simulated disk.
//!
//! Faithful to what the binding promises: iterators end silently on a read error (0.12 has no
//! status on `DBIterator`), `compact_range` returns nothing, a read-only handle serves the state
//! found when it was opened, write-ahead-log records are not synced, compaction flushes.
use simrt::disk::{Bytes, DbFiles, Table};
use simrt::{current, misuse, op, Class, Outcome, Sim};
use std::collections::HashSet;
use std::fmt;
use std::ops::Deref;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};

/// Which directory holds which simulated database. The directories are real ones (in a scratch
/// tree that stands for `/sim`), so that code which looks at them, moves or deletes them is
/// understood; what is in them is only a name.
pub mod files {
    use simrt::os::Inside;
    use simrt::Sim;
    use std::fs;
    use std::path::{Path, PathBuf};
    use std::sync::Arc;

    const FILES: [&str; 3] = ["CURRENT", "IDENTITY", "LOCK"];

    pub(crate) fn managed(path: &Path) -> bool {
        path.starts_with("/sim") || path.starts_with("/tmp")
    }
    /// As the binding does before opening anything.
    pub(crate) fn directory(path: &Path) -> Result<(), String> {
        let _inside = Inside::new();
        if managed(path) {
            fs::create_dir_all(path).map_err(|e| {
                format!("Failed to create RocksDB directory: `{:?}`.", e)
            })?;
        }
        Ok(())
    }
    /// The database in this directory, if there is one.
    pub fn key(path: &Path) -> Option<PathBuf> {
        let _inside = Inside::new();
        if !managed(path) {
            return Some(path.to_owned());
        }
        if !path.join("CURRENT").exists() {
            return None;
        }
        fs::read_to_string(path.join("IDENTITY")).ok().map(PathBuf::from)
    }
    pub(crate) fn create(sim: &Arc<Sim>, path: &Path) -> PathBuf {
        let _inside = Inside::new();
        let mut g = sim.lock();
        let mut key = path.to_owned();
        let mut n = 1;
        while managed(path) && g.disk.dbs.contains_key(&key) {
            n += 1;
            key = PathBuf::from(format!("{}#{}", path.display(), n));
        }
        g.disk.dbs.entry(key.clone()).or_default();
        if managed(path) {
            for f in FILES {
                let _ = fs::write(path.join(f), key.to_string_lossy().as_bytes());
            }
        }
        key
    }
    pub fn remove(sim: &Arc<Sim>, path: &Path) {
        let _inside = Inside::new();
        if let Some(k) = key(path) {
            sim.lock().disk.dbs.remove(&k);
        }
        if managed(path) {
            for f in FILES {
                let _ = fs::remove_file(path.join(f));
            }
            let _ = fs::remove_dir(path);
        }
    }
    pub fn replace(sim: &Arc<Sim>, from: &Path, to: &Path) {
        let _inside = Inside::new();
        if key(from).is_some() {
            if let Some(k) = key(to) {
                sim.lock().disk.dbs.remove(&k);
            }
            let _ = fs::remove_dir_all(to);
            let _ = fs::rename(from, to);
        }
    }
}

// ---- errors ------------------------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq)]
pub struct Error {
    message: String,
}
impl Error {
    pub fn new(message: String) -> Error {
        Error { message }
    }
    pub fn to_string(&self) -> String {
        self.message.clone()
    }
    pub fn into_string(self) -> String {
        self.message
    }
}
impl AsRef<str> for Error {
    fn as_ref(&self) -> &str {
        &self.message
    }
}
impl From<Error> for String {
    fn from(e: Error) -> String {
        e.message
    }
}
impl std::error::Error for Error {}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.message.fmt(f)
    }
}
fn err<T>(m: impl Into<String>) -> Result<T, Error> {
    Err(Error { message: m.into() })
}

// ---- options -----------------------------------------------------------------------------------

#[derive(Clone, Debug, Default)]
pub struct Options {
    create_if_missing: bool,
    error_if_exists: bool,
    read_only: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum DBCompressionType {
    None,
    Snappy,
    Zlib,
    Bz2,
    Lz4,
    Lz4hc,
    Zstd,
}
macro_rules! ignored {
    ($($name:ident : $t:ty),* $(,)?) => { $( pub fn $name(&mut self, _v: $t) {} )* };
}
impl Options {
    pub fn create_if_missing(&mut self, v: bool) {
        self.create_if_missing = v;
    }
    pub fn set_create_if_missing(&mut self, v: bool) {
        self.create_if_missing = v;
    }
    pub fn set_error_if_exists(&mut self, v: bool) {
        self.error_if_exists = v;
    }
    pub fn set_read_only(&mut self, v: bool) {
        self.read_only = v;
    }
    ignored! {
        set_disable_auto_compactions: bool,
        set_allow_mmap_reads: bool,
        set_allow_mmap_writes: bool,
        set_use_fsync: bool,
        set_bytes_per_sync: u64,
        set_max_open_files: i32,
        set_write_buffer_size: usize,
        set_max_write_buffer_number: i32,
        set_target_file_size_base: u64,
        set_max_background_compactions: i32,
        set_max_background_flushes: i32,
        set_max_bytes_for_level_base: u64,
        set_num_levels: i32,
        set_compression_type: DBCompressionType,
        set_use_direct_reads: bool,
        set_advise_random_on_open: bool,
        set_level_zero_file_num_compaction_trigger: i32,
        set_table_cache_num_shard_bits: i32,
    }
    pub fn increase_parallelism(&mut self, _n: i32) {}
    pub fn optimize_for_point_lookup(&mut self, _mb: u64) {}
    pub fn optimize_level_style_compaction(&mut self, _n: usize) {}
}

#[derive(Clone, Debug, Default)]
pub struct WriteOptions {
    sync: bool,
    no_wal: bool,
}
impl WriteOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set_sync(&mut self, v: bool) {
        self.sync = v;
    }
    pub fn disable_wal(&mut self, v: bool) {
        self.no_wal = v;
    }
}
#[derive(Clone, Debug, Default)]
pub struct ReadOptions {
    upper: Option<Vec<u8>>,
}
impl ReadOptions {
    pub fn set_iterate_upper_bound(&mut self, k: &[u8]) {
        self.upper = Some(k.to_vec());
    }
    pub fn fill_cache(&mut self, _v: bool) {}
    pub fn set_verify_checksums(&mut self, _v: bool) {}
    pub fn set_total_order_seek(&mut self, _v: bool) {}
    pub fn set_prefix_same_as_start(&mut self, _v: bool) {}
    pub fn set_readahead_size(&mut self, _v: usize) {}
}
#[derive(Clone, Debug, Default)]
pub struct FlushOptions;
impl FlushOptions {
    pub fn new() -> Self {
        FlushOptions
    }
    pub fn set_wait(&mut self, _v: bool) {}
}

#[derive(Default, Clone)]
pub struct WriteBatch {
    ops: Vec<(Bytes, Option<Bytes>)>,
}
impl WriteBatch {
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, k: K, v: V) -> Result<(), Error> {
        self.ops.push((k.as_ref().into(), Some(v.as_ref().into())));
        Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&mut self, k: K) -> Result<(), Error> {
        self.ops.push((k.as_ref().into(), None));
        Ok(())
    }
    pub fn len(&self) -> usize {
        self.ops.len()
    }
    pub fn is_empty(&self) -> bool {
        self.ops.is_empty()
    }
    pub fn clear(&mut self) {
        self.ops.clear()
    }
}

// ---- values ------------------------------------------------------------------------------------

/// A value pinned by the engine: its memory is scribbled over when it is dropped.
pub struct DBVector {
    data: Box<[u8]>,
}
impl DBVector {
    fn new(b: &[u8]) -> Self {
        DBVector { data: b.into() }
    }
    pub fn to_utf8(&self) -> Option<&str> {
        std::str::from_utf8(&self.data).ok()
    }
}
impl Deref for DBVector {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.data
    }
}
impl AsRef<[u8]> for DBVector {
    fn as_ref(&self) -> &[u8] {
        &self.data
    }
}
impl fmt::Debug for DBVector {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.data.fmt(f)
    }
}
pub type DBPinnableSlice = DBVector;

// ---- the database ------------------------------------------------------------------------------

struct Live {
    open: AtomicBool,
}

pub struct DB {
    /// which simulated database
    key: PathBuf,
    path: PathBuf,
    read_only: bool,
    handle: u64,
    proc_id: u32,
    /// what a read-only handle sees
    snapshot: Arc<View>,
    live: Arc<Live>,
    sim: Option<Arc<Sim>>,
    /// storage of a database opened outside a simulation
    local: Arc<Mutex<DbFiles>>,
}

/// Sorted content at one point in time.
struct View {
    keys: Vec<(Bytes, Bytes)>,
}
impl View {
    fn of(t: &Table) -> View {
        View { keys: t.iter().map(|(k, v)| (k.clone(), v.clone())).collect() }
    }
    /// index of the first key >= k
    fn lower(&self, k: &[u8]) -> usize {
        self.keys.partition_point(|(kk, _)| &**kk < k)
    }
}

impl fmt::Debug for DB {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "RocksDB {{ path: {:?} }}", self.path)
    }
}

fn tag(path: &Path) -> Vec<u8> {
    path.to_string_lossy().into_owned().into_bytes()
}

impl DB {
    pub fn open_default<P: AsRef<Path>>(path: P) -> Result<DB, Error> {
        let mut o = Options::default();
        o.create_if_missing(true);
        DB::open(&o, path)
    }

    pub fn open_for_read_only<P: AsRef<Path>>(
        opts: &Options,
        path: P,
        _error_if_log_file_exist: bool,
    ) -> Result<DB, Error> {
        let mut o = opts.clone();
        o.set_read_only(true);
        DB::open(&o, path)
    }

    pub fn open<P: AsRef<Path>>(opts: &Options, path: P) -> Result<DB, Error> {
        let _whole = simrt::os::Whole::new();
        let path = path.as_ref().to_owned();
        let (sim, me) = match current() {
            Some((s, m)) => (s, m),
            None => misuse("database opened outside the simulation"),
        };
        match sim.op(me, Class::Open, &tag(&path)) {
            Outcome::Ok | Outcome::SilentFlushFailure => {}
            Outcome::Error(m) | Outcome::ErrorButApplied(m) => return err(m),
        }
        let proc_id = sim.proc_of(me);
        let mut snapshot = Arc::new(View { keys: vec![] });
        let handle;
        if let Err(e) = files::directory(&path) {
            return err(e);
        }
        let mut key = files::key(&path).filter(|k| sim.lock().disk.exists(k));
        if key.is_none() {
            if opts.read_only || !opts.create_if_missing {
                return err(format!(
                    "Invalid argument: {}: does not exist (create_if_missing is false)",
                    path.display()
                ));
            }
            match sim.op(me, Class::Create, &tag(&path)) {
                Outcome::Ok | Outcome::SilentFlushFailure => {}
                Outcome::Error(m) | Outcome::ErrorButApplied(m) => return err(m),
            }
            // somebody else may have been here in the meantime
            key = files::key(&path).filter(|k| sim.lock().disk.exists(k));
            if key.is_none() {
                key = Some(files::create(&sim, &path));
            }
        } else if opts.error_if_exists {
            return err("Invalid argument: exists (error_if_exists is true)");
        }
        let key = key.unwrap();
        {
            let mut g = sim.lock();
            handle = g.disk.new_handle();
            let db = g.disk.dbs.get_mut(&key).unwrap();
            if opts.read_only {
                snapshot = Arc::new(View::of(&db.logged_view()));
            } else {
                if let Some((p, _)) = db.locked_by {
                    return err(format!(
                        "IO error: lock {}/LOCK: held by process {}: Resource temporarily unavailable",
                        path.display(),
                        p
                    ));
                }
                db.locked_by = Some((proc_id, handle));
                db.background_error = false;
                // recovery replays the log and flushes it
                db.flush();
            }
        }
        Ok(DB {
            key,
            path,
            read_only: opts.read_only,
            handle,
            proc_id,
            snapshot,
            live: Arc::new(Live { open: AtomicBool::new(true) }),
            sim: Some(sim),
            local: Arc::new(Mutex::new(DbFiles::default())),
        })
    }

    pub fn path(&self) -> &Path {
        &self.path
    }

    pub fn destroy<P: AsRef<Path>>(_opts: &Options, path: P) -> Result<(), Error> {
        let _whole = simrt::os::Whole::new();
        let path = path.as_ref().to_owned();
        match op(Class::Delete, &tag(&path)) {
            Outcome::Ok | Outcome::SilentFlushFailure => {}
            Outcome::Error(m) | Outcome::ErrorButApplied(m) => return err(m),
        }
        if let Some((sim, _)) = current() {
            files::remove(&sim, &path);
        }
        Ok(())
    }

    pub fn repair<P: AsRef<Path>>(_opts: Options, _path: P) -> Result<(), Error> {
        Ok(())
    }

    fn with<T>(&self, f: impl FnOnce(&mut DbFiles) -> T) -> T {
        if let Some(sim) = &self.sim {
            let mut g = sim.lock();
            let db = g.disk.dbs.entry(self.key.clone()).or_default();
            f(db)
        } else {
            f(&mut self.local.lock().unwrap())
        }
    }

    // ---- writes ----------------------------------------------------------------------------

    fn mutate(
        &self,
        class: Class,
        records: Vec<(Bytes, Option<Bytes>)>,
        wo: &WriteOptions,
    ) -> Result<(), Error> {
        let _whole = simrt::os::Whole::new();
        let mut detail = tag(&self.path);
        for (k, v) in &records {
            detail.push(b'|');
            detail.extend_from_slice(k);
            detail.push(b'=');
            if let Some(v) = v {
                if v.len() <= 256 {
                    detail.extend_from_slice(v);
                } else {
                    detail.extend_from_slice(&v.len().to_le_bytes());
                }
            }
        }
        let outcome = op(class, &detail);
        if self.read_only {
            return err("Not implemented: Not supported operation in read only mode.");
        }
        self.check_open("write");
        match outcome {
            Outcome::Error(m) => return err(m),
            Outcome::Ok | Outcome::ErrorButApplied(_) | Outcome::SilentFlushFailure => {}
        }
        let bad = self.with(|db| {
            if db.background_error {
                return true;
            }
            let before = db.log.len();
            db.log.extend(records);
            if wo.no_wal {
                db.unlogged.extend(before..db.log.len());
            }
            if wo.sync {
                db.synced = db.log.len();
            }
            false
        });
        if bad {
            return err("IO error: background error: writes are disabled");
        }
        match outcome {
            Outcome::ErrorButApplied(m) => err(m),
            _ => Ok(()),
        }
    }

    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        self.put_opt(k, v, &WriteOptions::default())
    }
    pub fn put_opt<K: AsRef<[u8]>, V: AsRef<[u8]>>(
        &self,
        k: K,
        v: V,
        wo: &WriteOptions,
    ) -> Result<(), Error> {
        self.mutate(Class::Put, vec![(k.as_ref().into(), Some(v.as_ref().into()))], wo)
    }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> {
        self.mutate(Class::Delete, vec![(k.as_ref().into(), None)], &WriteOptions::default())
    }
    pub fn write(&self, b: WriteBatch) -> Result<(), Error> {
        self.write_opt(b, &WriteOptions::default())
    }
    pub fn write_opt(&self, b: WriteBatch, wo: &WriteOptions) -> Result<(), Error> {
        self.mutate(Class::Put, b.ops, wo)
    }
    pub fn write_without_wal(&self, b: WriteBatch) -> Result<(), Error> {
        let mut wo = WriteOptions::default();
        wo.disable_wal(true);
        self.write_opt(b, &wo)
    }

    fn do_flush(&self, class: Class) -> Result<(), Error> {
        let _whole = simrt::os::Whole::new();
        let outcome = op(class, &tag(&self.path));
        self.check_open("flush");
        match outcome {
            Outcome::Ok => {
                if !self.read_only {
                    self.with(|db| {
                        if !db.background_error {
                            db.flush();
                        }
                    });
                }
                Ok(())
            }
            Outcome::Error(m) | Outcome::ErrorButApplied(m) => {
                self.with(|db| db.background_error = true);
                err(m)
            }
            Outcome::SilentFlushFailure => {
                self.with(|db| db.background_error = true);
                err("IO error: flush failed")
            }
        }
    }
    pub fn flush(&self) -> Result<(), Error> {
        self.do_flush(Class::Flush)
    }
    pub fn flush_opt(&self, _o: &FlushOptions) -> Result<(), Error> {
        self.do_flush(Class::Flush)
    }
    /// Manual compaction. As in the C binding, the status is not reported.
    pub fn compact_range<S: AsRef<[u8]>, E: AsRef<[u8]>>(&self, _start: Option<S>, _end: Option<E>) {
        let _ = self.do_flush(Class::Compact);
    }

    // ---- reads -----------------------------------------------------------------------------

    fn check_open(&self, what: &str) {
        if !self.live.open.load(Ordering::SeqCst) {
            misuse(format!("{} on a closed database handle", what));
        }
    }

    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<DBVector>, Error> {
        let k = k.as_ref();
        let mut detail = tag(&self.path);
        detail.push(b'|');
        detail.extend_from_slice(k);
        match op(Class::Get, &detail) {
            Outcome::Error(m) | Outcome::ErrorButApplied(m) => return err(m),
            _ => {}
        }
        self.check_open("get");
        if self.read_only {
            let i = self.snapshot.lower(k);
            return Ok(match self.snapshot.keys.get(i) {
                Some((kk, v)) if &**kk == k => Some(DBVector::new(v)),
                _ => None,
            });
        }
        Ok(self.with(|db| db.get(k)).map(|v| DBVector::new(&v)))
    }
    pub fn get_opt<K: AsRef<[u8]>>(
        &self,
        k: K,
        _r: &ReadOptions,
    ) -> Result<Option<DBVector>, Error> {
        self.get(k)
    }
    pub fn get_pinned<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<DBPinnableSlice>, Error> {
        self.get(k)
    }

    fn view(&self) -> Arc<View> {
        if self.read_only {
            self.snapshot.clone()
        } else {
            Arc::new(View::of(&self.with(|db| db.view())))
        }
    }

    fn new_raw(&self, ro: &ReadOptions) -> DBRawIterator {
        DBRawIterator {
            view: self.view(),
            pos: None,
            failed: None,
            tag: tag(&self.path),
            live: self.live.clone(),
            upper: ro.upper.clone(),
            key_buf: vec![],
        }
    }

    pub fn iterator(&self, mode: IteratorMode) -> DBIterator {
        self.iterator_opt(mode, &ReadOptions::default())
    }
    pub fn iterator_opt(&self, mode: IteratorMode, ro: &ReadOptions) -> DBIterator {
        let mut it = DBIterator { raw: self.new_raw(ro), forward: true, started: false, cond: None };
        it.set_mode(mode);
        it
    }
    pub fn full_iterator(&self, mode: IteratorMode) -> DBIterator {
        self.iterator(mode)
    }
    pub fn prefix_iterator<P: AsRef<[u8]>>(&self, prefix: P) -> DBIterator {
        // 0.12: positions at the prefix; without a prefix extractor it does not stop by itself
        self.iterator(IteratorMode::From(prefix.as_ref(), Direction::Forward))
    }
    pub fn raw_iterator(&self) -> DBRawIterator {
        self.new_raw(&ReadOptions::default())
    }
    pub fn raw_iterator_opt(&self, ro: &ReadOptions) -> DBRawIterator {
        self.new_raw(ro)
    }
    pub fn snapshot(&self) -> Snapshot<'_> {
        Snapshot { db: self, view: self.view() }
    }
    pub fn property_value(&self, _name: &str) -> Result<Option<String>, Error> {
        Ok(None)
    }
    pub fn property_int_value(&self, _name: &str) -> Result<Option<u64>, Error> {
        Ok(None)
    }
}

impl Drop for DB {
    fn drop(&mut self) {
        self.live.open.store(false, Ordering::SeqCst);
        if let Some(sim) = &self.sim {
            let mut g = sim.lock();
            if let Some(db) = g.disk.dbs.get_mut(&self.key) {
                if db.locked_by == Some((self.proc_id, self.handle)) {
                    db.close();
                    db.locked_by = None;
                }
            }
        }
    }
}

pub struct Snapshot<'a> {
    db: &'a DB,
    view: Arc<View>,
}
impl<'a> Snapshot<'a> {
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<DBVector>, Error> {
        let _ = self.db.get(k.as_ref())?;
        let i = self.view.lower(k.as_ref());
        Ok(match self.view.keys.get(i) {
            Some((kk, v)) if &**kk == k.as_ref() => Some(DBVector::new(v)),
            _ => None,
        })
    }
    pub fn iterator(&self, mode: IteratorMode) -> DBIterator {
        self.db.iterator(mode)
    }
}

// ---- iterators ---------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Direction {
    Forward,
    Reverse,
}
#[derive(Clone, Copy, Debug)]
pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}

pub type KVBytes = (Box<[u8]>, Box<[u8]>);

pub struct DBRawIterator {
    view: Arc<View>,
    pos: Option<usize>,
    failed: Option<String>,
    tag: Vec<u8>,
    live: Arc<Live>,
    upper: Option<Vec<u8>>,
    key_buf: Vec<u8>,
}

impl DBRawIterator {
    fn step(&mut self, class: Class, target: Option<usize>, detail: &[u8]) {
        let mut d = self.tag.clone();
        d.push(b'|');
        d.extend_from_slice(detail);
        let outcome = op(class, &d);
        if !self.live.open.load(Ordering::SeqCst) {
            misuse("iterator used after its database was closed");
        }
        match outcome {
            Outcome::Error(m) | Outcome::ErrorButApplied(m) => {
                // the engine's iterator turns invalid and keeps the status to itself
                self.pos = None;
                self.failed = Some(m);
            }
            _ => {
                self.failed = None;
                self.pos = target.filter(|&t| t < self.view.keys.len());
                if let (Some(p), Some(u)) = (self.pos, &self.upper) {
                    if *self.view.keys[p].0 >= u[..] {
                        self.pos = None;
                    }
                }
            }
        }
        self.key_buf = self.pos.map(|p| self.view.keys[p].0.to_vec()).unwrap_or_default();
    }
    pub fn valid(&self) -> bool {
        self.pos.is_some()
    }
    pub fn status(&self) -> Result<(), Error> {
        match &self.failed {
            Some(m) => err(m.clone()),
            None => Ok(()),
        }
    }
    pub fn seek_to_first(&mut self) {
        self.step(Class::Seek, Some(0), b"first");
    }
    pub fn seek_to_last(&mut self) {
        let n = self.view.keys.len();
        self.step(Class::Seek, n.checked_sub(1), b"last");
    }
    pub fn seek<K: AsRef<[u8]>>(&mut self, k: K) {
        let t = self.view.lower(k.as_ref());
        self.step(Class::Seek, Some(t), k.as_ref());
    }
    pub fn seek_for_prev<K: AsRef<[u8]>>(&mut self, k: K) {
        let k = k.as_ref();
        let t = self.view.keys.partition_point(|(kk, _)| &**kk <= k);
        self.step(Class::Seek, t.checked_sub(1), k);
    }
    pub fn next(&mut self) {
        if let Some(p) = self.pos {
            self.step(Class::Next, Some(p + 1), b"");
        }
    }
    pub fn prev(&mut self) {
        if let Some(p) = self.pos {
            self.step(Class::Next, p.checked_sub(1), b"<");
        }
    }
    pub fn key(&self) -> Option<Vec<u8>> {
        self.pos.map(|p| self.view.keys[p].0.to_vec())
    }
    pub fn value(&self) -> Option<Vec<u8>> {
        self.pos.map(|p| self.view.keys[p].1.to_vec())
    }
    pub unsafe fn key_inner<'a>(&'a self) -> Option<&'a [u8]> {
        self.pos.map(|p| &*self.view.keys[p].0)
    }
    pub unsafe fn value_inner<'a>(&'a self) -> Option<&'a [u8]> {
        self.pos.map(|p| &*self.view.keys[p].1)
    }
}

pub struct DBIterator {
    raw: DBRawIterator,
    forward: bool,
    started: bool,
    #[allow(dead_code)]
    cond: Option<HashSet<u8>>,
}

impl DBIterator {
    pub fn set_mode(&mut self, mode: IteratorMode) {
        match mode {
            IteratorMode::Start => {
                self.raw.seek_to_first();
                self.forward = true;
            }
            IteratorMode::End => {
                self.raw.seek_to_last();
                self.forward = false;
            }
            IteratorMode::From(k, Direction::Forward) => {
                self.raw.seek(k);
                self.forward = true;
            }
            IteratorMode::From(k, Direction::Reverse) => {
                self.raw.seek_for_prev(k);
                self.forward = false;
            }
        }
        self.started = false;
    }
    pub fn valid(&self) -> bool {
        self.raw.valid()
    }
    pub fn status(&self) -> Result<(), Error> {
        self.raw.status()
    }
}

impl Iterator for DBIterator {
    type Item = KVBytes;
    fn next(&mut self) -> Option<KVBytes> {
        if self.started {
            if self.forward {
                self.raw.next();
            } else {
                self.raw.prev();
            }
        }
        self.started = true;
        let p = self.raw.pos?;
        let (k, v) = &self.raw.view.keys[p];
        Some((k[..].into(), v[..].into()))
    }
}
