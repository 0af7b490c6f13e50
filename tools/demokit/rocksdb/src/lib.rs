//! A small in-memory stand-in for the rocksdb crate: files live in this process, writes are lost
//! in a power loss until they are flushed or compacted, and calls can be made to fail.
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

type Table = BTreeMap<Vec<u8>, Vec<u8>>;
#[derive(Default)]
struct Files {
    durable: Table,
    recent: Vec<(Vec<u8>, Option<Vec<u8>>)>,
    /// which of the recent writes are in no log: they are gone when the process dies
    unlogged: Vec<bool>,
    writer: bool,
}
impl Files {
    fn view(&self) -> Table {
        let mut t = self.durable.clone();
        for (k, v) in &self.recent {
            match v {
                Some(v) => t.insert(k.clone(), v.clone()),
                None => t.remove(k),
            };
        }
        t
    }
    fn flush(&mut self) {
        self.durable = self.view();
        self.recent.clear();
        self.unlogged.clear();
    }
    fn process_died(&mut self) {
        let mut u = std::mem::take(&mut self.unlogged).into_iter();
        self.recent.retain(|_| !u.next().unwrap_or(false));
        self.writer = false;
    }
}
#[derive(Default)]
struct World {
    dbs: HashMap<PathBuf, Files>,
    counts: HashMap<&'static str, u64>,
    fail: Vec<(&'static str, u64, String)>,
    crash: Vec<(&'static str, u64)>,
    log: Vec<(&'static str, Vec<u8>)>,
    slow: Vec<(&'static str, u64)>,
}
static WORLD: Mutex<Option<World>> = Mutex::new(None);
fn world<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let mut g = WORLD.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Default::default))
}

/// What a demonstration uses to steer the stand-in.
pub mod ctl {
    use super::*;
    /// The nth (from now, 0-based) call of the kind fails: open, get, seek, next, put, flush.
    pub fn fail(kind: &'static str, nth: u64) {
        fail_with(kind, nth, "IO error: injected")
    }
    pub fn fail_with(kind: &'static str, nth: u64, text: &str) {
        world(|w| {
            let n = w.counts.get(kind).cloned().unwrap_or(0);
            w.fail.push((kind, n + nth, text.to_string()))
        })
    }
    /// The process dies (a panic with the text "crash") just before the nth call of the kind.
    pub fn crash(kind: &'static str, nth: u64) {
        world(|w| {
            let n = w.counts.get(kind).cloned().unwrap_or(0);
            w.crash.push((kind, n + nth))
        })
    }
    /// Calls of the kind take this long.
    pub fn slow(kind: &'static str, millis: u64) {
        world(|w| w.slow.push((kind, millis)))
    }
    pub fn calm() {
        world(|w| {
            w.slow.clear();
            w.fail.clear();
            w.crash.clear();
        })
    }
    /// Everything not yet flushed is gone.
    pub fn power_loss() {
        world(|w| {
            for f in w.dbs.values_mut() {
                f.recent.clear();
                f.unlogged.clear();
                f.writer = false;
            }
        })
    }
    /// The directory is deleted.
    pub fn remove<P: AsRef<Path>>(p: P) {
        world(|w| {
            w.dbs.remove(p.as_ref());
        })
    }
    pub fn exists<P: AsRef<Path>>(p: P) -> bool {
        world(|w| w.dbs.contains_key(p.as_ref()))
    }
    pub fn count(kind: &'static str) -> u64 {
        world(|w| w.counts.get(kind).cloned().unwrap_or(0))
    }
    /// Everything stored below a path.
    pub fn raw<P: AsRef<Path>>(p: P) -> Vec<(Vec<u8>, Vec<u8>)> {
        world(|w| w.dbs.get(p.as_ref()).map(|f| f.view().into_iter().collect()).unwrap_or_default())
    }
}

fn call(kind: &'static str, what: &[u8]) -> Result<(), Error> {
    let (fail, crash, slow) = world(|w| {
        let c = w.counts.entry(kind).or_insert(0);
        let n = *c;
        *c += 1;
        w.log.push((kind, what.to_vec()));
        (w.fail.iter().find(|f| f.0 == kind && f.1 == n).map(|f| f.2.clone()), w.crash.contains(&(kind, n)),
            w.slow.iter().filter(|x| x.0 == kind).map(|x| x.1).sum::<u64>())
    });
    std::thread::sleep(std::time::Duration::from_millis(slow));
    if crash {
        world(|w| w.dbs.values_mut().for_each(|f| f.process_died()));
        panic!("crash");
    }
    if let Some(text) = fail {
        return Err(Error(text));
    }
    Ok(())
}

#[derive(Clone, Default)]
pub struct Options {
    create: bool,
    read_only: bool,
    error_if_exists: bool,
}
impl Options {
    pub fn create_if_missing(&mut self, v: bool) {
        self.create = v
    }
    pub fn set_error_if_exists(&mut self, v: bool) {
        self.error_if_exists = v
    }
    pub fn set_read_only(&mut self, v: bool) {
        self.read_only = v
    }
    pub fn set_allow_mmap_reads(&mut self, _v: bool) {}
    pub fn set_disable_auto_compactions(&mut self, _v: bool) {}
}
#[derive(Default)]
pub struct WriteOptions {
    no_wal: bool,
    sync: bool,
}
impl WriteOptions {
    pub fn new() -> Self {
        Default::default()
    }
    pub fn set_sync(&mut self, v: bool) {
        self.sync = v
    }
    pub fn disable_wal(&mut self, v: bool) {
        self.no_wal = v
    }
}
#[derive(Default)]
pub struct WriteBatch(Vec<(Vec<u8>, Option<Vec<u8>>)>);
impl WriteBatch {
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, k: K, v: V) -> Result<(), Error> {
        self.0.push((k.as_ref().to_vec(), Some(v.as_ref().to_vec())));
        Ok(())
    }
}

pub struct DBVector(Arc<Vec<u8>>);
impl AsRef<[u8]> for DBVector {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl std::ops::Deref for DBVector {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}

pub struct DB {
    path: PathBuf,
    read_only: bool,
    /// read-only handles see the state at opening
    seen: Option<Table>,
}
impl fmt::Debug for DB {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "RocksDB {{ path: {:?} }}", self.path)
    }
}
impl Drop for DB {
    fn drop(&mut self) {
        if !self.read_only {
            world(|w| {
                if let Some(f) = w.dbs.get_mut(&self.path) {
                    f.writer = false
                }
            })
        }
    }
}
#[derive(Clone, Copy)]
pub enum Direction {
    Forward,
    Reverse,
}
#[derive(Clone, Copy)]
pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}
pub type KVBytes = (Box<[u8]>, Box<[u8]>);
pub struct DBIterator {
    rest: std::vec::IntoIter<KVBytes>,
    dead: bool,
}
impl Iterator for DBIterator {
    type Item = KVBytes;
    fn next(&mut self) -> Option<KVBytes> {
        if self.dead || call("next", b"").is_err() {
            self.dead = true;
            return None;
        }
        self.rest.next()
    }
}

impl DB {
    pub fn open<P: AsRef<Path>>(o: &Options, p: P) -> Result<DB, Error> {
        let path = p.as_ref().to_path_buf();
        call("open", path.to_str().unwrap_or("").as_bytes())?;
        world(|w| {
            if !w.dbs.contains_key(&path) {
                if !o.create || o.read_only {
                    return Err(Error("Invalid argument: does not exist".into()));
                }
                w.dbs.insert(path.clone(), Files::default());
            } else if o.error_if_exists {
                return Err(Error("Invalid argument: exists".into()));
            }
            let f = w.dbs.get_mut(&path).unwrap();
            if !o.read_only {
                if f.writer {
                    return Err(Error("IO error: lock held".into()));
                }
                f.writer = true;
            }
            let seen = if o.read_only { Some(f.view()) } else { None };
            Ok(DB { path: path.clone(), read_only: o.read_only, seen })
        })
    }
    pub fn open_for_read_only<P: AsRef<Path>>(o: &Options, p: P, _fail_if_log_exists: bool) -> Result<DB, Error> {
        let mut o = o.clone();
        o.read_only = true;
        DB::open(&o, p)
    }
    fn view(&self) -> Table {
        match &self.seen {
            Some(t) => t.clone(),
            None => world(|w| w.dbs[&self.path].view()),
        }
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<DBVector>, Error> {
        call("get", k.as_ref())?;
        Ok(self.view().get(k.as_ref()).map(|v| DBVector(Arc::new(v.clone()))))
    }
    fn mutate(&self, b: Vec<(Vec<u8>, Option<Vec<u8>>)>, sync: bool, no_wal: bool) -> Result<(), Error> {
        if self.read_only {
            return Err(Error("Not implemented: read only".into()));
        }
        call("put", &b.first().map(|x| x.0.clone()).unwrap_or_default())?;
        world(|w| {
            let f = w.dbs.get_mut(&self.path).unwrap();
            f.unlogged.resize(f.recent.len(), false);
            f.unlogged.resize(f.recent.len() + b.len(), no_wal);
            f.recent.extend(b);
            if sync {
                f.flush()
            }
        });
        Ok(())
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        self.mutate(vec![(k.as_ref().to_vec(), Some(v.as_ref().to_vec()))], false, false)
    }
    pub fn put_opt<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V, o: &WriteOptions) -> Result<(), Error> {
        self.mutate(vec![(k.as_ref().to_vec(), Some(v.as_ref().to_vec()))], o.sync, o.no_wal)
    }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> {
        self.mutate(vec![(k.as_ref().to_vec(), None)], false, false)
    }
    pub fn write(&self, b: WriteBatch) -> Result<(), Error> {
        self.mutate(b.0, false, false)
    }
    pub fn flush(&self) -> Result<(), Error> {
        call("flush", b"")?;
        world(|w| w.dbs.get_mut(&self.path).unwrap().flush());
        Ok(())
    }
    pub fn compact_range<S: AsRef<[u8]>, E: AsRef<[u8]>>(&self, _s: Option<S>, _e: Option<E>) {
        let _ = self.flush();
    }
    pub fn iterator(&self, m: IteratorMode) -> DBIterator {
        let dead = call("seek", b"").is_err();
        let t = self.view();
        let all = |i: Box<dyn Iterator<Item = (&Vec<u8>, &Vec<u8>)> + '_>| {
            i.map(|(k, v)| (k.clone().into_boxed_slice(), v.clone().into_boxed_slice())).collect::<Vec<_>>()
        };
        let v = match m {
            IteratorMode::Start => all(Box::new(t.iter())),
            IteratorMode::End => all(Box::new(t.iter().rev())),
            IteratorMode::From(k, Direction::Forward) => all(Box::new(t.range(k.to_vec()..))),
            IteratorMode::From(k, Direction::Reverse) => all(Box::new(t.range(..=k.to_vec()).rev())),
        };
        DBIterator { rest: v.into_iter(), dead }
    }
}
