//! The simulated disk and the durability model of the storage engine on it.
//!
//! Per database: `durable` (synced table files), and `log`: write-ahead log records in order, of
//! which the first `synced` survive power loss for sure, and of the rest an arbitrary prefix.
//! A process crash loses nothing that reached the log. Writes told to bypass the log live in the
//! writer's memory only, until it flushes or closes: nobody else sees them, and a crash loses them.
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::Arc;

pub type Bytes = Arc<[u8]>;
pub type Table = BTreeMap<Bytes, Bytes>;

#[derive(Clone, Default)]
pub struct DbFiles {
    pub durable: Arc<Table>,
    pub log: Vec<(Bytes, Option<Bytes>)>,
    pub synced: usize,
    /// which entries of `log` are in memory only
    pub unlogged: BTreeSet<usize>,
    /// (process, handle) holding the write lock
    pub locked_by: Option<(u32, u64)>,
    /// a background error: the engine refuses writes until reopened
    pub background_error: bool,
}

impl DbFiles {
    pub fn view(&self) -> Arc<Table> {
        if self.log.is_empty() {
            return self.durable.clone();
        }
        let mut t = (*self.durable).clone();
        for (k, v) in &self.log {
            match v {
                Some(v) => {
                    t.insert(k.clone(), v.clone());
                }
                None => {
                    t.remove(k);
                }
            }
        }
        Arc::new(t)
    }
    /// What a handle other than the writer's finds.
    pub fn logged_view(&self) -> Arc<Table> {
        if self.unlogged.is_empty() {
            return self.view();
        }
        let mut d = self.clone();
        d.lose_memory();
        d.view()
    }
    fn lose_memory(&mut self) {
        let gone = std::mem::take(&mut self.unlogged);
        self.synced -= gone.range(..self.synced).count();
        let mut i = 0;
        self.log.retain(|_| {
            i += 1;
            !gone.contains(&(i - 1))
        });
    }
    /// The writer's handle is closed in good order: what no log holds is flushed first.
    pub fn close(&mut self) {
        if self.background_error {
            self.lose_memory();
        } else if !self.unlogged.is_empty() {
            self.flush();
        }
    }
    pub fn get(&self, key: &[u8]) -> Option<Bytes> {
        for (k, v) in self.log.iter().rev() {
            if &**k == key {
                return v.clone();
            }
        }
        self.durable.get(key).cloned()
    }
    pub fn flush(&mut self) {
        self.durable = self.view();
        self.log.clear();
        self.unlogged.clear();
        self.synced = 0;
    }
}

#[derive(Clone, Default)]
pub struct Disk {
    pub dbs: BTreeMap<PathBuf, DbFiles>,
    next_handle: u64,
}

impl Disk {
    pub fn new_handle(&mut self) -> u64 {
        self.next_handle += 1;
        self.next_handle
    }
    pub fn exists(&self, p: &Path) -> bool {
        self.dbs.contains_key(p)
    }
    pub fn process_crash(&mut self, proc_id: u32) {
        for db in self.dbs.values_mut() {
            if matches!(db.locked_by, Some((p, _)) if p == proc_id) {
                db.lose_memory();
                db.locked_by = None;
                db.background_error = false;
            }
        }
    }
    pub fn power_loss(&mut self, keep_permille: u32) {
        for db in self.dbs.values_mut() {
            db.lose_memory();
            let unsynced = db.log.len() - db.synced;
            let keep = db.synced + unsynced * keep_permille.min(1000) as usize / 1000;
            db.log.truncate(keep);
            db.synced = db.log.len();
            db.locked_by = None;
            db.background_error = false;
        }
    }
    pub fn flush_all(&mut self) {
        for db in self.dbs.values_mut() {
            if !db.background_error {
                db.flush();
            }
        }
    }
}
