//! A case is a complete description of one simulated run: data, programs, faults, schedule.
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::{Fault, Knobs};

/// Language sets are 128 bits wide: kept as hex in files.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Lang(pub u128);
impl Serialize for Lang {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:x}", self.0))
    }
}
impl<'de> Deserialize<'de> for Lang {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        u128::from_str_radix(&s, 16).map(Lang).map_err(serde::de::Error::custom)
    }
}

/// (relev, score, x, y, id, hash)
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct E(pub f64, pub u8, pub u16, pub u16, pub u32, pub u8);

/// Procedurally generated large records.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fill {
    /// id lists sized so that the last list of the last coordinate starts at this byte offset
    Offset { target: u32, relev: f64, score: u8, seed: u64 },
    /// `coords` scattered tiles below 2^zoom with `ids` consecutive ids each (`shared`: the same
    /// ids everywhere)
    Spread { relev: f64, score: u8, zoom: u8, coords: u32, ids: u32, id_base: u32, shared: bool, seed: u64 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum BOp {
    Insert { phrase: u32, lang: Lang, entries: Vec<E> },
    Append { phrase: u32, lang: Lang, entries: Vec<E> },
    Compact { phrase: u32, lang: Lang, relev: f64, score: u8, id: u32, hash: u8, coords: Vec<(u16, u16)> },
    Fill { phrase: u32, lang: Lang, fill: Fill },
    Renumber(Vec<u32>),
    Bins(Vec<u32>),
    /// the identifier map that building phrase set so gave
    RenumberFrom(usize),
    /// the prefix bins, no larger than that, of phrase set so
    BinsFrom(usize, u32),
}

/// A phrase index, built through the JavaScript binding.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct PhraseSpec {
    pub name: String,
    pub phrases: Vec<Vec<String>>,
    pub replace: Vec<(String, String)>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum POp {
    Contains { q: Vec<String>, ending: u8 },
    Match { q: Vec<String>, word: u8, total: u8, ending: u8 },
    Windows { q: Vec<String>, word: u8, total: u8, ending: u8 },
    Multi { qs: Vec<(Vec<String>, u8)>, word: u8, total: u8 },
    ById(u32),
    Bins(u32),
    /// opens an index that was never built
    Missing,
    /// a call that has to be turned away
    Bad(u32),
}
/// How the JavaScript program goes about it.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct JsPlan {
    /// how values are written
    pub seed: u64,
    /// drops the stores as soon as the last call is made
    pub gc: bool,
    /// several builders are filled by turns
    pub together: bool,
    /// the faults hit the builds; otherwise what comes after
    pub hurt_builds: bool,
    /// wrong calls on the builders: position, kind
    pub misuse: Vec<(u32, u32)>,
}

impl Fill {
    pub fn expand(&self) -> Vec<E> {
        match self {
            Fill::Offset { target, relev, score, seed } => {
                let mut r = Rng::new(*seed);
                let mut sizes: Vec<u32> = vec![];
                let mut rem = *target;
                // large lists first, so that few coordinates are needed
                while rem > 60_000 {
                    let n = ((rem - 20_000) / 4).min(4_000_000);
                    let len_len = if n < 1 << 7 { 1 } else if n < 1 << 14 { 2 } else if n < 1 << 21 { 3 } else { 4 };
                    sizes.push(n);
                    rem -= 4 * n + len_len;
                }
                // then lists of up to 127 ids: m lists contribute m + 4 * (number of ids)
                if rem > 0 {
                    let mut m = ((rem + 508) / 509).max(1);
                    while m % 4 != rem % 4 {
                        m += 1;
                    }
                    let mut ids = (rem - m.min(rem)) / 4;
                    if ids < m {
                        // too small to be split like this: as near as possible
                        m = (rem / 5).max(1);
                        ids = m;
                    }
                    let mut left = m;
                    while left > 0 {
                        let hi = (ids - (left - 1)).min(127);
                        let lo = ids.saturating_sub((left - 1) * 127).max(1).min(hi);
                        let k = if left == 1 { ids.min(127) } else { r.range(lo as u64, hi as u64) as u32 };
                        sizes.push(k);
                        ids -= k;
                        left -= 1;
                    }
                }
                sizes.push(1 + r.below(3) as u32);
                // coordinates are written in descending z-order: the last one must be the lowest
                let n = sizes.len() as u32;
                let mut out = vec![];
                let mut next_id = r.below(1000) as u32;
                for (i, k) in sizes.iter().enumerate() {
                    let m = (n - 1 - i as u32) * 3 + 1;
                    let (x, y) = unmorton(m);
                    for j in 0..*k {
                        let v = next_id.wrapping_add(j);
                        out.push(E(*relev, *score, x, y, (v >> 2) & 0xff_ffff, (v & 3) as u8));
                    }
                    next_id = next_id.wrapping_add(*k);
                }
                out
            }
            Fill::Spread { relev, score, zoom, coords, ids, id_base, shared, seed } => {
                let mut r = Rng::new(*seed);
                let bits = 2 * *zoom as u32;
                let space: u64 = 1u64 << bits;
                let n = (*coords as u64).min(space);
                let step = (space / n.max(1)).max(1);
                let off = r.below(step);
                let mut out = vec![];
                let mut id = *id_base;
                for i in 0..n {
                    let (x, y) = unmorton((i * step + off) as u32);
                    for j in 0..*ids {
                        let v = if *shared { *id_base + j } else { id };
                        id = id.wrapping_add(1);
                        out.push(E(*relev, *score, x, y, v & 0xff_ffff, (v % 251) as u8));
                    }
                }
                if r.chance(0.5) {
                    r.shuffle(&mut out);
                }
                out
            }
        }
    }
}

pub fn morton(x: u16, y: u16) -> u32 {
    let mut m = 0u32;
    for i in 0..16 {
        m |= ((x as u32 >> i) & 1) << (2 * i);
        m |= ((y as u32 >> i) & 1) << (2 * i + 1);
    }
    m
}
pub fn unmorton(m: u32) -> (u16, u16) {
    let (mut x, mut y) = (0u16, 0u16);
    for i in 0..16 {
        x |= (((m >> (2 * i)) & 1) as u16) << i;
        y |= (((m >> (2 * i + 1)) & 1) as u16) << i;
    }
    (x, y)
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct StoreSpec {
    pub name: String,
    pub zoom: u16,
    pub type_id: u16,
    pub radius: f64,
    pub bboxes: Vec<[u16; 4]>,
    pub max_score: f64,
    pub ops: Vec<BOp>,
    /// who runs the earlier release, a bit per role; 0: nobody
    #[serde(default, skip_serializing_if = "nobody")]
    pub older: u32,
}
fn nobody(older: &u32) -> bool {
    *older == 0
}
/// The processes that meet at a directory (bits of `StoreSpec::older`).
pub const BUILDER: u32 = 1;
pub const RETRY: u32 = 2;
pub const PRELOAD: u32 = 4;
pub const RIVALS: u32 = 8;
pub const READERS: u32 = 16;
pub const LOOK: u32 = 32;
impl StoreSpec {
    /// Whether its options are those of a store opened without any.
    pub fn is_plain(&self) -> bool {
        (self.zoom, self.type_id, self.radius, self.max_score) == (6, 0, 0.0, 0.0)
            && self.bboxes == [[0, 0, 63, 63]]
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum MPhrase {
    Exact(u32),
    Range(u32, u32),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MKey {
    pub phrase: MPhrase,
    pub lang: Lang,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct MOpts {
    pub bbox: Option<[u16; 4]>,
    pub proximity: Option<[u16; 2]>,
    pub zoom: u16,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SKey {
    pub key: MKey,
    pub nearby: bool,
    pub id: u32,
    pub len: usize,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Sub {
    pub store: usize,
    pub idx: u16,
    pub nonoverlap: Vec<u16>,
    pub weight: f64,
    pub mask: u32,
    pub keys: Vec<SKey>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum QOp {
    Get { store: usize, phrase: u32, lang: Lang },
    Match { store: usize, key: MKey, opts: MOpts, max: usize, take: Option<usize> },
    Keys { store: usize, take: Option<usize> },
    Iter { store: usize, take: Option<usize> },
    /// several iterators alive at once, advanced in a seeded order
    Braid { ops: Vec<QOp>, seed: u64 },
    Coalesce { stack: Vec<Sub>, opts: MOpts },
    Stack { subs: Vec<Sub>, opts: MOpts },
    /// only the stacking tree
    Tree { subs: Vec<Sub> },
    /// starts a lookup, match or listing, takes so many items and panics with the iterator alive
    Abandon { op: Box<QOp>, after: usize },
    /// a lookup, match, listing or second handle of a process that runs the earlier release
    Older { op: Box<QOp> },
    /// a second handle on the same files, opened, dumped and dropped
    Reopen { store: usize },
    /// opens, twice, a directory that no build has ever written
    Missing { store: usize },
    /// a call of the binding that has to be turned away
    Bad { store: usize, how: u32 },
    /// a question to a phrase index
    Phrase { set: usize, op: POp },
}

impl QOp {
    /// What is asked, whoever asks it.
    pub fn plain(&self) -> &QOp {
        match self {
            QOp::Older { op } => op.plain(),
            op => op,
        }
    }
    /// the highest store number it asks
    pub fn store(&self) -> usize {
        match self {
            QOp::Get { store, .. }
            | QOp::Match { store, .. }
            | QOp::Keys { store, .. }
            | QOp::Iter { store, .. }
            | QOp::Missing { store }
            | QOp::Bad { store, .. }
            | QOp::Reopen { store } => *store,
            QOp::Phrase { .. } => 0,
            QOp::Braid { ops, .. } => ops.iter().map(|o| o.store()).max().unwrap_or(0),
            QOp::Coalesce { stack: subs, .. } | QOp::Stack { subs, .. } | QOp::Tree { subs } => {
                subs.iter().map(|s| s.store).max().unwrap_or(0)
            }
            QOp::Abandon { op, .. } | QOp::Older { op } => op.store(),
        }
    }
    pub fn set_store(&mut self, n: usize) {
        match self {
            QOp::Get { store, .. }
            | QOp::Match { store, .. }
            | QOp::Keys { store, .. }
            | QOp::Iter { store, .. }
            | QOp::Missing { store }
            | QOp::Bad { store, .. }
            | QOp::Reopen { store } => *store = n,
            QOp::Phrase { .. } => {}
            QOp::Braid { ops, .. } => ops.iter_mut().for_each(|o| o.set_store(n)),
            QOp::Coalesce { stack: subs, .. } | QOp::Stack { subs, .. } | QOp::Tree { subs } => {
                subs.iter_mut().for_each(|s| s.store = n)
            }
            QOp::Abandon { op, .. } | QOp::Older { op } => op.set_store(n),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Plan {
    /// build all stores (no faults), open them, then run the clients concurrently under the
    /// faults; `again`: afterwards, with faults over, run every operation once more
    Query { again: bool },
    /// build store 0 under the faults; then restart, look, retry, look again.
    /// `readers`: processes that open and read the store while it is being built;
    /// `rivals`: other processes that build the same store at the same path at the same time;
    /// `after`: crash after a build that reported success (permille of unsynced log kept);
    /// `preload`: the directory holds a finished store already, with the same data or with that of
    /// store 1
    Build { readers: u32, rivals: u32, after: Option<u32>, preload: bool },
    /// one directory, built anew as each of the stores in turn; the clients of a store run as soon
    /// as it is open. `swap`: built elsewhere and moved there; otherwise the old directory is
    /// removed first. `keep`: handles on the older directories stay open
    Renew { swap: bool, keep: bool },
    /// all stores are built concurrently, each by its own process, then compared byte by byte
    /// (`same`: they hold the same data)
    Parallel { same: bool },
    /// everything by way of the JavaScript binding; the clients are flows of one program
    Binding(JsPlan),
}

impl Plan {
    pub fn loses_power(&self) -> bool {
        matches!(self, Plan::Build { after: Some(_), .. })
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    pub scenario: String,
    pub plan: Plan,
    pub knobs: Knobs,
    /// further schedules under which the whole case is run again
    #[serde(default)]
    pub alt: Vec<Knobs>,
    pub stores: Vec<StoreSpec>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub phrases: Vec<PhraseSpec>,
    pub clients: Vec<Vec<QOp>>,
    pub faults: Vec<Fault>,
}
