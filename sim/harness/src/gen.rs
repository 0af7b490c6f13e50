//! Generates cases. Everything is a function of (property, seed, index, tier).
use crate::case::*;
use crate::model::{BuilderModel, MStore};
use simrt::rng::{mix, Rng};
use simrt::{Class, Fault, FaultKind, Knobs, Policy};

/// The binding has a program of its own.
#[cfg(feature = "binding")]
pub const PROPS: [&str; 2] = ["C15", "C16"];
#[cfg(not(feature = "binding"))]
pub const PROPS: [&str; 14] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C17"];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

// ---- schedules -----------------------------------------------------------------------------------

fn policy(r: &mut Rng) -> Policy {
    match r.below(12) {
        0 => Policy::Sequential,
        1..=4 => Policy::Random { switch_permille: *r.pick(&[50, 200, 500, 900]) },
        5 => Policy::RoundRobin,
        6..=9 => Policy::Latency {
            mean_us: *r.pick(&[20, 100, 500]),
            stall_permille: *r.pick(&[0, 5, 50]),
            stall_us: *r.pick(&[5_000, 200_000, 2_000_000]),
        },
        _ => Policy::Pct { change_permille: *r.pick(&[5, 50, 200]) },
    }
}
fn knobs(r: &mut Rng) -> Knobs {
    Knobs {
        sched_seed: r.next_u64(),
        hash_seed: r.next_u64(),
        policy: policy(r),
        pool: *r.pick(&[1, 2, 3, 4, 8]),
        preempt: if r.chance(0.2) { *r.pick(&[10, 40, 150, 400]) } else { 0 },
        ..Knobs::default()
    }
}

/// Slow tasks: reads that stall while everybody else goes on.
fn stalls(r: &mut Rng) -> Vec<Fault> {
    if r.chance(0.5) {
        return vec![];
    }
    (0..1 + r.below(4))
        .map(|_| Fault {
            class: *r.pick(&[Class::Seek, Class::Next, Class::Get]),
            nth: r.below(60),
            kind: FaultKind::Stall { decisions: 1 + r.below(40) as u32 },
        })
        .collect()
}

// ---- data ----------------------------------------------------------------------------------------

const RELEVS: [f64; 4] = [0.4, 0.6, 0.8, 1.0];
const LANGS: [u128; 18] = [
    1,
    2,
    3,
    4,
    5,
    0x80,
    0xff,
    0x100,
    0x101,
    0xffff,
    0x1_0000,
    1 << 63,
    (1 << 64) | 1,
    1 << 127,
    (1 << 127) | 1,
    0,
    u128::MAX - 1,
    u128::MAX,
];
const EDGES: [u32; 12] =
    [0, 1, 2, 255, 256, 257, 65535, 65536, 0x00ff_ffff, 0x0100_0000, u32::MAX - 1, u32::MAX];

#[derive(Clone)]
struct Region {
    zoom: u16,
    x: u32,
    y: u32,
    w: u32,
    h: u32,
}
impl Region {
    fn max(z: u16) -> u32 {
        (1u32 << z) - 1
    }
    fn any(r: &mut Rng, zoom: u16) -> Region {
        let m = Region::max(zoom) as u64;
        let w = 1 + r.below(*r.clone().pick(&[2, 6, 20, 200])).min(m) as u32;
        let h = 1 + r.below(*r.clone().pick(&[2, 6, 20, 200])).min(m) as u32;
        let corner = |r: &mut Rng, s: u32| -> u32 {
            let room = m as u32 + 1 - s.min(m as u32 + 1);
            match r.below(5) {
                0 => 0,
                1 => room,
                _ => r.below(room as u64 + 1) as u32,
            }
        };
        let (x, y) = (corner(r, w), corner(r, h));
        Region { zoom, x, y, w, h }
    }
    fn point(&self, r: &mut Rng) -> (u16, u16) {
        let m = Region::max(self.zoom);
        (
            (self.x + r.below(self.w as u64) as u32).min(m) as u16,
            (self.y + r.below(self.h as u64) as u32).min(m) as u16,
        )
    }
    fn around(&self, r: &mut Rng) -> (u16, u16) {
        let m = Region::max(self.zoom) as i64;
        if r.chance(0.15) {
            return match r.below(4) {
                0 => (0, 0),
                1 => (m as u16, m as u16),
                2 => (0, m as u16),
                _ => (r.below(m as u64 + 1) as u16, r.below(m as u64 + 1) as u16),
            };
        }
        let c = |r: &mut Rng, a: u32, w: u32| {
            let v = a as i64 - 3 + r.below(w as u64 + 6) as i64;
            v.max(0).min(m) as u16
        };
        (c(r, self.x, self.w), c(r, self.y, self.h))
    }
}

#[derive(Clone)]
struct Data {
    region: Region,
    phrases: Vec<u32>,
    langs: Vec<u128>,
    max_id: u32,
    max_score: u8,
    relevs: Vec<f64>,
    per_key: (u64, u64),
}
impl Data {
    fn new(r: &mut Rng, zoom: u16, n_phrases: usize) -> Data {
        let mut langs: Vec<u128> = (0..1 + r.below(4)).map(|_| *r.pick(&LANGS)).collect();
        if r.chance(0.1) {
            langs.push(r.next_u64() as u128);
        }
        langs.sort();
        langs.dedup();
        let relevs = match r.below(4) {
            0 => vec![1.0],
            1 => vec![1.0, 0.8],
            _ => RELEVS.to_vec(),
        };
        Data {
            region: Region::any(r, zoom),
            phrases: phrases(r, n_phrases),
            langs,
            max_id: *r.pick(&[3, 40, 5000, 0xff_ffff, 0xff_ffff, 0xff_ffff]),
            max_score: if r.chance(0.06) { 15 } else { 7 },
            relevs,
            per_key: *r.pick(&[(1, 2), (1, 5), (1, 12), (3, 40)]),
        }
    }
    fn entry(&self, r: &mut Rng) -> E {
        let (x, y) = self.region.point(r);
        let id = if r.chance(0.04) {
            *r.pick(&[0, 1, self.max_id])
        } else {
            r.below(self.max_id as u64 + 1) as u32
        };
        E(
            *r.pick(&self.relevs),
            r.below(self.max_score as u64 + 1) as u8,
            x,
            y,
            id,
            *r.clone().pick(&[0, 255, r.below(256) as u8]),
        )
    }
    fn entries(&self, r: &mut Rng) -> Vec<E> {
        let n = r.range(self.per_key.0, self.per_key.1);
        let mut v: Vec<E> = (0..n).map(|_| self.entry(r)).collect();
        if r.chance(0.2) && !v.is_empty() {
            // the same feature again: elsewhere, with another score, or exactly
            let mut e = r.pick(&v).clone();
            match r.below(4) {
                0 => {
                    let p = self.region.point(r);
                    e.2 = p.0;
                    e.3 = p.1;
                }
                1 => e.1 = r.below(self.max_score as u64 + 1) as u8,
                2 => e.0 = *r.pick(&self.relevs),
                _ => {}
            }
            v.push(e);
        }
        if r.chance(0.12) && !v.is_empty() {
            // nearly the same again
            let m = Region::max(self.region.zoom) as u16;
            for _ in 0..1 + r.below(4) {
                let mut e = r.pick(&v).clone();
                match r.below(8) {
                    0 => e.2 ^= 1 << r.below(self.region.zoom as u64),
                    1 => e.3 ^= 1 << r.below(self.region.zoom as u64),
                    2 => std::mem::swap(&mut e.2, &mut e.3),
                    3 => {
                        e.2 = e.2.wrapping_add(1) & m;
                        e.3 = e.3.wrapping_sub(1) & m;
                    }
                    4 => e.4 ^= 1 << (8 + r.below(16)),
                    5 => e.4 ^= 1 << r.below(24),
                    6 => {
                        e.2 ^= 1 << r.below(self.region.zoom as u64);
                        e.4 ^= 1 << r.below(24);
                    }
                    _ => e.5 ^= 1 << r.below(8),
                }
                v.push(e);
            }
        }
        if r.chance(0.06) {
            // long runs of one tile, relevance and score, broken up by others
            let at: Vec<E> = (0..1 + r.below(3)).map(|_| self.entry(r)).collect();
            for _ in 0..2 + r.below(4) {
                let a = r.pick(&at).clone();
                let n = *r.pick(&[1u64, 3, 4, 5, 9, 30]);
                let from = r.below(self.max_id as u64 + 1) as u32;
                for i in 0..n as u32 {
                    let id = if from > i { from - i } else { i };
                    v.push(E(a.0, a.1, a.2, a.3, id.min(0xff_ffff), a.5));
                }
            }
        }
        v
    }
    fn key(&self, r: &mut Rng) -> (u32, Lang) {
        (*r.pick(&self.phrases), Lang(*r.pick(&self.langs)))
    }
    fn op(&self, r: &mut Rng) -> BOp {
        let (phrase, lang) = self.key(r);
        match r.below(10) {
            0..=3 => BOp::Insert { phrase, lang, entries: self.entries(r) },
            4..=7 => BOp::Append { phrase, lang, entries: self.entries(r) },
            _ => {
                let e = self.entry(r);
                let mut coords: Vec<(u16, u16)> =
                    (0..r.range(self.per_key.0, self.per_key.1)).map(|_| self.region.point(r)).collect();
                if r.chance(0.1) {
                    coords.clear();
                }
                BOp::Compact { phrase, lang, relev: e.0, score: e.1, id: e.4, hash: e.5, coords }
            }
        }
    }
    /// every phrase gets data at least once
    fn ops(&self, r: &mut Rng, extra: u64) -> Vec<BOp> {
        let mut v: Vec<BOp> = self
            .phrases
            .iter()
            .map(|p| BOp::Insert { phrase: *p, lang: Lang(*r.pick(&self.langs)), entries: self.entries(r) })
            .collect();
        for _ in 0..extra {
            v.push(self.op(r));
        }
        if r.chance(0.05) {
            let (phrase, lang) = self.key(r);
            v.push(BOp::Insert { phrase, lang, entries: vec![] });
        }
        v
    }
}

fn phrases(r: &mut Rng, n: usize) -> Vec<u32> {
    let mut v: Vec<u32> = match r.below(5) {
        0 => EDGES.to_vec(),
        1 => {
            let base = *r.pick(&[200u32, 65530, 0xff_fff8, u32::MAX - 30]);
            (0..n as u32).map(|i| base.saturating_add(i)).collect()
        }
        2 => (0..n).map(|_| r.next_u64() as u32).collect(),
        _ => {
            let base = r.below(4) as u32;
            (0..n as u32).map(|i| base + i * (1 + (i % 3))).collect()
        }
    };
    if v.len() > n.max(1) {
        r.shuffle(&mut v);
        v.truncate(n.max(1));
    }
    v.sort();
    v.dedup();
    v
}

fn boundaries(r: &mut Rng, ps: &[u32]) -> Vec<u32> {
    let mut b: Vec<u32> = vec![];
    if r.chance(0.6) {
        b.push(*ps.first().unwrap_or(&0));
    }
    for _ in 0..1 + r.below(5) {
        let p = *r.pick(ps);
        b.push(match r.below(4) {
            0 => p.saturating_add(1),
            1 => p.saturating_sub(1),
            _ => p,
        });
    }
    match r.below(5) {
        0 => b.push(u32::MAX),
        1 => b.push(ps.last().unwrap().saturating_add(1)),
        2 => b.push(0),
        _ => {}
    }
    b.sort();
    b.dedup();
    b
}

fn spec(name: &str, zoom: u16, type_id: u16, ops: Vec<BOp>) -> StoreSpec {
    let m = Region::max(zoom) as u16;
    StoreSpec {
        name: name.into(),
        zoom,
        type_id,
        radius: 200.0,
        bboxes: vec![[0, 0, m, m]],
        max_score: 7.0,
        ops,
        older: 0,
    }
}

fn radius(r: &mut Rng) -> f64 {
    *r.pick(&[200.0, 200.0, 400.0, 40.0, 10.0, 3.0])
}

/// Boxes that cover all of the store's data (they are a promise the caller makes).
fn true_boxes(r: &mut Rng, s: &StoreSpec) -> Vec<[u16; 4]> {
    let m = Region::max(s.zoom) as u16;
    let mut pts: Vec<(u16, u16)> = vec![];
    let mut b = BuilderModel::default();
    for op in &s.ops {
        b.apply(op);
    }
    for v in b.data.values() {
        pts.extend(v.iter().map(|p| unmorton((*p >> 32) as u32)));
    }
    if pts.is_empty() || r.chance(0.4) {
        return vec![[0, 0, m, m]];
    }
    let bound = |ps: &[(u16, u16)]| {
        [
            ps.iter().map(|p| p.0).min().unwrap(),
            ps.iter().map(|p| p.1).min().unwrap(),
            ps.iter().map(|p| p.0).max().unwrap(),
            ps.iter().map(|p| p.1).max().unwrap(),
        ]
    };
    if r.chance(0.4) && pts.len() > 1 {
        pts.sort();
        let k = 1 + r.usize(pts.len() - 1);
        return vec![bound(&pts[..k]), bound(&pts[k..])];
    }
    vec![bound(&pts)]
}

// ---- lookups -------------------------------------------------------------------------------------

fn opts(r: &mut Rng, d: &Region) -> MOpts {
    let m = Region::max(d.zoom) as u16;
    let bbox = if r.chance(0.4) {
        let (a, b) = (d.around(r), d.around(r));
        Some(match r.below(6) {
            0 => [0, 0, m, m],
            1 => [a.0, a.1, a.0, a.1],
            _ => [a.0.min(b.0), a.1.min(b.1), a.0.max(b.0), a.1.max(b.1)],
        })
    } else {
        None
    };
    let proximity = if r.chance(0.5) {
        let p = d.around(r);
        Some([p.0, p.1])
    } else {
        None
    };
    MOpts { bbox, proximity, zoom: d.zoom }
}

fn qlang(r: &mut Rng, d: &Data) -> Lang {
    Lang(match r.below(6) {
        0 => u128::MAX,
        1 => 0,
        2 => *r.pick(&LANGS),
        3 => *r.pick(&d.langs) & r.next_u64() as u128,
        _ => *r.pick(&d.langs),
    })
}

fn mphrase(r: &mut Rng, d: &Data, bins: &[u32]) -> MPhrase {
    let p = *r.pick(&d.phrases);
    match r.below(10) {
        0..=2 => MPhrase::Exact(p),
        3 => MPhrase::Exact(*r.pick(&[p.wrapping_add(1), p.wrapping_sub(1), 0, u32::MAX])),
        4 => MPhrase::Range(0, u32::MAX),
        5 | 6 if bins.len() > 1 => {
            let i = r.usize(bins.len() - 1);
            let j = i + 1 + r.usize(bins.len() - i - 1);
            MPhrase::Range(bins[i], bins[j])
        }
        7 if !bins.is_empty() => {
            let b = *r.pick(bins);
            MPhrase::Range(b.min(p), b.max(p))
        }
        _ => {
            let q = *r.pick(&d.phrases);
            let (a, b) = (p.min(q), p.max(q));
            match r.below(4) {
                0 => MPhrase::Range(a, b),
                1 => MPhrase::Range(a.saturating_sub(1), b),
                2 => MPhrase::Range(a, a.saturating_add(1)),
                _ => MPhrase::Range(a, b.saturating_add(1)),
            }
        }
    }
}

fn bins_of(s: &StoreSpec) -> Vec<u32> {
    s.ops.iter().rev().find_map(|o| if let BOp::Bins(b) = o { Some(b.clone()) } else { None }).unwrap_or_default()
}

fn match_op(r: &mut Rng, store: usize, s: &StoreSpec, d: &Data) -> QOp {
    let bins = bins_of(s);
    QOp::Match {
        store,
        key: MKey { phrase: mphrase(r, d, &bins), lang: qlang(r, d) },
        opts: opts(r, &d.region),
        max: *r.pick(&[1, 2, 3, 5, 8, 80, 100_000]),
        take: match r.below(4) {
            0 => Some(r.below(8) as usize),
            _ => None,
        },
    }
}
fn get_op(r: &mut Rng, store: usize, d: &Data) -> QOp {
    let (phrase, lang) = d.key(r);
    match r.below(6) {
        0 => QOp::Get { store, phrase: phrase.wrapping_add(1), lang },
        1 => QOp::Get { store, phrase, lang: Lang(*r.pick(&LANGS)) },
        _ => QOp::Get { store, phrase, lang },
    }
}
fn keys_op(r: &mut Rng, store: usize) -> QOp {
    let take = match r.below(3) {
        0 => Some(r.below(6) as usize),
        _ => None,
    };
    if r.chance(0.5) {
        QOp::Keys { store, take }
    } else {
        QOp::Iter { store, take }
    }
}

fn clients(r: &mut Rng, n: u64, per: u64, mut f: impl FnMut(&mut Rng) -> QOp) -> Vec<Vec<QOp>> {
    (0..n).map(|_| (0..1 + r.below(per)).map(|_| f(r)).collect()).collect()
}

// ---- stacks --------------------------------------------------------------------------------------

struct World {
    stores: Vec<StoreSpec>,
    data: Vec<Data>,
    /// idx of a subquery -> store
    idx: Vec<usize>,
    tokens: u32,
}

/// Stores whose features lie on top of each other.
fn world(r: &mut Rng, max_stores: usize, keys: usize, crowded: bool) -> World {
    let n = 1 + r.usize(max_stores);
    let mut zooms: Vec<u16> = (0..n)
        .map(|_| *r.pick(&[6u16, 6, 7, 9, 10, 12, 13, 14, 14, 15, 16]))
        .collect();
    zooms.sort();
    if r.chance(0.15) {
        zooms = vec![zooms[0]; n];
    }
    let top = *zooms.last().unwrap();
    let base = Region::any(r, top);
    // points that several stores share
    let mut hot: Vec<(u16, u16)> = (0..1 + r.below(6)).map(|_| base.point(r)).collect();
    if r.chance(0.15) {
        // and points that resemble one of them
        for _ in 0..1 + r.below(3) {
            let (x, y) = *r.pick(&hot);
            hot.push(match r.below(4) {
                0 => (x ^ 1 << r.below(top as u64), y),
                1 => (x, y ^ 1 << r.below(top as u64)),
                2 => (x ^ 1 << r.below(top as u64), y ^ 1 << r.below(top as u64)),
                _ => (y, x),
            });
        }
    }
    let mut stores = vec![];
    let mut data = vec![];
    for (i, z) in zooms.iter().enumerate() {
        let mut d = Data::new(r, *z, keys);
        d.phrases = {
            let lo = *r.pick(&[0u32, 0, 0, 1, 300, 300, 65530, 0x00ff_fffa, 0x7fff_fffa]);
            (0..keys as u32).map(|k| lo + k * (1 + (k & 1))).collect()
        };
        if d.max_id < 5000 && r.chance(0.6) {
            d.max_id = 0xff_ffff;
        }
        d.max_score = 7;
        d.per_key = if crowded { (20, 120) } else { *r.pick(&[(1, 3), (1, 8), (2, 20)]) };
        let sh = (top - z) as u32;
        d.region = Region {
            zoom: *z,
            x: base.x >> sh,
            y: base.y >> sh,
            w: (base.w >> sh).max(1),
            h: (base.h >> sh).max(1),
        };
        let mut ops = d.ops(r, keys as u64 / 2);
        for op in ops.iter_mut() {
            if let BOp::Insert { entries, .. } | BOp::Append { entries, .. } = op {
                for e in entries.iter_mut() {
                    if r.chance(0.6) {
                        let p = r.pick(&hot);
                        e.2 = p.0 >> sh;
                        e.3 = p.1 >> sh;
                    }
                }
            }
        }
        if r.chance(0.3) {
            push_bins(r, &mut ops, &d.phrases);
        }
        let mut s = spec(&format!("s{}", i), *z, 0, ops);
        s.radius = radius(r);
        s.max_score = *r.pick(&[0.0, 1.0, 7.0, 7.0]);
        s.bboxes = true_boxes(r, &s);
        stores.push(s);
        data.push(d);
    }
    // types follow the zoom; sometimes neighbours of equal zoom share one
    let mut t = r.below(3) as u16;
    for i in 0..n {
        if i > 0 && !(stores[i].zoom == stores[i - 1].zoom && r.chance(0.3)) {
            t += 1 + r.below(2) as u16;
        }
        stores[i].type_id = t;
    }
    let mut idx = vec![];
    for i in 0..n {
        for _ in 0..1 + r.below(2) {
            idx.push(i);
        }
    }
    World { stores, data, idx, tokens: 1 + r.below(5) as u32 }
}

fn weight(mask: u32, tokens: u32) -> f64 {
    mask.count_ones() as f64 / tokens as f64
}

fn sub(r: &mut Rng, w: &World, idx: usize, mask: u32, id: u32) -> Sub {
    let store = w.idx[idx];
    let d = &w.data[store];
    let bins = bins_of(&w.stores[store]);
    let mut nonoverlap = vec![];
    for _ in 0..r.below(3) {
        if r.chance(0.4) {
            nonoverlap.push(r.below(w.idx.len() as u64) as u16);
        }
    }
    nonoverlap.sort();
    nonoverlap.dedup();
    Sub {
        store,
        idx: idx as u16,
        nonoverlap,
        weight: weight(mask, w.tokens) * if r.chance(0.1) { 0.5 } else { 1.0 },
        mask,
        keys: vec![SKey {
            key: MKey { phrase: mphrase(r, d, &bins), lang: qlang(r, d) },
            nearby: r.chance(0.15),
            id,
            len: r.below(5) as usize,
        }],
    }
}

fn some_mask(r: &mut Rng, tokens: u32) -> u32 {
    let a = r.below(tokens as u64) as u32;
    let b = a + r.below((tokens - a) as u64) as u32;
    let mut m = 0;
    for t in a..=b {
        m |= 1 << t;
    }
    if tokens < 6 && r.chance(0.05) {
        m << 26
    } else {
        m
    }
}

fn world_opts(r: &mut Rng, w: &World) -> MOpts {
    let k = r.usize(w.stores.len());
    let mut o = opts(r, &w.data[k].region);
    if o.bbox.is_some() && r.chance(0.5) {
        o.bbox = None;
    }
    // the same place seen from another zoom
    if r.chance(0.4) {
        let z = *r.pick(&[6u16, 10, 12, 14, 16]);
        o = crate::model::adjust(&o, z);
    }
    o
}

/// Stores whose data share a few places, asked layer by layer: stacks of three and more.
fn deep_world(r: &mut Rng) -> World {
    let mut w = world(r, 5, 2, false);
    // few entries: a stack takes every combination of those that share a place
    while w.stores.len() < 3 || w.data.iter().any(|d| d.per_key.1 > 8) {
        w = world(r, 5, 2, false);
    }
    let top = w.stores.iter().map(|s| s.zoom).max().unwrap();
    let base = Region { zoom: top, ..w.data.last().unwrap().region.clone() };
    let hot: Vec<(u16, u16)> = (0..1 + r.below(3)).map(|_| base.point(r)).collect();
    for s in w.stores.iter_mut() {
        let sh = (top - s.zoom) as u32;
        for op in s.ops.iter_mut() {
            if let BOp::Insert { entries, .. } | BOp::Append { entries, .. } = op {
                for e in entries.iter_mut() {
                    if r.chance(0.8) {
                        let p = r.pick(&hot);
                        e.2 = p.0 >> sh;
                        e.3 = p.1 >> sh;
                    }
                }
            }
        }
        s.bboxes = true_boxes(r, s);
    }
    w.tokens = w.stores.len() as u32 + r.below(2) as u32;
    w
}
fn deep_stack_op(r: &mut Rng, w: &World) -> QOp {
    let mut subs: Vec<Sub> = vec![];
    let mut masks: Vec<u32> = (0..w.stores.len() as u32).map(|k| 1 << k).collect();
    r.shuffle(&mut masks);
    for i in 0..w.idx.len() {
        for _ in 0..1 + r.below(2) {
            let mut m = masks[w.idx[i]];
            if r.chance(0.1) {
                m = some_mask(r, w.tokens);
            }
            let mut s = sub(r, w, i, m, 100 + subs.len() as u32 * 3);
            if r.chance(0.8) {
                s.nonoverlap.clear();
                let d = &w.data[w.idx[i]];
                s.keys[0].key.phrase = MPhrase::Exact(*r.pick(&d.phrases));
                if r.chance(0.7) {
                    s.keys[0].key.lang = Lang(u128::MAX);
                }
            }
            subs.push(s);
        }
    }
    r.shuffle(&mut subs);
    subs.truncate(10);
    agree(&mut subs);
    let mut o = world_opts(r, w);
    if r.chance(0.6) {
        o.bbox = None;
    }
    QOp::Stack { subs, opts: o }
}
/// More phrase matches than fit one chunk of work: some stand alone, some are stacked, and both
/// can come up in the same chunk.
fn wide_stack_op(r: &mut Rng, w: &World) -> QOp {
    let n = 8 + r.below(12);
    let loners = r.chance(0.5);
    match stack_op(r, w, n) {
        QOp::Stack { mut subs, opts } => {
            for s in subs.iter_mut() {
                if loners && r.chance(0.6) {
                    // covers the whole query: nothing goes with it
                    s.mask = (1 << w.tokens) - 1;
                }
                s.weight = weight(s.mask, w.tokens) * *r.pick(&[1.0, 1.0, 0.9, 0.75, 0.5, 0.4]);
            }
            agree(&mut subs);
            QOp::Stack { subs, opts }
        }
        op => op,
    }
}
/// Collapsing keeps the first one's exclusions: make them agree.
fn agree(subs: &mut Vec<Sub>) {
    for i in 0..subs.len() {
        for j in 0..i {
            if subs[j].idx == subs[i].idx && subs[j].mask == subs[i].mask && subs[j].weight == subs[i].weight {
                subs[i].nonoverlap = subs[j].nonoverlap.clone();
                break;
            }
        }
    }
}
fn stack_op(r: &mut Rng, w: &World, n: u64) -> QOp {
    let mut subs: Vec<Sub> = vec![];
    for k in 0..n {
        let i = r.usize(w.idx.len());
        let m = some_mask(r, w.tokens);
        let mut s = sub(r, w, i, m, 100 + k as u32 * 3);
        if r.chance(0.3) {
            // the same part of the query in the same index: collapsed into one
            if let Some(t) = subs.iter().find(|t| t.idx == s.idx) {
                s.mask = t.mask;
                s.weight = t.weight;
                s.nonoverlap = t.nonoverlap.clone();
            }
        }
        subs.push(s);
    }
    agree(&mut subs);
    QOp::Stack { subs, opts: world_opts(r, w) }
}

fn coalesce_op(r: &mut Rng, w: &World, n: usize) -> QOp {
    let mut order: Vec<usize> = (0..w.idx.len()).collect();
    r.shuffle(&mut order);
    order.truncate(n.max(1));
    let mut left: Vec<u32> = (0..w.tokens.max(order.len() as u32)).collect();
    r.shuffle(&mut left);
    let mut stack = vec![];
    let k = order.len();
    for (n, i) in order.into_iter().enumerate() {
        let mask = if r.chance(0.85) {
            let mut m = 1 << left.pop().unwrap_or(0);
            while left.len() > k - n && r.chance(0.3) {
                m |= 1 << left.pop().unwrap();
            }
            m
        } else {
            some_mask(r, w.tokens)
        };
        stack.push(sub(r, w, i, mask, n as u32));
    }
    let mut o = world_opts(r, w);
    if stack.len() == 1 {
        let s = &w.stores[stack[0].store];
        o = opts(r, &w.data[stack[0].store].region);
        o.zoom = s.zoom;
        stack[0].keys[0].nearby = false;
    }
    QOp::Coalesce { stack, opts: o }
}

/// One store with many features for single coalesces.
fn crowd(r: &mut Rng) -> World {
    let zoom = *r.pick(&[6u16, 10, 14, 16]);
    let mut d = Data::new(r, zoom, 1 + r.clone().usize(4));
    d.phrases = (0..1 + r.below(100) as u32 % *r.clone().pick(&[4, 100])).collect();
    d.langs = vec![1, 2, u128::MAX];
    d.max_id = *r.pick(&[10, 60, 200, 0xff_ffff]);
    d.max_score = 7;
    d.per_key = if d.phrases.len() > 20 { (1, 4) } else { *r.pick(&[(1, 10), (30, 60), (80, 140)]) };
    let ops = d.ops(r, 2);
    let mut s = spec("s0", zoom, 1, ops);
    s.radius = radius(r);
    s.bboxes = true_boxes(r, &s);
    World { stores: vec![s], data: vec![d], idx: vec![0, 0, 0], tokens: 1 + r.below(3) as u32 }
}

fn single_op(r: &mut Rng, w: &World) -> QOp {
    let i = r.usize(w.idx.len());
    let m = some_mask(r, w.tokens);
    let mut s = sub(r, w, i, m, 0);
    s.keys[0].nearby = false;
    if r.chance(0.6) {
        s.keys[0].key.phrase = MPhrase::Range(0, u32::MAX);
    }
    let d = &w.data[s.store];
    let mut o = opts(r, &d.region);
    if r.chance(0.5) {
        o.bbox = None;
    }
    QOp::Coalesce { stack: vec![s], opts: o }
}

/// Many expensive range scans of single words.
fn quota_case(r: &mut Rng) -> (World, QOp) {
    let high = r.chance(0.7);
    let zoom = if high { *r.pick(&[14u16, 15, 16]) } else { *r.pick(&[6u16, 10, 13]) };
    let kinds = 1 + r.usize(2);
    // single words meet the one-word limits first; longer matches only those of the high zooms
    let words = r.below(20);
    let (long, n) = match words {
        0 => (0.95, 590 + r.below(60) as u32),
        1..=6 => (*r.pick(&[0.8, 1.0]), *r.pick(&[39u32, 42, 50, 60])),
        _ => (0.1, *r.pick(&[7u32, 9, 12, 42, 50, 60])),
    };
    let exact = if words == 0 { 0.96 } else { 0.1 };
    let mut stores = vec![];
    let mut data = vec![];
    let base = Region::any(r, zoom);
    for i in 0..kinds {
        let mut d = Data::new(r, zoom, 4);
        d.region = base.clone();
        d.phrases = (0..2 * n + 2).collect();
        d.per_key = (1, 2);
        d.max_id = 0xff_ffff;
        d.max_score = 7;
        let ops = d.ops(r, 0);
        let mut s = spec(&format!("s{}", i), zoom, i as u16, ops);
        s.bboxes = true_boxes(r, &s);
        stores.push(s);
        data.push(d);
    }
    let tokens = 4;
    let mut subs = vec![];
    let one_letter = r.chance(0.4);
    let tree = r.chance(0.5) && kinds == 2;
    for k in 0..n {
        let store = if tree { (k % 2) as usize } else { 0 };
        // distinct weights, so that the order of work is determined
        let mask = if tree && store == 1 { 2 } else { 1 };
        let nearby = r.chance(if words == 0 { 0.02 } else { 0.1 });
        subs.push(Sub {
            store,
            idx: (k % 120) as u16,
            nonoverlap: vec![],
            weight: 0.25 + (k as f64) / 4096.0,
            mask: if r.chance(long) { mask | 4 } else { mask },
            keys: vec![SKey {
                key: MKey {
                    phrase: if r.chance(exact) { MPhrase::Exact(2 * k) } else { MPhrase::Range(2 * k, 2 * k + 2) },
                    lang: Lang(u128::MAX),
                },
                nearby,
                id: 1000 + k,
                len: if one_letter || r.chance(0.1) { 1 } else { *r.pick(&[3, 3, 2, 0]) },
            }],
        });
    }
    r.shuffle(&mut subs);
    let mut w = World { stores, data, idx: vec![], tokens };
    w.idx = vec![0; 120];
    let mut o = opts(r, &base);
    o.bbox = None;
    (w, QOp::Stack { subs, opts: o })
}

/// One phrase group with very many ways to stack it.
fn forest_case(r: &mut Rng, thorough: bool) -> (World, Vec<Sub>) {
    let types = 2 + r.usize(2);
    let per = match types {
        2 => *r.pick(&[8u32, 30, 46, 60]),
        _ => *r.pick(&[5u32, 11, 13, 16]),
    } + if thorough { r.below(8) as u32 } else { 0 };
    let zoom = *r.pick(&[6u16, 10, 14]);
    let base = Region::any(r, zoom);
    let mut stores = vec![];
    let mut data = vec![];
    for i in 0..types {
        let mut d = Data::new(r, zoom, 3);
        d.region = Region { w: 2, h: 2, ..base.clone() };
        d.phrases = (0..3).collect();
        d.per_key = (1, 2);
        d.max_id = 0xff_ffff;
        let ops = d.ops(r, 0);
        stores.push(spec(&format!("s{}", i), zoom, i as u16 * 2, ops));
        data.push(d);
    }
    let mut subs = vec![];
    let mut idx = vec![];
    for t in 0..types {
        for k in 0..per {
            if idx.len() >= 120 {
                break;
            }
            let mask = if r.chance(0.2) { 1u32 << r.below(types as u64) } else { 1u32 << t };
            subs.push(Sub {
                store: t,
                idx: idx.len() as u16,
                nonoverlap: if r.chance(0.2) { vec![r.below(120) as u16] } else { vec![] },
                weight: (8 + r.below(40)) as f64 / 64.0,
                mask,
                keys: vec![SKey {
                    key: MKey { phrase: MPhrase::Exact(k % 3), lang: Lang(u128::MAX) },
                    nearby: false,
                    id: idx.len() as u32,
                    len: *r.pick(&[3, 3, 2, 0]),
                }],
            });
            idx.push(t);
        }
    }
    r.shuffle(&mut subs);
    (World { stores, data, idx, tokens: 4 }, subs)
}

/// More results than are kept: groups of more than 40, answers of more than 800.
fn overflow_case(r: &mut Rng) -> (World, QOp) {
    let zoom = *r.pick(&[6u16, 10, 13]);
    let n = 22 + r.below(10) as u32;
    let base = Region { w: 40, h: 40, ..Region::any(r, zoom.max(7)) };
    let base = Region { zoom: zoom.max(7), ..base };
    let zoom = base.zoom;
    let mut d = Data::new(r, zoom, 3);
    d.region = base.clone();
    d.phrases = (0..n).collect();
    d.langs = vec![u128::MAX];
    d.per_key = (35, 60);
    d.max_id = 0xff_ffff;
    d.max_score = 7;
    d.relevs = vec![1.0, 0.8];
    let ops = d.ops(r, 0);
    let s0 = spec("s0", zoom, 0, ops);
    let mut d1 = d.clone();
    d1.phrases = vec![0];
    d1.per_key = (1, 3);
    let s1 = spec("s1", zoom, 1, d1.ops(r, 0));
    let mut subs: Vec<Sub> = (0..n)
        .map(|k| Sub {
            store: 0,
            idx: k as u16,
            nonoverlap: vec![],
            weight: 0.5 + k as f64 / 256.0,
            mask: 1,
            keys: vec![SKey {
                key: MKey { phrase: MPhrase::Exact(k), lang: Lang(1) },
                nearby: false,
                id: k,
                len: 3,
            }],
        })
        .collect();
    if r.chance(0.5) {
        // with something to stack on them: no longer single
        subs.push(Sub {
            store: 1,
            idx: 60,
            nonoverlap: vec![],
            weight: 0.25,
            mask: 2,
            keys: vec![SKey {
                key: MKey { phrase: MPhrase::Exact(0), lang: Lang(1) },
                nearby: false,
                id: 999,
                len: 3,
            }],
        });
    }
    let mut o = opts(r, &base);
    o.bbox = None;
    (World { stores: vec![s0, s1], data: vec![d, d1], idx: vec![0; 100], tokens: 2 }, QOp::Stack { subs, opts: o })
}

// ---- faults --------------------------------------------------------------------------------------

fn io_error(r: &mut Rng) -> String {
    r.pick(&[
        "IO error: No space left on device",
        "IO error: Input/output error",
        "Corruption: block checksum mismatch",
        "IO error: Too many open files",
        "IO error: While pread offset 0 len 4096: No such file or directory",
        "Corruption: truncated block read",
        "NotFound: ",
        "Invalid argument: ",
        "Result incomplete: ",
        "Shutdown in progress: ",
        "Operation timed out: ",
        "Operation aborted: ",
        "Resource busy: ",
        "Operation failed. Try again.: ",
    ])
    .to_string()
}

/// Mutations a build of this store performs: create, one put per record and bin, boundaries,
/// compaction.
fn mutations(s: &StoreSpec) -> u64 {
    let m = MStore::build(s);
    (m.recs.len() + m.binrecs.len()) as u64 + 3
}

fn crash_faults(r: &mut Rng, s: &StoreSpec) -> Vec<Fault> {
    let n = mutations(s);
    let nth = match r.below(6) {
        0 => n - 1,
        1 => n.saturating_sub(2),
        2 => 0,
        _ => r.below(n),
    };
    let kind = if r.chance(0.45) {
        FaultKind::ProcessCrash
    } else {
        FaultKind::PowerLoss { keep_permille: *r.pick(&[0, 0, 300, 700, 950, 1000]) }
    };
    let mut v = vec![Fault { class: Class::Mutation, nth, kind }];
    if r.chance(0.4) && n > 2 {
        v.push(Fault { class: Class::Mutation, nth: 1 + r.below(n - 1), kind: FaultKind::SpontaneousFlush });
    }
    v
}

fn write_faults(r: &mut Rng, s: &StoreSpec) -> Vec<Fault> {
    let n = mutations(s);
    let message = io_error(r);
    match r.below(6) {
        0 => vec![Fault { class: Class::Open, nth: 0, kind: FaultKind::Error { message, sticky: false } }],
        1 => vec![Fault { class: Class::Create, nth: 0, kind: FaultKind::Error { message, sticky: false } }],
        2 => {
            let nth = r.below(n - 2);
            vec![Fault { class: Class::Put, nth, kind: FaultKind::ErrorButApplied { message } }]
        }
        3 => {
            // from here on the disk is full
            let nth = r.below(n - 2);
            vec![Fault { class: Class::Put, nth, kind: FaultKind::Error { message, sticky: true } }]
        }
        _ => {
            let nth = if r.chance(0.3) { n - 3 } else { r.below(n - 2) };
            // a second and third try may fail as well
            let tries = if r.chance(0.7) { 1 } else { 2 + r.below(3) };
            (nth..nth + tries)
                .map(|nth| Fault {
                    class: Class::Put,
                    nth,
                    kind: FaultKind::Error { message: message.clone(), sticky: false },
                })
                .collect()
        }
    }
}

// ---- stores for building -------------------------------------------------------------------------

fn offset_fill(r: &mut Rng, thorough: bool) -> Fill {
    let targets: &[u32] = &[
        120, 126, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 16_380, 16_383, 16_384, 16_385, 16_500, 32_767, 32_768,
        65_530, 65_534, 65_535, 65_536, 65_537, 65_540, 70_000,
    ];
    let big: &[u32] = &[2_097_150, 2_097_151, 2_097_152, 2_097_153, 16_777_210, 16_777_215, 16_777_216, 16_777_217];
    let base = if thorough && r.chance(0.02) { *r.pick(big) } else { *r.pick(targets) };
    // every length between the interesting ones too
    let target = match r.below(3) {
        0 => base,
        1 => base.saturating_sub(r.below(8) as u32).max(5),
        _ => base + r.below(8) as u32,
    };
    Fill::Offset { target, relev: *r.pick(&RELEVS), score: r.below(8) as u8, seed: r.next_u64() }
}

/// A record in which one of the format's lengths or offsets is at a limit that takes a lot of data.
fn wide_fill(r: &mut Rng, k: u64) -> Fill {
    let relev = *r.pick(&RELEVS);
    let score = r.below(16) as u8;
    let seed = r.next_u64();
    let near = |r: &mut Rng, n: u32| n - 2 + r.below(5) as u32;
    let shape = |coords: u32, ids: u32, zoom: u8| Fill::Spread {
        relev,
        score,
        zoom,
        coords,
        ids,
        id_base: 0,
        shared: true,
        seed,
    };
    match k % 8 {
        // offsets of three and of four bytes
        0 => Fill::Offset { target: near(r, 16_777_216), relev, score, seed },
        1 => Fill::Offset { target: near(r, 65_536) + 65_536 * (1 + r.below(12) as u32), relev, score, seed },
        2 => Fill::Offset { target: near(r, 2_097_152), relev, score, seed },
        // lists of ids
        3 => shape(1 + r.below(3) as u32, near(r, 16_384), 16),
        4 => shape(1 + r.below(3) as u32, near(r, 65_536), 16),
        // lists of tiles
        5 => shape(near(r, 16_384), 1, *r.pick(&[7u8, 8, 16])),
        6 => shape(near(r, 65_536), 1, *r.pick(&[8u8, 9, 16])),
        _ => shape(near(r, 70_000), 1, *r.pick(&[9u8, 10, 16])),
    }
}
fn with_fill(s: &mut StoreSpec, phrase: u32, lang: Lang, fill: Fill) {
    let at = s.ops.len() - if matches!(s.ops.last(), Some(BOp::Bins(_))) { 1 } else { 0 };
    s.ops.insert(at, BOp::Fill { phrase, lang, fill });
}

/// Hundreds of small records, under phrases and language sets whose stored keys begin with one
/// another: no languages' worth of bytes, one byte, that byte and another, and so on.
fn many_keys(r: &mut Rng, s: &mut StoreSpec, d: &Data) {
    let n = *r.pick(&[40u64, 70, 140, 300, 600]);
    let base = *r.pick(&d.phrases);
    let step = *r.pick(&[1u32, 1, 1, 2, 255, 256, 65536]);
    let deep = r.chance(0.7);
    let byte = |r: &mut Rng| *r.pick(&[0u8, 1, 1, 2, 0x7f, 0xff]);
    let mut phrase = base;
    let mut made = 0;
    let mut at = 0;
    while made < n {
        let mut langs: Vec<u128> = vec![];
        if !deep || r.chance(0.7) {
            langs.push(u128::MAX);
        }
        if deep {
            let mut v = 1 + r.below(255) as u128;
            for _ in 0..r.below(16) {
                langs.push(v);
                if r.chance(0.3) {
                    langs.push((v << 8) | byte(r) as u128);
                }
                v = (v << 8) | byte(r) as u128;
            }
        }
        for l in langs {
            let e = d.entries(r).into_iter().take(1).collect();
            s.ops.insert(at, BOp::Insert { phrase, lang: Lang(l), entries: e });
            at += 1;
            made += 1;
        }
        phrase = match phrase.checked_add(step) {
            Some(p) => p,
            None => break,
        };
    }
}

fn build_spec(r: &mut Rng, tier: Tier, bins: f64, heavy: f64) -> (StoreSpec, Data) {
    let zoom = *r.pick(&[6u16, 6, 10, 14, 16]);
    let n = 1 + r.usize(8);
    let mut d = Data::new(r, zoom, n);
    if r.chance(0.1) {
        // anything the format can carry
        d.region = Region { zoom: 16, x: 0, y: 0, w: 65536, h: 65536 };
    }
    let extra = r.below(8);
    let mut ops = d.ops(r, extra);
    if r.chance(heavy) {
        for _ in 0..1 + r.below(2) {
            let (phrase, lang) = d.key(r);
            let fill = if r.chance(0.75) {
                offset_fill(r, tier == Tier::Thorough)
            } else {
                Fill::Spread {
                    relev: *r.pick(&RELEVS),
                    score: r.below(8) as u8,
                    zoom: zoom.max(7) as u8,
                    coords: *r.pick(&[50, 100, 300, 3000]),
                    ids: *r.pick(&[1, 2, 20, 130]),
                    id_base: *r.pick(&[0, 1000, 0xff_f000]),
                    shared: r.chance(0.4),
                    seed: r.next_u64(),
                }
            };
            ops.push(BOp::Fill { phrase, lang, fill });
        }
    }
    if r.chance(0.05) {
        // a score that does not fit
        if let BOp::Insert { entries, .. } = &mut ops[0] {
            if let Some(e) = entries.first_mut() {
                e.1 = 16 + r.below(240) as u8;
            }
        }
    }
    if r.chance(bins) {
        push_bins(r, &mut ops, &d.phrases);
    }
    let mut s = spec("s0", zoom, 1, ops);
    s.radius = radius(r);
    if r.chance(0.03) {
        many_keys(r, &mut s, &d);
    }
    (s, d)
}

/// The same final contents reached another way.
fn equivalent(r: &mut Rng, s: &StoreSpec, name: &str) -> StoreSpec {
    let mut b = BuilderModel::default();
    for op in &s.ops {
        b.apply(op);
    }
    let mut parts: Vec<BOp> = vec![];
    let mut first: Vec<BOp> = vec![];
    for ((p, l), v) in &b.data {
        let (phrase, lang) = (*p, Lang(*l));
        let mut es: Vec<E> = v
            .iter()
            .map(|x| {
                let g = crate::model::unpack(*x);
                E(g.relev, g.score, g.x, g.y, g.id, g.source_phrase_hash)
            })
            .collect();
        if r.chance(0.5) {
            r.shuffle(&mut es);
        }
        if r.chance(0.3) {
            // duplicates change nothing
            if let Some(e) = es.first().cloned() {
                es.push(e);
            }
        }
        if r.chance(0.3) {
            // replaced later
            first.push(BOp::Insert { phrase, lang, entries: vec![E(1.0, 1, 3, 3, 77, 7)] });
            first.push(BOp::Insert { phrase, lang, entries: vec![] });
        }
        if es.is_empty() {
            first.push(BOp::Insert { phrase, lang, entries: vec![] });
        }
        let mut rest = &es[..];
        while !rest.is_empty() {
            let k = 1 + r.usize(rest.len());
            parts.push(BOp::Append { phrase, lang, entries: rest[..k].to_vec() });
            rest = &rest[k..];
        }
    }
    r.shuffle(&mut parts);
    let mut ops = vec![];
    if r.chance(0.3) {
        ops.push(BOp::Bins(vec![5, 6]));
    }
    let early = r.chance(0.5);
    if early {
        ops.push(BOp::Bins(b.bins.clone()));
    }
    ops.extend(first);
    ops.extend(parts);
    if !early {
        ops.push(BOp::Bins(b.bins.clone()));
    }
    StoreSpec { name: name.into(), ops, ..s.clone() }
}

fn history_spec(r: &mut Rng, name: &str) -> (StoreSpec, Data) {
    let zoom = *r.pick(&[6u16, 10, 14]);
    let mut d = Data::new(r, zoom, 6);
    d.phrases = (0..1 + r.below(7) as u32).collect();
    d.per_key = (1, 4);
    let mut ops = vec![];
    for _ in 0..2 + r.below(10) {
        ops.push(d.op(r));
        if r.chance(0.15) {
            // renumberings: permutations, shifts, and unusable ones
            let n = d.phrases.len() as u32 + 2;
            let mut map: Vec<u32> = (0..n).map(|i| i + r.below(2) as u32 * 10).collect();
            match r.below(6) {
                0 => map.truncate(r.usize(d.phrases.len().max(1)) + 1),
                1 => {
                    let k = r.usize(map.len());
                    let j = r.usize(map.len());
                    map[k] = map[j];
                }
                2 => map = (0..n).map(|i| u32::MAX - i).collect(),
                3 => {
                    // everything one further: targets are sources of others
                    map = (0..n).map(|i| i + 1).collect();
                }
                _ => {
                    map = (0..n).collect();
                    r.shuffle(&mut map);
                }
            }
            ops.push(BOp::Renumber(map));
        }
    }
    if r.chance(0.3) {
        push_bins(r, &mut ops, &d.phrases);
    }
    (spec(name, zoom, 1, ops), d)
}

// ---- cases ---------------------------------------------------------------------------------------

pub fn gen(prop: &str, seed: u64, index: u64, tier: Tier) -> Case {
    let cs = mix(mix(seed, 0xca5e), mix(index, prop.bytes().fold(7, |a, b| a * 31 + b as u64)));
    let mut r = Rng::new(cs);
    let r = &mut r;
    let mut c = Case {
        prop: prop.into(),
        seed: cs,
        scenario: String::new(),
        plan: Plan::Query { again: false },
        knobs: knobs(r),
        alt: vec![],
        stores: vec![],
        phrases: vec![],
        clients: vec![],
        faults: vec![],
    };
    match prop {
        "C01" => gen_c01(r, &mut c, tier, index),
        "C02" => gen_c02(r, &mut c, tier),
        "C03" => gen_c03(r, &mut c, index),
        "C04" => gen_c04(r, &mut c, tier, index),
        "C05" => gen_c05(r, &mut c),
        "C06" => gen_c06(r, &mut c),
        "C07" => gen_c07(r, &mut c, tier, index),
        "C08" => gen_c08(r, &mut c),
        "C09" => gen_c09(r, &mut c, tier, index),
        "C10" => gen_c10(r, &mut c, tier),
        "C11" => gen_c11(r, &mut c, tier),
        "C12" => gen_c12(r, &mut c),
        "C13" => gen_c13(r, &mut c, tier),
        "C15" => gen_c15(r, &mut c, tier),
        "C16" => gen_c16(r, &mut c),
        "C17" => gen_c17(r, &mut c, tier, index),
        _ => panic!("unknown property {}", prop),
    }
    if matches!(prop, "C15" | "C16") {
        // the program and its engine are one thread; what it hands to others it hands over whole
        c.knobs.preempt = 0;
        c.alt.iter_mut().for_each(|k| k.preempt = 0);
    }
    tame(&mut c);
    if !matches!(c.prop.as_str(), "C15" | "C16") {
        several_keys(r, &mut c);
        if r.chance(0.1) {
            plain_store(r, &mut c);
        }
    }
    disguise(r, &mut c);
    if prop == "C17" {
        releases(r, &mut c);
    }
    c
}

/// Stores on their way through builders and readers of two releases.
fn gen_c17(r: &mut Rng, c: &mut Case, tier: Tier, index: u64) {
    match r.below(20) {
        0..=6 => gen_c01(r, c, tier, index),
        7..=11 => gen_c02(r, c, tier),
        12..=14 => gen_c04(r, c, tier, index),
        15 => gen_c05(r, c),
        16 => gen_c09(r, c, tier, index),
        _ => gen_c10(r, c, tier),
    }
}
/// Who runs which release. A process that reads through the earlier one does it on a handle of its own.
fn releases(r: &mut Rng, c: &mut Case) {
    let all = BUILDER | RETRY | PRELOAD | RIVALS | READERS | LOOK;
    let mask = match r.below(6) {
        0 => BUILDER | PRELOAD | RETRY | RIVALS,
        1 => READERS | LOOK,
        2 => BUILDER,
        3 => PRELOAD,
        _ => r.next_u64() as u32 & all,
    };
    for s in c.stores.iter_mut() {
        s.older = if r.chance(0.8) { mask } else { r.next_u64() as u32 & all };
    }
    // in a directory that is built anew while older handles are open, a new handle sees something else
    if matches!(c.plan, Plan::Renew { .. }) {
        return;
    }
    let share = *r.pick(&[0.0, 0.3, 0.6, 1.0]);
    for op in c.clients.iter_mut().flatten() {
        if matches!(op, QOp::Get { .. } | QOp::Match { .. } | QOp::Keys { .. } | QOp::Iter { .. } | QOp::Reopen { .. })
            && r.chance(share)
        {
            *op = QOp::Older { op: Box::new(op.clone()) };
        }
    }
}

/// Makes one of the stores one that can be opened without options.
fn plain_store(r: &mut Rng, c: &mut Case) {
    let may: Vec<usize> = (0..c.stores.len())
        .filter(|&i| {
            let s = &c.stores[i];
            s.zoom == 6
                && c.stores.iter().all(|o| o.name == s.name || o.zoom > 6 || (o.zoom == 6 && o.type_id > s.type_id))
        })
        .collect();
    if may.is_empty() {
        return;
    }
    let name = c.stores[*r.pick(&may)].name.clone();
    for s in c.stores.iter_mut().filter(|s| s.name == name) {
        s.type_id = 0;
        s.radius = 0.0;
        s.max_score = 0.0;
        s.bboxes = vec![[0, 0, 63, 63]];
    }
}
/// Gives some phrase matches more than one key: one of another phrase match of their store.
fn several_keys(r: &mut Rng, c: &mut Case) {
    fn each(op: &mut QOp, f: &mut dyn FnMut(&mut Vec<Sub>)) {
        match op {
            QOp::Stack { subs, .. } | QOp::Tree { subs } => f(subs),
            QOp::Braid { ops, .. } => ops.iter_mut().for_each(|o| each(o, f)),
            QOp::Abandon { op, .. } => each(op, f),
            _ => {}
        }
    }
    if !r.chance(0.15) {
        return;
    }
    let seed = r.next_u64();
    for op in c.clients.iter_mut().flatten() {
        // the same operation stays the same wherever it is repeated
        let mut r = Rng::new(seed);
        let r = &mut r;
        each(op, &mut |subs: &mut Vec<Sub>| {
            if subs.len() > 40 {
                return;
            }
            let mut next = subs.iter().flat_map(|s| s.keys.iter().map(|k| k.id)).max().unwrap_or(0);
            for i in 0..subs.len() {
                if r.chance(0.3) && next < u32::MAX {
                    let of: Vec<usize> = (0..subs.len()).filter(|&j| subs[j].store == subs[i].store).collect();
                    let mut k = subs[*r.pick(&of)].keys[0].clone();
                    next += 1;
                    k.id = next;
                    subs[i].keys.push(k);
                }
            }
        });
    }
}

/// Spreads the small numbers the cases are made of over the range callers may use: phrase match
/// ids, store slots, masks and types, with neighbours that agree in all but a few bits.
fn disguise(r: &mut Rng, c: &mut Case) {
    fn each(op: &mut QOp, f: &mut dyn FnMut(&mut Vec<Sub>)) {
        match op {
            QOp::Coalesce { stack: subs, .. } | QOp::Stack { subs, .. } | QOp::Tree { subs } => f(subs),
            QOp::Braid { ops, .. } => ops.iter_mut().for_each(|o| each(o, f)),
            QOp::Abandon { op, .. } => each(op, f),
            _ => {}
        }
    }
    let (ids, slots, shift) = (r.chance(0.25), r.chance(0.25), r.chance(0.15));
    let seed = r.next_u64();
    if ids || slots || shift {
        for op in c.clients.iter_mut().flatten() {
            // the same operation stays the same wherever it is repeated
            let mut r = Rng::new(seed);
            let r = &mut r;
            each(op, &mut |subs: &mut Vec<Sub>| {
                if ids {
                    let mut old: Vec<u32> = subs.iter().flat_map(|s| s.keys.iter().map(|k| k.id)).collect();
                    old.sort();
                    old.dedup();
                    let base = *r.pick(&[0u32, 1, 77, u32::MAX]);
                    let step = *r.pick(&[1u32 << 8, 1 << 16, 1 << 16, 1 << 20, 1 << 24, 1 << 28, u32::MAX]);
                    let to: Vec<u32> = (0..old.len() as u32).map(|i| base.wrapping_add(i.wrapping_mul(step))).collect();
                    let distinct = to.iter().collect::<std::collections::BTreeSet<_>>().len() == to.len();
                    if distinct {
                        for k in subs.iter_mut().flat_map(|s| s.keys.iter_mut()) {
                            k.id = to[old.binary_search(&k.id).unwrap()];
                        }
                    }
                }
                if slots {
                    let mut old: Vec<u16> =
                        subs.iter().flat_map(|s| s.nonoverlap.iter().cloned().chain(Some(s.idx))).collect();
                    old.sort();
                    old.dedup();
                    let n = old.len() as u16;
                    let to: Option<Vec<u16>> = match r.below(4) {
                        _ if n > 60 || n == 0 || *old.last().unwrap() > 127 => None,
                        0 => Some((0..n).map(|i| 128 - n + i).collect()),
                        1 => Some((0..n).map(|i| i * (127 / n)).collect()),
                        2 if n <= 8 => Some((0..n).map(|i| i * 16 + 3).collect()),
                        _ => {
                            let mut v: Vec<u16> = (0..128).collect();
                            r.shuffle(&mut v);
                            Some(v[..n as usize].to_vec())
                        }
                    };
                    if let Some(to) = to {
                        let at = |i: u16| to[old.binary_search(&i).unwrap()];
                        for s in subs.iter_mut() {
                            s.idx = at(s.idx);
                            s.nonoverlap.iter_mut().for_each(|i| *i = at(*i));
                            s.nonoverlap.sort();
                        }
                    }
                }
                if shift {
                    let all = subs.iter().fold(0u32, |a, s| a | s.mask);
                    let by = match r.below(3) {
                        0 => all.leading_zeros(),
                        _ => r.below(all.leading_zeros() as u64 + 1) as u32,
                    };
                    if all != 0 {
                        subs.iter_mut().for_each(|s| s.mask <<= by);
                    }
                }
            });
        }
    }
    if r.chance(0.15) {
        let top = c.stores.iter().map(|s| s.type_id).max().unwrap_or(0) as u32 + 1;
        let by = *r.pick(&[255u32, 256, 4096, 16384]);
        let from = *r.pick(&[0u32, 1, 250]);
        if top * by + from < 65536 {
            c.stores.iter_mut().for_each(|s| s.type_id = (s.type_id as u32 * by + from) as u16);
        }
    }
}

/// Stacks multiply: where many features of many types share a tile, the number of combinations is
/// out of reach for the code and the model alike. Leaves out subqueries until it is not.
fn tame(c: &mut Case) {
    let renewed = matches!(c.plan, Plan::Renew { .. });
    let lowest = c.stores.iter().map(|s| s.zoom).min().unwrap_or(0);
    let mut crowds: Vec<Option<f64>> = vec![None; c.stores.len()];
    let stores = &c.stores;
    let mut crowd = |i: usize| -> f64 {
        if let Some(n) = crowds[i] {
            return n;
        }
        let s = match stores[..i].iter().find(|t| t.name == stores[i].name && !renewed) {
            Some(t) => t,
            None => &stores[i],
        };
        let d = stores[i].zoom - lowest;
        let mut tiles: std::collections::HashMap<(u16, u16), f64> = Default::default();
        let mut note = |x: u16, y: u16| {
            let (x, y) = ((x as u32 >> d) as u16, (y as u32 >> d) as u16);
            *tiles.entry((x, y)).or_insert(0.0) += 1.0;
        };
        for o in &s.ops {
            match o {
                BOp::Insert { entries, .. } | BOp::Append { entries, .. } => {
                    entries.iter().for_each(|e| note(e.2, e.3))
                }
                BOp::Compact { coords, .. } => coords.iter().for_each(|p| note(p.0, p.1)),
                BOp::Fill { fill, .. } => fill.expand().iter().for_each(|e| note(e.2, e.3)),
                _ => {}
            }
        }
        let n = tiles.values().cloned().fold(0.0, f64::max);
        crowds[i] = Some(n);
        n
    };
    for op in c.clients.iter_mut().flatten() {
        if let QOp::Stack { subs, .. } = op {
            loop {
                let mut by_type: std::collections::BTreeMap<u16, f64> = Default::default();
                for s in subs.iter() {
                    let n = crowd(s.store) * s.keys.len() as f64;
                    *by_type.entry(stores[s.store].type_id).or_insert(1.0) += n;
                }
                if subs.len() < 2 || by_type.values().product::<f64>() < 3e7 {
                    break;
                }
                subs.pop();
            }
        }
    }
}

/// Boundaries; now and then others were given before, which count no more.
fn push_bins(r: &mut Rng, ops: &mut Vec<BOp>, phrases: &[u32]) {
    if r.chance(0.1) {
        let at = r.usize(ops.len() + 1);
        ops.insert(at, BOp::Bins(boundaries(r, phrases)));
    }
    ops.push(BOp::Bins(boundaries(r, phrases)));
}

/// The directory of store 0 holds a store with other data for the same phrases already.
fn over_older(r: &mut Rng, c: &mut Case, d: &Data) {
    let s = c.stores[0].clone();
    let mut old = s.clone();
    old.name.push_str(".older");
    old.ops.retain(|_| r.chance(0.5));
    if r.chance(0.3) {
        // as many entries everywhere, others
        for op in old.ops.iter_mut() {
            if let BOp::Insert { entries, .. } | BOp::Append { entries, .. } = op {
                for e in entries.iter_mut() {
                    e.4 ^= 1;
                }
            }
        }
    }
    for _ in 0..1 + r.below(5) {
        old.ops.push(d.op(r));
    }
    if r.chance(0.4) {
        old.ops.push(BOp::Bins(boundaries(r, &d.phrases)));
    }
    if let Plan::Build { preload, rivals, .. } = &mut c.plan {
        *preload = true;
        *rivals = 0;
    }
    c.scenario = "building over an older store".into();
    c.stores.push(old);
}

fn gen_c01(r: &mut Rng, c: &mut Case, tier: Tier, index: u64) {
    if index % 1000 == 9 {
        let (mut s, d) = build_spec(r, tier, 0.2, 0.0);
        let (phrase, lang) = d.key(r);
        let fill = wide_fill(r, index / 1000);
        with_fill(&mut s, phrase, lang, fill);
        c.scenario = "very large record".into();
        c.clients = vec![vec![QOp::Get { store: 0, phrase, lang }, get_op(r, 0, &d)]];
        c.stores = vec![s];
        return;
    }
    if r.chance(0.05) {
        return renew_case(r, c, 0.3);
    }
    let (s, d) = build_spec(r, tier, 0.3, 0.3);
    let per = 6;
    if r.chance(0.65) {
        c.scenario = "build, then power loss".into();
        c.plan = Plan::Build {
            readers: r.below(2) as u32,
            rivals: 0,
            after: Some(*r.pick(&[0, 0, 500, 1000])),
            preload: false,
        };
        let n = mutations(&s);
        for _ in 0..r.below(3) {
            c.faults.push(Fault { class: Class::Mutation, nth: r.below(n), kind: FaultKind::SpontaneousFlush });
        }
        c.clients = clients(r, 1, per, |r| get_op(r, 0, &d));
        if r.chance(0.1) {
            c.stores = vec![s];
            return over_older(r, c, &d);
        }
    } else {
        c.scenario = "build, then concurrent lookups".into();
        let n = 1 + r.below(3);
        c.clients = clients(r, n, per, |r| if r.chance(0.9) { get_op(r, 0, &d) } else { QOp::Reopen { store: 0 } });
        c.faults = stalls(r);
    }
    c.stores = vec![s];
}

fn gen_c02(r: &mut Rng, c: &mut Case, tier: Tier) {
    let (s, d) = build_spec(r, tier, 0.5, 0.1);
    c.scenario = "crash while building".into();
    c.plan = Plan::Build {
        readers: *r.pick(&[0, 0, 1, 2]),
        rivals: if r.chance(0.12) { 1 + r.below(2) as u32 } else { 0 },
        after: if r.chance(0.2) { Some(*r.pick(&[0, 500])) } else { None },
        preload: r.chance(0.12),
    };
    c.faults = crash_faults(r, &s);
    if let Plan::Build { rivals, .. } = c.plan {
        if rivals > 0 && r.chance(0.5) {
            c.scenario = "several builders at one path".into();
            c.faults.clear();
        }
    }
    if r.chance(0.1) {
        c.scenario = "readers while building".into();
        c.faults.clear();
    }
    c.clients = clients(r, 1, 5, |r| if r.chance(0.5) { get_op(r, 0, &d) } else { match_op(r, 0, &s, &d) });
    c.stores = vec![s];
    if r.chance(0.1) {
        over_older(r, c, &d);
    }
}

/// The listed defects, one small history each.
fn known_case(r: &mut Rng, c: &mut Case, index: u64) {
    let e = |i: u32| E(1.0, (i % 8) as u8, 10 + i as u16, 10, 100 + i, 1);
    let ops: Vec<BOp> =
        (0..5).map(|p| BOp::Insert { phrase: p, lang: Lang(1), entries: vec![e(p)] }).collect();
    let mut s0 = spec("s0", 6, 1, ops.clone());
    let mut s1 = spec("s1", 6, 2, ops);
    s0.radius = 200.0;
    s1.radius = 200.0;
    let key = MKey { phrase: MPhrase::Range(0, 5), lang: Lang(1) };
    let sub = |store: usize, idx: u16, mask: u32, id: u32| Sub {
        store,
        idx,
        nonoverlap: vec![],
        weight: 0.5,
        mask,
        keys: vec![SKey { key: key.clone(), nearby: false, id, len: 4 }],
    };
    let o = MOpts { bbox: None, proximity: None, zoom: 6 };
    let op = match index / 2 {
        0 => QOp::Match { store: 0, key: key.clone(), opts: o, max: 80, take: None },
        1 => QOp::Keys { store: 0, take: None },
        2 => QOp::Iter { store: 0, take: None },
        3 => QOp::Coalesce { stack: vec![sub(0, 1, 1, 0)], opts: o },
        4 => QOp::Coalesce { stack: vec![sub(0, 1, 1, 0), sub(1, 2, 2, 1)], opts: o },
        _ => QOp::Stack { subs: vec![sub(0, 1, 1, 0), sub(1, 2, 2, 1)], opts: o },
    };
    c.scenario = "listed defect".into();
    c.stores = vec![s0, s1];
    c.clients = vec![vec![op]];
    c.knobs = Knobs::default();
    let (class, nth) = if index % 2 == 0 { (Class::Seek, 0) } else { (Class::Next, 2) };
    c.faults = vec![Fault { class, nth, kind: FaultKind::Error { message: io_error(r), sticky: false } }];
}

fn gen_c03(r: &mut Rng, c: &mut Case, index: u64) {
    if index < 12 {
        return known_case(r, c, index);
    }
    if index == 12 {
        let (s, _) = build_spec(&mut Rng::new(77), Tier::Quick, 0.0, 0.0);
        c.scenario = "listed defect".into();
        c.knobs = Knobs::default();
        c.plan = Plan::Build { readers: 0, rivals: 0, after: Some(0), preload: false };
        c.faults = vec![Fault { class: Class::Compact, nth: 0, kind: FaultKind::SilentFlushFailure }];
        c.stores = vec![s];
        return;
    }
    if r.chance(0.45) {
        let (s, d) = build_spec(r, Tier::Quick, 0.4, 0.05);
        c.scenario = "write errors while building".into();
        c.plan = Plan::Build {
            readers: 0,
            rivals: 0,
            after: if r.chance(0.3) { Some(*r.pick(&[0, 500])) } else { None },
            preload: r.chance(0.1),
        };
        c.faults = if r.chance(0.1) {
            vec![Fault { class: Class::Compact, nth: 0, kind: FaultKind::SilentFlushFailure }]
        } else {
            write_faults(r, &s)
        };
        if let Plan::Build { preload: true, .. } = c.plan {
            // no create any more
            c.faults.retain(|f| f.class != Class::Create);
        }
        let bins = bins_of(&s);
        c.clients = clients(r, 1, 5, |r| {
            if r.chance(0.4) {
                return get_op(r, 0, &d);
            }
            let mut m = match_op(r, 0, &s, &d);
            if let QOp::Match { key, .. } = &mut m {
                // whole bins: what a lookup finds when their records are missing
                if bins.len() > 1 && r.chance(0.6) {
                    let i = r.usize(bins.len() - 1);
                    let j = if r.chance(0.6) { i + 1 } else { i + 1 + r.usize(bins.len() - i - 1) };
                    key.phrase = MPhrase::Range(bins[i], bins[j]);
                }
            }
            m
        });
        c.stores = vec![s];
        return;
    }
    c.scenario = "read errors".into();
    let w = world(r, 3, 3, false);
    let nc = 1 + r.below(2);
    let pick = r.below(7);
    c.clients = clients(r, nc, 3, |r| {
        let k = r.usize(w.stores.len());
        match if r.chance(0.3) { r.below(7) } else { pick } {
            0 => get_op(r, k, &w.data[k]),
            1 => {
                let mut m = match_op(r, k, &w.stores[k], &w.data[k]);
                if let QOp::Match { max, take, .. } = &mut m {
                    *max = 80;
                    *take = None;
                }
                m
            }
            2 => keys_op(r, k),
            3 => coalesce_op(r, &w, 1),
            4 => {
                let n = 2 + r.usize(2);
                coalesce_op(r, &w, n)
            }
            5 => {
                let n = 1 + r.below(4);
                stack_op(r, &w, n)
            }
            _ if r.chance(0.2) => QOp::Missing { store: k },
            _ => QOp::Reopen { store: k },
        }
    });
    let class = match pick {
        0 => Class::Get,
        6 => *r.pick(&[Class::Open, Class::Get]),
        _ => *r.pick(&[Class::Seek, Class::Next, Class::Next]),
    };
    let nth = r.below(match class {
        Class::Next => 12,
        Class::Seek => 5,
        _ => 3,
    });
    let message = io_error(r);
    // at most one error per operation, so that what it may hide is one scan's tail
    c.faults = vec![Fault { class, nth, kind: FaultKind::Error { message, sticky: false } }];
    c.stores = w.stores;
}

fn gen_c04(r: &mut Rng, c: &mut Case, tier: Tier, index: u64) {
    let heavy = r.chance(0.12);
    let (mut s, mut d) = build_spec(r, tier, 0.4, 0.0);
    if index % 1000 == 9 {
        while s.zoom < 10 {
            let again = build_spec(r, tier, 0.4, 0.0);
            s = again.0;
            d = again.1;
        }
        let (phrase, lang) = d.key(r);
        let mut fill = wide_fill(r, 4 + (index / 1000) % 4);
        if let Fill::Spread { zoom, .. } = &mut fill {
            *zoom = (*zoom).min(s.zoom as u8);
        }
        with_fill(&mut s, phrase, lang, fill);
        c.scenario = "match lookups over a very large record".into();
        c.clients = clients(r, 2, 3, |r| {
            let mut op = match_op(r, 0, &s, &d);
            if let QOp::Match { key, .. } = &mut op {
                if r.chance(0.7) {
                    key.phrase = MPhrase::Exact(phrase);
                }
            }
            op
        });
        c.stores = vec![s];
        return;
    }
    c.scenario = "concurrent match lookups".into();
    if heavy {
        c.scenario = "match lookups over large records".into();
        let (phrase, lang) = d.key(r);
        let z = s.zoom.min(12).max(6);
        let fill = if r.chance(0.5) {
            offset_fill(r, false)
        } else {
            Fill::Spread {
                relev: *r.pick(&RELEVS),
                score: r.below(8) as u8,
                zoom: z as u8,
                coords: *r.pick(&[60, 300, 2000]),
                ids: *r.pick(&[1, 2, 5]),
                id_base: 0,
                shared: r.chance(0.3),
                seed: r.next_u64(),
            }
        };
        with_fill(&mut s, phrase, lang, fill);
    }
    let n = 1 + r.below(4);
    c.clients = clients(r, n, if heavy { 2 } else { 5 }, |r| {
        if r.chance(0.85) {
            match_op(r, 0, &s, &d)
        } else {
            QOp::Braid {
                ops: (0..2 + r.below(3)).map(|_| match_op(r, 0, &s, &d)).collect(),
                seed: r.next_u64(),
            }
        }
    });
    c.faults = stalls(r);
    c.stores = vec![s];
}

fn gen_c05(r: &mut Rng, c: &mut Case) {
    let w = crowd(r);
    c.scenario = "single coalesces".into();
    let n = 1 + r.below(4);
    c.clients = clients(r, n, 4, |r| {
        if r.chance(0.02) {
            QOp::Coalesce { stack: vec![], opts: MOpts { zoom: 6, ..MOpts::default() } }
        } else {
            single_op(r, &w)
        }
    });
    c.faults = stalls(r);
    c.stores = w.stores;
}

fn gen_c06(r: &mut Rng, c: &mut Case) {
    let keys = 1 + r.usize(3);
    let crowded = r.chance(0.15);
    let mut w = world(r, 4, keys, crowded);
    while w.idx.len() < 2 {
        w.idx.push(0);
    }
    c.scenario = "multi coalesces".into();
    let n = 1 + r.below(3);
    c.clients = clients(r, n, if crowded { 2 } else { 4 }, |r| {
        let k = 2 + r.usize(3);
        let mut op = coalesce_op(r, &w, k);
        if let QOp::Coalesce { stack, .. } = &mut op {
            for s in stack.iter_mut() {
                s.keys[0].nearby = false;
                if r.chance(0.3) {
                    s.keys[0].key.phrase = MPhrase::Range(0, u32::MAX);
                }
            }
        }
        op
    });
    c.faults = stalls(r);
    c.stores = w.stores;
}

fn gen_c07(r: &mut Rng, c: &mut Case, tier: Tier, index: u64) {
    let style = r.below(20);
    if style < 2 {
        c.scenario = "more results than are kept".into();
        let (w, op) = overflow_case(r);
        c.clients = vec![vec![op]];
        c.stores = w.stores;
    } else if style < 4 {
        c.scenario = "many scans".into();
        let (w, op) = quota_case(r);
        c.clients = vec![vec![op]];
        c.stores = w.stores;
    } else if style == 4 && (tier == Tier::Thorough || index % 2 == 0) && r.chance(0.1) {
        c.scenario = "more grids than are fetched".into();
        huge_case(r, c);
    } else if style < 8 {
        c.scenario = "deep stackings".into();
        let w = deep_world(r);
        let n = 1 + r.below(2);
        c.clients = clients(r, n, 2, |r| deep_stack_op(r, &w));
        c.stores = w.stores;
    } else if style < 11 {
        c.scenario = "wide stackings".into();
        let keys = 1 + r.usize(3);
        let mut w = world(r, 4, keys, false);
        w.tokens = 2 + r.below(4) as u32;
        let n = 1 + r.below(2);
        c.clients = clients(r, n, 2, |r| wide_stack_op(r, &w));
        c.stores = w.stores;
    } else {
        c.scenario = "concurrent stackings".into();
        let keys = 1 + r.usize(4);
        let crowded = r.chance(0.15);
        let w = world(r, 4, keys, crowded);
        let n = 1 + r.below(3);
        c.clients = clients(r, n, if crowded { 1 } else { 3 }, |r| {
            let k = 1 + r.below(7);
            stack_op(r, &w, k)
        });
        c.stores = w.stores;
    }
    c.faults = stalls(r);
}

/// One key with more than 100 000 grids.
fn huge_case(r: &mut Rng, c: &mut Case) {
    let fill = |r: &mut Rng| Fill::Spread {
        relev: 1.0,
        score: r.below(8) as u8,
        zoom: 10,
        coords: 1200,
        ids: 90,
        id_base: 0,
        shared: false,
        seed: r.next_u64(),
    };
    let s0 = spec(
        "s0",
        10,
        1,
        vec![
            BOp::Fill { phrase: 1, lang: Lang(1), fill: fill(r) },
            BOp::Insert {
                phrase: 2,
                lang: Lang(1),
                entries: (0..6).map(|i| E(0.6, i, 512 + i as u16, 512, 0xf0_0000 + i as u32, 3)).collect(),
            },
        ],
    );
    let s1 = spec(
        "s1",
        10,
        2,
        vec![BOp::Insert {
            phrase: 1,
            lang: Lang(1),
            entries: (0..6).map(|i| E(1.0, i, 512 + i as u16, 512, i as u32, 3)).collect(),
        }],
    );
    let sub = |store: usize, id: u32, phrase: MPhrase| Sub {
        store,
        idx: store as u16,
        nonoverlap: vec![],
        weight: 0.5,
        mask: 1 << store,
        keys: vec![SKey { key: MKey { phrase, lang: Lang(1) }, nearby: false, id, len: 4 }],
    };
    let subs = vec![sub(0, 1, MPhrase::Range(1, 3)), sub(1, 2, MPhrase::Exact(1))];
    let o = MOpts { bbox: None, proximity: if r.chance(0.5) { Some([512, 512]) } else { None }, zoom: 10 };
    c.clients = vec![vec![if r.chance(0.5) {
        QOp::Stack { subs, opts: o }
    } else {
        QOp::Coalesce { stack: subs, opts: o }
    }]];
    c.stores = vec![s0, s1];
}

fn gen_c08(r: &mut Rng, c: &mut Case) {
    if r.chance(0.5) {
        let (s, _) = history_spec(r, "s0");
        c.scenario = "the same contents built in different ways, processes and hash seeds".into();
        c.plan = Plan::Parallel { same: true };
        let mut v = vec![s];
        for i in 0..1 + r.below(3) {
            let e = if r.chance(0.4) {
                StoreSpec { name: format!("s{}", i + 1), ..v[0].clone() }
            } else {
                equivalent(r, &v[0], &format!("s{}", i + 1))
            };
            v.push(e);
        }
        c.stores = v;
    } else {
        c.scenario = "different stores built at the same time".into();
        c.plan = Plan::Parallel { same: false };
        let n = 1 + r.below(3);
        c.stores = (0..n).map(|i| history_spec(r, &format!("s{}", i)).0).collect();
    }
    let mut k = knobs(r);
    k.pool = 1;
    c.alt = vec![k];
}

fn gen_c09(r: &mut Rng, c: &mut Case, tier: Tier, index: u64) {
    if index % 4000 == 9 {
        let (mut s, d) = build_spec(r, tier, 0.2, 0.0);
        let (phrase, lang) = d.key(r);
        let fill = wide_fill(r, 3 + index / 4000 % 5);
        with_fill(&mut s, phrase, lang, fill);
        c.scenario = "enumerations of a very large record".into();
        c.clients = vec![vec![QOp::Iter { store: 0, take: None }, QOp::Get { store: 0, phrase, lang }]];
        c.stores = vec![s];
        return;
    }
    let n = 1 + r.usize(3);
    let mut data = vec![];
    for i in 0..n {
        let (mut s, d) = build_spec(r, tier, 0.4, 0.05);
        s.name = format!("s{}", i);
        if r.chance(0.12) {
            many_keys(r, &mut s, &d);
        }
        c.stores.push(s);
        data.push(d);
    }
    c.scenario = "enumerations".into();
    let k = 1 + r.below(3);
    c.clients = clients(r, k, 4, |r| {
        let s = r.usize(n);
        match r.below(8) {
            0 => QOp::Reopen { store: s },
            1 | 2 => QOp::Braid {
                ops: (0..2 + r.below(3))
                    .map(|_| {
                        let s = r.usize(n);
                        match r.below(3) {
                            0 => get_op(r, s, &data[s]),
                            _ => keys_op(r, s),
                        }
                    })
                    .collect(),
                seed: r.next_u64(),
            },
            _ => keys_op(r, s),
        }
    });
    c.faults = stalls(r);
}

fn gen_c10(r: &mut Rng, c: &mut Case, tier: Tier) {
    if r.chance(0.07) {
        return renew_case(r, c, 0.9);
    }
    let (mut s, d) = build_spec(r, tier, 1.0, 0.1);
    // the same grids under several phrases of a bin
    if r.chance(0.5) {
        let es = d.entries(r);
        let lang = Lang(*r.pick(&d.langs));
        for p in &d.phrases {
            if r.chance(0.5) {
                s.ops.insert(0, BOp::Append { phrase: *p, lang, entries: es.clone() });
            }
        }
        // appended before the inserts: replaced by them where both apply; add some at the end too
        if r.chance(0.7) {
            let at = s.ops.len() - 1;
            let p = *r.pick(&d.phrases);
            s.ops.insert(at, BOp::Append { phrase: p, lang, entries: es });
        }
    }
    let bins = bins_of(&s);
    let mk = |r: &mut Rng| -> QOp {
        let mut m = match_op(r, 0, &s, &d);
        if let QOp::Match { key, .. } = &mut m {
            if bins.len() > 1 && r.chance(0.75) {
                let i = r.usize(bins.len() - 1);
                let j = if r.chance(0.6) { i + 1 } else { i + 1 + r.usize(bins.len() - i - 1) };
                key.phrase = MPhrase::Range(bins[i], bins[j]);
            }
        }
        m
    };
    if r.chance(0.3) {
        c.scenario = "prefix bins after a crash".into();
        c.plan = Plan::Build { readers: 0, rivals: 0, after: Some(0), preload: false };
        if r.chance(0.5) {
            c.faults = crash_faults(r, &s);
        }
        c.clients = clients(r, 1, 5, mk);
    } else {
        c.scenario = "lookups over prefix bins".into();
        let n = 1 + r.below(3);
        c.clients = clients(r, n, 5, |r| if r.chance(0.9) { mk(r) } else { QOp::Reopen { store: 0 } });
        c.faults = stalls(r);
    }
    c.stores = vec![s];
}

fn gen_c11(r: &mut Rng, c: &mut Case, tier: Tier) {
    match r.below(10) {
        0..=3 => {
            c.scenario = "many scans".into();
            let (w, op) = quota_case(r);
            c.clients = vec![vec![op]];
            c.stores = w.stores;
        }
        4..=6 => {
            c.scenario = "more stacks than the tree may hold".into();
            let (w, subs) = forest_case(r, tier == Tier::Thorough);
            c.clients = vec![vec![QOp::Tree { subs: subs.clone() }]];
            if r.chance(0.3) {
                let mut o = opts(r, &w.data[0].region);
                o.bbox = None;
                c.clients.push(vec![QOp::Stack { subs, opts: o }]);
            }
            c.stores = w.stores;
        }
        _ => {
            c.scenario = "work of ordinary queries".into();
            let w = world(r, 3, 4, false);
            let n = 1 + r.below(3);
            c.clients = clients(r, n, 3, |r| {
                let k = r.usize(w.stores.len());
                match r.below(6) {
                    0 => match_op(r, k, &w.stores[k], &w.data[k]),
                    1 => keys_op(r, k),
                    2 => coalesce_op(r, &w, 3),
                    3 => get_op(r, k, &w.data[k]),
                    _ => {
                        let n = 1 + r.below(6);
                        stack_op(r, &w, n)
                    }
                }
            });
            c.stores = w.stores;
        }
    }
    c.faults = stalls(r);
}

fn mixed_op(r: &mut Rng, w: &World) -> QOp {
    let k = r.usize(w.stores.len());
    match r.below(9) {
        0 => get_op(r, k, &w.data[k]),
        1 | 2 => match_op(r, k, &w.stores[k], &w.data[k]),
        3 => keys_op(r, k),
        4 => coalesce_op(r, w, 1),
        5 => coalesce_op(r, w, 3),
        6 if r.chance(0.15) => QOp::Missing { store: k },
        6 => QOp::Reopen { store: k },
        _ if r.chance(0.15) => wide_stack_op(r, w),
        _ => {
            let n = 1 + r.below(5);
            stack_op(r, w, n)
        }
    }
}

/// One directory with changing content.
fn renew_case(r: &mut Rng, c: &mut Case, bins: f64) {
    c.scenario = "the directory is replaced by another build".into();
    let keep = r.chance(0.4);
    c.plan = Plan::Renew { swap: r.chance(0.5), keep };
    let mut w = world(r, 1, 4, false);
    let first = w.stores[0].clone();
    let n = 2 + r.usize(2);
    c.clients = vec![];
    for i in 0..n {
        let mut s = first.clone();
        if i > 0 {
            // the same phrases with other data, some of it as before
            let mut ops: Vec<BOp> = first.ops.iter().filter(|_| r.chance(0.4)).cloned().collect();
            let extra = r.below(5);
            for _ in 0..extra {
                ops.push(w.data[0].op(r));
            }
            if r.chance(bins) {
                ops.retain(|o| !matches!(o, BOp::Bins(_)));
                if r.chance(0.7) {
                    ops.push(BOp::Bins(boundaries(r, &w.data[0].phrases)));
                }
            }
            if r.chance(0.2) {
                s.radius = radius(r);
                s.max_score = *r.pick(&[0.0, 1.0, 7.0]);
                s.type_id = r.below(3) as u16;
            }
            s.ops = ops;
        }
        s.name = "s0".into();
        w.stores[0] = s.clone();
        c.stores.push(s);
        let m = 1 + r.below(2);
        for mut prog in clients(r, m, 5, |r| mixed_op(r, &w)) {
            for op in prog.iter_mut() {
                let old = keep && i > 0 && r.chance(0.25) && !matches!(op, QOp::Reopen { .. });
                op.set_store(if old { i - 1 } else { i });
            }
            // the newest store is asked in any case: the program belongs to it
            prog.push(QOp::Reopen { store: i });
            c.clients.push(prog);
        }
    }
    for s in c.stores.iter_mut() {
        s.bboxes = vec![[0, 0, Region::max(s.zoom) as u16, Region::max(s.zoom) as u16]];
    }
    c.faults = stalls(r);
}

/// A few small stores for programs of many operations.
fn small_world(r: &mut Rng) -> World {
    loop {
        let w = world(r, 3, 3, false);
        let n: usize = w
            .stores
            .iter()
            .flat_map(|s| s.ops.iter())
            .map(|o| match o {
                BOp::Insert { entries, .. } | BOp::Append { entries, .. } => entries.len(),
                BOp::Compact { coords, .. } => coords.len(),
                _ => 0,
            })
            .sum();
        if n < 80 {
            return w;
        }
    }
}
/// A long program that keeps asking much the same.
fn marathon(r: &mut Rng, mut f: impl FnMut(&mut Rng) -> QOp) -> Vec<QOp> {
    let pool: Vec<QOp> = (0..1 + r.below(8)).map(|_| f(r)).collect();
    let n = *r.pick(&[70u64, 140, 300, 600]);
    let fresh = *r.pick(&[0.0, 0.02, 0.3]);
    (0..n).map(|_| if r.chance(fresh) { f(r) } else { r.pick(&pool).clone() }).collect()
}
fn abandoned(r: &mut Rng, op: QOp, p: f64) -> QOp {
    match op {
        QOp::Get { .. } | QOp::Match { .. } | QOp::Keys { .. } | QOp::Iter { .. } if r.chance(p) => {
            QOp::Abandon { op: Box::new(op), after: r.below(4) as usize }
        }
        op => op,
    }
}

fn gen_c12(r: &mut Rng, c: &mut Case) {
    if r.chance(0.015) {
        let w = small_world(r);
        c.scenario = "hundreds of reads, many abandoned or failing".into();
        c.plan = Plan::Query { again: r.chance(0.5) };
        let p = *r.pick(&[0.1, 0.5, 0.9]);
        let style = r.below(4);
        c.clients = (0..1 + r.below(2))
            .map(|_| {
                marathon(r, |r| {
                    let k = r.usize(w.stores.len());
                    let op = match style {
                        0 => match_op(r, k, &w.stores[k], &w.data[k]),
                        1 => QOp::Reopen { store: k },
                        2 => stack_op(r, &w, 2),
                        _ => mixed_op(r, &w),
                    };
                    abandoned(r, op, p)
                })
            })
            .collect();
        for _ in 0..r.below(3) {
            let class = *r.pick(&[Class::Get, Class::Seek, Class::Next, Class::Open]);
            let from = r.below(20);
            for i in 0..*r.pick(&[1u64, 10, 70]) {
                let message = io_error(r);
                c.faults.push(Fault { class, nth: from + i * 2, kind: FaultKind::Error { message, sticky: false } });
            }
        }
        c.stores = w.stores;
        return;
    }
    if r.chance(0.12) {
        return renew_case(r, c, 0.5);
    }
    let w = world(r, 3, 4, false);
    c.scenario = "faults, then calm".into();
    c.plan = Plan::Query { again: true };
    let n = 1 + r.below(3);
    c.clients = clients(r, n, 4, |r| {
        let op = mixed_op(r, &w);
        abandoned(r, op, 0.15)
    });
    c.faults = stalls(r);
    for _ in 0..1 + r.below(6) {
        let class = *r.pick(&[Class::Get, Class::Seek, Class::Next, Class::Next, Class::Open]);
        let message = io_error(r);
        c.faults.push(Fault {
            class,
            nth: r.below(match class {
                Class::Next => 60,
                _ => 8,
            }),
            kind: FaultKind::Error { message, sticky: r.chance(0.1) },
        });
    }
    c.stores = w.stores;
}

fn gen_c13(r: &mut Rng, c: &mut Case, tier: Tier) {
    if r.chance(0.15) {
        c.scenario = "builds under different schedules and hash seeds".into();
        c.plan = Plan::Parallel { same: false };
        let n = 1 + r.below(3);
        c.stores = (0..n)
            .map(|i| {
                let mut s = build_spec(r, tier, 0.5, 0.15).0;
                s.name = format!("s{}", i);
                s
            })
            .collect();
    } else {
        let style = r.below(12);
        if style == 0 {
            let (w, op) = quota_case(r);
            c.clients = vec![vec![op]];
            c.stores = w.stores;
        } else if style == 1 {
            let (w, op) = overflow_case(r);
            c.clients = vec![vec![op]];
            c.stores = w.stores;
        } else if style == 2 {
            let (w, subs) = forest_case(r, false);
            let mut o = opts(r, &w.data[0].region);
            o.bbox = None;
            c.clients = vec![vec![QOp::Stack { subs, opts: o }]];
            c.stores = w.stores;
        } else if style == 3 && r.chance(0.1) {
            let w = small_world(r);
            c.clients = (0..1 + r.below(3)).map(|_| marathon(r, |r| mixed_op(r, &w))).collect();
            c.stores = w.stores;
        } else {
            let crowded = r.chance(0.1);
            let w = world(r, 4, 4, crowded);
            let n = 1 + r.below(4);
            c.clients = clients(r, n, 3, |r| mixed_op(r, &w));
            c.stores = w.stores;
        }
        c.scenario = "the same queries under different schedules".into();
        c.faults = stalls(r);
    }
    let mut seq = knobs(r);
    seq.policy = Policy::Sequential;
    seq.pool = 1;
    let mut wide = knobs(r);
    wide.pool = 8;
    wide.policy = Policy::Random { switch_permille: 500 };
    c.alt = vec![seq, wide];
    for _ in 0..r.below(3) {
        let k = knobs(r);
        c.alt.push(k);
    }
}

// ---- the JavaScript binding ----------------------------------------------------------------------

fn js_plan(r: &mut Rng) -> JsPlan {
    JsPlan {
        seed: r.next_u64(),
        gc: r.chance(0.4),
        together: r.chance(0.4),
        hurt_builds: false,
        misuse: if r.chance(0.5) {
            vec![]
        } else {
            (0..1 + r.below(4)).map(|_| (r.below(40) as u32, r.below(14) as u32)).collect()
        },
    }
}
/// A subquery as JavaScript writes it: with one match key.
fn js_subs(mut subs: Vec<Sub>) -> Vec<Sub> {
    for s in subs.iter_mut() {
        s.keys.truncate(1);
        s.keys[0].len = s.keys[0].len.min(16);
    }
    agree(&mut subs);
    subs
}
fn js_op(r: &mut Rng, w: &World) -> QOp {
    let k = r.usize(w.stores.len());
    if r.chance(0.02) {
        let opts = world_opts(r, w);
        return match r.below(3) {
            0 => QOp::Coalesce { stack: vec![], opts },
            1 => QOp::Stack { subs: vec![], opts },
            _ => QOp::Tree { subs: vec![] },
        };
    }
    match r.below(16) {
        0..=2 => get_op(r, k, &w.data[k]),
        3 | 4 => QOp::Keys { store: k, take: if r.chance(0.3) { Some(r.below(6) as usize) } else { None } },
        5..=8 => {
            let n = 1 + r.usize(3);
            match coalesce_op(r, w, n) {
                QOp::Coalesce { stack, opts } => QOp::Coalesce { stack: js_subs(stack), opts },
                o => o,
            }
        }
        9..=12 => {
            let n = 1 + r.below(5);
            match stack_op(r, w, n) {
                QOp::Stack { subs, opts } if r.chance(0.85) => QOp::Stack { subs: js_subs(subs), opts },
                QOp::Stack { subs, .. } => QOp::Tree { subs: js_subs(subs) },
                o => o,
            }
        }
        13 => QOp::Reopen { store: k },
        14 if r.chance(0.2) => QOp::Missing { store: k },
        _ => QOp::Bad { store: k, how: r.below(128) as u32 },
    }
}
/// What calls do, however they are made.
fn js_faults(r: &mut Rng) -> Vec<Fault> {
    let mut v = stalls(r);
    if r.chance(0.35) {
        let class = *r.pick(&[Class::Get, Class::Get, Class::Open]);
        let message = io_error(r);
        v.push(Fault { class, nth: r.below(8), kind: FaultKind::Error { message, sticky: r.chance(0.3) } });
    }
    v
}

fn gen_c15(r: &mut Rng, c: &mut Case, tier: Tier) {
    let mut plan = js_plan(r);
    let (nc, per) = if tier == Tier::Thorough { (6, 8) } else { (4, 5) };
    if r.chance(0.2) {
        // what builders can be told
        let (s, d) = if r.chance(0.5) { history_spec(r, "s0") } else { build_spec(r, Tier::Quick, 0.4, 0.0) };
        let mut w = World { stores: vec![s], data: vec![d], idx: vec![0, 0], tokens: 1 + r.below(3) as u32 };
        if r.chance(0.2) {
            // opened without any options
            let s = &mut w.stores[0];
            if s.zoom == 6 {
                s.type_id = 0;
                s.radius = 0.0;
                s.bboxes = vec![[0, 0, 63, 63]];
                s.max_score = 0.0;
            }
        }
        c.scenario = "a builder's history through the binding".into();
        c.clients = clients(r, 2, 4, |r| match r.below(4) {
            0 => QOp::Keys { store: 0, take: None },
            1 => js_op(r, &w),
            _ => get_op(r, 0, &w.data[0]),
        });
        c.stores = w.stores;
    } else {
        let mut w = world(r, 3, 4, false);
        if r.chance(0.2) {
            // the same files, opened with other options
            let k = r.usize(w.stores.len());
            let mut s = w.stores[k].clone();
            s.ops = vec![];
            s.radius = radius(r);
            s.max_score = *r.pick(&[0.0, 1.0, 7.0]);
            w.stores.push(s);
            let d = w.data[k].clone();
            w.data.push(d);
            w.idx.push(w.stores.len() - 1);
        }
        c.scenario = "calls in flight through the binding".into();
        let n = 1 + r.below(nc);
        c.clients = clients(r, n, per, |r| js_op(r, &w));
        c.stores = w.stores;
    }
    if r.chance(0.25) {
        plan.hurt_builds = true;
        let k = r.usize(c.stores.len());
        let s = c.stores[k].clone();
        c.scenario = format!("{}, write errors while building", c.scenario);
        c.faults = write_faults(r, &s);
    } else {
        c.faults = js_faults(r);
        if c.faults.iter().all(|f| matches!(f.kind, FaultKind::Stall { .. })) && r.chance(0.2) {
            c.alt = vec![knobs(r)];
        }
    }
    c.plan = Plan::Binding(plan);
}

const WORDS: [&str; 24] = [
    "main", "maine", "mains", "man", "street", "streets", "st", "saint", "sain", "a", "ab", "abc", "b", "100", "10",
    "1", "rue", "été", "ete", "東京", "東", "main street", "n", "north",
];
fn words(r: &mut Rng, pool: &[&str], max: u64) -> Vec<String> {
    (0..1 + r.below(max)).map(|_| r.pick(pool).to_string()).collect()
}
fn phrase_spec(r: &mut Rng, name: &str) -> (PhraseSpec, Vec<&'static str>) {
    let mut pool = WORDS.to_vec();
    r.shuffle(&mut pool);
    pool.truncate(2 + r.usize(10));
    let mut phrases: Vec<Vec<String>> = (0..r.below(14)).map(|_| words(r, &pool, 3)).collect();
    if r.chance(0.2) {
        phrases.push(vec![]);
    }
    if r.chance(0.2) {
        phrases.push(vec!["main".into(), "".into()]);
    }
    if r.chance(0.4) && !phrases.is_empty() {
        let p = r.pick(&phrases).clone();
        phrases.push(p);
    }
    r.shuffle(&mut phrases);
    let mut replace: Vec<(String, String)> = vec![];
    if r.chance(0.4) {
        for _ in 0..1 + r.below(3) {
            replace.push((r.pick(&WORDS).to_string(), r.pick(&pool).to_string()));
        }
    }
    (PhraseSpec { name: name.into(), phrases, replace }, pool)
}
fn typo(r: &mut Rng, w: &str) -> String {
    let mut c: Vec<char> = w.chars().collect();
    match r.below(5) {
        0 if !c.is_empty() => {
            let k = r.usize(c.len());
            c.remove(k);
        }
        1 => {
            let k = r.usize(c.len() + 1);
            c.insert(k, 's');
        }
        2 if !c.is_empty() => {
            let k = r.usize(c.len());
            c[k] = 'x';
        }
        3 => c.truncate(1 + r.usize(c.len().max(1))),
        _ => {}
    }
    c.into_iter().collect()
}
fn phrase_op(r: &mut Rng, p: &PhraseSpec, pool: &[&str]) -> POp {
    let q = |r: &mut Rng| -> Vec<String> {
        let mut q = if p.phrases.is_empty() || r.chance(0.3) { words(r, pool, 3) } else { r.pick(&p.phrases).clone() };
        if r.chance(0.4) {
            for w in q.iter_mut() {
                if r.chance(0.5) {
                    *w = typo(r, w);
                }
            }
        }
        if q.len() > 1 && r.chance(0.3) {
            q.pop();
        }
        if r.chance(0.05) {
            q.clear();
        }
        q
    };
    let ending = |r: &mut Rng| if r.chance(0.05) { 3 } else { r.below(3) as u8 };
    let (word, total) = (r.below(3) as u8, r.below(4) as u8);
    match r.below(14) {
        0..=2 => POp::Contains { q: q(r), ending: ending(r) },
        3..=5 => POp::Match { q: q(r), word, total, ending: ending(r) },
        6 | 7 => {
            let mut v = q(r);
            v.extend(q(r));
            POp::Windows { q: v, word, total, ending: ending(r) }
        }
        8 | 9 => POp::Multi { qs: (0..r.below(4)).map(|_| (q(r), ending(r))).collect(), word, total },
        10 => POp::ById(*r.clone().pick(&[r.below(14) as u32, r.below(14) as u32, u32::MAX])),
        11 => POp::Bins(if r.chance(0.1) { 0 } else { 1 + r.below(5) as u32 }),
        12 if r.chance(0.2) => POp::Missing,
        _ => POp::Bad(r.below(70) as u32),
    }
}

fn gen_c16(r: &mut Rng, c: &mut Case) {
    let mut plan = js_plan(r);
    plan.misuse.truncate(1);
    let n = 1 + r.usize(2);
    let mut pools = vec![];
    for i in 0..n {
        let (p, pool) = phrase_spec(r, &format!("p{}", i));
        c.phrases.push(p);
        pools.push(pool);
    }
    let index = crate::judge::Index::new(&c.phrases[0]);
    let count = index.map.len() as u32;
    let linked = count > 0 && r.chance(0.4);
    let mut world_of = None;
    if linked {
        // grids are stored under the identifiers of the unfinished index and renumbered
        let mut w = world(r, 1, count as usize, false);
        let old = w.data[0].phrases.clone();
        let s = &mut w.stores[0];
        s.ops.retain(|o| !matches!(o, BOp::Bins(_)));
        for o in s.ops.iter_mut() {
            if let BOp::Insert { phrase, .. } | BOp::Append { phrase, .. } | BOp::Compact { phrase, .. } = o {
                *phrase = old.iter().position(|p| p == phrase).unwrap_or(0) as u32 % count;
            }
        }
        let at = if r.chance(0.8) { s.ops.len() } else { r.usize(s.ops.len() + 1) };
        s.ops.insert(at, BOp::RenumberFrom(0));
        w.data[0].phrases = (0..count).collect();
        let max = 1 + r.below(4) as u32;
        if r.chance(0.7) {
            s.ops.push(BOp::Bins(index.bins(max).unwrap()));
        }
        // boxes may lie anywhere the data does
        world_of = Some((w, max));
    }
    c.scenario = if linked { "a phrase index and the store built along with it" } else { "questions to phrase indexes" }.into();
    let phrases = c.phrases.clone();
    let nc = 1 + r.below(3);
    c.clients = clients(r, nc, 8, |r| match &world_of {
        Some((w, _)) if r.chance(0.5) => js_op(r, w),
        _ => {
            let set = r.usize(phrases.len());
            QOp::Phrase { set, op: phrase_op(r, &phrases[set], &pools[set]) }
        }
    });
    if let Some((mut w, max)) = world_of {
        for o in w.stores[0].ops.iter_mut() {
            if matches!(o, BOp::Bins(_)) {
                *o = BOp::BinsFrom(0, max);
            }
        }
        c.stores = w.stores;
    } else if r.chance(0.4) {
        plan.hurt_builds = true;
        let message = io_error(r);
        let class = *r.pick(&[Class::Put, Class::Put, Class::Put, Class::Open, Class::Create]);
        c.faults = vec![Fault { class, nth: r.below(16), kind: FaultKind::Error { message, sticky: r.chance(0.3) } }];
    }
    if !plan.hurt_builds {
        c.faults = js_faults(r);
    }
    c.plan = Plan::Binding(plan);
}
