//! The reference model: what a store holds after a build history, and what every query over it
//! must answer. Sequential, in memory, no storage format.
use crate::case::*;
use carmen_core::gridstore::{CoalesceContext, CoalesceEntry, GridEntry};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

// ---- stores --------------------------------------------------------------------------------------

/// Sorted descending, no duplicates: relev_score << 64 | morton << 32 | id << 8 | hash.
pub type Rec = Vec<u128>;

pub fn relev_int(r: f64) -> u8 {
    if r == 0.4 {
        0
    } else if r == 0.6 {
        1
    } else if r == 0.8 {
        2
    } else {
        3
    }
}
pub fn relev_float(i: u8) -> f64 {
    match i {
        0 => 0.4,
        1 => 0.6,
        2 => 0.8,
        _ => 1.0,
    }
}
pub fn pack(e: &E) -> u128 {
    let rs = (relev_int(e.0) << 4 | (e.1 & 15)) as u128;
    let idh = (e.4 << 8 | e.5 as u32) as u128;
    rs << 64 | (morton(e.2, e.3) as u128) << 32 | idh
}
pub fn unpack(v: u128) -> GridEntry {
    let rs = (v >> 64) as u8;
    let (x, y) = unmorton((v >> 32) as u32);
    let idh = v as u32;
    GridEntry {
        relev: relev_float(rs >> 4),
        score: rs & 15,
        x,
        y,
        id: idh >> 8,
        source_phrase_hash: (idh & 255) as u8,
    }
}

/// Order of language sets in storage: all-languages first, then bytewise without leading zeros.
pub fn lang_bytes(l: u128) -> Vec<u8> {
    if l == u128::MAX {
        vec![]
    } else if l == 0 {
        vec![0]
    } else {
        let b = l.to_be_bytes();
        let k = b.iter().position(|x| *x != 0).unwrap();
        b[k..].to_vec()
    }
}

#[derive(Clone, Default, PartialEq, Debug)]
pub struct BuilderModel {
    pub data: BTreeMap<(u32, u128), Vec<u128>>,
    pub bins: Vec<u32>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum OpOutcome {
    Ok,
    OutOfBounds,
    Duplicate,
}

impl BuilderModel {
    pub fn apply(&mut self, op: &BOp) -> OpOutcome {
        match op {
            BOp::Insert { phrase, lang, entries } => {
                self.data.insert((*phrase, lang.0), entries.iter().map(pack).collect());
            }
            BOp::Append { phrase, lang, entries } => {
                self.data.entry((*phrase, lang.0)).or_default().extend(entries.iter().map(pack));
            }
            BOp::Compact { phrase, lang, relev, score, id, hash, coords } => {
                self.data
                    .entry((*phrase, lang.0))
                    .or_default()
                    .extend(coords.iter().map(|(x, y)| pack(&E(*relev, *score, *x, *y, *id, *hash))));
            }
            BOp::Fill { phrase, lang, fill } => {
                self.data
                    .entry((*phrase, lang.0))
                    .or_default()
                    .extend(fill.expand().iter().map(pack));
            }
            BOp::Renumber(map) => {
                let mut new: BTreeMap<(u32, u128), Vec<u128>> = BTreeMap::new();
                let mut taken = BTreeSet::new();
                for (k, _) in self.data.iter() {
                    match map.get(k.0 as usize) {
                        None => return OpOutcome::OutOfBounds,
                        Some(n) => {
                            if !taken.insert((*n, k.1)) {
                                return OpOutcome::Duplicate;
                            }
                        }
                    }
                }
                for (k, v) in std::mem::take(&mut self.data) {
                    new.insert((map[k.0 as usize], k.1), v);
                }
                self.data = new;
            }
            BOp::Bins(b) => self.bins = b.clone(),
            BOp::RenumberFrom(_) | BOp::BinsFrom(..) => {}
        }
        OpOutcome::Ok
    }
}

pub struct MStore {
    pub spec: StoreSpec,
    /// by (phrase, storage order of the language set)
    pub recs: BTreeMap<(u32, Vec<u8>), (u128, Rec)>,
    pub bins: BTreeSet<u32>,
    pub binrecs: BTreeMap<(u32, Vec<u8>), (u128, Rec)>,
}

fn finish_rec(mut v: Vec<u128>) -> Rec {
    v.sort_unstable_by(|a, b| b.cmp(a));
    v.dedup();
    v
}

impl MStore {
    pub fn build(spec: &StoreSpec) -> MStore {
        let mut b = BuilderModel::default();
        for op in &spec.ops {
            b.apply(op);
        }
        MStore::from_builder(spec, b)
    }
    pub fn from_builder(spec: &StoreSpec, b: BuilderModel) -> MStore {
        let mut binrecs: BTreeMap<(u32, Vec<u8>), (u128, Rec)> = BTreeMap::new();
        let mut recs = BTreeMap::new();
        for ((p, l), v) in b.data {
            let v = finish_rec(v);
            if let Some(bin) = b.bins.iter().rev().find(|x| **x <= p) {
                binrecs.entry((*bin, lang_bytes(l))).or_insert((l, vec![])).1.extend(v.iter().cloned());
            }
            recs.insert((p, lang_bytes(l)), (l, v));
        }
        for r in binrecs.values_mut() {
            r.1 = finish_rec(std::mem::take(&mut r.1));
        }
        MStore { spec: spec.clone(), recs, bins: b.bins.into_iter().collect(), binrecs }
    }
    pub fn get(&self, p: u32, l: u128) -> Option<&Rec> {
        self.recs.get(&(p, lang_bytes(l))).map(|x| &x.1)
    }
    /// The records a lookup visits, in storage order.
    pub fn visited(&self, ph: MPhrase) -> Vec<(u32, u128, &Rec)> {
        match ph {
            MPhrase::Exact(p) => Self::slice(&self.recs, p, Some(p)),
            MPhrase::Range(s, e) => {
                if e <= s {
                    return vec![];
                }
                if self.bins.contains(&s) && self.bins.contains(&e) {
                    Self::slice(&self.binrecs, s, Some(e - 1))
                } else {
                    Self::slice(&self.recs, s, Some(e - 1))
                }
            }
        }
    }
    fn slice(
        m: &BTreeMap<(u32, Vec<u8>), (u128, Rec)>,
        s: u32,
        last: Option<u32>,
    ) -> Vec<(u32, u128, &Rec)> {
        m.range((s, vec![])..)
            .take_while(|(k, _)| last.map_or(true, |l| k.0 <= l))
            .map(|(k, v)| (k.0, v.0, &v.1))
            .collect()
    }
    pub fn uses_bins(&self, ph: MPhrase) -> bool {
        matches!(ph, MPhrase::Range(s, e) if self.bins.contains(&s) && self.bins.contains(&e))
    }
}

// ---- geography -----------------------------------------------------------------------------------

pub fn adjust(o: &MOpts, z: u16) -> MOpts {
    if o.zoom == z {
        return o.clone();
    }
    let (px, bb): (Box<dyn Fn(u16) -> u16>, Box<dyn Fn([u16; 4]) -> [u16; 4]>) = if z < o.zoom {
        let d = (o.zoom - z) as u32;
        (
            Box::new(move |v| ((v as u64) >> d) as u16),
            Box::new(move |b| {
                [
                    ((b[0] as u64) >> d) as u16,
                    ((b[1] as u64) >> d) as u16,
                    ((b[2] as u64) >> d) as u16,
                    ((b[3] as u64) >> d) as u16,
                ]
            }),
        )
    } else {
        let s = 1u64 << (z - o.zoom);
        (
            // the upper left of the four tiles in the middle
            Box::new(move |v| (v as u64 * s + s / 2 - 1) as u16),
            // everything the tiles contain
            Box::new(move |b| {
                [
                    (b[0] as u64 * s) as u16,
                    (b[1] as u64 * s) as u16,
                    (b[2] as u64 * s + s - 1) as u16,
                    (b[3] as u64 * s + s - 1) as u16,
                ]
            }),
        )
    };
    MOpts { zoom: z, proximity: o.proximity.map(|p| [px(p[0]), px(p[1])]), bbox: o.bbox.map(bb) }
}

pub fn nearby(o: &MOpts) -> MOpts {
    let p = match o.proximity {
        Some(p) => p,
        None => return o.clone(),
    };
    // 25 miles on an equator of 24901 miles, in whole tiles
    let pad = (25.0 / (24901.0 / ((1u64 << o.zoom) as f64))).ceil() as i64;
    let clamp = |v: i64| v.max(0).min(65535) as u16;
    let mut b = [
        clamp(p[0] as i64 - pad),
        clamp(p[1] as i64 - pad),
        clamp(p[0] as i64 + pad),
        clamp(p[1] as i64 + pad),
    ];
    if let Some(q) = o.bbox {
        b = [b[0].max(q[0]), b[1].max(q[1]), b[2].min(q[2]), b[3].min(q[3])];
    }
    MOpts { bbox: Some(b), ..o.clone() }
}

fn tiles_per_mile(z: u16) -> f64 {
    // 32 tiles are 40 miles at z14; 1.5 per zoom level. Spelled as the documented constants.
    const T: [f64; 17] = [
        0.002740389912625401,
        0.004110584868938102,
        0.006165877303407152,
        0.009248815955110727,
        0.013873223932666092,
        0.020809835898999138,
        0.031214753848498707,
        0.046822130772748057,
        0.07023319615912209,
        0.10534979423868314,
        0.1580246913580247,
        0.23703703703703705,
        0.35555555555555557,
        0.5333333333333333,
        0.8,
        1.2000000000000002,
        1.8000000000000003,
    ];
    if z <= 16 {
        T[z as usize]
    } else {
        0.8 * 1.5_f64.powi((z - 14) as i32)
    }
}
pub fn prox_radius(z: u16, r: f64) -> f64 {
    r * tiles_per_mile(z)
}
fn scoredist(z: u16, d: f64, score: u8, radius: f64) -> f64 {
    const P: [f64; 8] = [
        1.,
        2.718281828459045,
        7.38905609893065,
        20.085536923187668,
        54.598150033144236,
        148.4131591025766,
        403.4287934927351,
        1096.6331584284585,
    ];
    let d = if d < 1.0 { 0.8 } else { d };
    let mut ratio = d / prox_radius(z.max(6), radius);
    if ratio > 1.0 {
        ratio = 1.0;
    }
    ((6. * P[score.min(7) as usize] / P[7]) + 1.) / ratio
}
fn tile_dist(px: u16, py: u16, x: u16, y: u16) -> f64 {
    let dx = px as f64 - x as f64;
    let dy = py as f64 - y as f64;
    ((dx * dx) + (dy * dy)).sqrt()
}

// ---- match lookup --------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub struct ME {
    pub g: GridEntry,
    pub lang: bool,
    pub distance: f64,
    pub scoredist: f64,
}
type MeKey = (f64, f64, bool, u16, u16, u32);
impl ME {
    pub fn key(&self) -> MeKey {
        (self.g.relev, self.scoredist, self.lang, self.g.x, self.g.y, self.g.id)
    }
}
pub fn cmp_me(a: &MeKey, b: &MeKey) -> std::cmp::Ordering {
    a.0.partial_cmp(&b.0)
        .unwrap()
        .then(a.1.partial_cmp(&b.1).unwrap())
        .then(a.2.cmp(&b.2))
        .then((a.3, a.4, a.5).cmp(&(b.3, b.4, b.5)))
}

#[derive(Default, Clone, Debug)]
pub struct MatchOut {
    pub entries: Vec<ME>,
    /// the order (or the choice among equals) is not determined by the documented sort
    pub ambiguous: bool,
    pub visited: usize,
    pub truncated: bool,
}

pub fn lang_matches(key: u128, q: u128) -> bool {
    key == u128::MAX || (key & q) != 0
}

/// One record's matching entries in its own order.
fn key_entries(rec: &Rec, o: &MOpts, lang: bool, radius: f64, amb: &mut bool) -> Vec<ME> {
    let mut out: Vec<ME> = vec![];
    let mut i = 0;
    while i < rec.len() {
        let relev_bits = (rec[i] >> 68) as u8;
        let relev = relev_float(relev_bits);
        // groups of equal relevance; within it one sequence per score
        let mut seqs: Vec<Vec<(f64, bool, f64, u128)>> = vec![];
        // (scoredist, within, distance, packed), by coordinate
        while i < rec.len() && relev_float((rec[i] >> 68) as u8) == relev {
            let rs = (rec[i] >> 64) as u8;
            let score = rs & 15;
            let mut coords: Vec<(u32, Vec<u128>)> = vec![];
            while i < rec.len() && (rec[i] >> 64) as u8 == rs {
                let m = (rec[i] >> 32) as u32;
                if coords.last().map_or(true, |c| c.0 != m) {
                    coords.push((m, vec![]));
                }
                coords.last_mut().unwrap().1.push(rec[i]);
                i += 1;
            }
            if let Some(b) = o.bbox {
                coords.retain(|(m, _)| {
                    let (x, y) = unmorton(*m);
                    x >= b[0] && x <= b[2] && y >= b[1] && y <= b[3]
                });
            }
            if let Some(p) = o.proximity {
                let pm = morton(p[0], p[1]) as i64;
                // nearest along the z-order curve first; of two equally near the lower one
                coords.sort_by_key(|(m, _)| ((*m as i64 - pm).abs(), *m));
            }
            let mut seq = vec![];
            for (m, ids) in coords {
                let (x, y) = unmorton(m);
                let (d, w, s) = match o.proximity {
                    Some(p) => {
                        let d = tile_dist(p[0], p[1], x, y);
                        (d, d <= prox_radius(o.zoom, radius), scoredist(o.zoom, d, score, radius))
                    }
                    None => (0.0, false, score as f64),
                };
                for id in ids {
                    seq.push((s, w, d, id));
                }
            }
            seqs.push(seq);
        }
        // merge the scores' sequences, always taking the head with the greatest scoredist
        let mut pos = vec![0usize; seqs.len()];
        loop {
            let mut best: Option<usize> = None;
            let mut tie = false;
            for k in 0..seqs.len() {
                if pos[k] >= seqs[k].len() {
                    continue;
                }
                match best {
                    None => best = Some(k),
                    Some(b) => {
                        let (sb, sk) = (seqs[b][pos[b]].0, seqs[k][pos[k]].0);
                        if sk > sb {
                            best = Some(k);
                            tie = false;
                        } else if sk == sb {
                            tie = true;
                        }
                    }
                }
            }
            let b = match best {
                None => break,
                Some(b) => b,
            };
            if tie {
                *amb = true;
            }
            // all ids of one coordinate come out together
            let coord = seqs[b][pos[b]].3 >> 32;
            while pos[b] < seqs[b].len() && seqs[b][pos[b]].3 >> 32 == coord {
                let (s, w, d, v) = seqs[b][pos[b]];
                let mut g = unpack(v);
                g.relev = relev * if lang || w { 1.0 } else { 0.96 };
                out.push(ME { g, lang, distance: d, scoredist: s });
                pos[b] += 1;
            }
        }
    }
    out
}

/// `keep`: only the first so many visited records are seen (a read error after them).
pub fn match_stream(
    st: &MStore,
    key: &MKey,
    o: &MOpts,
    max_values: usize,
    limit: usize,
    keep: Option<usize>,
) -> MatchOut {
    let mut out = MatchOut::default();
    let mut queue: Vec<(Vec<ME>, usize)> = vec![];
    let mut visited = st.visited(key.phrase);
    out.visited = visited.len();
    if let Some(k) = keep {
        visited.truncate(k);
    }
    for (_, l, rec) in visited {
        let lang = lang_matches(l, key.lang.0);
        let seq = key_entries(rec, o, lang, st.spec.radius, &mut out.ambiguous);
        if seq.is_empty() {
            continue;
        }
        if queue.len() >= max_values {
            out.truncated = true;
            let mut worst = 0;
            let mut ties = 0;
            for k in 0..queue.len() {
                match cmp_me(&queue[k].0[0].key(), &queue[worst].0[0].key()) {
                    std::cmp::Ordering::Less => {
                        worst = k;
                        ties = 0;
                    }
                    std::cmp::Ordering::Equal if k != worst => ties += 1,
                    _ => {}
                }
            }
            match cmp_me(&queue[worst].0[0].key(), &seq[0].key()) {
                std::cmp::Ordering::Greater => {}
                std::cmp::Ordering::Equal => out.ambiguous = true,
                std::cmp::Ordering::Less => {
                    if ties > 0 {
                        out.ambiguous = true;
                    }
                    queue[worst] = (seq, 0);
                }
            }
        } else {
            queue.push((seq, 0));
        }
    }
    while out.entries.len() < limit {
        let mut best: Option<usize> = None;
        let mut tie = false;
        for k in 0..queue.len() {
            if queue[k].1 >= queue[k].0.len() {
                continue;
            }
            match best {
                None => best = Some(k),
                Some(b) => {
                    match cmp_me(&queue[k].0[queue[k].1].key(), &queue[b].0[queue[b].1].key()) {
                        std::cmp::Ordering::Greater => {
                            best = Some(k);
                            tie = false;
                        }
                        std::cmp::Ordering::Equal => tie = true,
                        _ => {}
                    }
                }
            }
        }
        match best {
            None => break,
            Some(b) => {
                if tie {
                    out.ambiguous = true;
                }
                let e = queue[b].0[queue[b].1].clone();
                queue[b].1 += 1;
                out.entries.push(e);
            }
        }
    }
    out
}

// ---- coalesce ------------------------------------------------------------------------------------

pub type Ctx = CoalesceContext;

pub fn ctx_key(c: &Ctx) -> (f64, f64, i32, u16, u16, u32) {
    let e = &c.entries[0];
    (c.relev, e.scoredist, -(e.idx as i32), e.grid_entry.x, e.grid_entry.y, e.grid_entry.id)
}
fn cmp_ctx(a: &Ctx, b: &Ctx) -> std::cmp::Ordering {
    let (a, b) = (ctx_key(a), ctx_key(b));
    a.0.partial_cmp(&b.0)
        .unwrap()
        .then(a.1.partial_cmp(&b.1).unwrap())
        .then((a.2, a.3, a.4, a.5).cmp(&(b.2, b.3, b.4, b.5)))
}
pub fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}
/// A comparison with a threshold that floating-point noise could tip.
fn touchy(d: f64, t: f64) -> bool {
    d != t && (d - t).abs() < 1e-9
}

fn entry_of(m: &ME, s: &Sub, pm: u32) -> CoalesceEntry {
    CoalesceEntry {
        grid_entry: GridEntry { relev: m.g.relev * s.weight, ..m.g.clone() },
        matches_language: m.lang,
        idx: s.idx,
        tmp_id: ((s.idx as u32) << 25).wrapping_add(m.g.id),
        mask: s.mask,
        distance: m.distance,
        scoredist: m.scoredist,
        phrasematch_id: pm,
    }
}

const MAX_CONTEXTS: usize = 40;
const MAX_GRIDS: usize = 100_000;

/// The best entry per feature of one subquery, as far down as the cutoffs go.
fn single_pass(entries: &[ME], s: &Sub, o: &MOpts, pm: u32, amb: &mut bool) -> Vec<CoalesceEntry> {
    let bigger = 2 * MAX_CONTEXTS;
    let mut best: HashMap<u32, CoalesceEntry> = HashMap::new();
    let mut max_relev = 0.0f64;
    let mut prev: Option<(u32, f64, f64)> = None; // id, relev, scoredist
    let mut min_sd = f64::MAX;
    let mut features = 0usize;
    for m in entries {
        let e = entry_of(m, s, pm);
        let (id, relev, sd) = (e.grid_entry.id, e.grid_entry.relev, e.scoredist);
        if let Some((pid, _, psd)) = prev {
            if pid == id && sd <= psd {
                continue;
            }
        }
        if features > bigger {
            if sd < min_sd {
                continue;
            } else if relev < prev.map_or(0.0, |p| p.1) {
                break;
            }
        }
        if touchy(max_relev - relev, 0.25) {
            *amb = true;
        }
        if max_relev - relev >= 0.25 {
            break;
        }
        max_relev = max_relev.max(relev);
        match best.get_mut(&id) {
            Some(b) => {
                if sd > b.scoredist && relev >= b.grid_entry.relev {
                    *b = e;
                }
            }
            None => {
                best.insert(id, e);
            }
        }
        if prev.map_or(true, |p| p.0 != id) {
            features += 1;
        }
        if o.proximity.is_none() && features > bigger {
            break;
        }
        min_sd = min_sd.min(sd);
        prev = Some((id, relev, sd));
    }
    let mut v: Vec<CoalesceEntry> = best.into_iter().map(|x| x.1).collect();
    v.sort_by_key(|e| e.grid_entry.id);
    v
}

#[derive(Default, Clone, Debug)]
pub struct CoalesceOut {
    /// in order
    pub contexts: Vec<Ctx>,
    pub ambiguous: bool,
    pub probes: Vec<&'static str>,
}

pub fn coalesce(stores: &[MStore], stack: &[Sub], o: &MOpts, trunc: Option<(usize, usize)>) -> CoalesceOut {
    let mut out = CoalesceOut::default();
    let keep = |i: usize| trunc.and_then(|(k, n)| if k == i { Some(n) } else { None });
    let contexts = match stack.len() {
        0 => vec![],
        1 => {
            let s = &stack[0];
            let m = match_stream(&stores[s.store], &s.keys[0].key, o, 2 * MAX_CONTEXTS, usize::MAX, keep(0));
            out.ambiguous |= m.ambiguous;
            if m.truncated {
                out.probes.push("single-more-keys-than-kept");
            }
            let es = single_pass(&m.entries, s, o, 0, &mut out.ambiguous);
            if es.len() > MAX_CONTEXTS {
                out.probes.push("single-over-40-features");
            }
            if es.len() < m.entries.len() {
                out.probes.push("single-entries-dropped");
            }
            let mut cs: Vec<Ctx> = es
                .into_iter()
                .map(|e| Ctx { mask: e.mask, relev: e.grid_entry.relev, entries: vec![e] })
                .collect();
            cs.sort_by(|a, b| cmp_ctx(b, a));
            cs.truncate(MAX_CONTEXTS);
            cs
        }
        _ => multi(stores, stack, o, &mut out, &keep),
    };
    let mut seen = HashSet::new();
    for c in &contexts {
        if out.contexts.len() >= MAX_CONTEXTS {
            out.probes.push("coalesce-capped-at-40");
            break;
        }
        let d = contexts[0].relev - c.relev;
        if touchy(d, 0.25) {
            out.ambiguous = true;
        }
        if d >= 0.25 {
            out.probes.push("coalesce-relevance-cutoff");
            break;
        }
        if seen.insert(c.entries[0].tmp_id) {
            out.contexts.push(c.clone());
        } else {
            out.probes.push("coalesce-duplicate-feature");
        }
    }
    out
}

fn multi(
    stores: &[MStore],
    stack: &[Sub],
    o: &MOpts,
    out: &mut CoalesceOut,
    keep: &dyn Fn(usize) -> Option<usize>,
) -> Vec<Ctx> {
    let zoom = |s: &Sub| stores[s.store].spec.zoom;
    let mut order: Vec<usize> = (0..stack.len()).collect();
    order.sort_by_key(|&i| (zoom(&stack[i]), stack[i].idx));
    // tile -> contexts so far ending there
    let mut at: BTreeMap<(u16, u16, u16), Vec<Ctx>> = BTreeMap::new();
    let mut done: Vec<Ctx> = vec![];
    let mut max_relev = 0.0f64;
    for (n, &i) in order.iter().enumerate() {
        let s = &stack[i];
        let z = zoom(s);
        let last = n + 1 == order.len();
        let mut parents: Vec<u16> = vec![];
        for &j in &order {
            let b = &stack[j];
            if b.idx != s.idx && zoom(b) <= z && parents.last() != Some(&zoom(b)) {
                parents.push(zoom(b));
            }
        }
        let m = match_stream(&stores[s.store], &s.keys[0].key, &adjust(o, z), MAX_GRIDS, MAX_GRIDS, keep(i));
        out.ambiguous |= m.ambiguous;
        let mut new: BTreeMap<(u16, u16, u16), Vec<Ctx>> = BTreeMap::new();
        for g in &m.entries {
            let e = entry_of(g, s, 0);
            let (x, y) = (g.g.x, g.g.y);
            let mut mask = e.mask;
            let mut relev = e.grid_entry.relev;
            let mut entries = vec![e];
            for pz in &parents {
                let d = (z - pz) as u32;
                let t = (*pz, ((x as u32) >> d) as u16, ((y as u32) >> d) as u16);
                let mut prev_mask = 0u32;
                let mut prev_relev = 0.0f64;
                for p in at.get(&t).into_iter().flatten() {
                    for pe in &p.entries {
                        if pe.mask == prev_mask && pe.grid_entry.relev > prev_relev {
                            out.probes.push("multi-better-cover-replaces");
                            entries.pop();
                            entries.push(pe.clone());
                            relev -= prev_relev;
                            relev += pe.grid_entry.relev;
                            prev_mask = pe.mask;
                            prev_relev = pe.grid_entry.relev;
                        } else if mask & pe.mask == 0 {
                            entries.push(pe.clone());
                            relev += pe.grid_entry.relev;
                            mask |= pe.mask;
                            prev_mask = pe.mask;
                            prev_relev = pe.grid_entry.relev;
                        }
                    }
                }
            }
            max_relev = max_relev.max(relev);
            if last {
                if entries.len() == 1 || entries[0].mask > entries[1].mask {
                    out.probes.push("multi-penalty");
                    relev -= 0.01;
                }
                if touchy(max_relev - relev, 0.25) {
                    out.ambiguous = true;
                }
                if max_relev - relev < 0.25 {
                    done.push(Ctx { entries, mask, relev });
                }
            } else if n == 0 || entries.len() > 1 {
                if entries.len() > 1 {
                    out.probes.push("multi-stacked-in-the-middle");
                }
                new.entry((z, x, y)).or_default().push(Ctx { entries, mask, relev });
            }
        }
        for (t, cs) in new {
            at.entry(t).or_default().extend(cs);
        }
    }
    for (_, cs) in at {
        for c in cs {
            if touchy(max_relev - c.relev, 0.25) {
                out.ambiguous = true;
            }
            if max_relev - c.relev < 0.25 {
                done.push(c);
            }
        }
    }
    done.sort_by(|a, b| cmp_ctx(b, a));
    done
}

// ---- stacking ------------------------------------------------------------------------------------

pub fn collapse(subs: &[Sub]) -> Vec<Sub> {
    let mut out: Vec<Sub> = vec![];
    for s in subs {
        match out.iter_mut().find(|t| t.weight == s.weight && t.idx == s.idx && t.mask == s.mask) {
            Some(t) => t.keys.extend(s.keys.iter().cloned()),
            None => out.push(s.clone()),
        }
    }
    out
}

#[derive(Clone, Debug)]
pub struct Node {
    pub sub: usize,
    pub children: Vec<usize>,
    pub max_relev: f64,
}
#[derive(Default, Clone, Debug)]
pub struct Tree {
    pub nodes: Vec<Node>,
    pub roots: Vec<usize>,
    pub leaves: usize,
    pub too_big: bool,
}
pub const LEAF_SOFT_MAX: usize = 2000;

/// Whether `s` may be stacked on these, from the coarsest to the last: no token is used twice, and none
/// of their stores rules out that of `s`, nor does `s` rule out the last one's.
pub fn may_stack(on: &[&Sub], s: &Sub) -> bool {
    on.iter().all(|o| o.mask & s.mask == 0 && !o.nonoverlap.contains(&s.idx))
        && on.last().map_or(true, |o| !s.nonoverlap.contains(&o.idx))
}

pub fn build_tree(stores: &[MStore], subs: &[Sub], node_cap: usize) -> Tree {
    let mut bins: BTreeMap<u16, Vec<usize>> = BTreeMap::new();
    for (i, s) in subs.iter().enumerate() {
        bins.entry(stores[s.store].spec.type_id).or_default().push(i);
    }
    let bins: Vec<Vec<usize>> = bins
        .into_iter()
        .map(|(_, mut v)| {
            v.sort_by(|&a, &b| {
                subs[b].weight.partial_cmp(&subs[a].weight).unwrap().then(subs[a].idx.cmp(&subs[b].idx))
            });
            v
        })
        .collect();
    let mut t = Tree::default();
    let (roots, _) = grow(&bins, subs, &mut vec![], 0.0, 0, &mut t, node_cap);
    t.roots = roots;
    t
}

fn grow<'s>(
    bins: &[Vec<usize>],
    subs: &'s [Sub],
    on: &mut Vec<&'s Sub>,
    relev: f64,
    from: usize,
    t: &mut Tree,
    cap: usize,
) -> (Vec<usize>, f64) {
    let mut children = vec![];
    let mut max_relev = relev;
    for b in from..bins.len() {
        for &i in &bins[b] {
            let s = &subs[i];
            if !may_stack(on, s) {
                continue;
            }
            if t.nodes.len() >= cap {
                t.too_big = true;
                return (children, max_relev);
            }
            on.push(s);
            let (ch, mr) = grow(bins, subs, on, relev + s.weight, b + 1, t, cap);
            on.pop();
            if ch.is_empty() {
                t.leaves += 1;
            }
            t.nodes.push(Node { sub: i, children: ch, max_relev: mr });
            children.push(t.nodes.len() - 1);
            if mr > max_relev {
                max_relev = mr;
            }
        }
    }
    (children, max_relev)
}

#[derive(Clone, Debug)]
pub struct Cand {
    pub ctx: Ctx,
    /// must be in the answer (as far as the overall cap allows)
    pub required: bool,
}
#[derive(Default, Clone, Debug)]
pub struct StackOut {
    /// everything that may be in the answer
    pub cands: Vec<Cand>,
    /// how many contexts the answer has
    pub count: usize,
    pub ambiguous: bool,
    /// which of the contexts as good as the worst are in depends on the order of equal steps
    pub cut_in_ties: bool,
    /// range scans the answer is made from: (key id, single, subquery, key, options)
    pub fetches: Vec<(u32, bool, usize, MKey, MOpts)>,
    pub probes: Vec<&'static str>,
    pub subs: Vec<Sub>,
    pub too_big: bool,
}

pub fn penalized(c: &Ctx) -> Ctx {
    let mut c = c.clone();
    if c.entries.len() == 1 || c.entries[0].mask > c.entries[1].mask {
        c.relev -= 0.01;
    }
    c
}

struct Step {
    node: usize,
    prev: Option<(std::rc::Rc<Vec<Ctx>>, u16)>,
    possible: f64,
    opts: MOpts,
    has_prox: bool,
    seq: usize,
}

/// The 40 best of a group; ties at the boundary are candidates of which some are taken.
fn top_group(mut v: Vec<Ctx>) -> (Vec<Cand>, usize, Vec<Ctx>) {
    v.sort_by(|a, b| cmp_ctx(b, a));
    let n = v.len().min(MAX_CONTEXTS);
    if v.len() <= MAX_CONTEXTS {
        let counted = v.clone();
        return (v.into_iter().map(|ctx| Cand { ctx, required: true }).collect(), n, counted);
    }
    let edge = v[n - 1].clone();
    let counted = v[..n].to_vec();
    let tied_over = cmp_ctx(&v[n], &edge) == std::cmp::Ordering::Equal;
    let cands = v
        .into_iter()
        .enumerate()
        .filter(|(k, c)| *k < n || cmp_ctx(c, &edge) == std::cmp::Ordering::Equal)
        .map(|(_, ctx)| {
            let required = !tied_over || cmp_ctx(&ctx, &edge) == std::cmp::Ordering::Greater;
            Cand { ctx, required }
        })
        .collect();
    (cands, n, counted)
}

pub fn in_box(b: &[u16; 4], x: u16, y: u16) -> bool {
    b[0] <= x && x <= b[2] && b[1] <= y && y <= b[3]
}

pub fn stack(
    stores: &[MStore],
    raw: &[Sub],
    o: &MOpts,
    trunc: Option<(u32, bool, usize)>,
    node_cap: usize,
) -> StackOut {
    let mut out = StackOut { subs: collapse(raw), ..Default::default() };
    let subs = out.subs.clone();
    let tree = build_tree(stores, &subs, node_cap);
    if tree.too_big || tree.leaves > LEAF_SOFT_MAX {
        out.too_big = true;
        out.ambiguous = true;
        return out;
    }
    let zoom = |s: &Sub| stores[s.store].spec.zoom;
    let cap = MAX_CONTEXTS * 20;
    let mut steps: Vec<Step> = vec![];
    let mut seq = 0usize;
    let mut new_step = |node: usize, prev: Option<(std::rc::Rc<Vec<Ctx>>, u16)>, possible: f64| {
        let st = &stores[subs[tree.nodes[node].sub].store].spec;
        let opts = adjust(o, st.zoom);
        let has_prox = opts.proximity.map_or(false, |p| st.bboxes.iter().any(|b| in_box(b, p[0], p[1])));
        seq += 1;
        Step { node, prev, possible, opts, has_prox, seq }
    };
    for &r in &tree.roots {
        let s = new_step(r, None, subs[tree.nodes[r].sub].weight);
        steps.push(s);
    }
    // counted contexts, for the decisions that depend on how good the results so far are
    let mut heap: Vec<Ctx> = vec![];
    let mut cache: HashMap<u32, Vec<ME>> = HashMap::new();
    let mut ties = false;
    let mut bound = false; // some decision depended on the order of work
    let mut leaf_limits: Vec<f64> = vec![]; // the leaves that are skipped if there is better already
    let (mut q_letter, mut q_word, mut q_word_high, mut q_range_high, mut q_high) = (0, 0, 0, 0, 0);
    let mut complete = false;
    let mut lowest_popped = f64::INFINITY;

    while !steps.is_empty() {
        let mut chunk: Vec<Step> = vec![];
        let mut keys: Vec<(u32, usize, MKey, MOpts, bool)> = vec![];
        let mut unique: HashSet<(u32, bool)> = HashSet::new();
        let mut added = 0;
        while added < 8 {
            if steps.is_empty() {
                break;
            }
            // the most promising step
            let rank = |s: &Step| {
                let n = &tree.nodes[s.node];
                (n.max_relev, s.has_prox, stores[subs[n.sub].store].spec.max_score)
            };
            let mut bi = 0;
            for k in 1..steps.len() {
                let (a, b) = (rank(&steps[k]), rank(&steps[bi]));
                let c = a.0.partial_cmp(&b.0).unwrap().then(a.1.cmp(&b.1)).then(a.2.partial_cmp(&b.2).unwrap());
                match c {
                    std::cmp::Ordering::Greater => bi = k,
                    std::cmp::Ordering::Equal if steps[k].seq < steps[bi].seq => bi = k,
                    _ => {}
                }
            }
            let r = rank(&steps[bi]);
            if steps.iter().enumerate().any(|(k, s)| {
                // equal, or so close that rounding could decide
                k != bi && near(rank(s).0, r.0) && !(rank(s).0 == r.0 && (rank(s).1, rank(s).2) != (r.1, r.2))
            }) {
                ties = true;
            }
            let step = steps.remove(bi);
            let node = &tree.nodes[step.node];
            let s = &subs[node.sub];
            lowest_popped = lowest_popped.min(node.max_relev);
            if heap.len() >= cap {
                let min = heap.iter().map(|c| c.relev).fold(f64::INFINITY, f64::min);
                if touchy(node.max_relev - min, 0.0) {
                    out.ambiguous = true;
                }
                if node.max_relev <= min {
                    // nothing left in the queue can be better, but what the steps taken lead to can
                    complete = true;
                    steps.clear();
                    out.probes.push("tree-stopped-early");
                    break;
                }
            }
            let leaf = node.children.is_empty();
            let single = step.prev.is_none() && leaf;
            let slow = zoom(s) >= 14;
            let mut enq = false;
            for k in &s.keys {
                let range = match k.key.phrase {
                    MPhrase::Exact(_) => false,
                    MPhrase::Range(a, b) => b.wrapping_sub(a) > 1,
                };
                if range && s.mask.count_ones() == 1 && slow && leaf {
                    leaf_limits.push(step.possible);
                }
                if !(single || !cache.contains_key(&k.id)) {
                    continue;
                }
                let ko = if k.nearby { nearby(&step.opts) } else { step.opts.clone() };
                if range && s.mask.count_ones() == 1 {
                    let best = heap.iter().map(|c| c.relev).fold(f64::NEG_INFINITY, f64::max);
                    let best = if heap.is_empty() { 0.0 } else { best };
                    if slow && leaf && touchy(step.possible - 0.75 * best, 0.0) {
                        out.ambiguous = true;
                    }
                    if slow && leaf && step.possible <= 0.75 * best {
                        bound = true;
                        out.probes.push("tree-slow-leaf-skipped");
                        continue;
                    } else if !unique.contains(&(k.id, single)) {
                        if k.len == 1 {
                            if q_letter < 8 {
                                q_letter += 1;
                            } else {
                                bound = true;
                                out.probes.push("quota-one-letter");
                                continue;
                            }
                        }
                        if slow && !k.nearby {
                            if q_word_high < 8 {
                                q_word_high += 1;
                            } else {
                                bound = true;
                                out.probes.push("quota-one-word-high-zoom");
                                continue;
                            }
                        }
                        if q_word < 40 {
                            q_word += 1;
                        } else {
                            bound = true;
                            out.probes.push("quota-one-word");
                            continue;
                        }
                    }
                }
                if slow && !k.nearby && !unique.contains(&(k.id, single)) {
                    if range {
                        if q_range_high < 40 {
                            q_range_high += 1;
                        } else {
                            bound = true;
                            out.probes.push("quota-high-zoom-range");
                            continue;
                        }
                    }
                    if q_high < 600 {
                        q_high += 1;
                    } else {
                        bound = true;
                        out.probes.push("quota-high-zoom");
                        continue;
                    }
                }
                if unique.insert((k.id, single)) {
                    enq = true;
                    keys.push((k.id, node.sub, k.key.clone(), ko, single));
                }
            }
            if !single {
                enq = true;
                chunk.push(step);
            }
            if enq {
                added += 1;
            }
        }

        let add = |cands: Vec<Cand>, counted: Vec<Ctx>, out: &mut StackOut, heap: &mut Vec<Ctx>| {
            out.cands.extend(cands);
            for c in counted {
                out.count += 1;
                if heap.len() >= cap {
                    out.probes.push("tree-over-800-contexts");
                    let mut m = 0;
                    for k in 1..heap.len() {
                        if cmp_ctx(&heap[k], &heap[m]) == std::cmp::Ordering::Less {
                            m = k;
                        }
                    }
                    if cmp_ctx(&c, &heap[m]) == std::cmp::Ordering::Greater {
                        heap[m] = c;
                    }
                } else {
                    heap.push(c);
                }
            }
        };

        for (id, sub, key, ko, single) in keys {
            let s = &subs[sub];
            let keep = trunc.and_then(|(k, one, n)| if k == id && one == single { Some(n) } else { None });
            out.fetches.push((id, single, sub, key.clone(), ko.clone()));
            if single {
                let m = match_stream(&stores[s.store], &key, &ko, 2 * MAX_CONTEXTS, usize::MAX, keep);
                out.ambiguous |= m.ambiguous;
                let es = single_pass(&m.entries, s, &ko, id, &mut out.ambiguous);
                let v: Vec<Ctx> = es
                    .into_iter()
                    .map(|e| Ctx { mask: e.mask, relev: e.grid_entry.relev, entries: vec![e] })
                    .collect();
                let (cands, _, counted) = top_group(v);
                add(cands, counted, &mut out, &mut heap);
            } else {
                let m = match_stream(&stores[s.store], &key, &ko, MAX_GRIDS, MAX_GRIDS, keep);
                out.ambiguous |= m.ambiguous;
                let mut seen = HashSet::new();
                let v: Vec<ME> = m.entries.into_iter().filter(|e| seen.insert((e.g.x, e.g.y, e.g.id))).collect();
                cache.insert(id, v);
            }
        }

        let mut pending: Vec<Step> = vec![];
        for step in chunk {
            let node = &tree.nodes[step.node];
            let s = &subs[node.sub];
            let z = zoom(s);
            let mut so_far = 0.0f64;
            let mut state: Vec<Ctx> = vec![];
            let mut by_tile: HashMap<(u16, u16), Vec<usize>> = HashMap::new();
            if let Some((prev, _)) = &step.prev {
                for (i, c) in prev.iter().enumerate() {
                    let g = &c.entries[0].grid_entry;
                    by_tile.entry((g.x, g.y)).or_default().push(i);
                }
            }
            for k in &s.keys {
                let grids = match cache.get(&k.id) {
                    Some(g) => g,
                    None => continue,
                };
                let mut group: Vec<Ctx> = vec![];
                for m in grids {
                    let e = entry_of(m, s, k.id);
                    match &step.prev {
                        Some((prev, pz)) => {
                            let d = z.wrapping_sub(*pz) as u32 & 15;
                            let t = ((m.g.x as u32 >> d) as u16, (m.g.y as u32 >> d) as u16);
                            for &i in by_tile.get(&t).into_iter().flatten() {
                                let p = &prev[i];
                                let mut entries = Vec::with_capacity(p.entries.len() + 1);
                                entries.push(e.clone());
                                entries.extend(p.entries.iter().cloned());
                                let c = Ctx { mask: p.mask | s.mask, relev: p.relev + e.grid_entry.relev, entries };
                                so_far = so_far.max(c.relev);
                                group.push(penalized(&c));
                                if !node.children.is_empty() {
                                    state.push(c);
                                }
                            }
                        }
                        None => {
                            let c = Ctx { mask: s.mask, relev: e.grid_entry.relev, entries: vec![e] };
                            so_far = so_far.max(c.relev);
                            group.push(penalized(&c));
                            state.push(c);
                        }
                    }
                }
                if group.len() > MAX_CONTEXTS {
                    out.probes.push("tree-group-over-40");
                }
                let (cands, _, counted) = top_group(group);
                add(cands, counted, &mut out, &mut heap);
            }
            if !state.is_empty() {
                let state = std::rc::Rc::new(state);
                for &c in &node.children {
                    let cs = &subs[tree.nodes[c].sub];
                    let spec = &stores[cs.store].spec;
                    let boxes: Vec<[u16; 4]> = spec
                        .bboxes
                        .iter()
                        .map(|b| {
                            let m = MOpts { bbox: Some(*b), proximity: None, zoom: spec.zoom };
                            adjust(&m, z).bbox.unwrap()
                        })
                        .collect();
                    let overlaps = state.iter().any(|c| {
                        let g = &c.entries[0].grid_entry;
                        boxes.iter().any(|b| in_box(b, g.x, g.y))
                    });
                    if !overlaps {
                        out.probes.push("tree-child-extent-elsewhere");
                        continue;
                    }
                    pending.push(new_step(c, Some((state.clone(), z)), so_far + cs.weight));
                }
            }
        }
        steps.extend(pending);
    }
    let best = heap.iter().map(|c| c.relev).fold(0.0, f64::max);
    if leaf_limits.iter().any(|&p| p <= 0.75 * best + 1e-9) {
        bound = true;
    }
    if ties && bound {
        out.ambiguous = true;
    }
    // Stopping early leaves out contexts no better than the worst of a full answer; among those that
    // are as good as the worst, which ones are in depends on the order of equally promising steps.
    if ties && heap.len() >= cap {
        let min = heap.iter().map(|c| c.relev).fold(f64::INFINITY, f64::min);
        out.cut_in_ties = complete || lowest_popped <= min + 1e-9;
    }
    // Stopping later, in another order of equals, could have used up a quota.
    if ties && complete {
        let mut all: [HashSet<(u32, bool)>; 5] = Default::default();
        for (i, n) in tree.nodes.iter().enumerate() {
            let s = &subs[n.sub];
            let single = n.children.is_empty() && tree.roots.contains(&i);
            for k in &s.keys {
                let range = matches!(k.key.phrase, MPhrase::Range(a, b) if b.wrapping_sub(a) > 1);
                let high = zoom(s) >= 14 && !k.nearby;
                let word = range && s.mask.count_ones() == 1;
                for (class, yes) in [word && k.len == 1, word, word && high, range && high, high].iter().enumerate() {
                    if *yes {
                        all[class].insert((k.id, single));
                    }
                }
            }
        }
        if all.iter().zip([8, 40, 8, 40, 600]).any(|(a, quota)| a.len() > quota) {
            out.ambiguous = true;
        }
    }
    out.count = out.count.min(cap);
    out
}
