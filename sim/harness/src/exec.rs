//! Runs a case against the real code inside the simulator and records what happened.
use crate::case::*;
use carmen_core::gridstore as g;
use carmen_core::gridstore::{
    CoalesceContext, GridEntry, GridKey, GridStore, GridStoreBuilder, MatchKey, MatchKeyWithId,
    MatchOpts, MatchPhrase, PhrasematchSubquery,
};
use simrt::rng::Rng;
use simrt::{panic_text, Class, Fault, Knobs, Sim, SimCrash, SimMisuse, SimOverrun, Stats, TaskEnd};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub struct OutME {
    pub g: GridEntry,
    pub lang: bool,
    pub distance: f64,
    pub scoredist: f64,
}
pub type Key = (u32, u128);

/// One node of the stacking tree: subquery number, children, max_relev, mask, idx.
#[derive(Clone, Debug, PartialEq)]
pub struct OutNode {
    pub sub: usize,
    pub children: Vec<OutNode>,
    pub max_relev: f64,
    pub mask: u32,
    pub idx: u16,
    pub zoom: u16,
    pub bmask: Vec<usize>,
}

#[derive(Clone, Debug)]
pub enum QVal {
    Grids(Option<Vec<GridEntry>>),
    Matches(Vec<OutME>),
    Keys(Vec<Key>),
    Records(Vec<(Key, Vec<GridEntry>)>),
    Contexts(Vec<CoalesceContext>),
    Tree { collapsed: Vec<Sub>, root: OutNode },
    Dump(Dump),
    Many(Vec<QVal>),
    Json(serde_json::Value),
    Nothing,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Dump {
    pub keys: Vec<Key>,
    pub records: Vec<(Key, Vec<GridEntry>)>,
    pub bounds: Vec<u32>,
}
#[derive(Clone, Debug)]
pub enum QRes {
    Ok(QVal),
    Err(String),
    Panic(String),
}

pub struct OpRecord {
    pub label: u64,
    pub res: QRes,
}

#[derive(Debug, Clone)]
pub enum BuildRes {
    /// per operation: error text; then finish
    Done { ops: Vec<Option<String>>, finish: Result<(), String> },
    Panic(String),
    Crashed,
    Overrun,
    Misuse(String),
}

pub fn dir(name: &str) -> PathBuf {
    PathBuf::from(format!("/sim/{}", name))
}

// ---- conversions ---------------------------------------------------------------------------------

pub fn grid(e: &E) -> GridEntry {
    GridEntry { relev: e.0, score: e.1, x: e.2, y: e.3, id: e.4, source_phrase_hash: e.5 }
}
pub fn mkey(k: &MKey) -> MatchKey {
    MatchKey {
        match_phrase: match k.phrase {
            MPhrase::Exact(p) => MatchPhrase::Exact(p),
            MPhrase::Range(a, b) => MatchPhrase::Range { start: a, end: b },
        },
        lang_set: k.lang.0,
    }
}
pub fn mopts(o: &MOpts) -> MatchOpts {
    MatchOpts { bbox: o.bbox, proximity: o.proximity, zoom: o.zoom }
}
fn subquery(s: &Sub, stores: &[Arc<GridStore>]) -> PhrasematchSubquery<Arc<GridStore>> {
    let mut bits = fixedbitset::FixedBitSet::with_capacity(128);
    for b in &s.nonoverlap {
        bits.insert(*b as usize);
    }
    PhrasematchSubquery {
        store: stores[s.store].clone(),
        idx: s.idx,
        non_overlapping_indexes: bits,
        weight: s.weight,
        mask: s.mask,
        match_keys: s
            .keys
            .iter()
            .map(|k| MatchKeyWithId {
                key: mkey(&k.key),
                nearby_only: k.nearby,
                id: k.id,
                phrase_length: k.len,
            })
            .collect(),
    }
}
fn out_me(m: g::MatchEntry) -> OutME {
    OutME { g: m.grid_entry, lang: m.matches_language, distance: m.distance, scoredist: m.scoredist }
}
fn key_of(k: GridKey) -> Key {
    (k.phrase_id, k.lang_set)
}
pub fn text<T: std::fmt::Display>(e: T) -> String {
    format!("{}", e)
}

// ---- building ------------------------------------------------------------------------------------

pub fn apply(b: &mut GridStoreBuilder, op: &BOp) -> Result<(), String> {
    let key = |p: &u32, l: &Lang| GridKey { phrase_id: *p, lang_set: l.0 };
    match op {
        BOp::Insert { phrase, lang, entries } => {
            b.insert(&key(phrase, lang), entries.iter().map(grid).collect()).map_err(text)
        }
        BOp::Append { phrase, lang, entries } => {
            b.append(&key(phrase, lang), entries.iter().map(grid).collect()).map_err(text)
        }
        BOp::Compact { phrase, lang, relev, score, id, hash, coords } => {
            b.compact_append(&key(phrase, lang), *relev, *score, *id, *hash, coords);
            Ok(())
        }
        BOp::Fill { phrase, lang, fill } => {
            b.append(&key(phrase, lang), fill.expand().iter().map(grid).collect()).map_err(text)
        }
        BOp::Renumber(m) => b.renumber(m).map_err(text),
        BOp::Bins(v) => b.load_bin_boundaries(v.clone()).map_err(text),
        BOp::RenumberFrom(_) | BOp::BinsFrom(..) => Err("only through the binding".into()),
    }
}

/// The build of one of the processes; each may run the present or the earlier release.
pub fn build_as(role: u32, spec: &StoreSpec) -> (Vec<Option<String>>, Result<(), String>) {
    if spec.older & role != 0 {
        crate::before::build(spec)
    } else {
        build(spec)
    }
}
/// Opens and dumps, likewise.
fn open_and_dump(role: u32, spec: &StoreSpec) -> Result<Result<Dump, String>, String> {
    if spec.older & role != 0 {
        crate::before::open(spec).map(|st| crate::before::dump(&st))
    } else {
        open(spec).map(|st| dump(&st))
    }
}

fn build(spec: &StoreSpec) -> (Vec<Option<String>>, Result<(), String>) {
    let mut b = match GridStoreBuilder::new(dir(&spec.name)) {
        Ok(b) => b,
        Err(e) => return (vec![], Err(format!("new: {}", e))),
    };
    let ops = spec.ops.iter().map(|o| apply(&mut b, o).err()).collect();
    (ops, b.finish().map_err(text))
}

fn build_res(e: TaskEnd<(Vec<Option<String>>, Result<(), String>)>) -> BuildRes {
    match e {
        TaskEnd::Done((ops, finish)) => BuildRes::Done { ops, finish },
        TaskEnd::Crashed => BuildRes::Crashed,
        TaskEnd::Overrun => BuildRes::Overrun,
        TaskEnd::Misuse(m) => BuildRes::Misuse(m),
        TaskEnd::Panicked(m) => BuildRes::Panic(m),
    }
}

pub fn open(spec: &StoreSpec) -> Result<GridStore, String> {
    if spec.is_plain() {
        return GridStore::new(dir(&spec.name)).map_err(text);
    }
    GridStore::new_with_options(
        dir(&spec.name),
        spec.zoom,
        spec.type_id,
        spec.radius,
        spec.bboxes.clone(),
        spec.max_score,
    )
    .map_err(text)
}

pub fn dump(st: &GridStore) -> Result<Dump, String> {
    let mut d = Dump::default();
    for k in st.keys() {
        d.keys.push(key_of(k.map_err(text)?));
    }
    for r in st.iter() {
        let (k, v) = r.map_err(text)?;
        d.records.push((key_of(k), v));
    }
    d.bounds = st.bin_boundaries.iter().cloned().collect();
    d.bounds.sort();
    Ok(d)
}

// ---- queries -------------------------------------------------------------------------------------

pub enum Part {
    G(GridEntry),
    M(OutME),
    K(Key),
    R(Key, Vec<GridEntry>),
}
type Parts<'a> = Box<dyn Iterator<Item = Result<Part, String>> + 'a>;

/// The iterator an operation hands out; None: a lookup that found nothing.
fn parts<'a>(op: &QOp, stores: &'a [Arc<GridStore>]) -> Result<Option<Parts<'a>>, String> {
    Ok(match op {
        QOp::Get { store, phrase, lang } => {
            let key = GridKey { phrase_id: *phrase, lang_set: lang.0 };
            match stores[*store].get(&key).map_err(text)? {
                Some(it) => Some(Box::new(it.map(|e| Ok(Part::G(e))))),
                None => None,
            }
        }
        QOp::Match { store, key, opts, max, take } => {
            let it = stores[*store]
                .streaming_get_matching(&mkey(key), &mopts(opts), *max)
                .map_err(text)?;
            Some(Box::new(it.take(take.unwrap_or(usize::MAX)).map(|e| Ok(Part::M(out_me(e))))))
        }
        QOp::Keys { store, take } => Some(Box::new(
            stores[*store]
                .keys()
                .take(take.unwrap_or(usize::MAX))
                .map(|k| k.map(|k| Part::K(key_of(k))).map_err(text)),
        )),
        QOp::Iter { store, take } => Some(Box::new(
            stores[*store]
                .iter()
                .take(take.unwrap_or(usize::MAX))
                .map(|r| r.map(|(k, v)| Part::R(key_of(k), v)).map_err(text)),
        )),
        _ => return Err("not an iterator".into()),
    })
}

pub fn gather(op: &QOp, ps: Option<Vec<Part>>) -> QVal {
    match op {
        QOp::Get { .. } => QVal::Grids(ps.map(|v| {
            v.into_iter().filter_map(|p| if let Part::G(g) = p { Some(g) } else { None }).collect()
        })),
        QOp::Match { .. } => QVal::Matches(
            ps.unwrap_or_default()
                .into_iter()
                .filter_map(|p| if let Part::M(g) = p { Some(g) } else { None })
                .collect(),
        ),
        QOp::Keys { .. } => QVal::Keys(
            ps.unwrap_or_default()
                .into_iter()
                .filter_map(|p| if let Part::K(g) = p { Some(g) } else { None })
                .collect(),
        ),
        _ => QVal::Records(
            ps.unwrap_or_default()
                .into_iter()
                .filter_map(|p| if let Part::R(k, v) = p { Some((k, v)) } else { None })
                .collect(),
        ),
    }
}

pub const ABANDONED: &str = "this caller gives up";

pub fn run_op(op: &QOp, stores: &[Arc<GridStore>], specs: &[StoreSpec]) -> Result<QVal, String> {
    match op {
        QOp::Get { .. } | QOp::Match { .. } | QOp::Keys { .. } | QOp::Iter { .. } => {
            let it = parts(op, stores)?;
            let v = match it {
                Some(it) => Some(it.collect::<Result<Vec<_>, String>>()?),
                None => None,
            };
            Ok(gather(op, v))
        }
        QOp::Braid { ops, seed } => {
            let mut r = Rng::new(*seed);
            let mut its: Vec<(usize, Option<Parts>)> = vec![];
            let mut got: Vec<Option<Vec<Part>>> = vec![];
            for (i, o) in ops.iter().enumerate() {
                let it = parts(o, stores)?;
                got.push(it.as_ref().map(|_| vec![]));
                its.push((i, it));
            }
            let mut live: Vec<usize> = (0..its.len()).filter(|&i| its[i].1.is_some()).collect();
            while !live.is_empty() {
                let k = r.usize(live.len());
                let i = live[k];
                for _ in 0..1 + r.below(4) {
                    match its[i].1.as_mut().unwrap().next() {
                        Some(p) => got[i].as_mut().unwrap().push(p?),
                        None => {
                            its[i].1 = None;
                            live.retain(|&l| l != i);
                            break;
                        }
                    }
                }
            }
            Ok(QVal::Many(ops.iter().zip(got).map(|(o, g)| gather(o, g)).collect()))
        }
        QOp::Abandon { op, after } => {
            let mut n = 0;
            if let Some(mut it) = parts(op, stores)? {
                while n < *after {
                    match it.next() {
                        Some(p) => drop(p?),
                        None => break,
                    }
                    n += 1;
                }
                panic!("{}", ABANDONED);
            }
            panic!("{}", ABANDONED);
        }
        QOp::Coalesce { stack, opts } => {
            let s = stack.iter().map(|s| subquery(s, stores)).collect();
            g::coalesce(s, &mopts(opts)).map(QVal::Contexts).map_err(text)
        }
        QOp::Stack { subs, opts } => {
            let s: Vec<_> = subs.iter().map(|s| subquery(s, stores)).collect();
            g::stack_and_coalesce(&s, &mopts(opts)).map(QVal::Contexts).map_err(text)
        }
        QOp::Tree { subs } => {
            let s: Vec<_> = subs.iter().map(|s| subquery(s, stores)).collect();
            let collapsed = g::collapse_phrasematches(s);
            let tree = g::stackable(&collapsed);
            let store_no = |p: &PhrasematchSubquery<Arc<GridStore>>| {
                stores.iter().position(|s| Arc::ptr_eq(s, &p.store)).unwrap_or(usize::MAX)
            };
            let back: Vec<Sub> = collapsed
                .iter()
                .map(|p| Sub {
                    store: store_no(p),
                    idx: p.idx,
                    nonoverlap: p.non_overlapping_indexes.ones().map(|x| x as u16).collect(),
                    weight: p.weight,
                    mask: p.mask,
                    keys: p
                        .match_keys
                        .iter()
                        .map(|k| SKey {
                            key: MKey {
                                phrase: match k.key.match_phrase {
                                    MatchPhrase::Exact(p) => MPhrase::Exact(p),
                                    MatchPhrase::Range { start, end } => MPhrase::Range(start, end),
                                },
                                lang: Lang(k.key.lang_set),
                            },
                            nearby: k.nearby_only,
                            id: k.id,
                            len: k.phrase_length,
                        })
                        .collect(),
                })
                .collect();
            macro_rules! walk {
                ($node:expr) => {{
                    // explicit stack: (node, path to it)
                    let mut flat: Vec<(OutNode, usize)> = vec![];
                    let mut todo = vec![($node.clone(), usize::MAX)];
                    while let Some((n, parent)) = todo.pop() {
                        let sub = match n.phrasematch {
                            Some(p) => {
                                collapsed.iter().position(|s| std::ptr::eq(s, p)).unwrap_or(usize::MAX - 1)
                            }
                            None => usize::MAX,
                        };
                        flat.push((
                            OutNode {
                                sub,
                                children: vec![],
                                max_relev: n.max_relev,
                                mask: n.mask,
                                idx: n.idx,
                                zoom: n.zoom,
                                bmask: n.bmask.ones().collect(),
                            },
                            parent,
                        ));
                        let me = flat.len() - 1;
                        for c in &n.children {
                            if let Some(ch) = tree.arena.get(*c) {
                                todo.push((ch.clone(), me));
                            }
                        }
                    }
                    // children come after their parents: fold from the back
                    while flat.len() > 1 {
                        let (n, p) = flat.pop().unwrap();
                        flat[p].0.children.insert(0, n);
                    }
                    flat.pop().unwrap().0
                }};
            }
            let root = walk!(tree.root);
            Ok(QVal::Tree { collapsed: back, root })
        }
        QOp::Reopen { store } => {
            let st = open(&specs[*store])?;
            dump(&st).map(QVal::Dump)
        }
        QOp::Missing { store } => {
            let mut spec = specs[*store].clone();
            spec.name += "-was-never-built";
            match open(&spec) {
                Ok(st) => dump(&st).map(QVal::Dump),
                Err(_) => dump(&open(&spec)?).map(QVal::Dump),
            }
        }
        QOp::Older { op } => crate::before::run_op(op, specs),
        QOp::Bad { .. } | QOp::Phrase { .. } => Err("only through the binding".into()),
    }
}

/// Runs one operation; the simulator's own unwindings pass through.
fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<Result<T, String>, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<SimCrash>() || p.is::<SimOverrun>() || p.is::<SimMisuse>() {
                resume_unwind(p)
            }
            Err(panic_text(&*p))
        }
    }
}

pub fn label(client: usize, op: usize) -> u64 {
    1 + ((client as u64) << 20) + op as u64
}
pub const AGAIN: u64 = 1 << 40;
/// storage operations of building store 0, 1, ...; phrase sets from 1000 on
#[allow(dead_code)]
pub const BUILD: u64 = 1 << 41;

fn run_program(
    sim: &Arc<Sim>,
    client: usize,
    ops: &[QOp],
    stores: &[Arc<GridStore>],
    specs: &[StoreSpec],
    base: u64,
) -> Vec<OpRecord> {
    let mut out = vec![];
    for (i, op) in ops.iter().enumerate() {
        let l = base + label(client, i);
        sim.set_owner(l);
        simrt::yield_now();
        let res = match guarded(|| run_op(op, stores, specs)) {
            Ok(Ok(v)) => QRes::Ok(v),
            Ok(Err(e)) => QRes::Err(e),
            Err(p) => QRes::Panic(p),
        };
        sim.note(&format!("client {} op {} -> {}", client, i, brief(&res)));
        out.push(OpRecord { label: l, res });
    }
    out
}

pub fn fingerprint(v: &QVal) -> u64 {
    let s = format!("{:?}", v);
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
pub fn brief(r: &QRes) -> String {
    match r {
        QRes::Ok(v) => format!("ok {:016x}", fingerprint(v)),
        QRes::Err(e) => format!("error {}", e),
        QRes::Panic(e) => format!("panic {}", e),
    }
}

// ---- plans ---------------------------------------------------------------------------------------

pub enum ClientEnd {
    Done(Vec<OpRecord>),
    Crashed,
    Overrun,
    Misuse(String),
    Panicked(String),
}
fn client_end(e: TaskEnd<Vec<OpRecord>>) -> ClientEnd {
    match e {
        TaskEnd::Done(v) => ClientEnd::Done(v),
        TaskEnd::Crashed => ClientEnd::Crashed,
        TaskEnd::Overrun => ClientEnd::Overrun,
        TaskEnd::Misuse(m) => ClientEnd::Misuse(m),
        TaskEnd::Panicked(m) => ClientEnd::Panicked(m),
    }
}

#[derive(Default)]
pub struct QueryOut {
    pub builds: Vec<Option<BuildRes>>,
    pub opened: Vec<Result<(), String>>,
    pub clients: Vec<ClientEnd>,
    pub again: Vec<ClientEnd>,
    pub fired_by: Vec<(u64, Fault)>,
    pub fired: usize,
    pub counters: BTreeMap<Class, u64>,
}

#[derive(Default)]
pub struct BuildOut {
    pub main: Option<BuildRes>,
    pub rivals: Vec<BuildRes>,
    /// per reader: the dumps it took (None: store not there yet)
    pub readers: Vec<Vec<Option<Dump>>>,
    pub reader_trouble: Vec<String>,
    pub after: Option<Result<Dump, String>>,
    pub lookups: Vec<(QOp, QRes)>,
    pub retry: Option<BuildRes>,
    pub after_retry: Option<Result<Dump, String>>,
    pub retry_lookups: Vec<(QOp, QRes)>,
    pub fired: Vec<Fault>,
    pub counters: BTreeMap<Class, u64>,
    pub power_lost: bool,
}

#[derive(Default)]
pub struct ParallelOut {
    pub builds: Vec<BuildRes>,
    pub dumps: Vec<Result<Dump, String>>,
    pub raw: Vec<Vec<(Vec<u8>, Vec<u8>)>>,
    pub counters: BTreeMap<Class, u64>,
}

/// Building a phrase index through the binding.
#[derive(Debug, Clone)]
pub struct SetBuild {
    pub inserts: Vec<Result<u32, String>>,
    pub map: Result<Vec<u32>, String>,
}
impl Default for SetBuild {
    fn default() -> Self {
        SetBuild { inserts: vec![], map: Err("never finished".into()) }
    }
}
#[derive(Default)]
pub struct BindingOut {
    pub q: QueryOut,
    /// second builds of the stores whose first one failed
    pub rebuilt: Vec<Option<BuildRes>>,
    pub sets: Vec<SetBuild>,
    /// what no fault excuses
    pub trouble: Vec<String>,
    /// calls that were turned away as they should
    pub refusals: u64,
}

pub enum PlanOut {
    #[allow(dead_code)]
    Binding(BindingOut),
    Query(QueryOut),
    Build(BuildOut),
    Parallel(ParallelOut),
    /// the root itself ended badly
    Broken(String),
    Overrun,
}

pub struct RunOut {
    pub plan: PlanOut,
    pub log_hash: u64,
    pub log: Vec<String>,
    pub decisions: Vec<u32>,
    pub stats: Stats,
    pub owner_ops: BTreeMap<u64, [u64; 13]>,
    pub seeks: Vec<(u64, Vec<u8>)>,
}

pub fn run(case: &Case, knobs: &Knobs, trace: bool) -> RunOut {
    let c = Arc::new(case.clone());
    let c2 = c.clone();
    let (end, sim) = Sim::run(knobs.clone(), trace, move |sim| match c2.plan.clone() {
        #[cfg(feature = "binding")]
        Plan::Binding(p) => PlanOut::Binding(crate::binding::run_binding(sim, &c2, &p)),
        #[cfg(not(feature = "binding"))]
        Plan::Binding(_) => PlanOut::Broken("built without the binding".into()),
        Plan::Query { again } => PlanOut::Query(run_query(sim, &c2, again)),
        Plan::Build { readers, rivals, after, preload } => {
            PlanOut::Build(run_build(sim, &c2, readers, rivals, after, preload))
        }
        Plan::Parallel { .. } => PlanOut::Parallel(run_parallel(sim, &c2)),
        Plan::Renew { swap, keep } => PlanOut::Query(run_renew(sim, &c2, swap, keep)),
    });
    let plan = match end {
        TaskEnd::Done(p) => p,
        TaskEnd::Overrun => PlanOut::Overrun,
        TaskEnd::Crashed => PlanOut::Broken("root crashed".into()),
        TaskEnd::Misuse(m) => PlanOut::Broken(format!("root misuse: {}", m)),
        TaskEnd::Panicked(m) => PlanOut::Broken(format!("root panicked: {}", m)),
    };
    let (owner_ops, seeks) = {
        let mut g = sim.lock();
        (std::mem::take(&mut g.owner_ops), std::mem::take(&mut g.seeks))
    };
    RunOut {
        plan,
        log_hash: sim.log_hash(),
        log: sim.take_log(),
        decisions: sim.decisions(),
        stats: sim.stats(),
        owner_ops,
        seeks,
    }
}

fn run_query(sim: &Arc<Sim>, c: &Arc<Case>, again: bool) -> QueryOut {
    let mut out = QueryOut::default();
    for i in 0..c.stores.len() {
        // stores that share a name are the same files opened with other settings
        if c.stores[..i].iter().any(|s| s.name == c.stores[i].name) {
            out.builds.push(None);
            continue;
        }
        let c2 = c.clone();
        let h = sim.spawn(1, move || build_as(BUILDER, &c2.stores[i]));
        out.builds.push(Some(build_res(sim.join(vec![h]).pop().unwrap())));
    }
    let c2 = c.clone();
    let h = sim.spawn(2, move || {
        let mut v = vec![];
        for s in &c2.stores {
            v.push(open(s).map(Arc::new));
        }
        v
    });
    let mut stores = vec![];
    match sim.join(vec![h]).pop().unwrap() {
        TaskEnd::Done(v) => {
            for s in v {
                match s {
                    Ok(s) => {
                        stores.push(s);
                        out.opened.push(Ok(()));
                    }
                    Err(e) => out.opened.push(Err(e)),
                }
            }
        }
        TaskEnd::Panicked(m) => out.opened.push(Err(format!("panic: {}", m))),
        _ => out.opened.push(Err("opening did not finish".into())),
    }
    if out.opened.iter().any(|o| o.is_err()) {
        return out;
    }
    let stores = Arc::new(stores);
    sim.arm(c.faults.clone());
    let hs = (0..c.clients.len())
        .map(|i| {
            let (c2, s2, sim2) = (c.clone(), stores.clone(), sim.clone());
            sim.spawn(2, move || run_program(&sim2, i, &c2.clients[i], &s2, &c2.stores, 0))
        })
        .collect();
    out.clients = sim.join(hs).into_iter().map(client_end).collect();
    out.fired_by = {
        let mut g = sim.lock();
        std::mem::take(&mut g.fired_by)
    };
    let (fired, counters) = sim.disarm();
    out.fired = fired.len();
    out.counters = counters;
    if again {
        for i in 0..c.clients.len() {
            let (c2, s2, sim2) = (c.clone(), stores.clone(), sim.clone());
            let h = sim.spawn(2, move || run_program(&sim2, i, &c2.clients[i], &s2, &c2.stores, AGAIN));
            out.again.push(client_end(sim.join(vec![h]).pop().unwrap()));
        }
    }
    out
}

/// One thread of the serving process opens every version and runs one of the programs itself, so
/// that whatever the code keeps per thread, per path or per process meets the newer data.
fn run_renew(sim: &Arc<Sim>, c: &Arc<Case>, swap: bool, keep: bool) -> QueryOut {
    let (sim2, c2) = (sim.clone(), c.clone());
    let h = sim.spawn(2, move || serve_versions(&sim2, &c2, swap, keep));
    match sim.join(vec![h]).pop().unwrap() {
        TaskEnd::Done(out) => out,
        TaskEnd::Panicked(m) => panic!("{}", m),
        TaskEnd::Crashed => resume_unwind(Box::new(SimCrash)),
        TaskEnd::Overrun => resume_unwind(Box::new(SimOverrun)),
        TaskEnd::Misuse(m) => resume_unwind(Box::new(SimMisuse(m))),
    }
}

fn serve_versions(sim: &Arc<Sim>, c: &Arc<Case>, swap: bool, keep: bool) -> QueryOut {
    let mut out = QueryOut::default();
    let mut handles: Vec<Arc<GridStore>> = vec![];
    out.clients = (0..c.clients.len()).map(|_| ClientEnd::Done(vec![])).collect();
    let phase = |j: usize| c.clients[j].iter().map(|o| o.store()).max().unwrap_or(0);
    for i in 0..c.stores.len() {
        let c2 = c.clone();
        if !keep {
            // closed before the directory goes
            handles = vec![];
        }
        let at = dir(&c.stores[i].name);
        if !swap {
            rocksdb::files::remove(sim, &at);
        }
        let h = sim.spawn(1, move || {
            let mut s = c2.stores[i].clone();
            if swap {
                s.name.push_str(".new");
            }
            build_as(BUILDER, &s)
        });
        out.builds.push(Some(build_res(sim.join(vec![h]).pop().unwrap())));
        if swap {
            rocksdb::files::replace(sim, &dir(&format!("{}.new", c.stores[i].name)), &at);
        }
        sim.note("directory replaced");
        match guarded(|| open(&c.stores[i]).map(Arc::new)) {
            Ok(Ok(s)) => {
                handles.push(s);
                out.opened.push(Ok(()));
            }
            Ok(Err(e)) => out.opened.push(Err(e)),
            Err(m) => out.opened.push(Err(format!("panic: {}", m))),
        }
        if out.opened[i].is_err() {
            return out;
        }
        // every older number that is closed stands for the newest handle; nobody asks it
        let mut stores = handles.clone();
        while stores.len() < i + 1 {
            stores.insert(0, handles[handles.len() - 1].clone());
        }
        let stores = Arc::new(stores);
        let mine: Vec<usize> = (0..c.clients.len()).filter(|j| phase(*j) == i).collect();
        if i + 1 == c.stores.len() {
            sim.arm(c.faults.clone());
        }
        let hs = mine
            .iter()
            .skip(1)
            .map(|&j| {
                let (c2, s2, sim2) = (c.clone(), stores.clone(), sim.clone());
                sim.spawn(2, move || run_program(&sim2, j, &c2.clients[j], &s2, &c2.stores, 0))
            })
            .collect();
        if let Some(&j) = mine.first() {
            out.clients[j] = ClientEnd::Done(run_program(sim, j, &c.clients[j], &stores, &c.stores, 0));
            sim.set_owner(0);
        }
        for (j, e) in mine.into_iter().skip(1).zip(sim.join(hs)) {
            out.clients[j] = client_end(e);
        }
    }
    out.fired_by = {
        let mut g = sim.lock();
        std::mem::take(&mut g.fired_by)
    };
    let (fired, counters) = sim.disarm();
    out.fired = fired.len();
    out.counters = counters;
    out
}

fn look(sim: &Arc<Sim>, c: &Arc<Case>, proc_id: u32) -> (Result<Dump, String>, Vec<(QOp, QRes)>) {
    let c2 = c.clone();
    let h = sim.spawn(proc_id, move || {
        let st = match open(&c2.stores[0]) {
            Ok(s) => Arc::new(s),
            Err(e) => return (Err(e), vec![]),
        };
        let older = c2.stores[0].older & LOOK != 0;
        let d = match guarded(|| if older { open_and_dump(LOOK, &c2.stores[0])? } else { dump(&st) }) {
            Ok(r) => r,
            Err(p) => Err(format!("panic: {}", p)),
        };
        let v = vec![st];
        let mut l = vec![];
        for op in c2.clients.iter().flatten() {
            let res = match guarded(|| run_op(op, &v, &c2.stores)) {
                Ok(Ok(v)) => QRes::Ok(v),
                Ok(Err(e)) => QRes::Err(e),
                Err(p) => QRes::Panic(p),
            };
            l.push((op.clone(), res));
        }
        (d, l)
    });
    match sim.join(vec![h]).pop().unwrap() {
        TaskEnd::Done(x) => x,
        TaskEnd::Panicked(m) => (Err(format!("panic: {}", m)), vec![]),
        TaskEnd::Misuse(m) => (Err(format!("panic: misuse: {}", m)), vec![]),
        TaskEnd::Overrun => (Err("panic: overrun".into()), vec![]),
        TaskEnd::Crashed => (Err("crashed".into()), vec![]),
    }
}

fn run_build(
    sim: &Arc<Sim>,
    c: &Arc<Case>,
    readers: u32,
    rivals: u32,
    after: Option<u32>,
    preload: bool,
) -> BuildOut {
    let mut out = BuildOut::default();
    if preload {
        let c2 = c.clone();
        let h = sim.spawn(1, move || {
            // the same data, or an older version of it
            let mut s = c2.stores[c2.stores.len() - 1].clone();
            s.name = c2.stores[0].name.clone();
            build_as(PRELOAD, &s)
        });
        let _ = sim.join(vec![h]);
    }
    sim.arm(c.faults.clone());
    let c2 = c.clone();
    let mut hs = vec![sim.spawn(1, move || build_as(BUILDER, &c2.stores[0]))];
    for r in 0..rivals {
        let c2 = c.clone();
        hs.push(sim.spawn(10 + r, move || build_as(RIVALS, &c2.stores[0])));
    }
    let mut rs = vec![];
    for r in 0..readers {
        let c2 = c.clone();
        rs.push(sim.spawn(20 + r, move || {
            let mut v: Vec<Result<Option<Dump>, String>> = vec![];
            for _ in 0..4 {
                simrt::yield_now();
                match guarded(|| open_and_dump(READERS, &c2.stores[0])) {
                    Ok(Ok(Ok(d))) => v.push(Ok(Some(d))),
                    Ok(Ok(Err(e))) => v.push(Err(e)),
                    Ok(Err(_)) => v.push(Ok(None)),
                    Err(p) => v.push(Err(format!("panic: {}", p))),
                }
            }
            v
        }));
    }
    let mut builds: Vec<BuildRes> = sim.join(hs).into_iter().map(build_res).collect();
    for e in sim.join(rs) {
        match e {
            TaskEnd::Done(v) => {
                let mut dumps = vec![];
                for r in v {
                    match r {
                        Ok(d) => dumps.push(d),
                        Err(e) => out.reader_trouble.push(e),
                    }
                }
                out.readers.push(dumps);
            }
            TaskEnd::Panicked(m) => out.reader_trouble.push(format!("panic: {}", m)),
            TaskEnd::Misuse(m) => out.reader_trouble.push(format!("panic: misuse: {}", m)),
            TaskEnd::Overrun => out.reader_trouble.push("overrun".into()),
            TaskEnd::Crashed => {}
        }
    }
    out.main = Some(builds.remove(0));
    out.rivals = builds;
    out.power_lost = sim.lock().power_lost;
    let (fired, counters) = sim.disarm();
    out.fired = fired;
    out.counters = counters;
    if let Some(keep) = after {
        sim.lock().disk.power_loss(keep);
        sim.note("power loss after the build");
    }
    sim.restart();
    let (d, l) = look(sim, c, 3);
    out.after = Some(d);
    out.lookups = l;
    let c2 = c.clone();
    let h = sim.spawn(4, move || build_as(RETRY, &c2.stores[0]));
    out.retry = Some(build_res(sim.join(vec![h]).pop().unwrap()));
    sim.lock().disk.power_loss(0);
    let (d, l) = look(sim, c, 5);
    out.after_retry = Some(d);
    out.retry_lookups = l;
    out
}

fn run_parallel(sim: &Arc<Sim>, c: &Arc<Case>) -> ParallelOut {
    let mut out = ParallelOut::default();
    sim.arm(c.faults.clone());
    let hs = (0..c.stores.len())
        .map(|i| {
            let c2 = c.clone();
            // odd ones share a process
            sim.spawn(1 + (i as u32 & 1) * (i as u32), move || build_as(BUILDER, &c2.stores[i]))
        })
        .collect();
    out.builds = sim.join(hs).into_iter().map(build_res).collect();
    let (_, counters) = sim.disarm();
    out.counters = counters;
    for i in 0..c.stores.len() {
        let c2 = c.clone();
        let h = sim.spawn(99, move || open(&c2.stores[i]).and_then(|s| dump(&s)));
        out.dumps.push(match sim.join(vec![h]).pop().unwrap() {
            TaskEnd::Done(d) => d,
            TaskEnd::Panicked(m) => Err(format!("panic: {}", m)),
            _ => Err("did not finish".into()),
        });
        let key = rocksdb::files::key(&dir(&c.stores[i].name)).unwrap_or_default();
        let g = sim.lock();
        out.raw.push(match g.disk.dbs.get(&key) {
            Some(db) => db.view().iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect(),
            None => vec![],
        });
    }
    out
}
