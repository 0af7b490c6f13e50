//! Compares what a run did with what the reference model allows.
use crate::case::*;
use crate::exec::*;
use crate::model::*;
use carmen_core::gridstore::{CoalesceContext, CoalesceEntry, GridEntry};
use fuzzy_phrase::glue::{EndingType, FuzzyPhraseSet, FuzzyPhraseSetBuilder, WordReplacement};
use simrt::{Class, Fault, FaultKind};
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Default, Debug)]
pub struct Verdict {
    pub violations: Vec<String>,
    /// call sites of listed defects that showed in this run
    pub known: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    /// answers compared with the model
    pub checked: u64,
    /// the run could not be judged: a defect of the harness
    pub harness: Vec<String>,
}
impl Verdict {
    fn bad(&mut self, s: impl Into<String>) {
        if self.violations.len() < 20 {
            self.violations.push(s.into());
        }
    }
    pub fn probe(&mut self, s: &str) {
        *self.probes.entry(s.to_string()).or_insert(0) += 1;
    }
    fn known(&mut self, s: &str) {
        *self.known.entry(s.to_string()).or_insert(0) += 1;
    }
}

pub const NODE_CAP: usize = 60_000;

/// One model per store; stores that share a name share the first one's data.
pub fn models(case: &Case) -> Vec<MStore> {
    let mut out: Vec<MStore> = vec![];
    for (i, s) in case.stores.iter().enumerate() {
        let renewed = matches!(case.plan, Plan::Renew { .. });
        if let Some(j) = case.stores[..i].iter().position(|t| t.name == s.name && !renewed) {
            let m = MStore {
                spec: StoreSpec { ops: case.stores[j].ops.clone(), ..s.clone() },
                recs: out[j].recs.clone(),
                bins: out[j].bins.clone(),
                binrecs: out[j].binrecs.clone(),
            };
            out.push(m);
        } else {
            out.push(MStore::build(s));
        }
    }
    out
}

// ---- comparing values ----------------------------------------------------------------------------

fn show<T: std::fmt::Debug>(v: &T) -> String {
    let mut s = format!("{:?}", v);
    if s.len() > 700 {
        let mut k = 700;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        s.push_str("...");
    }
    s
}

fn same_me(a: &ME, b: &OutME) -> bool {
    near(a.g.relev, b.g.relev)
        && a.g.score == b.g.score
        && (a.g.x, a.g.y, a.g.id, a.g.source_phrase_hash) == (b.g.x, b.g.y, b.g.id, b.g.source_phrase_hash)
        && a.lang == b.lang
        && near(a.distance, b.distance)
        && near(a.scoredist, b.scoredist)
}
fn same_entry(a: &CoalesceEntry, b: &CoalesceEntry) -> bool {
    let (g, h) = (&a.grid_entry, &b.grid_entry);
    near(g.relev, h.relev)
        && g.score == h.score
        && (g.x, g.y, g.id, g.source_phrase_hash) == (h.x, h.y, h.id, h.source_phrase_hash)
        && a.matches_language == b.matches_language
        && a.idx == b.idx
        && a.tmp_id == b.tmp_id
        && a.mask == b.mask
        && near(a.distance, b.distance)
        && near(a.scoredist, b.scoredist)
        && a.phrasematch_id == b.phrasematch_id
}
pub fn same_ctx(a: &CoalesceContext, b: &CoalesceContext) -> bool {
    near(a.relev, b.relev)
        && a.mask == b.mask
        && a.entries.len() == b.entries.len()
        && a.entries.iter().zip(&b.entries).all(|(x, y)| same_entry(x, y))
}
type CtxId = (u32, Vec<(u16, u32, u16, u16, u32, u8, u8)>);
fn ctx_id(c: &CoalesceContext) -> CtxId {
    (
        c.mask,
        c.entries
            .iter()
            .map(|e| {
                let g = &e.grid_entry;
                (e.idx, e.phrasematch_id, g.x, g.y, g.id, g.source_phrase_hash, g.score)
            })
            .collect(),
    )
}
/// Descending by the documented sort; relevances that are equal up to rounding may be in any order.
fn check_sorted(cs: &[CoalesceContext]) -> Result<(), String> {
    for w in cs.windows(2) {
        let (a, b) = (ctx_key(&w[0]), ctx_key(&w[1]));
        let wrong = if a.0 == b.0 {
            a.1 < b.1 || (a.1 == b.1 && (a.2, a.3, a.4, a.5) < (b.2, b.3, b.4, b.5))
        } else {
            a.0 < b.0 && !near(a.0, b.0)
        };
        if wrong {
            return Err(format!("contexts out of order: {} before {}", show(&w[0]), show(&w[1])));
        }
    }
    Ok(())
}
/// Equal as bags (both must pair up completely); `id`: equal for whatever can pair up.
fn same_bag<A, B, I: std::hash::Hash + Eq>(
    a: &[A],
    b: &[B],
    ida: impl Fn(&A) -> I,
    idb: impl Fn(&B) -> I,
    eq: impl Fn(&A, &B) -> bool,
) -> Result<(), String>
where
    A: std::fmt::Debug,
    B: std::fmt::Debug,
{
    let mut by: HashMap<I, Vec<usize>> = HashMap::new();
    for (i, x) in b.iter().enumerate() {
        by.entry(idb(x)).or_default().push(i);
    }
    for x in a {
        let hit = by.get_mut(&ida(x)).and_then(|l| {
            let k = l.iter().position(|&k| eq(x, &b[k]))?;
            Some(l.swap_remove(k))
        });
        if hit.is_none() {
            return Err(format!("missing {}", show(x)));
        }
    }
    match by.values().flatten().min() {
        Some(k) => Err(format!("unexpected {}", show(&b[*k]))),
        None => Ok(()),
    }
}

fn me_id(g: &GridEntry) -> (u16, u16, u32, u8, u8) {
    (g.x, g.y, g.id, g.source_phrase_hash, g.score)
}

fn compare_grids(want: Option<&Rec>, got: &Option<Vec<GridEntry>>) -> Result<(), String> {
    match (want, got) {
        (None, None) => Ok(()),
        (None, Some(g)) => Err(format!("key was never stored but {} entries came back", g.len())),
        (Some(_), None) => Err("stored key not found".into()),
        (Some(w), Some(g)) => compare_record(w, g),
    }
}
fn compare_record(w: &Rec, g: &[GridEntry]) -> Result<(), String> {
    for (i, e) in g.iter().enumerate() {
        match w.get(i) {
            None => return Err(format!("{} entries instead of {}: surplus {}", g.len(), w.len(), show(e))),
            Some(x) => {
                let x = unpack(*x);
                if x != *e {
                    return Err(format!("entry {} of {} is {} instead of {}", i, w.len(), show(e), show(&x)));
                }
            }
        }
    }
    if g.len() < w.len() {
        return Err(format!(
            "{} entries instead of {}: first missing {}",
            g.len(),
            w.len(),
            show(&unpack(w[g.len()]))
        ));
    }
    Ok(())
}
fn model_keys(st: &MStore) -> Vec<Key> {
    st.recs.iter().map(|(k, v)| (k.0, v.0)).collect()
}
pub fn compare_dump(st: &MStore, d: &Dump) -> Result<(), String> {
    let want = model_keys(st);
    if d.keys != want {
        return Err(format!("keys differ: {} instead of {}", show(&d.keys), show(&want)));
    }
    compare_records(st, &want, &d.records)?;
    let b: Vec<u32> = st.bins.iter().cloned().collect();
    if d.bounds != b {
        return Err(format!("boundaries differ: {} instead of {}", show(&d.bounds), show(&b)));
    }
    Ok(())
}
fn compare_records(st: &MStore, want: &[Key], got: &[(Key, Vec<GridEntry>)]) -> Result<(), String> {
    for (i, (k, v)) in got.iter().enumerate() {
        match want.get(i) {
            Some(w) if w == k => compare_record(st.get(k.0, k.1).unwrap(), v)
                .map_err(|e| format!("record {:?}: {}", k, e))?,
            Some(w) => return Err(format!("record {} has key {:?} instead of {:?}", i, k, w)),
            None => return Err(format!("surplus record {:?}", k)),
        }
    }
    if got.len() < want.len() {
        return Err(format!("record {:?} is missing", want[got.len()]));
    }
    Ok(())
}
/// A store that is not complete: what is there has to be right.
pub fn partial_dump(st: &MStore, d: &Dump, prop: &str) -> Result<(), String> {
    let mut last: Option<(u32, Vec<u8>)> = None;
    let rk: Vec<Key> = d.records.iter().map(|r| r.0).collect();
    if rk != d.keys {
        return Err(format!("keys() and iter() of one handle disagree: {} and {}", show(&d.keys), show(&rk)));
    }
    for (k, v) in &d.records {
        let o = (k.0, lang_bytes(k.1));
        if last.as_ref().map_or(false, |l| *l >= o) {
            return Err(format!("key {:?} out of order", k));
        }
        last = Some(o);
        match st.get(k.0, k.1) {
            None => return Err(format!("key {:?} was never stored", k)),
            Some(w) => {
                compare_record(w, v).map_err(|e| format!("record {:?} is incomplete: {}", k, e))?
            }
        }
    }
    // said of builds that died and of bins, not of the other properties
    if !d.bounds.is_empty() && (prop == "C02" || prop == "C10") {
        compare_dump(st, d).map_err(|e| format!("boundaries are there but the data is not: {}", e))?;
    }
    Ok(())
}

/// A read error made the operation see only part of what is stored: which part.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cut {
    /// the operation's only iterator stops after so many records
    Whole(usize),
    /// stack member / match key with this number stops after so many records
    Part(u32, usize),
    /// match key with this number, fetched for its own sake or not, stops after so many records
    Fetch(u32, bool, usize),
}

pub struct Ctx<'a> {
    pub case: &'a Case,
    pub models: &'a [MStore],
    /// everything a key can deliver, for the soundness checks
    full: std::cell::RefCell<HashMap<String, std::rc::Rc<HashMap<(u16, u16, u32, u8, u8), Vec<ME>>>>>,
    trees: std::cell::RefCell<HashMap<String, std::rc::Rc<Tree>>>,
    stacks: std::cell::RefCell<HashMap<String, std::rc::Rc<StackOut>>>,
    indexes: std::cell::RefCell<Vec<std::rc::Rc<Index>>>,
}

impl<'a> Ctx<'a> {
    pub fn new(case: &'a Case, models: &'a [MStore]) -> Self {
        Ctx {
            case,
            models,
            full: Default::default(),
            trees: Default::default(),
            stacks: Default::default(),
            indexes: Default::default(),
        }
    }

    fn full(&self, store: usize, key: &MKey, o: &MOpts) -> std::rc::Rc<HashMap<(u16, u16, u32, u8, u8), Vec<ME>>> {
        let id = format!("{} {:?} {:?}", store, key, o);
        if let Some(m) = self.full.borrow().get(&id) {
            return m.clone();
        }
        let m = match_stream(&self.models[store], key, o, usize::MAX, usize::MAX, None);
        let mut h: HashMap<(u16, u16, u32, u8, u8), Vec<ME>> = HashMap::new();
        for e in m.entries {
            let k = (e.g.x, e.g.y, e.g.id, e.g.source_phrase_hash, e.g.score);
            h.entry(k).or_default().push(e);
        }
        let r = std::rc::Rc::new(h);
        self.full.borrow_mut().insert(id, r.clone());
        r
    }
    pub fn tree(&self, subs: &[Sub]) -> std::rc::Rc<Tree> {
        let id = format!("{:?}", subs);
        if let Some(t) = self.trees.borrow().get(&id) {
            return t.clone();
        }
        let t = std::rc::Rc::new(build_tree(self.models, subs, NODE_CAP));
        self.trees.borrow_mut().insert(id, t.clone());
        t
    }
    pub fn stack(&self, subs: &[Sub], o: &MOpts) -> std::rc::Rc<StackOut> {
        let id = format!("{:?} {:?}", subs, o);
        if let Some(t) = self.stacks.borrow().get(&id) {
            return t.clone();
        }
        let t = std::rc::Rc::new(stack(self.models, subs, o, None, NODE_CAP));
        self.stacks.borrow_mut().insert(id, t.clone());
        t
    }

    fn index(&self, set: usize) -> std::rc::Rc<Index> {
        let mut l = self.indexes.borrow_mut();
        if l.is_empty() {
            l.extend(self.case.phrases.iter().map(|p| std::rc::Rc::new(Index::new(p))));
        }
        l[set].clone()
    }

    // ---- one answer ------------------------------------------------------------------------------

    pub fn compare(&self, op: &QOp, val: &QVal, cut: Option<Cut>, v: &mut Verdict) -> Result<(), String> {
        let wrong = || Err("answer of another kind".to_string());
        let op = op.plain();
        match (op, val) {
            (QOp::Get { store, phrase, lang }, QVal::Grids(g)) => {
                compare_grids(self.models[*store].get(*phrase, lang.0), g)
            }
            (QOp::Match { store, key, opts, max, take }, QVal::Matches(got)) => {
                let keep = match cut {
                    Some(Cut::Whole(n)) => Some(n),
                    _ => None,
                };
                let lim = take.unwrap_or(usize::MAX);
                let m = match_stream(&self.models[*store], key, opts, *max, lim, keep);
                if self.models[*store].uses_bins(key.phrase) {
                    v.probe("match-from-prefix-bins");
                }
                if m.truncated {
                    v.probe("match-more-keys-than-asked-for");
                }
                if m.entries.is_empty() {
                    v.probe("match-empty");
                } else {
                    v.probe("match-nonempty");
                }
                if !m.ambiguous {
                    let n = m.entries.len().min(got.len());
                    for i in 0..n {
                        if !same_me(&m.entries[i], &got[i]) {
                            return Err(format!(
                                "match {} of {} is {} instead of {}",
                                i,
                                m.entries.len(),
                                show(&got[i]),
                                show(&m.entries[i])
                            ));
                        }
                    }
                    if got.len() > n {
                        return Err(format!("{} matches instead of {}: surplus {}", got.len(), n, show(&got[n])));
                    }
                    if m.entries.len() > n {
                        return Err(format!(
                            "{} matches instead of {}: first missing {}",
                            n,
                            m.entries.len(),
                            show(&m.entries[n])
                        ));
                    }
                    return Ok(());
                }
                v.probe("match-order-not-determined");
                if !m.truncated && take.is_none() {
                    return same_bag(&m.entries, got, |a| me_id(&a.g), |b| me_id(&b.g), same_me);
                }
                let full = self.full(*store, key, opts);
                for g in got {
                    let k = (g.g.x, g.g.y, g.g.id, g.g.source_phrase_hash, g.g.score);
                    if !full.get(&k).map_or(false, |es| es.iter().any(|e| same_me(e, g))) {
                        return Err(format!("match {} is not in the store", show(g)));
                    }
                }
                Ok(())
            }
            (QOp::Keys { store, take }, QVal::Keys(got)) => {
                let mut want = model_keys(&self.models[*store]);
                if let Some(Cut::Whole(n)) = cut {
                    want.truncate(n);
                }
                want.truncate(take.unwrap_or(usize::MAX));
                if *got != want {
                    return Err(format!("keys are {} instead of {}", show(got), show(&want)));
                }
                Ok(())
            }
            (QOp::Iter { store, take }, QVal::Records(got)) => {
                let mut want = model_keys(&self.models[*store]);
                if let Some(Cut::Whole(n)) = cut {
                    want.truncate(n);
                }
                want.truncate(take.unwrap_or(usize::MAX));
                compare_records(&self.models[*store], &want, got)
            }
            (QOp::Braid { ops, .. }, QVal::Many(vals)) => {
                if ops.len() != vals.len() {
                    return wrong();
                }
                for (o, x) in ops.iter().zip(vals) {
                    self.compare(o, x, None, v).map_err(|e| format!("interleaved {}: {}", op_name(o), e))?;
                }
                Ok(())
            }
            (QOp::Coalesce { stack, opts }, QVal::Contexts(got)) => self.compare_coalesce(stack, opts, got, cut, v),
            (QOp::Stack { subs, opts }, QVal::Contexts(got)) => self.compare_stack(subs, opts, got, cut, v),
            (QOp::Tree { subs }, QVal::Tree { collapsed, root }) => self.compare_tree(subs, collapsed, root, v),
            (QOp::Missing { .. }, _) => Err("a store was opened in a directory that no build has written".into()),
            (QOp::Bad { .. }, _) => Err("a wrong call was accepted".into()),
            (QOp::Tree { .. }, QVal::Nothing) => Ok(()),
            (QOp::Reopen { store }, QVal::Keys(got)) => {
                let want = model_keys(&self.models[*store]);
                if *got != want {
                    return Err(format!("keys are {} instead of {}", show(got), show(&want)));
                }
                Ok(())
            }
            (QOp::Phrase { set, op }, QVal::Json(got)) => {
                let want = match self.index(*set).ask(op) {
                    Ok(w) => w,
                    Err(e) => return Err(format!("{} instead of a failure ({})", show(got), e)),
                };
                if *got != want {
                    return Err(format!("{} instead of {}", show(got), show(&want)));
                }
                if want != serde_json::json!([]) && want != serde_json::json!(false) {
                    v.probe("phrase-found");
                }
                Ok(())
            }
            (QOp::Reopen { store }, QVal::Dump(d)) => match cut {
                None => compare_dump(&self.models[*store], d),
                Some(_) => wrong(),
            },
            _ => wrong(),
        }
    }

    fn compare_coalesce(
        &self,
        stack: &[Sub],
        opts: &MOpts,
        got: &[CoalesceContext],
        cut: Option<Cut>,
        v: &mut Verdict,
    ) -> Result<(), String> {
        let trunc = match cut {
            Some(Cut::Part(i, n)) => Some((i as usize, n)),
            Some(Cut::Whole(n)) => Some((0, n)),
            _ => None,
        };
        let m = coalesce(self.models, stack, opts, trunc);
        for p in &m.probes {
            v.probe(p);
        }
        if !m.contexts.is_empty() {
            v.probe(if stack.len() == 1 { "single-nonempty" } else { "multi-nonempty" });
            if m.contexts.iter().any(|c| c.entries.len() > 1) {
                v.probe("multi-stacked");
            }
            if m.contexts.iter().any(|c| c.entries.len() > 2) {
                v.probe("multi-stacked-three-deep");
            }
        }
        check_sorted(got)?;
        if m.ambiguous {
            v.probe("coalesce-not-determined");
            if got.len() > 40 {
                return Err(format!("{} contexts", got.len()));
            }
            return self.sound(stack, opts, got, false);
        }
        if m.contexts.len() != got.len() || !m.contexts.iter().zip(got).all(|(a, b)| same_ctx(a, b)) {
            // rounding may swap contexts whose relevance is equal
            let close = m.contexts.len() == got.len()
                && m.contexts.iter().zip(got).all(|(a, b)| near(a.relev, b.relev))
                && m.contexts.windows(2).any(|w| w[0].relev != w[1].relev && near(w[0].relev, w[1].relev));
            if close {
                v.probe("coalesce-order-up-to-rounding");
                return same_bag(&m.contexts, got, ctx_id, ctx_id, same_ctx);
            }
            for i in 0..m.contexts.len().max(got.len()) {
                match (m.contexts.get(i), got.get(i)) {
                    (Some(a), Some(b)) if same_ctx(a, b) => {}
                    (a, b) => {
                        return Err(format!(
                            "context {} ({} expected, {} returned) is {} instead of {}",
                            i,
                            m.contexts.len(),
                            got.len(),
                            show(&b),
                            show(&a)
                        ))
                    }
                }
            }
        }
        Ok(())
    }

    fn compare_stack(
        &self,
        raw: &[Sub],
        opts: &MOpts,
        got: &[CoalesceContext],
        cut: Option<Cut>,
        v: &mut Verdict,
    ) -> Result<(), String> {
        let m = match cut {
            None => self.stack(raw, opts),
            Some(Cut::Fetch(id, one, n)) => {
                std::rc::Rc::new(stack(self.models, raw, opts, Some((id, one, n)), NODE_CAP))
            }
            Some(_) => return Err("not applicable".into()),
        };
        for p in &m.probes {
            v.probe(p);
        }
        check_sorted(got)?;
        if got.len() > 800 {
            return Err(format!("{} contexts", got.len()));
        }
        self.sound(&m.subs, opts, got, true)?;
        if m.too_big {
            v.probe("stack-tree-over-budget");
            return Ok(());
        }
        if m.ambiguous {
            v.probe("stack-not-determined");
            return Ok(());
        }
        if m.count > 0 {
            v.probe("stack-nonempty");
        }
        for c in &m.cands {
            if c.ctx.entries.len() == 2 {
                v.probe("stack-two-deep");
                break;
            }
        }
        if m.cands.iter().any(|c| c.ctx.entries.len() > 3) {
            v.probe("stack-four-deep");
        }
        if m.cands.iter().any(|c| c.ctx.entries.len() > 2) {
            v.probe("stack-three-deep");
        }
        let mut by: HashMap<CtxId, Vec<usize>> = HashMap::new();
        for (i, c) in m.cands.iter().enumerate() {
            by.entry(ctx_id(&c.ctx)).or_default().push(i);
        }
        let mut used = vec![false; m.cands.len()];
        let worst = got.last().map_or(0.0, |c| c.relev);
        if m.cut_in_ties {
            v.probe("stack-cut-among-equals");
        }
        for g in got {
            let hit = by
                .get(&ctx_id(g))
                .and_then(|l| l.iter().find(|&&i| !used[i] && same_ctx(&m.cands[i].ctx, g)).cloned());
            match hit {
                Some(i) => used[i] = true,
                None if m.cut_in_ties && near(g.relev, worst) => {}
                None => return Err(format!("context {} should not be in the answer", show(g))),
            }
        }
        if got.len() != m.count {
            let missing = (0..used.len()).find(|&i| !used[i] && m.cands[i].required);
            return Err(format!(
                "{} contexts instead of {}; e.g. missing {}",
                got.len(),
                m.count,
                missing.map_or("?".into(), |i| show(&m.cands[i].ctx))
            ));
        }
        if let Some(last) = got.last() {
            let l = ctx_key(last);
            for (i, c) in m.cands.iter().enumerate() {
                if used[i] || !c.required {
                    continue;
                }
                let k = ctx_key(&c.ctx);
                let better = if m.cut_in_ties {
                    k.0 > l.0 && !near(k.0, l.0)
                } else if k.0 == l.0 {
                    k.1 > l.1 && !near(k.1, l.1)
                } else {
                    k.0 > l.0 && !near(k.0, l.0)
                };
                if better || got.len() < 800 {
                    return Err(format!(
                        "context {} is missing although worse ones ({}) are in the answer",
                        show(&c.ctx),
                        show(last)
                    ));
                }
            }
        } else if let Some(c) = m.cands.iter().find(|c| c.required) {
            return Err(format!("nothing returned; e.g. missing {}", show(&c.ctx)));
        }
        Ok(())
    }

    /// What every answer must satisfy even where the choice among equals is free.
    fn sound(&self, subs: &[Sub], opts: &MOpts, got: &[CoalesceContext], tree: bool) -> Result<(), String> {
        for c in got {
            if c.entries.is_empty() {
                return Err("context without entries".into());
            }
            let mut mask = 0u32;
            let mut sum = 0.0;
            // smallest features first
            let mut below: Option<(u16, u16, u16)> = None; // zoom, x, y of the previous entry
            let mut below_type: Option<u16> = None;
            for e in &c.entries {
                if e.mask & mask != 0 {
                    return Err(format!("context {} covers part of the query twice", show(c)));
                }
                mask |= e.mask;
                sum += e.grid_entry.relev;
                let mut ok = false;
                let mut place = None;
                for s in subs.iter().filter(|s| s.idx == e.idx && s.mask == e.mask) {
                    let spec = &self.models[s.store].spec;
                    for k in &s.keys {
                        if tree && k.id != e.phrasematch_id {
                            continue;
                        }
                        let mut o = if tree || subs.len() > 1 { adjust(opts, spec.zoom) } else { opts.clone() };
                        if tree && k.nearby {
                            o = nearby(&o);
                        }
                        let full = self.full(s.store, &k.key, &o);
                        let g = &e.grid_entry;
                        let id = (g.x, g.y, g.id, g.source_phrase_hash, g.score);
                        if full.get(&id).map_or(false, |es| {
                            es.iter().any(|m| {
                                near(m.g.relev * s.weight, g.relev)
                                    && m.lang == e.matches_language
                                    && near(m.distance, e.distance)
                                    && near(m.scoredist, e.scoredist)
                            })
                        }) {
                            ok = true;
                            place = Some((spec.zoom, spec.type_id));
                        }
                    }
                }
                if !ok {
                    return Err(format!("entry {} of context {} matches nothing stored", show(e), show(c)));
                }
                let (z, t) = place.unwrap();
                // a stack's members come largest zoom first; a coalesce compares all with the first
                if let Some((bz, bx, by)) = below {
                    if z > bz || (bx >> (bz - z), by >> (bz - z)) != (e.grid_entry.x, e.grid_entry.y) {
                        return Err(format!("context {}: stacked features do not overlap", show(c)));
                    }
                }
                if tree {
                    if let Some(bt) = below_type {
                        if t >= bt {
                            return Err(format!("context {}: feature types out of order", show(c)));
                        }
                    }
                    below_type = Some(t);
                }
                if tree || below.is_none() {
                    below = Some((z, e.grid_entry.x, e.grid_entry.y));
                }
            }
            if mask != c.mask {
                return Err(format!("context {} has the wrong mask", show(c)));
            }
            let d = sum - c.relev;
            if d.abs() > 1e-6 && (d - 0.01).abs() > 1e-6 {
                return Err(format!("context {}: relevance does not add up to {}", show(c), sum));
            }
        }
        Ok(())
    }

    fn compare_tree(&self, raw: &[Sub], collapsed: &[Sub], root: &OutNode, v: &mut Verdict) -> Result<(), String> {
        let want = collapse(raw);
        if collapsed != &want[..] {
            return Err(format!("subqueries collapsed to {} instead of {}", show(&collapsed), show(&want)));
        }
        let t = self.tree(&want);
        // every path has to be a legal stack
        let mut stacks: BTreeSet<Vec<usize>> = BTreeSet::new();
        let mut leaves: Vec<f64> = vec![];
        let mut todo: Vec<(&OutNode, Vec<usize>, u32, f64)> = vec![(root, vec![], 0, 0.0)];
        while let Some((n, path, mask, relev)) = todo.pop() {
            let mut best = relev;
            for c in &n.children {
                if c.sub >= want.len() {
                    return Err("node without a subquery".into());
                }
                let s = &want[c.sub];
                if let Some(&p) = path.last() {
                    let (a, b) = (
                        self.models[want[p].store].spec.type_id,
                        self.models[s.store].spec.type_id,
                    );
                    if a >= b {
                        return Err(format!("type {} stacked on type {}", b, a));
                    }
                }
                let on: Vec<&Sub> = path.iter().map(|&p| &want[p]).collect();
                if !may_stack(&on, s) {
                    return Err(format!("subquery {} cannot be stacked on {:?}", c.sub, path));
                }
                if c.mask != mask | s.mask || c.idx != s.idx || c.zoom != self.models[s.store].spec.zoom {
                    return Err(format!("node {:?}+{} is mislabelled: {}", path, c.sub, show(c)));
                }
                let mut p2 = path.clone();
                p2.push(c.sub);
                if !stacks.insert(p2.clone()) {
                    return Err(format!("stack {:?} is in the tree twice", p2));
                }
                if c.max_relev > best {
                    best = c.max_relev;
                }
                todo.push((c, p2, mask | s.mask, relev + s.weight));
            }
            if n.children.is_empty() && !path.is_empty() {
                leaves.push(relev);
            }
            if !near(n.max_relev, best) && (t.leaves <= LEAF_SOFT_MAX || n.max_relev < best) {
                return Err(format!("stack {:?}: best relevance is {} instead of {}", path, n.max_relev, best));
            }
        }
        let min = leaves.iter().cloned().fold(f64::INFINITY, f64::min);
        let over = leaves.iter().filter(|l| **l > min && !near(**l, min)).count();
        if t.too_big || t.leaves > LEAF_SOFT_MAX {
            v.probe("tree-over-budget");
            if over > LEAF_SOFT_MAX {
                return Err(format!("{} stacks kept that are better than the worst", over));
            }
            if leaves.len() < LEAF_SOFT_MAX {
                return Err(format!("only {} stacks kept", leaves.len()));
            }
            if t.too_big {
                v.probe("tree-not-enumerated");
                return Ok(());
            }
        } else {
            v.probe("tree-within-budget");
        }
        // and every legal stack has to be there, as far as the budget goes
        let mut todo: Vec<(Vec<usize>, usize, f64)> =
            t.roots.iter().map(|&r| (vec![], r, 0.0)).collect();
        let mut total = 0;
        while let Some((path, n, relev)) = todo.pop() {
            let node = &t.nodes[n];
            let mut p2 = path.clone();
            p2.push(node.sub);
            let r2 = relev + want[node.sub].weight;
            if t.leaves <= LEAF_SOFT_MAX {
                total += 1;
                if !stacks.contains(&p2) {
                    return Err(format!("stack {:?} is missing", p2));
                }
            } else if node.children.is_empty() && r2 > min && !near(r2, min) && !stacks.contains(&p2) {
                return Err(format!("stack {:?} with relevance {} is missing; {} is in", p2, r2, min));
            }
            for &c in &node.children {
                todo.push((p2.clone(), c, r2));
            }
        }
        if t.leaves <= LEAF_SOFT_MAX && total != stacks.len() {
            return Err(format!("{} stacks instead of {}", stacks.len(), total));
        }
        if t.leaves > 0 {
            v.probe("tree-nonempty");
        }
        Ok(())
    }

    // ---- one operation ---------------------------------------------------------------------------

    /// `hits`: the error faults that hit this operation.
    pub fn judge_op(&self, who: &str, op: &QOp, res: &QRes, hits: &[Fault], v: &mut Verdict) {
        v.checked += 1;
        if matches!(op, QOp::Older { .. }) {
            v.probe("asked-by-earlier-release");
        }
        let op = op.plain();
        let errors: Vec<&Fault> = hits.iter().filter(|f| matches!(f.kind, FaultKind::Error { .. })).collect();
        match res {
            QRes::Panic(p) if p == ABANDONED && matches!(op, QOp::Abandon { .. }) => {
                v.probe("caller-gave-up-with-an-iterator-open")
            }
            QRes::Panic(p) => v.bad(format!("{} {} panicked: {}", who, show(op), p)),
            QRes::Err(_) if matches!(op, QOp::Missing { .. }) => v.probe("missing-store-refused"),
            QRes::Err(_) if self.must_refuse(op) => v.probe("wrong-call-refused"),
            QRes::Err(e) => {
                if errors.is_empty() {
                    v.bad(format!("{} {} failed without a fault: {}", who, show(op), e));
                } else {
                    v.probe("read-error-reported");
                }
            }
            QRes::Ok(val) => {
                let must_fail = errors.iter().any(|f| matches!(f.class, Class::Get | Class::Open));
                if must_fail {
                    // a second try, say, is welcome; a wrong answer is not
                    match self.compare(op, val, None, v) {
                        Ok(()) => v.probe("right-answer-in-spite-of-an-error"),
                        Err(e) => {
                            v.bad(format!("{} {} succeeded although a read failed: {}", who, show(op), e))
                        }
                    }
                    return;
                }
                match self.compare(op, val, None, v) {
                    Ok(()) => {}
                    Err(e) => {
                        if let (QOp::Reopen { store }, QVal::Dump(d), false) = (op, val, errors.is_empty()) {
                            match self.dump_cut_short(*store, d) {
                                Some(sites) => {
                                    for s in sites {
                                        v.known(&format!("{} {}", s, simrt::class_name(errors[0].class)));
                                    }
                                }
                                None => v.bad(format!("{} {} under a read error: {}", who, show(op), e)),
                            }
                        } else if !errors.is_empty() && (self.cut_short(op, val) || self.cut_often(op, val, &errors)) {
                            v.known(&format!("{} {}", op_name(op), simrt::class_name(errors[0].class)));
                        } else if !errors.is_empty() {
                            v.bad(format!(
                                "{} {} under a read error: neither an error nor the right answer nor a prefix: {}",
                                who,
                                show(op),
                                e
                            ));
                        } else {
                            v.bad(format!("{}: {}; in {}", who, e, show(op)));
                        }
                    }
                }
            }
        }
    }

    fn must_refuse(&self, op: &QOp) -> bool {
        match op {
            QOp::Bad { .. } => true,
            QOp::Phrase { set, op } => self.index(*set).ask(op).is_err(),
            _ => false,
        }
    }

    /// Which of the two listings of a dump ended early, if that is all that is wrong with it.
    fn dump_cut_short(&self, store: usize, d: &Dump) -> Option<Vec<&'static str>> {
        let want = model_keys(&self.models[store]);
        let bounds: Vec<u32> = self.models[store].bins.iter().cloned().collect();
        if d.bounds != bounds || d.keys.len() > want.len() || d.keys[..] != want[..d.keys.len()] {
            return None;
        }
        let n = d.records.len();
        if n > want.len() || compare_records(&self.models[store], &want[..n], &d.records).is_err() {
            return None;
        }
        let mut out = vec![];
        if d.keys.len() < want.len() {
            out.push("keys");
        }
        if n < want.len() {
            out.push("iter");
        }
        Some(out)
    }

    /// Several scans of one operation failed: what is left has to be real data all the same.
    fn cut_often(&self, op: &QOp, val: &QVal, errors: &[&Fault]) -> bool {
        let many = errors.len() > 1 || errors.iter().any(|f| matches!(f.kind, FaultKind::Error { sticky: true, .. }));
        if !many {
            return false;
        }
        match (op, val) {
            (QOp::Coalesce { stack, opts }, QVal::Contexts(got)) => {
                check_sorted(got).is_ok() && self.sound(stack, opts, got, false).is_ok()
            }
            (QOp::Stack { subs, opts }, QVal::Contexts(got)) => {
                check_sorted(got).is_ok() && self.sound(&collapse(subs), opts, got, true).is_ok()
            }
            _ => false,
        }
    }

    /// Whether the answer is exactly what an iteration that ends early gives.
    fn cut_short(&self, op: &QOp, val: &QVal) -> bool {
        let mut scratch = Verdict::default();
        let mut ok = |c: Cut| self.compare(op, val, Some(c), &mut scratch).is_ok();
        match op {
            QOp::Match { store, key, .. } => {
                let n = self.models[*store].visited(key.phrase).len();
                (0..n).any(|k| ok(Cut::Whole(k)))
            }
            QOp::Keys { store, .. } | QOp::Iter { store, .. } => {
                (0..self.models[*store].recs.len()).any(|k| ok(Cut::Whole(k)))
            }
            QOp::Coalesce { stack, .. } => stack.iter().enumerate().any(|(i, s)| {
                let n = self.models[s.store].visited(s.keys[0].key.phrase).len();
                (0..n).any(|k| ok(Cut::Part(i as u32, k)))
            }),
            QOp::Stack { subs, .. } => subs.iter().any(|s| {
                s.keys.iter().any(|key| {
                    let n = self.models[s.store].visited(key.key.phrase).len();
                    (0..n).any(|k| ok(Cut::Fetch(key.id, false, k)) || ok(Cut::Fetch(key.id, true, k)))
                })
            }),
            _ => false,
        }
    }

    // ---- work ------------------------------------------------------------------------------------

    fn judge_work(&self, who: &str, op: &QOp, l: u64, ops: &[u64; 13], seeks: &[(u64, Vec<u8>)], v: &mut Verdict) {
        let (gets, seek, next) =
            (ops[Class::Get as usize], ops[Class::Seek as usize], ops[Class::Next as usize]);
        let mut limit = |what: &str, n: u64, max: u64| {
            if n > max {
                v.bad(format!("{} {} made {} storage {} where {} do", who, show(op), n, what, max));
            }
        };
        match op {
            QOp::Get { .. } => {
                limit("lookups", gets, 1);
                limit("scans", seek, 0);
            }
            QOp::Match { store, key, .. } => {
                limit("scans", seek, 1);
                limit("steps", next, self.models[*store].visited(key.phrase).len() as u64 + 1);
            }
            QOp::Keys { store, take } | QOp::Iter { store, take } => {
                limit("scans", seek, 1);
                let n = self.models[*store].recs.len() as u64;
                limit("steps", next, n.min(take.unwrap_or(usize::MAX) as u64).saturating_add(1));
            }
            QOp::Coalesce { stack, .. } => {
                limit("scans", seek, stack.len() as u64);
                let n: usize = stack.iter().map(|s| self.models[s.store].visited(s.keys[0].key.phrase).len() + 1).sum();
                limit("steps", next, n as u64);
            }
            QOp::Stack { subs, opts } => {
                let m = self.stack(subs, opts);
                if !m.ambiguous && !m.cut_in_ties && !m.too_big {
                    limit("scans", seek, m.fetches.len() as u64);
                    let n: usize = m
                        .fetches
                        .iter()
                        .map(|f| self.models[m.subs[f.2].store].visited(f.3.phrase).len() + 1)
                        .sum();
                    limit("steps", next, n as u64);
                } else {
                    let keys: usize = m.subs.iter().map(|s| s.keys.len()).sum();
                    limit("scans", seek, 2 * keys as u64);
                }
                self.judge_quotas(who, op, &m.subs, l, seeks, v);
            }
            _ => {}
        }
    }

    /// Counts scans per kind from the storage operations themselves.
    fn judge_quotas(&self, who: &str, op: &QOp, subs: &[Sub], l: u64, seeks: &[(u64, Vec<u8>)], v: &mut Verdict) {
        // (start of the scan in storage) -> the kinds of scan it can be
        let mut kinds: HashMap<(String, u32), Vec<[bool; 5]>> = HashMap::new();
        for s in subs {
            let spec = &self.models[s.store].spec;
            for k in &s.keys {
                let (start, range) = match k.key.phrase {
                    MPhrase::Exact(p) => (p, false),
                    MPhrase::Range(a, b) => (a, b.wrapping_sub(a) > 1),
                };
                let one = range && s.mask.count_ones() == 1;
                let slow = spec.zoom >= 14 && !k.nearby;
                kinds.entry((spec.name.clone(), start)).or_default().push([
                    one && k.len == 1,
                    one && slow,
                    one,
                    range && slow,
                    slow,
                ]);
            }
        }
        let names = [
            "one-letter range scans",
            "one-word range scans of high-zoom stores",
            "one-word range scans",
            "range scans of high-zoom stores",
            "scans of high-zoom stores",
        ];
        let max = [8, 8, 40, 40, 600];
        let mut n = [0usize; 5];
        for (owner, d) in seeks {
            if *owner != l {
                continue;
            }
            let bar = match d.iter().position(|b| *b == b'|') {
                Some(b) => b,
                None => continue,
            };
            let (path, key) = (String::from_utf8_lossy(&d[..bar]).to_string(), &d[bar + 1..]);
            if key.len() < 5 {
                continue;
            }
            let start = u32::from_be_bytes([key[1], key[2], key[3], key[4]]);
            let name = path.rsplit('/').next().unwrap_or("").to_string();
            if let Some(ks) = kinds.get(&(name, start)) {
                for q in 0..5 {
                    if ks.iter().all(|k| k[q]) {
                        n[q] += 1;
                    }
                }
            }
        }
        for q in 0..5 {
            if n[q] >= max[q] {
                v.probe(&format!("quota reached: {}", names[q]));
            }
            if n[q] > max[q] {
                v.bad(format!("{} {} made {} {} where {} are allowed", who, show(op), n[q], names[q], max[q]));
            }
        }
    }

    // ---- whole runs ------------------------------------------------------------------------------

    pub fn judge(&self, run: &RunOut, v: &mut Verdict) {
        if self.case.stores.iter().any(|s| s.older & (BUILDER | RETRY | PRELOAD | RIVALS) != 0) {
            v.probe("built-by-earlier-release");
        }
        if self.case.stores.iter().any(|s| s.older & (READERS | LOOK) != 0) {
            v.probe("looked-at-by-earlier-release");
        }
        match &run.plan {
            PlanOut::Broken(m) => v.harness.push(m.clone()),
            PlanOut::Overrun => v.bad(format!("no end after {} storage operations", run.stats.steps)),
            PlanOut::Query(q) => self.judge_query(run, q, v),
            PlanOut::Build(b) => self.judge_build(b, v),
            PlanOut::Parallel(p) => self.judge_parallel(p, v),
            PlanOut::Binding(b) => self.judge_binding(run, b, v),
        }
    }

    /// Errors that hit the storage operations of somebody.
    fn hits(q: &QueryOut, owner: u64) -> Vec<Fault> {
        q.fired_by
            .iter()
            .filter(|f| f.0 == owner)
            .map(|f| f.1.clone())
            .filter(|f| matches!(f.kind, FaultKind::Error { .. } | FaultKind::ErrorButApplied { .. }))
            .collect()
    }

    fn judge_binding(&self, run: &RunOut, b: &BindingOut, v: &mut Verdict) {
        v.checked += b.refusals;
        for t in &b.trouble {
            v.bad(t.clone());
        }
        for (i, got) in b.sets.iter().enumerate() {
            let (who, want) = (format!("phrase set {}", i), self.index(i));
            let hurt = !Self::hits(&b.q, BUILD + 1000 + i as u64).is_empty();
            for (k, (w, g)) in want.inserts.iter().zip(&got.inserts).enumerate() {
                v.checked += 1;
                match (w, g) {
                    (Ok(w), Ok(g)) if w == g => {}
                    (Err(_), Err(_)) => v.probe("phrase-refused"),
                    _ => v.bad(format!("{}: inserting phrase {} gave {:?} instead of {:?}", who, k, g, w)),
                }
            }
            v.checked += 1;
            match &got.map {
                Ok(m) if *m == want.map => v.probe("identifier-map"),
                Ok(m) => v.bad(format!("{}: identifier map {} instead of {}", who, show(m), show(&want.map))),
                Err(_) if hurt => v.probe("phrase-set-build-failed"),
                Err(e) => v.bad(format!("{}: failed without a fault: {}", who, e)),
            }
        }
        for (i, r) in b.q.builds.iter().enumerate() {
            let r = match r {
                Some(r) => r,
                None => continue,
            };
            let (who, spec) = (format!("building store {}", i), &self.case.stores[i]);
            match r {
                BuildRes::Done { ops, finish } if !Self::hits(&b.q, BUILD + i as u64).is_empty() => {
                    self.judge_ops(&who, spec, ops, v);
                    match finish {
                        Ok(()) => v.probe("build-succeeded-in-spite-of-an-error"),
                        Err(_) => v.probe("build-failed"),
                    }
                }
                _ => self.judge_clean_build(&who, spec, r, v),
            }
        }
        for (i, r) in b.rebuilt.iter().enumerate() {
            if let Some(r) = r {
                v.probe("built-again");
                self.judge_clean_build(&format!("building store {} again", i), &self.case.stores[i], r, v);
            }
        }
        self.judge_query(run, &b.q, v);
    }

    fn judge_query(&self, run: &RunOut, q: &QueryOut, v: &mut Verdict) {
        let (mut sets, mut own) = (None, false);
        if let PlanOut::Binding(b) = &run.plan {
            sets = Some(&b.sets);
            own = true;
        }
        for (i, b) in q.builds.iter().enumerate() {
            if let (Some(b), false) = (b, own) {
                self.judge_clean_build(&format!("building store {}", i), &self.case.stores[i], b, v);
            }
        }
        for (i, o) in q.opened.iter().enumerate() {
            if let Err(e) = o {
                v.bad(format!("store {} does not open: {}", i, e));
            }
        }
        if !v.violations.is_empty() {
            return;
        }
        for (round, ends) in [(0, &q.clients), (AGAIN, &q.again)] {
            for (ci, end) in ends.iter().enumerate() {
                let recs = match end {
                    ClientEnd::Done(r) => r,
                    ClientEnd::Crashed => {
                        v.harness.push("client crashed".into());
                        continue;
                    }
                    ClientEnd::Overrun => {
                        v.bad(format!("client {} made no progress within the step budget", ci));
                        continue;
                    }
                    ClientEnd::Misuse(m) => {
                        v.bad(format!("client {} broke a rule of the storage engine: {}", ci, m));
                        continue;
                    }
                    ClientEnd::Panicked(m) => {
                        v.bad(format!("client {} panicked: {}", ci, m));
                        continue;
                    }
                };
                for (oi, rec) in recs.iter().enumerate() {
                    let op = &self.case.clients[ci][oi];
                    if let (QOp::Phrase { set, .. }, Some(sets)) = (op, sets) {
                        if sets[*set].map.is_err() {
                            // nobody built it
                            continue;
                        }
                    }
                    let hits: Vec<Fault> = if round == 0 {
                        q.fired_by.iter().filter(|f| f.0 == rec.label).map(|f| f.1.clone()).collect()
                    } else {
                        vec![]
                    };
                    let who = format!(
                        "client {} op {}{}",
                        ci,
                        oi,
                        if round == 0 { "" } else { " (again, faults over)" }
                    );
                    let hurt = hits.iter().any(|h| matches!(h.kind, FaultKind::Error { .. }));
                    if self.case.prop == "C12" && hurt {
                        // whether the error shows is C03's business
                        v.checked += 1;
                        v.probe("operation-hit-by-a-fault");
                        if let QRes::Panic(p) = &rec.res {
                            if p == ABANDONED && matches!(op, QOp::Abandon { .. }) {
                                continue;
                            }
                            v.bad(format!("{} {} panicked: {}", who, show(op), p));
                        }
                        continue;
                    }
                    self.judge_op(&who, op, &rec.res, &hits, v);
                    if self.case.prop == "C11" && hits.iter().all(|h| !matches!(h.kind, FaultKind::Error { .. })) {
                        if let Some(ops) = run.owner_ops.get(&rec.label) {
                            self.judge_work(&who, op, rec.label, ops, &run.seeks, v);
                        }
                    }
                }
            }
        }
    }

    fn judge_ops(&self, who: &str, spec: &StoreSpec, ops: &[Option<String>], v: &mut Verdict) {
        let mut b = BuilderModel::default();
        for (i, op) in spec.ops.iter().enumerate() {
            let want = b.apply(op);
            v.checked += 1;
            match (want, ops.get(i)) {
                (_, None) => {}
                (OpOutcome::Ok, Some(Some(e))) => {
                    v.bad(format!("{}: builder operation {} failed: {}", who, i, e))
                }
                (OpOutcome::Ok, Some(None)) => {}
                (o, Some(None)) => v.bad(format!(
                    "{}: builder operation {} ({}) succeeded instead of failing as {:?}",
                    who,
                    i,
                    show(op),
                    o
                )),
                (_, Some(Some(_))) => v.probe("renumber-rejected"),
            }
        }
    }

    /// A build nothing interfered with.
    fn judge_clean_build(&self, who: &str, spec: &StoreSpec, b: &BuildRes, v: &mut Verdict) {
        match b {
            BuildRes::Done { ops, finish } => {
                self.judge_ops(who, spec, ops, v);
                if let Err(e) = finish {
                    v.bad(format!("{}: failed without a fault: {}", who, e));
                }
            }
            BuildRes::Panic(m) => v.bad(format!("{}: panicked: {}", who, m)),
            BuildRes::Crashed => v.harness.push(format!("{}: crashed", who)),
            BuildRes::Overrun => v.bad(format!("{}: never ends", who)),
            BuildRes::Misuse(m) => v.bad(format!("{}: broke a rule of the storage engine: {}", who, m)),
        }
    }

    /// A build over an older store with other data. The keys of the new build answer from it alone
    /// once it has reported success; until then each key has its older or its newer entries, all of
    /// them. What becomes of keys only the older store had is not said.
    fn judge_over(&self, b: &BuildOut, v: &mut Verdict) {
        let (new, old) = (&self.models[0], &self.models[1]);
        let silent = b.fired.iter().any(|f| matches!(f.kind, FaultKind::SilentFlushFailure));
        let check = |d: &Dump, done: bool| -> Result<(), String> {
            let rk: Vec<Key> = d.records.iter().map(|r| r.0).collect();
            if rk != d.keys {
                return Err(format!("keys() and iter() of one handle disagree: {} and {}", show(&d.keys), show(&rk)));
            }
            for (k, got) in &d.records {
                let (n, o) = (new.get(k.0, k.1), old.get(k.0, k.1));
                let fits = |w: Option<&Vec<u128>>| w.map_or(false, |w| compare_record(w, got).is_ok());
                match (n, o) {
                    (None, None) => return Err(format!("key {:?} was never stored", k)),
                    (Some(w), _) if done => compare_record(w, got).map_err(|e| format!("record {:?}: {}", k, e))?,
                    _ if !fits(n) && !fits(o) => {
                        return Err(format!("record {:?} is neither the older one nor the newer one: {}", k, show(got)))
                    }
                    _ => {}
                }
            }
            if done {
                let have: BTreeSet<Key> = d.keys.iter().cloned().collect();
                if let Some(k) = model_keys(new).into_iter().find(|k| !have.contains(k)) {
                    return Err(format!("record {:?} is missing", k));
                }
                let bins: Vec<u32> = new.bins.iter().cloned().collect();
                if d.bounds != bins {
                    return Err(format!("boundaries differ: {} instead of {}", show(&d.bounds), show(&bins)));
                }
            }
            Ok(())
        };
        let lookups = |who: &str, l: &Vec<(QOp, QRes)>, done: bool, v: &mut Verdict| {
            for (op, res) in l {
                match (op.plain(), res) {
                    (_, QRes::Panic(p)) => v.bad(format!("{} {} panicked: {}", who, show(op), p)),
                    (QOp::Get { phrase, lang, .. }, _) if done && new.get(*phrase, lang.0).is_some() => {
                        self.judge_op(who, op, res, &[], v)
                    }
                    _ => {}
                }
            }
        };
        let mut done = false;
        for r in b.main.iter() {
            match r {
                BuildRes::Done { ops, finish } => {
                    self.judge_ops("the build", &self.case.stores[0], ops, v);
                    done = finish.is_ok() && !(silent && b.power_lost);
                }
                BuildRes::Panic(m) => v.bad(format!("the build panicked: {}", m)),
                BuildRes::Crashed => {}
                BuildRes::Overrun => v.bad("the build never ends"),
                BuildRes::Misuse(m) => v.bad(format!("the build broke a rule of the storage engine: {}", m)),
            }
        }
        v.probe(if done { "built-over-older" } else { "building-over-older-failed" });
        for t in b.reader_trouble.iter().filter(|t| t.starts_with("panic")) {
            v.bad(format!("a reader of a store that is being built over {}", t));
        }
        for (i, d) in b.readers.iter().enumerate().flat_map(|(i, ds)| ds.iter().flatten().map(move |d| (i, d))) {
            v.checked += 1;
            if let Err(e) = check(d, false) {
                v.bad(format!("reader {} of a store that is being built over: {}", i, e));
            }
        }
        v.checked += 2;
        match &b.after {
            Some(Ok(d)) => {
                if let Err(e) = check(d, done) {
                    if done && silent && self.case.plan.loses_power() && check(d, false).is_ok() {
                        v.known("finish flush");
                    } else {
                        v.bad(format!("after building over an older store{}: {}", if done { "" } else { " failed" }, e));
                    }
                } else {
                    lookups("afterwards", &b.lookups, done, v);
                }
            }
            Some(Err(e)) if e.starts_with("panic") || done => v.bad(format!("after building over an older store: {}", e)),
            _ => {}
        }
        let again = match &b.retry {
            Some(BuildRes::Done { finish: Ok(()), .. }) => true,
            Some(BuildRes::Done { finish: Err(_), .. }) => false,
            Some(r) => {
                self.judge_clean_build("building again", &self.case.stores[0], r, v);
                false
            }
            None => return v.harness.push("no retry".into()),
        };
        match &b.after_retry {
            Some(Ok(d)) => match check(d, again) {
                Ok(()) => lookups("after building again", &b.retry_lookups, again, v),
                Err(e) => v.bad(format!("after building again: {}", e)),
            },
            Some(Err(e)) if e.starts_with("panic") || again => {
                v.bad(format!("after building again the store cannot be read: {}", e))
            }
            _ => {}
        }
    }

    fn judge_build(&self, b: &BuildOut, v: &mut Verdict) {
        if matches!(self.case.plan, Plan::Build { preload: true, .. }) && self.models.len() > 1 {
            return self.judge_over(b, v);
        }
        let (readers, rivals, after, preload) = match self.case.plan {
            Plan::Build { readers, rivals, after, preload } => (readers, rivals, after, preload),
            _ => return v.harness.push("plan mismatch".into()),
        };
        let _ = readers;
        let st = &self.models[0];
        let spec = &self.case.stores[0];
        let errors = b.fired.iter().any(|f| {
            matches!(f.kind, FaultKind::Error { .. } | FaultKind::ErrorButApplied { .. })
        });
        let crashes = b
            .fired
            .iter()
            .any(|f| matches!(f.kind, FaultKind::ProcessCrash | FaultKind::PowerLoss { .. }));
        let silent = b.fired.iter().any(|f| matches!(f.kind, FaultKind::SilentFlushFailure));
        let mut succeeded = preload;
        let all: Vec<&BuildRes> = b.main.iter().chain(b.rivals.iter()).collect();
        for (i, r) in all.iter().enumerate() {
            let who = if i == 0 { "the build".to_string() } else { format!("rival build {}", i) };
            v.checked += 1;
            match r {
                BuildRes::Done { ops, finish } => {
                    self.judge_ops(&who, spec, ops, v);
                    match finish {
                        Ok(()) => {
                            v.probe("build-succeeded");
                            let sticky_or_hit = b.fired.iter().any(|f| {
                                matches!(f.kind, FaultKind::Error { .. } | FaultKind::ErrorButApplied { .. })
                                    && matches!(
                                        f.class,
                                        Class::Create | Class::Put | Class::Delete | Class::Mutation | Class::Open
                                    )
                            });
                            // with one builder and no reader, an error can only have hit the build
                            if sticky_or_hit && rivals == 0 && readers == 0 {
                                // a second try, say, is welcome: what is there is looked at below
                                v.probe("build-succeeded-in-spite-of-an-error");
                            }
                            if !(silent && b.power_lost) {
                                succeeded = true;
                            }
                        }
                        Err(e) => {
                            v.probe("build-failed");
                            // a second opener is turned away by the lock
                            if !errors && rivals == 0 {
                                v.bad(format!("{} failed without a fault: {}", who, e));
                            }
                        }
                    }
                }
                BuildRes::Panic(m) => v.bad(format!("{} panicked: {}", who, m)),
                BuildRes::Crashed => {
                    v.probe("build-crashed");
                    if !crashes {
                        v.harness.push("build crashed without a fault".into());
                    }
                }
                BuildRes::Overrun => v.bad(format!("{} never ends", who)),
                BuildRes::Misuse(m) => v.bad(format!("{} broke a rule of the storage engine: {}", who, m)),
            }
        }
        if rivals > 0 && !errors && !crashes && !succeeded {
            v.bad("no build got through although nothing failed");
        }
        for t in &b.reader_trouble {
            let crash_related = t.starts_with("overrun");
            if crash_related {
                v.bad(format!("a reader made no progress: {}", t));
            } else if t.starts_with("panic") {
                v.bad(format!("a reader of the unfinished store {}", t));
            }
        }
        for (i, ds) in b.readers.iter().enumerate() {
            let mut seen: BTreeSet<Key> = BTreeSet::new();
            for d in ds.iter().flatten() {
                v.checked += 1;
                v.probe(if d.keys.is_empty() {
                    "reader-saw-empty-store"
                } else if d.keys.len() < st.recs.len() {
                    "reader-saw-part"
                } else {
                    "reader-saw-everything"
                });
                if let Err(e) = partial_dump(st, d, &self.case.prop) {
                    v.bad(format!("reader {} of the unfinished store: {}", i, e));
                }
                if preload {
                    if let Err(e) = compare_dump(st, d) {
                        v.bad(format!("reader {} of a store that is being rebuilt: {}", i, e));
                    }
                }
                // nothing is ever taken back
                let now: BTreeSet<Key> = d.keys.iter().cloned().collect();
                if !b.power_lost && !seen.is_subset(&now) {
                    v.bad(format!("reader {}: keys disappeared", i));
                }
                seen = now;
            }
        }
        v.checked += 1;
        let lost_by_flush = silent && (after.is_some() || b.power_lost);
        match &b.after {
            Some(Ok(d)) => {
                let full = compare_dump(st, d);
                if full.is_ok() {
                    v.probe("store-complete-after");
                } else if d.keys.is_empty() {
                    v.probe("store-empty-after");
                } else {
                    v.probe("store-partial-after");
                }
                if succeeded {
                    if let Err(e) = full {
                        if lost_by_flush && !preload && partial_dump(st, d, &self.case.prop).is_ok() {
                            v.known("finish flush");
                        } else {
                            v.bad(format!("after a build that reported success: {}", e));
                        }
                    }
                } else if let Err(e) = partial_dump(st, d, &self.case.prop) {
                    v.bad(format!("after a build that did not finish: {}", e));
                }
                let done = compare_dump(st, d).is_ok();
                for (op, res) in &b.lookups {
                    if done {
                        self.judge_op("afterwards", op, res, &[], v);
                    } else if let QRes::Panic(p) = res {
                        v.bad(format!("afterwards {} panicked: {}", show(op), p));
                    } else if let (QOp::Get { phrase, lang, .. }, QRes::Ok(QVal::Grids(Some(g)))) = (op.plain(), res) {
                        if let Err(e) = compare_grids(st.get(*phrase, lang.0), &Some(g.clone())) {
                            v.bad(format!("afterwards {}: {}", show(op), e));
                        }
                    }
                }
            }
            Some(Err(e)) if e.starts_with("panic") => v.bad(format!("looking at the store afterwards: {}", e)),
            Some(Err(e)) => {
                v.probe("store-absent-after");
                if succeeded {
                    if lost_by_flush && !preload {
                        v.known("finish flush");
                    } else {
                        v.bad(format!("after a build that reported success the store does not open: {}", e));
                    }
                }
            }
            None => v.harness.push("no look afterwards".into()),
        }
        match &b.retry {
            Some(r) => self.judge_clean_build("building again", spec, r, v),
            None => v.harness.push("no retry".into()),
        }
        v.checked += 1;
        match &b.after_retry {
            Some(Ok(d)) => {
                if let Err(e) = compare_dump(st, d) {
                    v.bad(format!("after building again: {}", e));
                }
                for (op, res) in &b.retry_lookups {
                    self.judge_op("after building again", op, res, &[], v);
                }
            }
            Some(Err(e)) => v.bad(format!("after building again the store cannot be read: {}", e)),
            None => v.harness.push("no second look".into()),
        }
    }

    fn judge_parallel(&self, p: &ParallelOut, v: &mut Verdict) {
        let same = matches!(self.case.plan, Plan::Parallel { same: true });
        for (i, b) in p.builds.iter().enumerate() {
            self.judge_clean_build(&format!("building store {}", i), &self.case.stores[i], b, v);
        }
        for (i, d) in p.dumps.iter().enumerate() {
            v.checked += 1;
            match d {
                Ok(d) => {
                    if let Err(e) = compare_dump(&self.models[i], d) {
                        v.bad(format!("store {}: {}", i, e));
                    }
                }
                Err(e) => v.bad(format!("store {} cannot be read: {}", i, e)),
            }
        }
        if same {
            for i in 1..p.raw.len() {
                // different histories may leave different (but equivalent) files
                if self.case.stores[0].ops != self.case.stores[i].ops {
                    continue;
                }
                v.checked += 1;
                v.probe("files-compared-byte-by-byte");
                if let Some(e) = raw_diff(&p.raw[0], &p.raw[i]) {
                    v.bad(format!("stores 0 and {} were built alike but differ on disk: {}", i, e));
                }
            }
        }
    }
}

/// A phrase index without any storage.
pub struct Index {
    pub inserts: Vec<Result<u32, String>>,
    pub map: Vec<u32>,
    set: FuzzyPhraseSet,
}
impl Index {
    pub fn new(p: &PhraseSpec) -> Index {
        let mut b = FuzzyPhraseSetBuilder::new("/sim/in-memory").expect("a builder");
        let inserts = p.phrases.iter().map(|w| b.insert(w).map_err(|e| e.to_string())).collect();
        let words = p.replace.iter().map(|(f, t)| WordReplacement { from: f.clone(), to: t.clone() });
        b.load_word_replacements(words.collect()).expect("word replacements");
        let (map, set) = FuzzyPhraseSet::in_memory(b);
        Index { inserts, map, set }
    }
    pub fn bins(&self, max: u32) -> Result<Vec<u32>, String> {
        let bins = self.set.get_prefix_bins(max as usize).map_err(|e| e.to_string())?;
        let mut v: Vec<u32> = bins.iter().map(|b| b.first.value() as u32).collect();
        v.extend(bins.last().map(|b| b.last.value() as u32 + 1));
        Ok(v)
    }
    pub fn ask(&self, op: &POp) -> Result<serde_json::Value, String> {
        use serde_json::{json, Value};
        fn show<T: serde::Serialize>(v: &T) -> Value {
            let mut j = serde_json::to_value(v).unwrap();
            fn floats(j: &mut Value) {
                match j {
                    Value::Number(n) => *j = json!(n.as_f64().unwrap()),
                    Value::Array(a) => a.iter_mut().for_each(floats),
                    Value::Object(o) => o.values_mut().for_each(floats),
                    _ => {}
                }
            }
            floats(&mut j);
            j
        }
        fn kind(n: u8) -> Result<EndingType, String> {
            serde_json::from_value(json!(n)).map_err(|e| e.to_string())
        }
        let text = |e: Box<dyn std::error::Error>| e.to_string();
        let s = &self.set;
        match op {
            POp::Contains { q, ending } => Ok(show(&s.contains(q, kind(*ending)?).map_err(text)?)),
            POp::Match { q, word, total, ending } => {
                Ok(show(&s.fuzzy_match(q, *word, *total, kind(*ending)?).map_err(text)?))
            }
            POp::Windows { q, word, total, ending } => {
                Ok(show(&s.fuzzy_match_windows(q, *word, *total, kind(*ending)?).map_err(text)?))
            }
            POp::Multi { qs, word, total } => {
                let mut v = vec![];
                for (q, e) in qs {
                    v.push((q.clone(), kind(*e)?));
                }
                Ok(show(&s.fuzzy_match_multi(&v, *word, *total).map_err(text)?))
            }
            POp::ById(id) => match s.get_by_phrase_id(*id).map_err(text)? {
                Some(p) => Ok(show(&p)),
                None => Ok(json!("(undefined)")),
            },
            POp::Bins(max) => Ok(show(&self.bins(*max)?)),
            POp::Missing | POp::Bad(_) => Err("a wrong call".into()),
        }
    }
}

/// What the builders are told in terms of a phrase index, spelled out.
pub fn resolve(case: &Case) -> Case {
    let mut c = case.clone();
    let from = |o: &BOp| matches!(o, BOp::RenumberFrom(_) | BOp::BinsFrom(..));
    if !c.stores.iter().any(|s| s.ops.iter().any(from)) {
        return c;
    }
    let ix: Vec<Index> = case.phrases.iter().map(Index::new).collect();
    for o in c.stores.iter_mut().flat_map(|s| s.ops.iter_mut()) {
        match o {
            BOp::RenumberFrom(s) => *o = BOp::Renumber(ix[*s].map.clone()),
            BOp::BinsFrom(s, max) => *o = BOp::Bins(ix[*s].bins(*max).unwrap_or_default()),
            _ => {}
        }
    }
    c
}

pub fn raw_diff(a: &[(Vec<u8>, Vec<u8>)], b: &[(Vec<u8>, Vec<u8>)]) -> Option<String> {
    for (x, y) in a.iter().zip(b) {
        if x.0 != y.0 {
            return Some(format!("key {:02x?} / {:02x?}", x.0, y.0));
        }
        if x.1 != y.1 {
            return Some(format!("value of key {:02x?}", x.0));
        }
    }
    if a.len() != b.len() {
        return Some(format!("{} and {} records", a.len(), b.len()));
    }
    None
}

/// Two runs of the same operations under different schedules.
pub fn same_answers(a: &RunOut, b: &RunOut, v: &mut Verdict) {
    match (&a.plan, &b.plan) {
        (PlanOut::Query(x), PlanOut::Query(y))
        | (PlanOut::Binding(BindingOut { q: x, .. }), PlanOut::Binding(BindingOut { q: y, .. })) => {
            for (c, (p, q)) in x.clients.iter().zip(&y.clients).enumerate() {
                if let (ClientEnd::Done(p), ClientEnd::Done(q)) = (p, q) {
                    for (i, (r, s)) in p.iter().zip(q).enumerate() {
                        v.checked += 1;
                        let (r, s) = (format!("{:?}", r.res), format!("{:?}", s.res));
                        if r != s {
                            let k = r.bytes().zip(s.bytes()).position(|(a, b)| a != b).unwrap_or(0);
                            let cut = |t: &str| {
                                let mut from = k.saturating_sub(60);
                                while !t.is_char_boundary(from) {
                                    from -= 1;
                                }
                                t[from..].chars().take(300).collect::<String>()
                            };
                            v.bad(format!(
                                "client {} op {}: the answer depends on the schedule: ...{} / ...{}",
                                c,
                                i,
                                cut(&r),
                                cut(&s)
                            ));
                        }
                    }
                }
            }
        }
        (PlanOut::Parallel(x), PlanOut::Parallel(y)) => {
            for (i, (p, q)) in x.raw.iter().zip(&y.raw).enumerate() {
                v.checked += 1;
                if let Some(e) = raw_diff(p, q) {
                    v.bad(format!("store {}: the files depend on the schedule or hash seed: {}", i, e));
                }
            }
        }
        _ => {}
    }
}

pub fn op_name(op: &QOp) -> &'static str {
    match op.plain() {
        QOp::Get { .. } => "get",
        QOp::Match { .. } => "streaming_get_matching",
        QOp::Keys { .. } => "keys",
        QOp::Iter { .. } => "iter",
        QOp::Braid { .. } => "interleaved iterators",
        QOp::Coalesce { stack, .. } if stack.len() == 1 => "coalesce(single)",
        QOp::Coalesce { .. } => "coalesce(multi)",
        QOp::Stack { .. } => "stack_and_coalesce",
        QOp::Tree { .. } => "stackable",
        QOp::Reopen { .. } => "open",
        QOp::Missing { .. } => "open (missing)",
        QOp::Abandon { .. } => "abandoned iterator",
        QOp::Bad { .. } => "wrong call",
        QOp::Phrase { .. } => "phrase index",
        QOp::Older { .. } => "earlier release",
    }
}
