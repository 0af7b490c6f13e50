//! Runs a case through the real JavaScript binding: one simulated task is the JavaScript thread.
use crate::case::*;
use crate::exec::*;
use carmen_core::gridstore::{CoalesceContext, CoalesceEntry, GridEntry};
use neon::engine::{self as js, JsError, Key as Name, Slot, Val};
use serde_json::{json, Value};
use simrt::rng::{mix, Rng};
use simrt::{Sim, SimCrash, SimMisuse, SimOverrun, TaskEnd};
use std::cell::RefCell;
use std::panic::resume_unwind;
use std::rc::Rc;
use std::sync::Arc;

pub fn run_binding(sim: &Arc<Sim>, c: &Arc<Case>, p: &JsPlan) -> BindingOut {
    let (sim2, c2, p2) = (sim.clone(), c.clone(), p.clone());
    let h = sim.spawn(2, move || {
        let out = Page { r: Rng::new(mix(p2.seed, 0x15)), sim: sim2, c: c2, p: p2 }.run();
        js::exit();
        out
    });
    match sim.join(vec![h]).pop().unwrap() {
        TaskEnd::Done(out) => out,
        TaskEnd::Panicked(m) => panic!("{}", m),
        TaskEnd::Crashed => resume_unwind(Box::new(SimCrash)),
        TaskEnd::Overrun => resume_unwind(Box::new(SimOverrun)),
        TaskEnd::Misuse(m) => resume_unwind(Box::new(SimMisuse(m))),
    }
}

struct Page {
    r: Rng,
    sim: Arc<Sim>,
    c: Arc<Case>,
    p: JsPlan,
}
type Calls = Rc<RefCell<Vec<Vec<Val>>>>;
enum State {
    Idle,
    Waiting(Calls),
    Listing { iter: Val, got: Vec<Key>, left: usize },
}
enum Step {
    Done(QRes),
    More(State),
}

fn number(n: impl Into<f64>) -> Val {
    js::number(n.into())
}
fn field(v: Val, n: &str) -> Val {
    js::get(v, Name::Name(n.into()))
}
fn num(v: Val) -> Result<f64, String> {
    js::with(v, |s| match s {
        Slot::Num(n) => Ok(*n),
        _ => Err("not a number".to_string()),
    })
    .map_err(|e| format!("{} is {}", js::describe(v), e))
}
fn int(v: Val, what: &str) -> Result<u32, String> {
    let n = num(v).map_err(|e| format!("{}: {}", what, e))?;
    if n.trunc() != n || !(0.0..=u32::MAX as f64).contains(&n) {
        return Err(format!("{} is {}", what, n));
    }
    Ok(n as u32)
}
fn truth(v: Val) -> Result<bool, String> {
    js::with(v, |s| match s {
        Slot::Bool(b) => Ok(*b),
        _ => Err("not a boolean".to_string()),
    })
}
fn items(v: Val) -> Result<Vec<Val>, String> {
    js::with(v, |s| match s {
        Slot::Array(a) => Ok(a.clone()),
        _ => Err("not an array".to_string()),
    })
    .map_err(|e| format!("{} is {}", js::describe(v), e))
}
fn is_undefined(v: Val) -> bool {
    js::with(v, |s| matches!(s, Slot::Undefined))
}
fn grid_entry(v: Val) -> Result<GridEntry, String> {
    Ok(GridEntry {
        relev: num(field(v, "relev"))?,
        score: int(field(v, "score"), "score")? as u8,
        x: int(field(v, "x"), "x")? as u16,
        y: int(field(v, "y"), "y")? as u16,
        id: int(field(v, "id"), "id")?,
        source_phrase_hash: int(field(v, "source_phrase_hash"), "source_phrase_hash")? as u8,
    })
}
fn contexts(v: Val) -> Result<Vec<CoalesceContext>, String> {
    let mut out = vec![];
    for c in items(v)? {
        let mut entries = vec![];
        for e in items(field(c, "entries"))? {
            entries.push(CoalesceEntry {
                grid_entry: grid_entry(field(e, "grid_entry"))?,
                matches_language: truth(field(e, "matches_language"))?,
                idx: int(field(e, "idx"), "idx")? as u16,
                tmp_id: int(field(e, "tmp_id"), "tmp_id")?,
                mask: int(field(e, "mask"), "mask")?,
                distance: num(field(e, "distance"))?,
                scoredist: num(field(e, "scoredist"))?,
                phrasematch_id: int(field(e, "phrasematch_id"), "phrasematch_id")?,
            });
        }
        out.push(CoalesceContext {
            mask: int(field(c, "mask"), "mask")?,
            relev: num(field(c, "relev"))?,
            entries,
        });
    }
    Ok(out)
}
/// Any plain value; undefined is told from null.
fn plain(v: Val) -> Value {
    enum K {
        V(Value),
        A(Vec<Val>),
        O(Vec<(String, Val)>),
    }
    let k = js::with(v, |s| match s {
        Slot::Undefined => K::V(json!("(undefined)")),
        Slot::Null => K::V(Value::Null),
        Slot::Bool(b) => K::V(json!(b)),
        Slot::Num(n) => K::V(json!(n)),
        Slot::Str(t) => K::V(json!(t)),
        Slot::Array(a) => K::A(a.clone()),
        Slot::Object(o) => K::O(o.clone()),
        _ => K::V(json!("(something else)")),
    });
    match k {
        K::V(v) => v,
        K::A(a) => Value::Array(a.into_iter().map(plain).collect()),
        K::O(o) => Value::Object(o.into_iter().map(|(k, v)| (k, plain(v))).collect()),
    }
}
fn failed(e: JsError) -> QRes {
    match e {
        JsError::Thrown(t) => QRes::Err(t),
        JsError::Broken(t) => QRes::Panic(t),
    }
}
fn text_of(e: JsError) -> Result<String, String> {
    match e {
        JsError::Thrown(t) => Ok(t),
        JsError::Broken(t) => Err(t),
    }
}
fn settled(r: Result<QVal, String>) -> QRes {
    match r {
        Ok(v) => QRes::Ok(v),
        Err(e) => QRes::Panic(format!("unusable result: {}", e)),
    }
}
fn words(q: &[String]) -> Val {
    js::array(q.iter().map(|w| js::string(w)).collect())
}
fn path_of(name: &str) -> Val {
    js::string(&dir(name).to_string_lossy())
}

impl Page {
    fn run(mut self) -> BindingOut {
        let mut out = BindingOut::default();
        if let Err(e) = js::load(node_carmen_core::neon_module) {
            out.trouble.push(format!("loading the addon: {:?}", e));
            return out;
        }
        if self.p.hurt_builds {
            self.sim.arm(self.c.faults.clone());
        }
        let buffers = self.build_sets(&mut out);
        self.build_stores(&mut out, &buffers);
        if self.p.hurt_builds {
            self.collect_faults(&mut out);
            // what failed is built again, by new builders
            self.build_again(&mut out, &buffers);
        }
        self.serve(&mut out);
        out
    }
    fn collect_faults(&mut self, out: &mut BindingOut) {
        out.q.fired_by.extend(std::mem::take(&mut self.sim.lock().fired_by));
        let (fired, counters) = self.sim.disarm();
        out.q.fired += fired.len();
        for (k, n) in counters {
            *out.q.counters.entry(k).or_insert(0) += n;
        }
    }

    // ---- values ----------------------------------------------------------------------------------

    fn lang(&mut self, l: u128) -> Val {
        if l == u128::MAX {
            match self.r.below(3) {
                0 => return js::null(),
                1 => return js::undefined(),
                _ => {}
            }
        }
        let mut v: Vec<u32> = (0..128).filter(|b| l >> b & 1 == 1).collect();
        if self.r.chance(0.3) {
            self.r.shuffle(&mut v);
        }
        if self.r.chance(0.2) {
            if let Some(x) = v.first().cloned() {
                v.push(x);
            }
        }
        if self.r.chance(0.1) {
            // languages there are no numbers for are left out
            let at = self.r.usize(v.len() + 1);
            v.insert(at, 128 + self.r.below(1000) as u32);
        }
        js::array(v.into_iter().map(number).collect())
    }
    /// Property order does not matter.
    fn shuffled(&mut self, mut f: Vec<(&'static str, Val)>) -> Val {
        if self.r.chance(0.3) {
            self.r.shuffle(&mut f);
        }
        js::object(f)
    }
    fn key(&mut self, phrase: u32, l: u128) -> Val {
        let l = self.lang(l);
        self.shuffled(vec![("phrase_id", number(phrase)), ("lang_set", l)])
    }
    fn entry(&mut self, e: &E) -> Val {
        self.shuffled(vec![
            ("relev", number(e.0)),
            ("score", number(e.1)),
            ("x", number(e.2)),
            ("y", number(e.3)),
            ("id", number(e.4)),
            ("source_phrase_hash", number(e.5)),
        ])
    }
    fn opts(&mut self, o: &MOpts) -> Val {
        let mut f = vec![("zoom", number(o.zoom))];
        match o.bbox {
            Some(b) => f.push(("bbox", js::array(b.iter().map(|n| number(*n)).collect()))),
            None if self.r.chance(0.3) => f.push(("bbox", js::null())),
            None if self.r.chance(0.3) => f.push(("bbox", js::undefined())),
            None => {}
        }
        match o.proximity {
            Some(b) => f.push(("proximity", js::array(b.iter().map(|n| number(*n)).collect()))),
            None if self.r.chance(0.3) => f.push(("proximity", js::null())),
            None => {}
        }
        self.shuffled(f)
    }
    fn sub(&mut self, s: &Sub, stores: &[Val]) -> Vec<(&'static str, Val)> {
        let k = &s.keys[0];
        let phrase = match k.key.phrase {
            MPhrase::Exact(n) => js::object(vec![("Exact", number(n))]),
            MPhrase::Range(a, b) => {
                let range = self.shuffled(vec![("start", number(a)), ("end", number(b))]);
                js::object(vec![("Range", range)])
            }
        };
        let l = self.lang(k.key.lang.0);
        let key = self.shuffled(vec![("match_phrase", phrase), ("lang_set", l)]);
        let mut f = vec![
            ("store", stores[s.store]),
            ("weight", number(s.weight)),
            ("mask", number(s.mask)),
            ("match_key", key),
            ("id", number(k.id)),
            ("idx", number(s.idx)),
            (
                "non_overlapping_indexes",
                js::array(s.nonoverlap.iter().map(|n| number(*n)).collect()),
            ),
            ("phrase", js::string(&"abcdefghijklmnop"[..k.len])),
        ];
        if k.nearby || self.r.chance(0.5) {
            f.push(("nearby_only", js::boolean(k.nearby)));
        }
        f
    }
    fn subs(&mut self, subs: &[Sub], stores: &[Val]) -> Val {
        let mut v = vec![];
        for s in subs {
            let f = self.sub(s, stores);
            v.push(self.shuffled(f));
        }
        js::array(v)
    }

    // ---- building --------------------------------------------------------------------------------

    /// Identifier map and prefix bins of every phrase set.
    fn build_sets(&mut self, out: &mut BindingOut) -> Vec<Option<Val>> {
        let c = self.c.clone();
        let mut maps = vec![];
        for (i, s) in c.phrases.iter().enumerate() {
            self.sim.set_owner(BUILD + 1000 + i as u64);
            simrt::yield_now();
            let mut b = SetBuild::default();
            maps.push(None);
            match js::construct("FuzzyPhraseSetBuilder", vec![path_of(&s.name)]) {
                Err(e) => match text_of(e) {
                    Ok(t) => b.map = Err(t),
                    Err(t) => out.trouble.push(format!("phrase set {}: {}", i, t)),
                },
                Ok(this) => {
                    let load = |out: &mut BindingOut| {
                        let list = s
                            .replace
                            .iter()
                            .map(|(f, t)| js::object(vec![("from", js::string(f)), ("to", js::string(t))]))
                            .collect();
                        match js::call_method(this, "loadWordReplacements", vec![js::array(list)]) {
                            Ok(v) if is_undefined(v) => {}
                            Ok(v) => out.trouble.push(format!("loadWordReplacements returned {}", js::describe(v))),
                            Err(e) => out.trouble.push(format!("loadWordReplacements: {:?}", e)),
                        }
                    };
                    let early = self.r.chance(0.5);
                    if early && !s.replace.is_empty() {
                        load(out);
                    }
                    for w in &s.phrases {
                        if self.r.chance(0.1) {
                            self.refused(out, "insert", js::call_method(this, "insert", vec![js::number(4.0)]));
                        }
                        b.inserts.push(match js::call_method(this, "insert", vec![words(w)]) {
                            Ok(v) => int(v, "identifier"),
                            Err(e) => match text_of(e) {
                                Ok(t) => Err(t),
                                Err(t) => {
                                    out.trouble.push(format!("inserting a phrase: {}", t));
                                    Err(t)
                                }
                            },
                        });
                    }
                    if !early && !s.replace.is_empty() {
                        load(out);
                    }
                    match js::call_method(this, "finish", vec![]) {
                        Ok(v) => match js::buffer_words(v) {
                            Some(w) => {
                                b.map = Ok(w);
                                *maps.last_mut().unwrap() = Some(v);
                            }
                            None => out.trouble.push(format!("finish returned {}", js::describe(v))),
                        },
                        Err(e) => match text_of(e) {
                            Ok(t) => b.map = Err(t),
                            Err(t) => out.trouble.push(format!("finishing phrase set {}: {}", i, t)),
                        },
                    }
                    for name in ["insert", "loadWordReplacements", "finish"] {
                        let a = if name == "insert" { words(&["late".to_string()]) } else { js::array(vec![]) };
                        self.refused(out, name, js::call_method(this, name, vec![a]));
                    }
                    js::collect(this);
                }
            }
            out.sets.push(b);
        }
        self.sim.set_owner(0);
        maps
    }
    fn refused(&mut self, out: &mut BindingOut, what: &str, r: Result<Val, JsError>) {
        out.refusals += 1;
        match r {
            Err(JsError::Thrown(_)) => {}
            Err(JsError::Broken(t)) => out.trouble.push(format!("a wrong call of {}: {}", what, t)),
            Ok(v) => out
                .trouble
                .push(format!("a call of {} that has to fail returned {}", what, js::describe(v))),
        }
    }

    fn builder_call(&mut self, b: Val, op: &BOp, buffers: &[Option<Val>]) -> Result<Val, JsError> {
        match op {
            BOp::Insert { phrase, lang, entries } | BOp::Append { phrase, lang, entries } => {
                let k = self.key(*phrase, lang.0);
                let mut v = vec![];
                for e in entries {
                    v.push(self.entry(e));
                }
                let name = if matches!(op, BOp::Insert { .. }) { "insert" } else { "append" };
                js::call_method(b, name, vec![k, js::array(v)])
            }
            BOp::Fill { phrase, lang, fill } => {
                let k = self.key(*phrase, lang.0);
                let v = fill.expand().iter().map(|e| self.entry(e)).collect();
                js::call_method(b, "append", vec![k, js::array(v)])
            }
            BOp::Compact { phrase, lang, relev, score, id, hash, coords } => {
                let k = self.key(*phrase, lang.0);
                let xy = coords.iter().map(|(x, y)| js::array(vec![number(*x), number(*y)])).collect();
                js::call_method(
                    b,
                    "compactAppend",
                    vec![k, number(*relev), number(*score), number(*id), number(*hash), js::array(xy)],
                )
            }
            BOp::Renumber(m) => js::call_method(b, "renumber", vec![js::buffer(m)]),
            BOp::Bins(v) => js::call_method(b, "loadBinBoundaries", vec![js::buffer(v)]),
            BOp::RenumberFrom(set) => {
                let buf = buffers[*set].unwrap_or_else(js::undefined);
                js::call_method(b, "renumber", vec![buf])
            }
            BOp::BinsFrom(set, max) => {
                let name = self.c.phrases[*set].name.clone();
                let s = js::construct("FuzzyPhraseSet", vec![path_of(&name)])?;
                let v = js::call_method(s, "getPrefixBins", vec![number(*max)])?;
                js::collect(s);
                js::call_method(b, "loadBinBoundaries", vec![v])
            }
        }
    }
    /// A call that has to be turned away and must leave the builder as it was.
    fn wrong_builder_call(&mut self, b: Val, kind: u32) -> (&'static str, Result<Val, JsError>) {
        let k = self.key(1, 1);
        let e = self.entry(&E(1.0, 1, 1, 1, 1, 1));
        // the wrong entry is one of several, and the others must not be taken either
        let mut list = vec![e];
        for _ in 0..self.r.below(5) {
            let at = self.r.usize(list.len() + 1);
            let good = self.entry(&E(1.0, 1, 2, 2, 2, 1));
            list.insert(at, good);
        }
        let mut places: Vec<Val> =
            (0..list.len()).map(|n| js::array(vec![number(n as u32), number(1)])).collect();
        let at = self.r.usize(places.len());
        places[at] = number(3);
        let es = js::array(list);
        let with = |n: &'static str, v: Val| {
            js::set(e, Name::Name(n.into()), v);
        };
        let (name, args) = match kind % 14 {
            0 => ("insert", vec![]),
            1 => ("append", vec![k]),
            2 => ("insert", vec![k, e]),
            3 => ("append", vec![js::object(vec![("lang_set", js::null())]), es]),
            4 => ("insert", vec![js::object(vec![("phrase_id", number(1)), ("lang_set", js::string("en"))]), es]),
            5 => ("compactAppend", vec![k, number(1), number(1), number(1), number(1)]),
            6 => ("compactAppend", vec![k, number(1), number(1), number(1), number(1), js::array(places)]),
            7 => ("renumber", vec![js::array(vec![number(0), number(1)])]),
            8 => ("loadBinBoundaries", vec![number(3)]),
            9 => {
                with("score", number(300));
                ("append", vec![k, es])
            }
            10 => {
                with("x", number(-1));
                ("insert", vec![k, es])
            }
            11 => {
                with("y", js::string("1"));
                ("append", vec![k, es])
            }
            12 => ("compactAppend", vec![k, number(1), js::string("1"), number(1), number(1), js::array(vec![])]),
            _ => {
                with("id", js::undefined());
                ("insert", vec![k, es])
            }
        };
        (name, js::call_method(b, name, args))
    }

    fn new_builder(&mut self, name: &str) -> Result<Val, JsError> {
        js::construct("GridStoreBuilder", vec![path_of(name)])
    }
    fn finish_builder(&mut self, out: &mut BindingOut, b: Val) -> Result<(), String> {
        let r = match js::call_method(b, "finish", vec![]) {
            Ok(v) if is_undefined(v) => Ok(()),
            Ok(v) => {
                out.trouble.push(format!("finish returned {}", js::describe(v)));
                Ok(())
            }
            Err(JsError::Thrown(t)) => Err(t),
            Err(JsError::Broken(t)) => {
                out.trouble.push(format!("finish: {}", t));
                Err(t)
            }
        };
        // used up, whatever came of it
        let k = self.key(1, 1);
        let e = self.entry(&E(1.0, 1, 1, 1, 1, 1));
        let late: Vec<(&str, Vec<Val>)> = vec![
            ("insert", vec![k, js::array(vec![e])]),
            ("append", vec![k, js::array(vec![e])]),
            ("compactAppend", vec![k, number(1), number(1), number(1), number(1), js::array(vec![])]),
            ("renumber", vec![js::buffer(&[1, 0])]),
            ("loadBinBoundaries", vec![js::buffer(&[1, 2])]),
            ("finish", vec![]),
        ];
        for (name, args) in late {
            let r = js::call_method(b, name, args);
            self.refused(out, &format!("{} after finish", name), r);
        }
        r
    }

    fn build_stores(&mut self, out: &mut BindingOut, buffers: &[Option<Val>]) {
        struct B {
            store: usize,
            this: Option<Val>,
            pos: usize,
            ops: Vec<Option<String>>,
            fate: Option<Result<(), String>>,
        }
        let c = self.c.clone();
        let mut all: Vec<B> = vec![];
        for i in 0..c.stores.len() {
            let again = c.stores[..i].iter().any(|s| s.name == c.stores[i].name);
            if !again {
                all.push(B { store: i, this: None, pos: 0, ops: vec![], fate: None });
            }
        }
        loop {
            let live: Vec<usize> = (0..all.len()).filter(|&k| all[k].fate.is_none()).collect();
            if live.is_empty() {
                break;
            }
            let k = if self.p.together { live[self.sim.choose(live.len())] } else { live[0] };
            let b = &mut all[k];
            let spec = &c.stores[b.store];
            self.sim.set_owner(BUILD + b.store as u64);
            simrt::yield_now();
            let this = match b.this {
                Some(t) => t,
                None => {
                    match self.new_builder(&spec.name) {
                        Ok(t) => b.this = Some(t),
                        Err(JsError::Thrown(t)) => b.fate = Some(Err(format!("new: {}", t))),
                        Err(JsError::Broken(t)) => {
                            out.trouble.push(format!("new GridStoreBuilder: {}", t));
                            b.fate = Some(Err(t));
                        }
                    }
                    continue;
                }
            };
            for (at, kind) in self.p.misuse.clone() {
                if at as usize % (spec.ops.len() + 1) == b.pos {
                    let (name, r) = self.wrong_builder_call(this, kind);
                    self.refused(out, &format!("{} ({})", name, kind % 14), r);
                }
            }
            if b.pos < spec.ops.len() {
                let r = self.builder_call(this, &spec.ops[b.pos], buffers);
                b.ops.push(match r {
                    Ok(v) => {
                        if !is_undefined(v) {
                            out.trouble.push(format!("a builder call returned {}", js::describe(v)));
                        }
                        None
                    }
                    Err(JsError::Thrown(t)) => Some(t),
                    Err(JsError::Broken(t)) => {
                        out.trouble.push(format!("store {} operation {}: {}", b.store, b.pos, t));
                        Some(t)
                    }
                });
                b.pos += 1;
            } else {
                let r = self.finish_builder(out, this);
                b.fate = Some(r);
                if self.r.chance(0.5) {
                    js::collect(this);
                }
            }
        }
        self.sim.set_owner(0);
        out.q.builds = (0..c.stores.len()).map(|_| None).collect();
        for b in all {
            out.q.builds[b.store] = Some(BuildRes::Done { ops: b.ops, finish: b.fate.unwrap() });
        }
    }
    fn build_again(&mut self, out: &mut BindingOut, buffers: &[Option<Val>]) {
        let c = self.c.clone();
        for i in 0..c.stores.len() {
            out.rebuilt.push(None);
            if !matches!(out.q.builds[i], Some(BuildRes::Done { finish: Err(_), .. })) {
                continue;
            }
            let mut ops = vec![];
            let finish = match self.new_builder(&c.stores[i].name) {
                Err(e) => Err(format!("new: {:?}", e)),
                Ok(b) => {
                    for op in &c.stores[i].ops {
                        ops.push(self.builder_call(b, op, buffers).err().map(|e| format!("{:?}", e)));
                    }
                    self.finish_builder(out, b)
                }
            };
            out.rebuilt[i] = Some(BuildRes::Done { ops, finish });
        }
    }

    // ---- asking ----------------------------------------------------------------------------------

    fn open(&mut self, i: usize, name: &str) -> Result<Val, JsError> {
        let s = self.c.stores[i].clone();
        let mut args = vec![path_of(name)];
        let usual = s.zoom == 6
            && s.type_id == 0
            && s.radius == 0.0
            && s.bboxes == [[0, 0, 63, 63]]
            && s.max_score == 0.0;
        if !usual || self.r.chance(0.5) {
            let boxes = s
                .bboxes
                .iter()
                .map(|b| js::array(b.iter().map(|n| number(*n)).collect()))
                .collect();
            args.push(self.shuffled(vec![
                ("zoom", number(s.zoom)),
                ("type_id", number(s.type_id)),
                ("coalesce_radius", number(s.radius)),
                ("bboxes", js::array(boxes)),
                ("max_score", number(s.max_score)),
            ]));
        }
        js::construct("GridStore", args)
    }

    fn serve(&mut self, out: &mut BindingOut) {
        let c = self.c.clone();
        let mut stores = vec![];
        for i in 0..c.stores.len() {
            match self.open(i, &c.stores[i].name) {
                Ok(v) => {
                    stores.push(v);
                    out.q.opened.push(Ok(()));
                }
                Err(e) => out.q.opened.push(Err(format!("{:?}", e))),
            }
        }
        let mut sets = vec![];
        for (i, s) in c.phrases.iter().enumerate() {
            if out.sets[i].map.is_err() {
                // a failed build; nobody asks this one
                sets.push(js::undefined());
                continue;
            }
            match js::construct("FuzzyPhraseSet", vec![path_of(&s.name)]) {
                Ok(v) => sets.push(v),
                Err(e) => out.trouble.push(format!("phrase set {} does not open: {:?}", i, e)),
            }
        }
        if stores.len() < c.stores.len() || sets.len() < c.phrases.len() {
            return;
        }
        if !self.p.hurt_builds {
            self.sim.arm(c.faults.clone());
        }
        let n = c.clients.len();
        let mut at = vec![0usize; n];
        let mut state: Vec<State> = (0..n).map(|_| State::Idle).collect();
        let mut recs: Vec<Vec<OpRecord>> = (0..n).map(|_| vec![]).collect();
        let mut callbacks: Vec<(usize, usize, bool, Calls)> = vec![];
        let mut died = None;
        let mut dropped = false;
        loop {
            if self.p.gc && !dropped {
                // nobody will name the stores again
                let asked = (0..n).all(|f| match state[f] {
                    State::Idle => at[f] >= c.clients[f].len(),
                    _ => at[f] + 1 >= c.clients[f].len(),
                });
                if asked {
                    stores.iter().for_each(|s| js::collect(*s));
                    dropped = true;
                }
            }
            let ready: Vec<usize> = (0..n)
                .filter(|&f| match &state[f] {
                    State::Idle => at[f] < c.clients[f].len(),
                    State::Listing { .. } => true,
                    State::Waiting(calls) => !calls.borrow().is_empty(),
                })
                .collect();
            let turns = (js::pending() > 0) as usize;
            if ready.is_empty() && turns == 0 {
                break;
            }
            let k = self.sim.choose(ready.len() + turns);
            if k == ready.len() {
                simrt::yield_now();
                if let Err(e) = js::turn() {
                    died = Some(e);
                    break;
                }
                continue;
            }
            let f = ready[k];
            let op = c.clients[f][at[f]].clone();
            let l = label(f, at[f]);
            self.sim.set_owner(l);
            simrt::yield_now();
            let step = match std::mem::replace(&mut state[f], State::Idle) {
                State::Idle => self.start(&op, &mut stores, &sets),
                State::Waiting(calls) => {
                    let args = calls.borrow()[0].clone();
                    Step::Done(called(&op, &args))
                }
                State::Listing { iter, got, left } => self.list(iter, got, left),
            };
            self.sim.set_owner(0);
            match step {
                Step::More(s) => {
                    if let State::Waiting(calls) = &s {
                        callbacks.push((f, at[f], true, calls.clone()));
                    }
                    state[f] = s;
                }
                Step::Done(res) => {
                    self.sim.note(&format!("flow {} op {} -> {}", f, at[f], brief(&res)));
                    recs[f].push(OpRecord { label: l, res });
                    at[f] += 1;
                }
            }
        }
        // late calls of callbacks would have been made by now
        while died.is_none() && js::pending() > 0 {
            if let Err(e) = js::turn() {
                died = Some(e);
            }
        }
        if let Some(e) = died {
            out.trouble.push(format!("the process died in a task: {}", e));
        } else {
            for (f, i, _, calls) in callbacks {
                let n = calls.borrow().len();
                if n != 1 {
                    out.trouble.push(format!("flow {} op {}: its callback was called {} times", f, i, n));
                }
            }
            for f in 0..n {
                if at[f] < c.clients[f].len() && out.trouble.is_empty() {
                    out.trouble.push(format!("flow {} op {} never ends", f, at[f]));
                }
            }
        }
        if !self.p.hurt_builds {
            self.collect_faults(out);
        }
        out.q.clients = recs.into_iter().map(ClientEnd::Done).collect();
    }

    fn callback(&mut self) -> (Val, Calls) {
        let calls: Calls = Default::default();
        let c2 = calls.clone();
        (js::function(move |args| c2.borrow_mut().push(args)), calls)
    }
    fn list(&mut self, iter: Val, mut got: Vec<Key>, left: usize) -> Step {
        if left == 0 {
            js::collect(iter);
            return Step::Done(QRes::Ok(QVal::Keys(got)));
        }
        let v = match js::call_method(iter, "next", vec![]) {
            Ok(v) => v,
            Err(e) => {
                js::collect(iter);
                return Step::Done(failed(e));
            }
        };
        let one = || -> Result<Option<Key>, String> {
            if truth(field(v, "done"))? {
                return Ok(None);
            }
            let k = field(v, "value");
            let mut l = 0u128;
            for x in items(field(k, "lang_set"))? {
                let b = int(x, "language")?;
                if b > 127 || l >> b & 1 == 1 {
                    return Err(format!("language {} in a key", b));
                }
                l |= 1 << b;
            }
            Ok(Some((int(field(k, "phrase_id"), "phrase_id")?, l)))
        };
        match one() {
            Ok(None) => {
                js::collect(iter);
                Step::Done(QRes::Ok(QVal::Keys(got)))
            }
            Ok(Some(k)) => {
                got.push(k);
                Step::More(State::Listing { iter, got, left: left - 1 })
            }
            Err(e) => Step::Done(QRes::Panic(format!("unusable key: {}", e))),
        }
    }

    fn start(&mut self, op: &QOp, stores: &mut Vec<Val>, sets: &[Val]) -> Step {
        match op {
            QOp::Get { store, phrase, lang } => {
                let k = self.key(*phrase, lang.0);
                Step::Done(match js::call_method(stores[*store], "get", vec![k]) {
                    Err(e) => failed(e),
                    Ok(v) if is_undefined(v) => QRes::Ok(QVal::Grids(None)),
                    Ok(v) => settled(
                        items(v)
                            .and_then(|a| a.into_iter().map(grid_entry).collect::<Result<Vec<_>, _>>())
                            .map(|g| QVal::Grids(Some(g))),
                    ),
                })
            }
            QOp::Keys { store, take } => {
                match js::construct("GridStoreKeyIterator", vec![stores[*store]]) {
                    Err(e) => Step::Done(failed(e)),
                    Ok(iter) => {
                        Step::More(State::Listing { iter, got: vec![], left: take.unwrap_or(usize::MAX) })
                    }
                }
            }
            QOp::Coalesce { stack: subs, opts } | QOp::Stack { subs, opts } => {
                let name = if matches!(op, QOp::Coalesce { .. }) { "coalesce" } else { "stackAndCoalesce" };
                let s = self.subs(subs, stores);
                let o = self.opts(opts);
                let (f, calls) = self.callback();
                match js::call_function(name, vec![s, o, f]) {
                    Err(e) => Step::Done(failed(e)),
                    Ok(v) if is_undefined(v) => Step::More(State::Waiting(calls)),
                    Ok(v) => Step::Done(QRes::Panic(format!("{} returned {}", name, js::describe(v)))),
                }
            }
            QOp::Tree { subs } => {
                let s = self.subs(subs, stores);
                Step::Done(match js::call_function("stackable", vec![s]) {
                    Err(e) => failed(e),
                    Ok(v) if is_undefined(v) => QRes::Ok(QVal::Nothing),
                    Ok(v) => QRes::Panic(format!("stackable returned {}", js::describe(v))),
                })
            }
            QOp::Reopen { store } => {
                let name = self.c.stores[*store].name.clone();
                match self.open(*store, &name) {
                    Err(e) => Step::Done(failed(e)),
                    Ok(v) => {
                        js::collect(stores[*store]);
                        stores[*store] = v;
                        match js::construct("GridStoreKeyIterator", vec![v]) {
                            Err(e) => Step::Done(failed(e)),
                            Ok(iter) => Step::More(State::Listing { iter, got: vec![], left: usize::MAX }),
                        }
                    }
                }
            }
            QOp::Missing { store } => {
                let name = self.c.stores[*store].name.clone() + "-was-never-built";
                Step::Done(match self.open(*store, &name).and_then(|_| self.open(*store, &name)) {
                    Err(e) => failed(e),
                    Ok(_) => QRes::Ok(QVal::Nothing),
                })
            }
            QOp::Bad { store, how } => Step::Done(self.wrong(*store, *how, stores)),
            QOp::Phrase { set, op } => Step::Done(self.phrase(sets[*set], op)),
            _ => Step::Done(QRes::Panic("the binding has no such operation".into())),
        }
    }

    fn wrong(&mut self, store: usize, how: u32, stores: &[Val]) -> QRes {
        let s = Sub {
            store,
            idx: 0,
            nonoverlap: vec![],
            weight: 1.0,
            mask: 1,
            keys: vec![SKey {
                key: MKey { phrase: MPhrase::Exact(1), lang: Lang(1) },
                nearby: false,
                id: 0,
                len: 2,
            }],
        };
        let fields = self.sub(&s, stores);
        let o = self.opts(&MOpts { zoom: self.c.stores[store].zoom, ..Default::default() });
        let (f, calls) = self.callback();
        let k = number(1);
        let key = |p: Val, l: Val| js::object(vec![("phrase_id", p), ("lang_set", l)]);
        let without = |n: &str| -> Val {
            let f = fields.iter().filter(|x| x.0 != n).cloned().collect();
            js::array(vec![js::object(f)])
        };
        let with = |n: &'static str, v: Val| -> Val {
            let mut f: Vec<(&str, Val)> = fields.iter().filter(|x| x.0 != n).cloned().collect();
            f.push((n, v));
            js::array(vec![js::object(f)])
        };
        let fun = if how & 64 == 0 { "coalesce" } else { "stackAndCoalesce" };
        let text = js::string("x");
        let st = stores[store];
        let path = path_of(&self.c.stores[store].name);
        let r = match how % 28 {
            0 => js::call_method(st, "get", vec![]),
            1 => js::call_method(st, "get", vec![key(text, js::null())]),
            2 => js::call_method(st, "get", vec![js::object(vec![("lang_set", js::null())])]),
            3 => js::call_method(st, "get", vec![key(k, text)]),
            4 => js::call_method(st, "get", vec![key(k, js::array(vec![text]))]),
            5 => js::construct("GridStoreKeyIterator", vec![js::object(vec![])]),
            6 => js::call_function(fun, vec![without("")]),
            7 => js::call_function(fun, vec![without(""), o]),
            8 => js::call_function(fun, vec![without("store"), o, f]),
            9 => js::call_function(fun, vec![with("weight", text), o, f]),
            10 => js::call_function(fun, vec![without("phrase"), o, f]),
            11 => js::call_function(fun, vec![without("non_overlapping_indexes"), o, f]),
            12 => js::call_function(fun, vec![js::object(vec![]), o, f]),
            13 => js::call_function(fun, vec![without(""), js::object(vec![]), f]),
            14 => js::construct("GridStore", vec![path, js::object(vec![("zoom", number(6))])]),
            15 => js::construct("GridStore", vec![]),
            16 => js::call_function(fun, vec![without("match_key"), o, f]),
            17 => js::call_function(fun, vec![with("mask", number(1.5)), o, f]),
            18 => js::call_function(fun, vec![with("mask", number(-1)), o, f]),
            19 => js::call_function(fun, vec![with("idx", number(70_000)), o, f]),
            20 => js::call_function("stackable", vec![text]),
            21 => js::call_function(fun, vec![with("nearby_only", text), o, f]),
            22 => js::call_function(fun, vec![with("store", js::object(vec![])), o, f]),
            23 => js::call_function(fun, vec![without("id"), o, f]),
            24 => {
                let range = js::object(vec![("Range", js::object(vec![("start", number(1))]))]);
                let mk = js::object(vec![("match_phrase", range), ("lang_set", js::null())]);
                js::call_function(fun, vec![with("match_key", mk), o, f])
            }
            25 => js::call_function("stackable", vec![without("store")]),
            26 => js::construct("GridStore", vec![number(3)]),
            _ => js::construct("GridStoreBuilder", vec![]),
        };
        match r {
            Err(JsError::Thrown(t)) => {
                if !calls.borrow().is_empty() {
                    return QRes::Panic("a call that failed called its callback".into());
                }
                QRes::Err(t)
            }
            Err(JsError::Broken(t)) => QRes::Panic(t),
            Ok(_) => QRes::Ok(QVal::Nothing),
        }
    }

    fn phrase(&mut self, set: Val, op: &POp) -> QRes {
        let e = |n: &u8| number(*n);
        let r = match op {
            POp::Contains { q, ending } => js::call_method(set, "contains", vec![words(q), e(ending)]),
            POp::Match { q, word, total, ending } => {
                js::call_method(set, "fuzzyMatch", vec![words(q), number(*word), number(*total), e(ending)])
            }
            POp::Windows { q, word, total, ending } => {
                js::call_method(set, "fuzzyMatchWindows", vec![words(q), number(*word), number(*total), e(ending)])
            }
            POp::Multi { qs, word, total } => {
                let v = qs.iter().map(|(q, n)| js::array(vec![words(q), e(n)])).collect();
                js::call_method(set, "fuzzyMatchMulti", vec![js::array(v), number(*word), number(*total)])
            }
            POp::ById(id) => js::call_method(set, "getByPhraseId", vec![number(*id)]),
            POp::Bins(max) => js::call_method(set, "getPrefixBins", vec![number(*max)]),
            POp::Missing => js::construct("FuzzyPhraseSet", vec![path_of("no-such-set")]),
            POp::Bad(n) => match n % 7 {
                0 => js::call_method(set, "contains", vec![]),
                1 => js::call_method(set, "contains", vec![number(1), number(0)]),
                2 => js::call_method(set, "fuzzyMatch", vec![words(&[]), number(1), number(1)]),
                3 => js::call_method(set, "fuzzyMatchWindows", vec![words(&[]), js::string("1"), number(1), number(0)]),
                4 => js::call_method(set, "fuzzyMatchMulti", vec![js::array(vec![words(&[])]), number(1), number(1)]),
                5 => js::call_method(set, "getByPhraseId", vec![js::string("1")]),
                _ => js::call_method(set, "getPrefixBins", vec![]),
            },
        };
        match r {
            Err(e) => failed(e),
            Ok(v) => QRes::Ok(QVal::Json(match js::buffer_words(v) {
                Some(w) => json!(w.into_iter().map(|n| n as f64).collect::<Vec<_>>()),
                None => plain(v),
            })),
        }
    }
}

/// What a callback was given.
fn called(_op: &QOp, args: &[Val]) -> QRes {
    let error = args.first().cloned();
    match error {
        None => QRes::Panic("the callback got no arguments".into()),
        Some(e) if js::with(e, |s| matches!(s, Slot::Null | Slot::Undefined)) => match args.get(1) {
            Some(v) => settled(contexts(*v).map(QVal::Contexts)),
            None => QRes::Panic("the callback got neither an error nor a value".into()),
        },
        Some(e) => QRes::Err(js::describe(e)),
    }
}
