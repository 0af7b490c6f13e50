//! What a process that runs the earlier release does: builds, opens, looks up, lists.
use crate::case::*;
use crate::exec::{dir, gather, text, Dump, OutME, Part, QVal};
use carmen_before::gridstore::{
    GridEntry, GridKey, GridStore, GridStoreBuilder, MatchKey, MatchOpts, MatchPhrase,
};
use carmen_core::gridstore as now;

fn grid(e: &E) -> GridEntry {
    GridEntry { relev: e.0, score: e.1, x: e.2, y: e.3, id: e.4, source_phrase_hash: e.5 }
}
fn out(e: GridEntry) -> now::GridEntry {
    now::GridEntry {
        relev: e.relev,
        score: e.score,
        x: e.x,
        y: e.y,
        id: e.id,
        source_phrase_hash: e.source_phrase_hash,
    }
}

fn apply(b: &mut GridStoreBuilder, op: &BOp) -> Result<(), String> {
    let key = |p: &u32, l: &Lang| GridKey { phrase_id: *p, lang_set: l.0 };
    match op {
        BOp::Insert { phrase, lang, entries } => {
            b.insert(&key(phrase, lang), entries.iter().map(grid).collect()).map_err(text)
        }
        BOp::Append { phrase, lang, entries } => {
            b.append(&key(phrase, lang), entries.iter().map(grid).collect()).map_err(text)
        }
        BOp::Compact { phrase, lang, relev, score, id, hash, coords } => {
            b.compact_append(&key(phrase, lang), *relev, *score, *id, *hash, coords);
            Ok(())
        }
        BOp::Fill { phrase, lang, fill } => {
            b.append(&key(phrase, lang), fill.expand().iter().map(grid).collect()).map_err(text)
        }
        BOp::Renumber(m) => b.renumber(m).map_err(text),
        BOp::Bins(v) => b.load_bin_boundaries(v.clone()).map_err(text),
        BOp::RenumberFrom(_) | BOp::BinsFrom(..) => Err("only through the binding".into()),
    }
}

pub fn build(spec: &StoreSpec) -> (Vec<Option<String>>, Result<(), String>) {
    let mut b = match GridStoreBuilder::new(dir(&spec.name)) {
        Ok(b) => b,
        Err(e) => return (vec![], Err(format!("new: {}", e))),
    };
    let ops = spec.ops.iter().map(|o| apply(&mut b, o).err()).collect();
    (ops, b.finish().map_err(text))
}

pub fn open(spec: &StoreSpec) -> Result<GridStore, String> {
    GridStore::new_with_options(
        dir(&spec.name),
        spec.zoom,
        spec.type_id,
        spec.radius,
        spec.bboxes.clone(),
        spec.max_score,
    )
    .map_err(text)
}

pub fn dump(st: &GridStore) -> Result<Dump, String> {
    let mut d = Dump::default();
    for k in st.keys() {
        let k = k.map_err(text)?;
        d.keys.push((k.phrase_id, k.lang_set));
    }
    for r in st.iter() {
        let (k, v) = r.map_err(text)?;
        d.records.push(((k.phrase_id, k.lang_set), v.into_iter().map(out).collect()));
    }
    d.bounds = st.bin_boundaries.iter().cloned().collect();
    d.bounds.sort();
    Ok(d)
}

/// One operation on a handle of its own.
pub fn run_op(op: &QOp, specs: &[StoreSpec]) -> Result<QVal, String> {
    let st = open(&specs[op.store()])?;
    let got: Option<Vec<Part>> = match op {
        QOp::Get { phrase, lang, .. } => {
            let key = GridKey { phrase_id: *phrase, lang_set: lang.0 };
            st.get(&key).map_err(text)?.map(|it| it.map(|e| Part::G(out(e))).collect())
        }
        QOp::Match { key, opts, max, take, .. } => {
            let key = MatchKey {
                match_phrase: match key.phrase {
                    MPhrase::Exact(p) => MatchPhrase::Exact(p),
                    MPhrase::Range(a, b) => MatchPhrase::Range { start: a, end: b },
                },
                lang_set: key.lang.0,
            };
            let opts = MatchOpts { bbox: opts.bbox, proximity: opts.proximity, zoom: opts.zoom };
            let it = st.streaming_get_matching(&key, &opts, *max).map_err(text)?;
            Some(
                it.take(take.unwrap_or(usize::MAX))
                    .map(|m| {
                        Part::M(OutME {
                            g: out(m.grid_entry),
                            lang: m.matches_language,
                            distance: m.distance,
                            scoredist: m.scoredist,
                        })
                    })
                    .collect(),
            )
        }
        QOp::Keys { take, .. } => Some(
            st.keys()
                .take(take.unwrap_or(usize::MAX))
                .map(|k| k.map(|k| Part::K((k.phrase_id, k.lang_set))).map_err(text))
                .collect::<Result<_, String>>()?,
        ),
        QOp::Iter { take, .. } => Some(
            st.iter()
                .take(take.unwrap_or(usize::MAX))
                .map(|r| {
                    r.map(|(k, v)| Part::R((k.phrase_id, k.lang_set), v.into_iter().map(out).collect()))
                        .map_err(text)
                })
                .collect::<Result<_, String>>()?,
        ),
        QOp::Reopen { .. } => return dump(&st).map(QVal::Dump),
        _ => return Err("not of the earlier release".into()),
    };
    Ok(gather(op, got))
}
