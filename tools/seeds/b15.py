ID="b15-cull-any"; PROPERTY="C11"
NEEDS="several times more stacks than the budget, with many different relevances"
BREAKS="good stacks are thrown away instead of the worst ones, differently in every process"
EDITS=[("rust-src/src/gridstore/stackable.rs","""            self.relev_map.keys().min().map(|min| *min).unwrap_or(OrderedFloat(std::f64::MAX));""","""            self.relev_map.keys().next().map(|min| *min).unwrap_or(OrderedFloat(std::f64::MAX));""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 9, 9, 5, 1)])], None);
    let stores: Vec<GridStore> = (0..6).map(|i| open("/demo/a", 6, i, 0.0)).collect();
    let mut subs = vec![];
    let mut id = 0;
    for (i, s) in stores.iter().enumerate() {
        for j in 0..8 {
            id += 1;
            subs.push(sub(s, i as u16, 1 << i, 0.01 + 0.02 * j as f64 + 0.001 * i as f64, id, MatchPhrase::Exact(1), 1));
        }
    }
    let best: f64 = (0..6).map(|i| 0.15 + 0.001 * i as f64).sum();
    for _ in 0..5 {
        let t = stackable(&subs);
        let mut kept: Vec<f64> = vec![];
        let mut todo: Vec<_> = t.root.children.clone();
        while let Some(i) = todo.pop() {
            if let Some(n) = t.arena.get(i) {
                if n.is_leaf() { kept.push(n.max_relev); }
                todo.extend(n.children.iter().cloned());
            }
        }
        kept.sort_by(|a, b| b.partial_cmp(a).unwrap());
        assert!(kept.len() >= 2000, "only {} stacks kept", kept.len());
        assert!((kept[0] - best).abs() < 1e-9, "the best stack is missing");
        // the 2000 best of all maximal stacks, counted independently
        let mut all = vec![0.0];
        for i in 0..6 {
            let mut n = vec![];
            for x in &all { for j in 0..8 { n.push(x + 0.01 + 0.02 * j as f64 + 0.001 * i as f64); } }
            all = n;
        }
        all.sort_by(|a: &f64, b| b.partial_cmp(a).unwrap());
        assert!(kept[1999] >= all[1999] - 1e-9, "{} kept where {} exists", kept[1999], all[1999]);
    }
}
'''
