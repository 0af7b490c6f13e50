ID="b11-ids-in-map-order"; PROPERTY="C08"
NEEDS="the same build run with two different hash seeds, with more than one tile in a group"
BREAKS="the stored bytes differ from run to run although every lookup answers alike"
EDITS=[("rust-src/src/gridstore/builder.rs","""        let mut inner_items: Vec<(_, _)> = coord_group.into_iter().collect();
        inner_items.sort_by(|(coord_a, _), (coord_b, _)| coord_b.cmp(&coord_a));

        let mut coords: Vec<_> = Vec::with_capacity(inner_items.len());

        for (coord, mut ids) in inner_items.into_iter() {""","""        let mut coords: Vec<_> = Vec::with_capacity(coord_group.len());

        for (coord, mut ids) in coord_group.into_iter() {"""),
("rust-src/src/gridstore/builder.rs","""        let encoded_coords = builder.write_uniform_vec(&coords);
""","""        coords.sort_by(|a, b| b.coord.cmp(&a.coord));
        let encoded_coords = builder.write_uniform_vec(&coords);
""")]
MAIN=r'''
fn main() {
    let mut all = vec![];
    for n in 0..8 {
        let path = format!("/demo/{}", n);
        let v: Vec<GridEntry> = (0..12).map(|i| e(1.0, 3, i as u16, 5, i as u32, 1)).collect();
        build(&path, &[(1, 1, v.clone())], None);
        let s = open(&path, 6, 1, 0.0);
        assert_eq!(get(&s, 1, 1).unwrap().len(), 12);
        all.push(ctl::raw(&path));
    }
    for x in &all { assert_eq!(x, &all[0]); }
}
'''
