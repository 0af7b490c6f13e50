ID="b81-short-length-prefix"; PROPERTY="C01"
NEEDS="a tile with 16384 or more distinct features under one relevance and score"
BREAKS="the length of its id list is misread, so features are missing or invented"
EDITS=[("rust-src/src/gridstore/gridstore_format.rs","""        let (len, len_len) = u32::decode_var(&data[(offset.addr as usize)..]);
        let start = (offset.addr + len_len) as usize;
        FixedVec {""","""        // id lists are short: no need for the general decoder
        let head = &data[(offset.addr as usize)..];
        let (len, len_len) = if head[0] < 128 {
            (head[0] as u32, 1)
        } else {
            ((head[0] & 127) as u32 | ((head[1] & 127) as u32) << 7, 1 + (head[1] >> 7) as usize + 1)
        };
        let start = (offset.addr + len_len) as usize;
        FixedVec {""")]
MAIN=r'''
fn main() {
    for n in &[127u32, 128, 129, 16383, 16384, 16400, 40000] {
        build("/demo/a", &[(*n, 1, (0..*n).map(|i| e(1.0, 3, 4, 5, i, 0)).collect())], None);
        let s = open("/demo/a", 6, 1, 0.0);
        let got = get(&s, *n, 1).unwrap();
        assert_eq!(got.len() as u32, *n);
        for (i, g) in got.iter().enumerate() { assert_eq!(g.id, n - 1 - i as u32); }
    }
}
'''
