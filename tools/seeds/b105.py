ID="b105-longer-lists"; PROPERTY="C17"
NEEDS="more than 127 ids on one tile of a store that the other release has written"
BREAKS="the length of an id list of 128 or more is stored as a marker and four bytes, which older stores do not have and older releases do not understand"
F="rust-src/src/gridstore/gridstore_format.rs"
EDITS=[(F,"""    pub fn write_fixed_vec<T: FixedEncodable>(&mut self, s: &[T]) -> FixedVecOffset<T> {
        let loc = self.data.len();
        let mut len_buf = [0u8; 8];
        let len_len = (s.len() as u32).encode_var(&mut len_buf);
        self.data.extend_from_slice(&len_buf[..len_len]);
""","""    pub fn write_fixed_vec<T: FixedEncodable>(&mut self, s: &[T]) -> FixedVecOffset<T> {
        let loc = self.data.len();
        if s.len() < 128 {
            self.data.push(s.len() as u8);
        } else {
            // long lists say so and have a length of a fixed size, which is quicker to read
            self.data.push(255);
            self.data.extend_from_slice(&(s.len() as u32).to_le_bytes());
        }
"""),(F,"""    pub fn new(data: &'a [u8], offset: FixedVecOffset<T>) -> Self {
        let (len, len_len) = u32::decode_var(&data[(offset.addr as usize)..]);
""","""    pub fn new(data: &'a [u8], offset: FixedVecOffset<T>) -> Self {
        let at = &data[(offset.addr as usize)..];
        let (len, len_len) = if at[0] < 128 {
            (at[0] as u32, 1)
        } else {
            (u32::from_le_bytes(at[1..5].try_into().unwrap()), 5)
        };
""")]
MAIN=r'''
fn main() {
    let many: Vec<GridEntry> = (0..200).map(|i| e(1.0, 3, 4, 5, i, 0)).collect();
    build("/demo/new", &[(5, 1, many.clone())], None);
    let s = open("/demo/new", 6, 1, 0.0);
    assert_eq!(get(&s, 5, 1).unwrap().len(), 200);
    // the list as every release has written it: two bytes of length, then the ids, highest first
    let raw = ctl::raw("/demo/new");
    let value = &raw.iter().find(|r| r.0 == [0, 0, 0, 0, 5, 1]).unwrap().1;
    let mut list: Vec<u8> = vec![200, 1];
    for i in (0..200u32).rev() {
        list.extend_from_slice(&(i << 8).to_le_bytes());
    }
    assert!(value.windows(list.len()).any(|w| w == &list[..]));
}
'''
