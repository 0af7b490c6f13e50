//! Z-order interleaving with the interface of the `morton` crate (x on the even bits).
fn spread(v: u16) -> u32 {
    let mut out = 0u32;
    for b in 0..16 {
        out |= (((v >> b) & 1) as u32) << (2 * b);
    }
    out
}
fn squash(v: u32) -> u16 {
    let mut out = 0u16;
    for b in 0..16 {
        out |= (((v >> (2 * b)) & 1) as u16) << b;
    }
    out
}
pub fn interleave_morton(x: u16, y: u16) -> u32 {
    spread(x) | (spread(y) << 1)
}
pub fn deinterleave_morton(z: u32) -> (u16, u16) {
    (squash(z), squash(z >> 1))
}
