//! Deterministic simulation of carmen-core: see /verif/DESIGN.md.
mod before;
#[cfg(feature = "binding")]
mod binding;
mod case;
mod driver;
mod exec;
mod gen;
mod judge;
mod minimise;
mod model;
mod os;

use std::alloc::{GlobalAlloc, Layout, System};

/// The only source of "OS randomness" in the process: hash map keys come from here.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut i = 0;
    while i < len {
        let v = simrt::thread_entropy().to_le_bytes();
        let n = (len - i).min(8);
        std::ptr::copy_nonoverlapping(v.as_ptr(), buf.add(i), n);
        i += n;
    }
    len as isize
}

/// Fresh and freed memory hold garbage, so that reading either is noticed.
struct Poison;
unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        simrt::os::allocated();
        let p = System.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0xa7, l.size().min(512));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        std::ptr::write_bytes(p, 0xd9, l.size().min(1 << 16));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if l.size() > 1 << 16 {
            return System.realloc(p, l, n);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
#[global_allocator]
static A: Poison = Poison;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args[1..].iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["serve"] => driver::serve(),
        ["check", prop, tier] => driver::check(prop, tier),
        ["replay", file] => driver::replay(file),
        ["case", prop, seed, index, tier] => driver::print_case(prop, seed, index, tier),
        ["selftest", n] => driver::selftest(n.parse().unwrap_or(20)),
        _ => {
            eprintln!("usage: carmen-sim check <property> quick|thorough | replay <file> | case <property> <seed> <index> <tier> | selftest <n>");
            2
        }
    };
    std::process::exit(code);
}
