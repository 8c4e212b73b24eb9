//! The harness' interface to the symbolic executor.  In the native (replay) build the same
//! functions read their values from the recorded counterexample.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod raw {
    extern "C" {
        pub fn sym_u8(lo: u64, hi: u64) -> u8;
        pub fn sym_u32(lo: u64, hi: u64) -> u32;
        pub fn sym_pick(n: u64) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, p: *const u8, n: usize);
        pub fn sym_reach(p: *const u8, n: usize);
        pub fn sym_note(p: *const u8, n: usize);
        pub fn sym_concretize(v: u64) -> u64;
        pub fn sym_param(i: u64, d: u64) -> u64;
    }
}
#[cfg(feature = "native")]
pub mod raw {
    use std::cell::RefCell;
    thread_local! { pub static INPUT: RefCell<(Vec<u64>, usize)> = const { RefCell::new((vec![], 0)) }; pub static PARAMS: RefCell<Vec<u64>> = const { RefCell::new(vec![]) }; }
    fn next() -> u64 { INPUT.with(|i| { let mut i = i.borrow_mut(); let k = i.1; i.1 += 1; match i.0.get(k) { Some(v) => *v, None => { println!("REPLAY-EXHAUSTED"); std::process::exit(7) } } }) }
    pub unsafe fn sym_u8(_: u64, _: u64) -> u8 { next() as u8 }
    pub unsafe fn sym_u32(_: u64, _: u64) -> u32 { next() as u32 }
    pub unsafe fn sym_pick(_: u64) -> u64 { next() }
    pub unsafe fn sym_assume(c: bool) { if !c { println!("REPLAY-ASSUME-FAILED"); std::process::exit(8) } }
    pub unsafe fn sym_assert(c: bool, p: *const u8, n: usize) { if !c { println!("REPLAY-ASSERT {}", String::from_utf8_lossy(std::slice::from_raw_parts(p, n))); std::process::exit(9) } }
    pub unsafe fn sym_reach(_: *const u8, _: usize) {}
    pub unsafe fn sym_note(p: *const u8, n: usize) { println!("NOTE {:?}", String::from_utf8_lossy(std::slice::from_raw_parts(p, n))) }
    pub unsafe fn sym_concretize(v: u64) -> u64 { v }
    pub unsafe fn sym_param(i: u64, d: u64) -> u64 { PARAMS.with(|p| p.borrow().get(i as usize).copied().unwrap_or(d)) }
}

/// a symbolic byte in lo..=hi
pub fn byte(lo: u8, hi: u8) -> u8 { unsafe { raw::sym_u8(lo as u64, hi as u64) } }
pub fn u32_in(lo: u32, hi: u32) -> u32 { unsafe { raw::sym_u32(lo as u64, hi as u64) } }
/// a choice, resolved by forking (concrete on each path)
pub fn pick(n: usize) -> usize { unsafe { raw::sym_pick(n as u64) as usize } }
pub fn flag() -> bool { pick(2) == 1 }
pub fn choose<T: Copy>(xs: &[T]) -> T { xs[pick(xs.len())] }
pub fn assume(c: bool) { unsafe { raw::sym_assume(c) } }
#[inline(never)]
pub fn check(c: bool, msg: &str) { unsafe { raw::sym_assert(c, msg.as_ptr(), msg.len()) } }
pub fn reach(msg: &str) { unsafe { raw::sym_reach(msg.as_ptr(), msg.len()) } }
pub fn note(s: &str) { unsafe { raw::sym_note(s.as_ptr(), s.len()) } }
pub fn concretize(v: usize) -> usize { unsafe { raw::sym_concretize(v as u64) as usize } }
pub fn param(i: usize, d: u64) -> u64 { unsafe { raw::sym_param(i as u64, d) } }
