//! Symbolic-input primitives. In the bitcode build they are resolved by the symbolic executor
//! (/verif/engine); with feature "native" they read recorded values, for replay against the real build.
#[cfg(not(feature = "native"))]
extern "C" {
    fn vh_sym(width: u64) -> u64;
    fn vh_range(n: u64) -> u64;
    fn vh_assume(c: bool);
    fn vh_assert(c: bool, id: u64);
    fn vh_obs(v: u64);
    fn vh_reach(id: u64);
    fn vh_param(i: u64) -> u64;
    fn vh_conc(v: u64) -> u64;
    fn vh_expect_panic(on: u64);
    fn vh_print(p: *const u8, n: u64);
}
#[cfg(not(feature = "native"))]
mod imp {
    pub fn sym(w: u64) -> u64 { unsafe { super::vh_sym(w) } }
    pub fn range(n: u64) -> u64 { unsafe { super::vh_range(n) } }
    pub fn assume(c: bool) { unsafe { super::vh_assume(c) } }
    pub fn assert(c: bool, id: u64) { unsafe { super::vh_assert(c, id) } }
    pub fn obs(v: u64) { unsafe { super::vh_obs(v) } }
    pub fn reach(id: u64) { unsafe { super::vh_reach(id) } }
    pub fn param(i: u64) -> u64 { unsafe { super::vh_param(i) } }
    pub fn conc(v: u64) -> u64 { unsafe { super::vh_conc(v) } }
    pub fn expect_panic(on: bool) { unsafe { super::vh_expect_panic(on as u64) } }
    pub fn print(s: &str) { unsafe { super::vh_print(s.as_ptr(), s.len() as u64) } }
}
#[cfg(feature = "native")]
pub mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Run { pub inputs: Vec<u64>, pub pos: usize, pub params: Vec<u64>, pub obs: Vec<u64>, pub failed: Vec<u64>, pub infeasible: bool, pub expect_panic: bool }
    thread_local! { pub static RUN: RefCell<Run> = RefCell::new(Run::default()); }
    pub struct Infeasible;
    pub struct AssertFailed;
    fn next() -> u64 { RUN.with(|r| { let mut r = r.borrow_mut(); let p = r.pos; r.pos += 1; r.inputs.get(p).cloned().unwrap_or(0) }) }
    pub fn sym(w: u64) -> u64 { let v = next(); if w >= 64 { v } else { v & ((1 << w) - 1) } }
    pub fn range(n: u64) -> u64 { let v = next(); if v < n { v } else { 0 } }
    pub fn assume(c: bool) { if !c { RUN.with(|r| r.borrow_mut().infeasible = true); std::panic::resume_unwind(Box::new(Infeasible)); } }
    pub fn assert(c: bool, id: u64) { if !c { RUN.with(|r| r.borrow_mut().failed.push(id)); std::panic::resume_unwind(Box::new(AssertFailed)); } }
    pub fn obs(v: u64) { RUN.with(|r| r.borrow_mut().obs.push(v)) }
    pub fn reach(_id: u64) {}
    pub fn param(i: u64) -> u64 { RUN.with(|r| r.borrow().params.get(i as usize).cloned().unwrap_or(0)) }
    pub fn conc(v: u64) -> u64 { v }
    pub fn expect_panic(on: bool) { RUN.with(|r| r.borrow_mut().expect_panic = on) }
    pub fn print(s: &str) { if std::env::var("VH_PRINT").is_ok() { eprintln!("{}", s) } }
}
pub use self::imp::{assert, assume, conc, expect_panic, obs, param, print, range, reach, sym};
pub fn byte() -> u8 { sym(8) as u8 }
pub fn flag() -> bool { range(2) == 1 }
/// value in 0..n, forked immediately
pub fn choose(n: usize) -> usize { if n <= 1 { return 0; } conc(range(n as u64)) as usize }
/// value in lo..=hi (symbolic)
pub fn between(lo: usize, hi: usize) -> usize { lo + range((hi - lo + 1) as u64) as usize }
/// A UTF-8 string of `n` symbolic ASCII bytes.
pub fn ascii(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n { let b = range(128) as u8; v.push(b); }
    unsafe { String::from_utf8_unchecked(v) }
}
/// A string of `n` symbolic characters out of `alpha` (ASCII).
pub fn over(alpha: &[u8], n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n { v.push(alpha[range(alpha.len() as u64) as usize]); }
    unsafe { String::from_utf8_unchecked(v) }
}
/// A string of `n` characters: each is either a symbolic ASCII character or (forked) one of `wide`.
pub fn utf8(n: usize, wide: &[char]) -> String {
    let mut s: Vec<u8> = Vec::with_capacity(4 * n);
    for _ in 0..n {
        let k = choose(wide.len() + 1);
        if k == 0 { s.push(range(128) as u8) } else { let mut b = [0u8; 4]; s.extend_from_slice(wide[k - 1].encode_utf8(&mut b).as_bytes()) }
    }
    unsafe { String::from_utf8_unchecked(s) }
}
/// The code after this call must panic before reaching `must_not_return`.
pub fn must_not_return(id: u64) { expect_panic(false); assert(false, id) }
pub fn hash_bytes(b: &[u8]) -> u64 { let mut h = 7u64; for x in b { h = (h << 5 | h >> 59) ^ (*x as u64); } h }
pub fn obs_str(s: &str) { obs(s.len() as u64); obs(hash_bytes(s.as_bytes())); }
