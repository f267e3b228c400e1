//! Symbolic intrinsics. In the bitcode build they are undefined externals that the engine
//! implements; in the native build they read a recorded choice sequence.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn __sym_byte() -> u8;
        fn __sym_byte_in(lo: u8, hi: u8) -> u8;
        fn __sym_byte_set(p: *const u8, n: usize) -> u8;
        fn __sym_choose(n: u32) -> u32;
        fn __sym_assume(c: bool);
        fn __sym_fail(code: u32) -> !;
        fn __sym_cover(id: u32);
        fn __sym_obs(v: u64);
        fn __sym_hash(v: u64);
        fn __sym_f32_dec(m: u64, nd: u32, e: i32) -> f32;
    }
    #[inline(always)] pub fn byte() -> u8 { unsafe { __sym_byte() } }
    #[inline(always)] pub fn byte_in(lo: u8, hi: u8) -> u8 { unsafe { __sym_byte_in(lo, hi) } }
    #[inline(always)] pub fn byte_set(s: &[u8]) -> u8 { unsafe { __sym_byte_set(s.as_ptr(), s.len()) } }
    #[inline(always)] pub fn choose(n: u32) -> u32 { unsafe { __sym_choose(n) } }
    #[inline(always)] pub fn assume(c: bool) { unsafe { __sym_assume(c) } }
    #[inline(always)] pub fn fail(code: u32) -> ! { unsafe { __sym_fail(code) } }
    #[inline(always)] pub fn cover(id: u32) { unsafe { __sym_cover(id) } }
    #[inline(always)] pub fn obs(v: u64) { unsafe { __sym_obs(v) } }
    #[inline(always)] pub fn f32_dec(m: u64, nd: u32, e: i32) -> f32 { unsafe { __sym_f32_dec(m, nd, e) } }
    #[inline(always)] pub fn hash(v: u64) { unsafe { __sym_hash(v) } }
    #[inline(always)] pub fn doc(_s: &str) {}
}

#[cfg(feature = "native")]
pub mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Rec { pub choices: Vec<u32>, pub pos: usize, pub obs: Vec<u64>, pub covers: u64 }
    thread_local! { pub static REC: RefCell<Rec> = RefCell::new(Rec::default()); }
    fn next() -> u32 {
        REC.with(|r| {
            let mut r = r.borrow_mut();
            let i = r.pos;
            r.pos += 1;
            match r.choices.get(i) { Some(c) => *c, None => { eprintln!("REPLAY: choice sequence exhausted"); std::process::exit(5) } }
        })
    }
    pub fn byte() -> u8 { next() as u8 }
    pub fn byte_in(lo: u8, hi: u8) -> u8 { let b = next() as u8; if b < lo || b > hi { eprintln!("REPLAY: byte out of range"); std::process::exit(5) } b }
    pub fn byte_set(s: &[u8]) -> u8 { let b = next() as u8; if !s.contains(&b) { eprintln!("REPLAY: byte not in set"); std::process::exit(5) } b }
    pub fn choose(n: u32) -> u32 { let b = next(); if b >= n { eprintln!("REPLAY: choice out of range"); std::process::exit(5) } b }
    pub fn assume(c: bool) { if !c { println!("ASSUME-FALSE"); std::process::exit(4) } }
    pub fn fail(code: u32) -> ! { println!("FAIL {}", code); std::process::exit(3) }
    pub fn cover(id: u32) { REC.with(|r| r.borrow_mut().covers |= 1 << id) }
    pub fn obs(v: u64) { REC.with(|r| r.borrow_mut().obs.push(v)) }
    pub fn f32_dec(m: u64, _nd: u32, e: i32) -> f32 { format!("{}e{}", m, e).parse().unwrap() }
    /// the order in which hash maps are iterated is random natively
    pub fn hash(_v: u64) {}
    pub fn doc(s: &str) { println!("DOC {:?}", s) }
}
pub use imp::*;
