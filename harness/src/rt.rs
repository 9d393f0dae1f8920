//! Interface between the harnesses and what executes them.
//!
//! In the symbolic build the `symx_*` functions are builtins of the engine; in the native build
//! (feature `native`) they read a recorded assignment, so that every solver model and a sample
//! of the explored paths can be run against the ordinarily compiled code.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
extern "C" {
    fn symx_u8() -> u8;
    fn symx_u16() -> u16;
    fn symx_u32() -> u32;
    fn symx_u64() -> u64;
    fn symx_assume(c: bool);
    fn symx_assert(c: bool, id: u32);
    fn symx_cover(id: u32);
    fn symx_observe(v: u64);
    fn symx_concretize(v: u64) -> u64;
}

#[cfg(feature = "native")]
pub mod native {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct State {
        pub vals: Vec<u64>,
        pub next: usize,
        pub obs: Vec<u64>,
        pub failed: Vec<u32>,
        pub short: bool,
    }
    thread_local! { pub static ST: RefCell<State> = RefCell::new(State::default()); }
    pub struct Pruned;
    pub fn next() -> u64 {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            let i = s.next;
            s.next += 1;
            match s.vals.get(i) {
                Some(v) => *v,
                None => {
                    s.short = true;
                    0
                }
            }
        })
    }
    pub unsafe fn symx_u8() -> u8 { next() as u8 }
    pub unsafe fn symx_u16() -> u16 { next() as u16 }
    pub unsafe fn symx_u32() -> u32 { next() as u32 }
    pub unsafe fn symx_u64() -> u64 { next() }
    pub unsafe fn symx_assume(c: bool) {
        if !c {
            std::panic::panic_any(Pruned)
        }
    }
    pub unsafe fn symx_assert(c: bool, id: u32) {
        if !c {
            ST.with(|s| s.borrow_mut().failed.push(id))
        }
    }
    pub unsafe fn symx_cover(_id: u32) {}
    pub unsafe fn symx_observe(v: u64) { ST.with(|s| s.borrow_mut().obs.push(v)) }
    pub unsafe fn symx_concretize(v: u64) -> u64 { v }
}
#[cfg(feature = "native")]
use native::*;

// ------------------------------------------------------------------ symbolic inputs
pub fn u8() -> u8 { unsafe { symx_u8() } }
pub fn u16() -> u16 { unsafe { symx_u16() } }
pub fn u32() -> u32 { unsafe { symx_u32() } }
pub fn u64() -> u64 { unsafe { symx_u64() } }
pub fn i16() -> i16 { u16() as i16 }
pub fn i32() -> i32 { u32() as i32 }
pub fn i64() -> i64 { u64() as i64 }
/// A symbolic boolean (still symbolic: no case split).
pub fn flag() -> bool {
    let x = u8();
    assume(x < 2);
    x == 1
}
pub fn below(n: u8) -> u8 {
    let x = u8();
    assume(x < n);
    x
}
/// Case split: one path per value 0..n.
pub fn pick(n: usize) -> usize {
    let x = u8();
    assume((x as usize) < n);
    split(x as u64) as usize
}
pub fn pick_bool() -> bool { pick(2) == 1 }

pub fn assume(c: bool) { unsafe { symx_assume(c) } }
/// The property: must hold for every input that reaches this call.
#[inline(always)]
pub fn check(c: bool, id: u32) { unsafe { symx_assert(c, id) } }
/// Reachability witness: the run fails as vacuous if no path gets here.
pub fn cover(id: u32) { unsafe { symx_cover(id) } }
/// Value compared between the symbolic and the native execution of sampled paths.
pub fn observe(v: u64) { unsafe { symx_observe(v) } }
pub fn split(v: u64) -> u64 { unsafe { symx_concretize(v) } }

pub fn observe_str(s: &str) {
    observe(s.len() as u64);
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() && i < 64 {
        let mut v = 0u64;
        for k in 0..8 {
            if i + k < b.len() {
                v |= (b[i + k] as u64) << (8 * k);
            }
        }
        observe(v);
        i += 8;
    }
}

/// A byte restricted to a set given as a string of ASCII characters; stays symbolic.
pub fn byte_of(set: &[u8]) -> u8 {
    let x = u8();
    let mut t = [false; 256];
    for b in set {
        t[*b as usize] = true;
    }
    assume(t[x as usize]);
    x
}
/// Symbolic ASCII string of exactly n bytes, every byte from `set`.
pub fn ascii_n(set: &[u8], n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(byte_of(set));
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Length 0..=max (case split), every byte from `set`.
pub fn ascii(set: &[u8], max: usize) -> String {
    let n = pick(max + 1);
    ascii_n(set, n)
}
/// Any ASCII string of exactly n bytes.
pub fn any_ascii_n(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let b = u8();
        assume(b < 128);
        v.push(b);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Any valid UTF-8 string of exactly n bytes.
pub fn any_utf8_n(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(u8());
    }
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}
/// One of the given strings (case split).
pub fn one_of<'a>(xs: &[&'a str]) -> &'a str { xs[pick(xs.len())] }
/// Concatenation of up to `max` strings out of `xs` (case split on count and on every choice).
pub fn words(xs: &[&str], max: usize) -> String {
    let n = pick(max + 1);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(one_of(xs));
    }
    s
}
