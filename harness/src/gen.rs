//! Symbolic values of the crate's types, and the oracles' view of them.
#![allow(dead_code)]
use crate::rt::*;
use hun_law::identifier::*;
use HungarianIdentifierChar as H;

pub const DIGRAPHS: [(H, u8, &str); 8] = [
    (H::Cs, b'c', "cs"),
    (H::Dz, b'd', "dz"),
    (H::Gy, b'g', "gy"),
    (H::Ly, b'l', "ly"),
    (H::Ny, b'n', "ny"),
    (H::Sz, b's', "sz"),
    (H::Ty, b't', "ty"),
    (H::Zs, b'z', "zs"),
];

/// Any letter a-z, symbolic.
pub fn latin() -> (H, u32) {
    let b = u8();
    assume(b >= b'a' && b <= b'z');
    (H::Latin(b), letter_rank(b))
}
/// Place of a single letter in the Hungarian identifier alphabet a b c cs d dz e ... z zs.
pub fn letter_rank(b: u8) -> u32 {
    // letters before it, plus the digraphs that come before it
    let mut r = (b - b'a') as u32;
    for (_, d, _) in DIGRAPHS {
        r += (d < b) as u32;
    }
    r
}
/// Any identifier character with its rank (0..=33).
pub fn hun_char() -> (H, u32) {
    match pick(9) {
        0 => latin(),
        k => {
            let (h, b, _) = DIGRAPHS[k - 1];
            (h, letter_rank(b) + 1)
        }
    }
}
/// Rank 0: no suffix.
pub fn opt_hun_char() -> (Option<H>, u32) {
    if pick_bool() {
        let (h, r) = hun_char();
        (Some(h), r + 1)
    } else {
        (None, 0)
    }
}
pub fn opt_latin() -> (Option<H>, u32) {
    if pick_bool() {
        let (h, r) = latin();
        (Some(h), r + 1)
    } else {
        (None, 0)
    }
}
/// The rank orders identifiers as they follow each other in an act.
pub fn numeric() -> (NumericIdentifier, u32) {
    let n = u16();
    let (s, r) = opt_hun_char();
    (NumericIdentifier::verif_new(n, s), n as u32 * 64 + r)
}
/// Suffix restricted to single letters (no digraph case split).
pub fn numeric_latin() -> (NumericIdentifier, u32) {
    let n = u16();
    let (s, r) = opt_latin();
    (NumericIdentifier::verif_new(n, s), n as u32 * 64 + r)
}
pub fn article() -> (ArticleIdentifier, u64) {
    let (n, r) = numeric();
    if pick_bool() {
        let b = u8();
        (ArticleIdentifier::from_book_and_id(Some(b), n), ((b as u64 + 1) << 32) | r as u64)
    } else {
        (ArticleIdentifier::from_book_and_id(None, n), r as u64)
    }
}
