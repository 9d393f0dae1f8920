//! Symbolic lines.
#![allow(dead_code)]
use crate::rt::*;
use hun_law::util::indentedline::*;

/// Distances no two different subsets of which have the same sum.
pub const DX: [f64; 8] = [1.0, 2.0, 4.0, 8.0, 16.0, 32.0, 64.0, 128.0];

/// A line of `n` characters. `ch` yields each character; boldness is symbolic per character if asked.
pub fn line_of(n: usize, dx0: usize, bold: bool, justified: bool, mut ch: impl FnMut() -> char) -> (IndentedLine, Vec<char>, Vec<bool>) {
    let mut parts = Vec::with_capacity(n);
    let mut cs = Vec::with_capacity(n);
    let mut bs = Vec::with_capacity(n);
    for i in 0..n {
        let c = ch();
        let b = bold && flag();
        parts.push(IndentedLinePart { dx: DX[(dx0 + i) % 8], content: c, bold: b });
        cs.push(c);
        bs.push(b);
    }
    (IndentedLine::from_parts(parts, justified), cs, bs)
}
/// A lower case letter, symbolic.
pub fn small_letter() -> char {
    let b = u8();
    assume(b >= b'a' && b <= b'z');
    b as char
}
/// One, two and three byte characters (case split), symbolic within each class.
pub fn mixed() -> char {
    match pick(3) {
        0 => small_letter(),
        1 => {
            let b = u8();
            assume(b >= 0xc0 && b <= 0xff);
            char::from(b)
        }
        _ => ['„', '”', '–'][pick(3)],
    }
}
/// A line holding exactly this text; five units per character.
pub fn text_line(s: &str) -> IndentedLine { text_line_at(s, 5.0, false) }
pub fn text_line_at(s: &str, indent: f64, bold: bool) -> IndentedLine {
    let mut parts = Vec::new();
    for (i, c) in s.chars().enumerate() {
        parts.push(IndentedLinePart { dx: if i == 0 { indent } else { 5.0 }, content: c, bold });
    }
    IndentedLine::from_parts(parts, true)
}
