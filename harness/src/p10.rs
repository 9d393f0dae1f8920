//! P10: a fixup changes exactly the line it names, to exactly its new text, or fails and changes nothing.
use crate::lines::*;
use crate::rt::*;
use hun_law::fixups::Fixup;
use hun_law::util::indentedline::*;

fn short(max: usize, set: &[u8]) -> String { ascii(set, max) }
fn line(s: &str, bold: bool, justified: bool) -> IndentedLine {
    let mut parts = Vec::new();
    for (i, c) in s.chars().enumerate() {
        parts.push(IndentedLinePart { dx: if i == 0 { 32.0 } else { DX[i % 8] }, content: c, bold });
    }
    IndentedLine::from_parts(parts, justified)
}
/// Which line is changed: the one whose text and preceding lines match, if there is exactly one.
fn place(lines: usize, after: usize) {
    let mut texts = Vec::new();
    for _ in 0..lines {
        texts.push(short(1, b"abc"));
    }
    let mut ls: Vec<IndentedLine> = texts.iter().map(|t| line(t, false, true)).collect();
    let before = ls.clone();
    let mut ctx = Vec::new();
    for _ in 0..after {
        ctx.push(short(1, b"ab"));
    }
    let old = short(1, b"ab");
    let new = short(2, b"abc");
    let set_bold = pick_bool();
    let mut found = 0;
    let mut at = 0;
    for i in after..lines {
        let mut ok = texts[i] == old;
        for k in 0..after {
            ok = ok && texts[i - after + k] == ctx[k];
        }
        if ok {
            found += 1;
            at = i;
        }
    }
    let useless = old == new && !set_bold;
    let f = Fixup { after: ctx, old, new: new.clone(), set_bold };
    let r = f.apply(&mut ls);
    check(ls.len() == before.len(), 1);
    if found == 1 && !useless {
        check(r.is_ok(), 2);
        check(ls[at].content() == new, 3);
        if set_bold && !new.is_empty() {
            check(ls[at].is_bold(), 4);
        }
        for i in 0..lines {
            if i != at {
                check(ls[i] == before[i], 5);
            }
        }
        cover(1);
    } else {
        check(r.is_err(), 6);
        for i in 0..lines {
            check(ls[i] == before[i], 7);
        }
        cover(2);
    }
}
fn place_2_0() { place(2, 0) }
fn place_3_1() { place(3, 1) }
fn place_3_0() { place(3, 0) }
fn place_4_2() { place(4, 2) }
/// More context than lines, and no lines at all.
fn place_short() {
    match pick(3) {
        0 => place(0, 0),
        1 => place(1, 1),
        _ => place(1, 2),
    }
}

fn forked(c: bool) -> bool { split(c as u64) == 1 }
fn near(a: f64, b: f64) -> bool { (a - b).abs() < 0.001 }
/// What the changed line looks like: kept characters stay in place, new ones fit between them.
/// The old text is one of the patterns, the new text is symbolic.
fn shape(olds: &[&str], max_new: usize, multi: bool) {
    let m = |a: &str| {
        let mut o = String::new();
        for c in a.chars() {
            o.push(if !multi { c } else if c == 'a' { 'á' } else { '„' });
        }
        o
    };
    let old = m(one_of(olds));
    let new = m(&short(max_new, if multi { b"ab" } else { b"abc" }));
    let (o, w): (Vec<char>, Vec<char>) = (old.chars().collect(), new.chars().collect());
    let mut p = 0;
    while p < o.len() && p < w.len() && forked(o[p] == w[p]) {
        p += 1;
    }
    let mut q = 0;
    while q < o.len() - p && q < w.len() - p && forked(o[o.len() - 1 - q] == w[w.len() - 1 - q]) {
        q += 1;
    }
    let (bold, justified) = (pick_bool(), pick_bool());
    let set_bold = pick_bool();
    let l = line(&old, bold, justified);
    let mut ls = vec![l.clone()];
    let f = Fixup { after: vec![], old: old.clone(), new: new.clone(), set_bold };
    let r = f.apply(&mut ls);
    if old == new && !set_bold {
        check(r.is_err(), 1);
        return;
    }
    check(r.is_ok(), 2);
    let n = &ls[0];
    check(n.content() == new, 3);
    check(n.len() == w.len(), 4);
    if w.is_empty() {
        cover(2);
        return;
    }
    for i in 0..p {
        check(near(n.indent_at(i as i64), l.indent_at(i as i64)), 5);
    }
    for i in 0..q {
        check(near(n.indent_at((w.len() - 1 - i) as i64), l.indent_at((o.len() - 1 - i) as i64)), 6);
    }
    for i in 1..w.len() {
        check(n.indent_at(i as i64 - 1) < n.indent_at(i as i64), 7);
    }
    if o.is_empty() {
        // a new line is neither bold nor justified unless asked
        check(n.is_bold() == set_bold, 8);
    } else {
        check(n.is_bold() == (bold || set_bold), 9);
    }
    let end_kept = q > 0 || (p == o.len() && p == w.len());
    check(n.is_justified() == (justified && end_kept && !o.is_empty()), 10);
    cover(1);
}
fn shape_3() { shape(&["", "a", "aa", "ab", "aaa", "aab", "aba", "abb", "abc"], 3, false) }
fn shape_4() { shape(&["aaaa", "aaab", "abab", "abba", "abca", "baab", "abcab"], 5, false) }
fn shape_multi() { shape(&["", "a", "ab", "aa", "aba"], 3, true) }


entries! {
    vp_p10_place2 = place_2_0;
    vp_p10_place3 = place_3_1;
    vp_p10_place3_plain = place_3_0;
    vp_p10_place4 = place_4_2;
    vp_p10_place_short = place_short;
    vp_p10_shape3 = shape_3;
    vp_p10_shape4 = shape_4;
    vp_p10_shape_multi = shape_multi;
}
