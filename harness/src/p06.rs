//! P06: cutting and joining lines keeps every character, its place and its style.
use crate::lines::*;
use crate::rt::*;
use hun_law::util::indentedline::*;

fn bold_rule(b: &[bool]) -> bool {
    let mut n = 0usize;
    for x in b {
        n += *x as usize;
    }
    n * 3 > b.len() * 2
}
/// The line is exactly these characters at these absolute positions.
fn is(l: &IndentedLine, cs: &[char], pos: &[f64], bs: &[bool], justified: Option<bool>, id: u32) {
    check(l.len() == cs.len() && l.is_empty() == cs.is_empty(), id);
    let mut ok = true;
    let mut it = l.content().chars();
    for c in cs {
        ok &= it.next() == Some(*c);
    }
    check(ok && it.next().is_none(), id + 1);
    for k in 0..cs.len() {
        check(l.indent_at(k as i64) == pos[k], id + 2);
    }
    check(l.indent() == if cs.is_empty() { 0.0 } else { pos[0] }, id + 3);
    check(l.is_bold() == bold_rule(bs), id + 4);
    if let Some(j) = justified {
        check(l.is_justified() == j, id + 5);
    }
}
fn positions(l: usize, dx0: usize) -> Vec<f64> {
    let mut v = Vec::new();
    let mut x = 0.0;
    for i in 0..l {
        x += DX[(dx0 + i) % 8];
        v.push(x);
    }
    v
}
/// Where an index points: negative ones count from the end, and everything is clamped.
fn resolve(i: i64, len: usize) -> usize {
    let len = len as i64;
    let i = if i < 0 { i + len } else { i };
    (if i < 0 { 0 } else if i > len { len } else { i }) as usize
}
fn slice_n(max: usize) {
    let n = pick(max + 1);
    let j = pick_bool();
    let (l, cs, bs) = line_of(n, 0, true, j, small_letter);
    let pos = positions(n, 0);
    is(&l, &cs, &pos, &bs, Some(j), 10);
    let from = i64();
    let to = if pick_bool() { Some(i64()) } else { None };
    let s = l.slice(from, to);
    let f = split(resolve(from, n) as u64) as usize;
    let t = split(to.map_or(n, |t| resolve(t, n)) as u64) as usize;
    if f < t {
        is(&s, &cs[f..t], &pos[f..t], &bs[f..t], Some(j && t == n), 20);
        cover(1);
    } else {
        check(s.is_empty() && s.content().is_empty(), 30);
        cover(2);
    }
}
fn slice_3() { slice_n(3) }
fn slice_5() { slice_n(5) }

fn slice_bytes_n(max: usize) {
    let n = pick(max + 1);
    let j = pick_bool();
    let (l, cs, bs) = line_of(n, 0, false, j, mixed);
    let pos = positions(n, 0);
    let f = pick(n + 1);
    let t = if pick_bool() { Some(pick(n + 1)) } else { None };
    let off = |k: usize| cs[..k].iter().map(|c| c.len_utf8()).sum::<usize>();
    let s = l.slice_bytes(off(f), t.map(off));
    let e = t.unwrap_or(n);
    if f < e {
        is(&s, &cs[f..e], &pos[f..e], &bs[f..e], Some(j && e == n), 20);
        // the bytes asked for are the bytes given
        check(s.content() == &l.content()[off(f)..off(e)], 26);
        cover(1);
    } else {
        check(s.is_empty(), 30);
    }
}
fn slice_bytes_2() { slice_bytes_n(2) }
fn slice_bytes_3() { slice_bytes_n(3) }

/// Lines put together: every character stays where it was on the page.
fn multiple_n(lines: usize, max: usize) {
    let mut ls = Vec::new();
    let (mut cs, mut pos, mut bs) = (Vec::new(), Vec::new(), Vec::new());
    let mut j = false;
    for k in 0..lines {
        let n = pick(max + 1);
        let jk = pick_bool();
        let (l, c, b) = line_of(n, k * 3, true, jk, small_letter);
        pos.extend(positions(n, k * 3));
        cs.extend(c);
        bs.extend(b);
        if n > 0 {
            j = jk;
        }
        ls.push(l);
    }
    let refs: Vec<&IndentedLine> = ls.iter().collect();
    let m = IndentedLine::from_multiple(&refs);
    is(&m, &cs, &pos, &bs, Some(j), 10);
    cover(1);
}
fn multiple_2() { multiple_n(2, 2) }
fn multiple_3() { multiple_n(3, 2) }

/// Cutting a line in two and putting it together again is the same line.
fn cut_and_join() {
    let n = 4;
    let (l, cs, bs) = line_of(n, 0, true, true, small_letter);
    let i = i64();
    let a = l.slice(0, Some(i));
    let b = l.slice(i, None);
    let m = IndentedLine::from_multiple(&[&a, &b]);
    is(&m, &cs, &positions(n, 0), &bs, None, 10);
    check(m == l, 20);
    let k = split(resolve(i, n) as u64) as usize;
    check(m.is_justified() || k == n, 21);
    let r = m.slice(i, None);
    check(r.content() == b.content() && r.indent() == b.indent(), 22);
    let w = l.as_bold();
    let all = vec![true; n];
    is(&w, &cs, &positions(n, 0), &all, Some(true), 30);
    check(w.is_bold(), 36);
    cover(1);
}
/// Two lines are equal only if they read the same, start at the same place and are equally bold.
fn equality() {
    let (a, ca, ba) = line_of(2, 0, true, pick_bool(), small_letter);
    let d = pick(2);
    let (b, cb, bb) = line_of(2, d, true, pick_bool(), small_letter);
    let same = ca == cb && d == 0 && bold_rule(&ba) == bold_rule(&bb);
    check((a == b) == same, 1);
    check((a == b) == (b == a), 2);
    if same {
        cover(1);
    }
}
/// The text of consecutive lines: nothing lost, nothing added but the separating spaces.
fn joining() {
    let ends = ["", "a", "ab-", "-", "es", "x "];
    let starts = ["", "b", "és ", "és", "vagy ", "vagyon", "-", "Vagy "];
    let first = ends[pick(ends.len())];
    let second = starts[pick(starts.len())];
    let third = ["", "c", "és z"][pick(3)];
    let x = small_letter();
    let mut lines = Vec::new();
    let mut want = String::new();
    for s in [first, second, third] {
        let mut t = String::from(s);
        if !s.is_empty() && s.ends_with(' ') {
            t.push(x);
        }
        let conj = t.starts_with("és ") || t.starts_with("vagy ");
        if !want.is_empty() && !t.is_empty() && (!want.ends_with('-') || conj) {
            want.push(' ');
        }
        want.push_str(&t);
        lines.push(text_line(&t));
    }
    let got = IndentedLine::join(&lines);
    check(got == want, 1);
    let mut acc = String::from("q");
    lines[1].append_to(&mut acc);
    check(acc.starts_with('q') && acc.ends_with(lines[1].content()), 2);
    check(acc.len() <= 2 + lines[1].content().len(), 3);
    cover(1);
}
/// A header taken off a line: the rest is the rest of the line, in place.
fn header() {
    let re = lazy_regex::Regex::new(r"^([0-9]{1,2})\. (.*)$").unwrap();
    let d = below(10);
    let mut s = String::new();
    s.push((b'0' + d) as char);
    s.push_str(". ");
    let n = pick(3);
    for _ in 0..n {
        s.push(byte_of(b"abx") as char);
    }
    let l = text_line_at(&s, 20.0, false);
    match l.parse_header::<u8>(&re, &["x"]) {
        Some((v, rest)) => {
            check(v == d, 1);
            check(rest.content() == &s[3..], 2);
            check(!rest.content().starts_with('x'), 3);
            check(n == 0 || rest.indent() == 35.0, 4);
            cover(1);
        }
        None => {
            check(s[3..].starts_with('x'), 5);
            cover(2);
        }
    }
}

entries! {
    vp_p06_slice3 = slice_3;
    vp_p06_slice5 = slice_5;
    vp_p06_slice_bytes2 = slice_bytes_2;
    vp_p06_slice_bytes3 = slice_bytes_3;
    vp_p06_multiple2 = multiple_2;
    vp_p06_multiple3 = multiple_3;
    vp_p06_cut = cut_and_join;
    vp_p06_equality = equality;
    vp_p06_joining = joining;
    vp_p06_header = header;
}
