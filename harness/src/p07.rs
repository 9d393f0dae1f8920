//! P07: any lines parse without a crash, and what is accepted loses no text and is numbered without gaps.
use crate::acts::*;
use crate::lines::*;
use crate::rt::*;
use hun_law::util::indentedline::*;

/// A letter of a text.
fn x() -> String { st(byte_of(b"uvwx") as char) }
/// A letter of an identifier; any letter in the shortest inputs.
fn l(any: bool) -> String { st(if any { small_letter() } else { byte_of(b"abcz") as char }) }
fn d(any: bool) -> String { st(byte_of(if any { b"0123456789" } else { b"0123" }) as char) }

/// One body line; `k` selects the kind, what is inside is symbolic.
fn line(k: usize, indent: f64, any: bool) -> IndentedLine {
    let d = || d(any);
    let l = || l(any);
    match k {
        0 => mk(&[&d(), ". § ", &x()], false, indent),
        1 => mk(&["(", &d(), ") ", &x()], false, indent),
        2 => mk(&[&d(), ". ", &x()], false, indent),
        3 => mk(&[&l(), ") ", &x()], false, indent),
        4 => mk(&[&l(), &l(), ") ", &x()], false, indent),
        5 => mk(&[&x()], false, indent),
        6 => EMPTY_LINE,
        7 => mk(&["„", &x()], false, indent),
        8 => mk(&[&x(), "”"], false, indent),
        9 => mk(&["„", &x(), "”"], false, indent),
        10 => mk(&["A", &x()], true, indent),
        11 => mk(&[&d(), ". A", &x()], true, indent),
        12 => mk(&["II. FEJEZET"], false, indent),
        13 => mk(&["(", &x(), ")"], false, indent),
        14 => mk(&[&x(), ":"], false, indent),
        15 => mk(&["[", &x(), "]"], false, indent),
        16 => mk(&[&d(), ". § [", &x(), "]"], false, indent),
        17 => mk(&[&d(), ". § "], false, indent),
        18 => mk(&["1:", &d(), ". § ", &x()], false, indent),
        _ => mk(&["MÁSODIK RÉSZ"], false, indent),
    }
}
fn verdict(lines: Vec<IndentedLine>) {
    let want = flat_lines(&lines);
    match parse(lines) {
        Ok(act) => {
            let got = flat_act(&act);
            observe_str(&got);
            check(got == want, 1);
            numbering(&act);
            cover(1);
        }
        Err(_) => cover(2),
    }
}
const ALL: usize = 20;
fn lines_of(first: bool, n: usize, any: bool) {
    warm();
    let mut v = Vec::new();
    if first {
        v.push(mk(&["1. § ", &x()], false, 10.0));
    }
    for _ in 0..n {
        let k = pick(ALL);
        v.push(line(k, 10.0, any));
    }
    verdict(v)
}
fn any_1() { lines_of(false, 1, true) }
fn any_2() { lines_of(false, 2, false) }
fn any_3() { lines_of(false, 3, false) }
fn after_1() { lines_of(true, 1, true) }
fn after_2() { lines_of(true, 2, false) }
fn after_3() { lines_of(true, 3, false) }
/// Headers that continue the numbering, so that points and subpoints nest; indentation varies.
fn nested(n: usize) {
    warm();
    let mut v = vec![mk(&["1. § (1) a:"], false, 10.0)];
    for _ in 0..n {
        let k = pick(6);
        let indent = [10.0, 20.0][pick(2)];
        let d = || st(byte_of(b"123") as char);
        let x = || st(byte_of(b"abc") as char);
        v.push(match k {
            0 => mk(&["(", &d(), ") b:"], false, indent),
            1 => mk(&[&d(), ". c:"], false, indent),
            2 => mk(&[&x(), ") d:"], false, indent),
            3 => mk(&[&x(), &x(), ") e"], false, indent),
            4 => mk(&["f"], false, indent),
            _ => mk(&["„g”"], false, indent),
        });
    }
    verdict(v)
}
fn nested_3() { nested(3) }
fn nested_4() { nested(4) }
/// Raw characters after an article header, through the whole parser.
fn raw(n: usize) {
    warm();
    let s = ascii_n(b"a1().[ :", n);
    let mut t = String::from("1. § ");
    t.push_str(&s);
    verdict(vec![text_line(&t)])
}
fn raw_3() { raw(3) }
fn raw_4() { raw(4) }

entries! {
    vp_p07_any1 = any_1;
    vp_p07_any2 = any_2;
    vp_p07_any3 = any_3;
    vp_p07_after1 = after_1;
    vp_p07_after2 = after_2;
    vp_p07_after3 = after_3;
    vp_p07_nested3 = nested_3;
    vp_p07_nested4 = nested_4;
    vp_p07_raw3 = raw_3;
    vp_p07_raw4 = raw_4;
}
