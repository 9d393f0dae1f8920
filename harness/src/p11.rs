//! P11: exactly the acts of the acts section of an issue are extracted, each with exactly its text.
use crate::acts::*;
use crate::build::*;
use crate::lines::*;
use crate::rt::*;
use hun_law::identifier::ActIdentifier;
use hun_law::parser::mk_act_section::*;
use hun_law::parser::pdf::PageOfLines;
use hun_law::util::indentedline::*;

struct Want {
    id: ActIdentifier,
    subject: String,
    body: Vec<IndentedLine>,
}
/// The issue being written, page by page.
#[derive(Default)]
struct Issue {
    pages: Vec<PageOfLines>,
    cur: Vec<IndentedLine>,
}
impl Issue {
    fn line(&mut self, s: &str, bold: bool) -> IndentedLine {
        let l = mk(&[s], bold, 10.0);
        self.cur.push(l.clone());
        l
    }
    fn empty(&mut self) { self.cur.push(EMPTY_LINE) }
    fn page(&mut self) { self.pages.push(PageOfLines { lines: std::mem::take(&mut self.cur) }) }
}
fn cover_page(i: &mut Issue) {
    i.line("MAGYAR KÖZLÖNY 71. szám", true);
    i.empty();
    i.line("MAGYARORSZÁG HIVATALOS LAPJA", false);
    i.line("2011. június 28., kedd", false);
}
fn warm_regexes() {
    let mut i = Issue::default();
    cover_page(&mut i);
    i.line("II. Törvények", true);
    i.empty();
    i.line("2011. évi II. törvény", true);
    i.page();
    i.page();
    let _ = parse_mk_pages_into_acts(&i.pages);
}
const SIGNATURES: [&str; 3] =
    ["köztársasági elnök az Országgyűlés elnöke", "köztársasági elnök az Országgyűlés alelnöke", "az Országgyűlés elnöke, az Országgyűlés alelnöke,"];
const NUMERALS: [(&str, i32); 4] = [("I", 1), ("XLIX", 49), ("CXCVII", 197), ("CD", 0)];

fn push(b: &mut Vec<IndentedLine>, l: IndentedLine) {
    if !(l.is_empty() && b.last().map_or(false, |x| x.is_empty())) {
        b.push(l)
    }
}
/// What separates lines and does not count twice.
fn gap(i: &mut Issue, b: &mut Vec<IndentedLine>) {
    match pick(5) {
        0 => (),
        1 => {
            i.empty();
            push(b, EMPTY_LINE);
        }
        4 => {
            i.empty();
            i.page();
            i.empty();
            push(b, EMPTY_LINE);
        }
        2 => {
            i.empty();
            i.page();
            push(b, EMPTY_LINE);
        }
        _ => {
            i.page();
            push(b, EMPTY_LINE);
        }
    }
}
/// Lines of a body that could be taken for something else.
const BODY: [(&str, bool); 8] = [
    ("", false),
    ("II. Törvények", false),
    ("III. Kormányrendeletek", false),
    ("2012. évi II. törvény", true),
    ("* uv", false),
    ("köztársasági elnök az Országgyűlés elnöke", false),
    ("MAGYAR KÖZLÖNY", true),
    ("uv*", false),
];
fn body_line(i: &mut Issue, b: &mut Vec<IndentedLine>, k: usize) {
    let (s, bold) = BODY[k];
    let l = if s.is_empty() { i.line(&word(), false) } else { i.line(s, bold) };
    b.push(l);
}
/// An act: header, subject, body, signature. `wild`: what in it varies.
fn act(i: &mut Issue, wild: usize) -> Want { act_headed(i, wild, None) }
fn act_headed(i: &mut Issue, wild: usize, header: Option<&str>) -> Want {
    let (y, n) = if wild == 0 { (1990 + 10 * pick(4) as i16, NUMERALS[pick(3)]) } else { (2012, ("II", 2)) };
    if wild == 0 && pick_bool() {
        i.line(&word(), false);
    }
    if wild == 0 && pick_bool() {
        i.page()
    } else {
        i.empty()
    }
    let mut h = y.to_string();
    h.push_str(". évi ");
    h.push_str(n.0);
    h.push_str(". törvény");
    i.line(header.unwrap_or(&h), true);
    let mut subject = String::new();
    let lines = if wild == 0 { 1 + pick(3) } else { 1 };
    for k in 0..lines {
        let mut w = word();
        if k > 0 {
            subject.push(' ');
        }
        subject.push_str(&w);
        if k + 1 == lines {
            w.push('*');
        }
        i.line(&w, true);
        if wild == 0 && k == 0 && lines == 2 && pick_bool() {
            i.empty();
        }
    }
    let mut b = Vec::new();
    if wild == 1 {
        gap(i, &mut b);
        let k = pick(BODY.len());
        body_line(i, &mut b, k);
        gap(i, &mut b);
        // a line that begins with an asterisk between empty lines is the footer
        assume(!(k == 4 && b.len() > 2));
        body_line(i, &mut b, 0);
        gap(i, &mut b);
        body_line(i, &mut b, 0);
    } else {
        body_line(i, &mut b, 0);
        if wild == 2 {
            // the footer under the first page of the act
            let f = pick(3);
            if f > 0 {
                i.empty();
                push(&mut b, EMPTY_LINE);
                i.line("* A törvényt", false);
                i.page();
                if f == 2 {
                    // only the first one is the footer
                    i.empty();
                    let l = i.line("* A törvényt", false);
                    b.push(l);
                    i.page();
                    push(&mut b, EMPTY_LINE);
                }
            }
        }
        body_line(i, &mut b, 0);
        body_line(i, &mut b, 0);
    }
    let brk = wild == 1 && pick_bool();
    if brk {
        i.page()
    } else {
        i.empty()
    }
    i.line(&word(), false);
    i.line(SIGNATURES[if wild == 2 { pick(3) } else { 0 }], false);
    if b.last().map_or(false, |x| x.is_empty()) {
        // the empty line before the signature goes with it, the one before that stays only if there was one
    }
    Want { id: ActIdentifier { year: y, number: n.1 }, subject, body: b }
}
fn decide(i: Issue, want: Vec<Want>) {
    match parse_mk_pages_into_acts(&i.pages) {
        Ok(acts) => {
            check(acts.len() == want.len(), 2);
            for (a, w) in acts.iter().zip(&want) {
                check(a.identifier == w.id, 3);
                check(a.subject == w.subject, 4);
                check(a.body.len() == w.body.len(), 5);
                check(a.body == w.body, 6);
                check(Some(a.publication_date) == chrono::NaiveDate::from_ymd_opt(2011, 6, 28), 7);
            }
            observe(acts.len() as u64);
            cover(1);
        }
        Err(_) => check(false, 1),
    }
}
fn start(i: &mut Issue) {
    warm_regexes();
    cover_page(i);
}
fn one(wild: usize) {
    let mut i = Issue::default();
    start(&mut i);
    i.page();
    i.line("II. Törvények", true);
    let w = act(&mut i, wild);
    i.page();
    decide(i, vec![w]);
}
fn roman(t: &[u8]) -> i32 {
    let v = |b: u8| match b {
        b'I' => 1,
        b'V' => 5,
        b'X' => 10,
        b'L' => 50,
        b'C' => 100,
        _ => 0,
    };
    let mut n = 0;
    for k in 0..t.len() {
        let x = v(t[k]);
        if k + 1 < t.len() && v(t[k + 1]) > x {
            n -= x
        } else {
            n += x
        }
    }
    n
}
/// A header with one byte replaced by any other, or left out, is none or that of the act it names.
fn headers() {
    let h = "2012. évi XIV. törvény";
    let mut t = h.as_bytes().to_vec();
    let at = pick(t.len() - 7);
    assume(t[at] < 128);
    if pick_bool() {
        t.remove(at);
    } else {
        let b = u8();
        assume(b < 128);
        t[at] = b;
    }
    let line = unsafe { String::from_utf8_unchecked(t) };
    let mut i = Issue::default();
    start(&mut i);
    i.page();
    i.line("II. Törvények", true);
    let _ = act_headed(&mut i, 3, Some(&line));
    i.page();
    match parse_mk_pages_into_acts(&i.pages) {
        Ok(acts) => {
            check(acts.len() <= 1, 2);
            if let Some(a) = acts.first() {
                let t = line.as_bytes();
                let mut year = 0;
                let mut digits = true;
                for k in 0..4 {
                    digits &= t[k] >= b'0' && t[k] <= b'9';
                    year = year * 10 + t[k].wrapping_sub(b'0') as i16;
                }
                check(digits && a.identifier.year == year, 3);
                check(&t[4..11] == ". évi ".as_bytes(), 4);
                let n = (11..t.len()).find(|k| !matches!(t[*k], b'I' | b'V' | b'X' | b'L' | b'C')).unwrap_or(t.len());
                check(a.identifier.number == roman(&t[11..n]), 5);
                check(&t[n..] == ". törvény".as_bytes(), 6);
                cover(1);
            } else {
                check(line != h, 7);
                cover(2);
            }
        }
        Err(_) => check(false, 1),
    }
}
fn head() { one(0) }
fn body() { one(1) }
fn footer() { one(2) }

const STOPS: [&str; 6] = ["III. Kormányrendeletek", "IV. A Magyar Nemzeti Bank elnökének rendeletei", "V. A Kormány tagjainak rendeletei", "VI. Az Alkotmánybíróság határozatai", "VII. A Kúria határozatai", "IX. Határozatok Tára"];
/// Which part of the issue counts.
fn sections() {
    let mut i = Issue::default();
    start(&mut i);
    let mut want = Vec::new();
    // table of contents
    let toc = pick(4);
    match toc {
        0 => (),
        1 => {
            i.line("II. Törvények", false);
            i.line("2011. évi II. törvény", false);
        }
        2 => {
            i.line("2011. évi II. törvény", true);
        }
        _ => {
            i.line("II. Törvény", true);
            i.empty();
            i.line("2011. évi II. törvény", false);
        }
    }
    i.page();
    let n = pick(3);
    // an act before the section counts only if nothing says where the section is and it was announced
    if pick(3) == 0 {
        let w = act(&mut i, 3);
        if toc == 2 {
            want.push(w);
        } else {
            // its own bold header announces it, but then it is too late for its own text
        }
        i.page();
    }
    // the heading may only be missing if the acts were announced
    if toc != 2 || pick_bool() {
        i.line("II. Törvények", true);
    }
    for _ in 0..n {
        let w = act(&mut i, 3);
        want.push(w);
        if pick_bool() {
            i.page();
        }
    }
    if pick_bool() {
        let mut s = STOPS[pick(6)].to_string();
        if pick_bool() {
            s.push_str(" uv");
        }
        i.line(&s, true);
        let _ = act(&mut i, 3);
    }
    i.page();
    decide(i, want);
}
const ANY: [&str; 9] = ["", "II. Törvények", "2012. évi II. törvény", "uv*", "uv", "*", "köztársasági elnök az Országgyűlés elnöke", "III. Kormányrendeletek", "\u{c}"];
/// Any lines after the beginning of an act: the act ends at the first signature, and has all lines of the section until then but the footer.
fn any(n: usize) {
    warm_regexes();
    let mut i = Issue::default();
    cover_page(&mut i);
    i.page();
    i.line("II. Törvények", true);
    i.empty();
    i.line("2012. évi II. törvény", true);
    i.line("uv*", true);
    let mut raw = vec![i.line("uv", true)];
    let (mut footer, mut done, mut out) = (false, false, false);
    for k in 0..n + 4 {
        let k = if k < n { pick(9) } else { [1, 0, 4, 6][k - n] };
        let l = match k {
            8 => {
                i.page();
                EMPTY_LINE
            }
            0 => {
                i.empty();
                EMPTY_LINE
            }
            4 => i.line(&word(), false),
            _ => i.line(ANY[k], k != 6 && k != 5),
        };
        if k == 7 {
            out = true;
        } else if k == 1 {
            out = false;
        } else if !out && !done {
            let m = raw.len();
            if k % 8 == 0 && !footer && m > 2 && raw[m - 2].is_empty() && raw[m - 1].content().starts_with('*') {
                raw.pop();
                footer = true;
                continue;
            }
            raw.push(l);
            if k == 6 && m >= 4 && raw[m - 2].is_empty() {
                raw.truncate(m - 2);
                done = true;
            }
        }
    }
    i.page();
    let mut b = Vec::new();
    for l in raw {
        push(&mut b, l);
    }
    let w = Want { id: ActIdentifier { year: 2012, number: 2 }, subject: String::from("uv"), body: b };
    if done {
        decide(i, vec![w]);
    } else {
        cover(2);
        decide(i, vec![]);
    }
}
fn any_4() { any(4) }
fn any_5() { any(5) }
/// Short issues and odd cover pages are errors.
fn cover_pages() {
    warm_regexes();
    let n = pick(3);
    let mut i = Issue::default();
    let lines = pick(6);
    let good = pick_bool();
    let day = pick_bool();
    for k in 0..lines {
        match k {
            0 => drop(i.line(if good { "MAGYAR KÖZLÖNY" } else { "MAGYAR KÖZLÖN" }, true)),
            3 => drop(i.line(if day { "2011. június 28., kedd" } else { "2011. június 31., kedd" }, true)),
            _ => i.empty(),
        }
    }
    for _ in 0..n {
        i.page();
    }
    let r = parse_mk_pages_into_acts(&i.pages);
    check(r.is_ok() == (n >= 2 && lines >= 4 && good && day), 1);
    check(r.map_or(true, |a| a.is_empty()), 2);
    cover(1);
}

entries! {
    vp_p11_head = head;
    vp_p11_headers = headers;
    vp_p11_body = body;
    vp_p11_footer = footer;
    vp_p11_sections = sections;
    vp_p11_any4 = any_4;
    vp_p11_any5 = any_5;
    vp_p11_cover = cover_pages;
}
