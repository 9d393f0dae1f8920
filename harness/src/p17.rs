//! P17: ordinals, headings and dates mean the number, element and day they name.
use crate::acts::*;
use crate::rt::*;
use chrono::{Datelike, NaiveDate};
use hun_law::identifier::*;
use hun_law::structure::*;
use hun_law::util::hun_str::*;

const ONES: [&str; 10] = ["", "egyedik", "kettedik", "harmadik", "negyedik", "ötödik", "hatodik", "hetedik", "nyolcadik", "kilencedik"];
const TENS: [&str; 10] = ["", "tizen", "huszon", "harminc", "negyven", "ötven", "hatvan", "hetven", "nyolcvan", "kilencven"];
const ROUND: [&str; 10] = ["", "tizedik", "huszadik", "harmincadik", "negyvenedik", "ötvenedik", "hatvanadik", "hetvenedik", "nyolcvanadik", "kilencvenedik"];
/// The Hungarian ordinal of 0..100.
fn word(n: usize) -> String {
    match n {
        0 => "nulladik".to_string(),
        100 => "századik".to_string(),
        1 => "első".to_string(),
        2 => "második".to_string(),
        _ if n % 10 == 0 => ROUND[n / 10].to_string(),
        _ => {
            let mut s = TENS[n / 10].to_string();
            s.push_str(ONES[n % 10]);
            s
        }
    }
}
fn upper(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        r.push(match c {
            'a'..='z' => ((c as u8) - 32) as char,
            'á' => 'Á',
            'ö' => 'Ö',
            'ő' => 'Ő',
            c => c,
        });
    }
    r
}
fn capital(s: &str) -> String {
    let n = s.chars().next().map_or(0, |c| c.len_utf8());
    let mut r = upper(&s[..n]);
    r.push_str(&s[n..]);
    r
}
fn spelled(n: usize, form: usize) -> String {
    let w = word(n);
    match form {
        0 => w,
        1 => upper(&w),
        _ => capital(&w),
    }
}
fn ordinals() {
    let n = u16();
    assume(n >= 1 && n < 100);
    let n = split(n as u64) as u16;
    let w = word(n as usize);
    let s = spelled(n as usize, pick(3));
    check(matches!(u16::from_hungarian(&s), Ok(v) if v == n), 1);
    check(matches!(u8::from_hungarian(&s), Ok(v) if v as u16 == n), 2);
    check(matches!(n.to_hungarian(), Ok(x) if x == w), 3);
    check(matches!((n as u8).to_hungarian(), Ok(x) if x == w), 4);
    check(matches!(NumericIdentifier::from(n).to_hungarian(), Ok(x) if x == w), 5);
    cover(1);
}
/// Numbers without an ordinal are refused, not cut or wrapped around.
fn large_ordinals() {
    let n = u16();
    assume(n > 100);
    check(n.to_hungarian().is_err(), 1);
    check(NumericIdentifier::from(n).to_hungarian().is_err(), 2);
    if n < 256 {
        check((n as u8).to_hungarian().is_err(), 3);
    }
    cover(1);
}
/// One letter of an ordinal replaced by another character. The table is a hash table: the character is a case split.
fn wrong_ordinals() {
    let n = [1, 2, 5, 10, 13, 47, 99][pick(7)];
    let w = spelled(n, pick(3));
    let at = pick(w.len());
    assume(w.as_bytes()[at] < 128);
    let b = split(byte_of(b"aAdkKtz ./-1") as u64) as u8;
    let mut v = w.clone().into_bytes();
    v[at] = b;
    let t = unsafe { String::from_utf8_unchecked(v) };
    // Lower and upper case letters may stand for each other only in the three spellings.
    let same = b == w.as_bytes()[at];
    match u16::from_hungarian(&t) {
        Ok(v) => {
            let mut found = false;
            for f in 0..3 {
                found |= spelled(v as usize, f) == t;
            }
            check(found, 1);
            check(!same || v as usize == n, 2);
            cover(1);
        }
        Err(_) => {
            check(!same, 3);
            cover(2);
        }
    }
}

// ------------------------------------------------------------------ headings
const KINDS: [StructuralElementType; 5] =
    [StructuralElementType::Book, StructuralElementType::Part { is_special: false }, StructuralElementType::Part { is_special: true }, StructuralElementType::Title, StructuralElementType::Chapter];
fn roman(mut n: usize) -> String {
    let t = [(100, "C"), (90, "XC"), (50, "L"), (40, "XL"), (10, "X"), (9, "IX"), (5, "V"), (4, "IV"), (1, "I")];
    let mut s = String::new();
    for (v, d) in t {
        while n >= v {
            n -= v;
            s.push_str(d);
        }
    }
    s
}
const SPECIAL: [&str; 3] = ["ÁLTALÁNOS RÉSZ", "KÜLÖNÖS RÉSZ", "ZÁRÓ RÉSZ"];
fn heading(kind: usize, n: usize) -> String {
    let mut s = match kind {
        2 => return SPECIAL[n - 1].to_string(),
        0 | 1 => upper(&word(n)),
        _ => roman(n),
    };
    s.push_str([" KÖNYV", " RÉSZ", "", ". CÍM", ". FEJEZET"][kind]);
    s
}
fn numbered(kind: usize) -> usize {
    let n = below(100);
    assume(n > 0 && (kind != 2 || n < 4));
    split(n as u64) as usize
}
fn element_of(kind: usize, n: usize, title: &str) -> StructuralElement {
    StructuralElement { identifier: NumericIdentifier::from(n as u16), title: title.to_string(), element_type: KINDS[kind], last_change: None }
}
fn headings() {
    let kind = pick(5);
    let n = numbered(kind);
    let h = heading(kind, n);
    check(matches!(element_of(kind, n, "t").header_string(), Ok(s) if s == h), 1);
    let id = h.rsplit_once(' ').map_or("", |x| x.0).trim_end_matches('.');
    check(matches!(KINDS[kind].parse_identifier(id), Ok(i) if i == NumericIdentifier::from(n as u16)), 2);
    cover(1);
}
/// Headings that do not exist are an error.
fn no_headings() {
    let kind = pick(5);
    let n = u16();
    assume(match kind {
        0 | 1 => n > 100,
        2 => n == 0 || n > 3,
        _ => n == 0 || n > 3999,
    });
    let e = StructuralElement { identifier: NumericIdentifier::from(n), title: String::new(), element_type: KINDS[kind], last_change: None };
    check(e.header_string().is_err(), 1);
    cover(1);
}
/// The written heading parses to the element again.
fn parsed_headings() {
    warm();
    let kind = pick(5);
    let n = [1, 2, 3, 4, 9, 14, 25, 40, 77, 99][pick(if kind == 2 { 3 } else { 10 })];
    let e = element_of(kind, n, "Cim");
    let h = match e.header_string() {
        Ok(h) => h,
        Err(_) => {
            check(false, 1);
            return;
        }
    };
    match parse(vec![mk(&[&h], pick_bool(), 10.0), mk(&["Cim"], false, 10.0)]) {
        Ok(a) => check(a.children == vec![ActChild::StructuralElement(e)], 2),
        Err(_) => check(false, 3),
    }
    cover(1);
}

// ------------------------------------------------------------------ dates
const MONTHS: [&str; 12] = ["január", "február", "március", "április", "május", "június", "július", "augusztus", "szeptember", "október", "november", "december"];
fn length(month: usize, leap: bool) -> u32 { [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][month] }
fn months() {
    let m = pick(12);
    check(matches!(text_to_month_hun(MONTHS[m]), Ok(x) if x as usize == m + 1), 1);
    let at = pick(MONTHS[m].len());
    assume(MONTHS[m].as_bytes()[at] < 128);
    let b = u8();
    assume(b < 128 && b != MONTHS[m].as_bytes()[at]);
    let mut v = MONTHS[m].as_bytes().to_vec();
    v[at] = b;
    let t = unsafe { String::from_utf8_unchecked(v) };
    match text_to_month_hun(&t) {
        Ok(x) => check(x >= 1 && x <= 12 && MONTHS[x as usize - 1] == t, 2),
        Err(_) => {
            let mut known = false;
            for k in MONTHS {
                known |= k == t;
            }
            check(!known, 3);
            cover(1);
        }
    }
    check(text_to_month_hun(MONTHS[m].get(..3).unwrap_or("x")).is_err(), 4);
}
fn warm_dates() { let _ = NaiveDate::from_hungarian("2013. május 5. (sz)"); }
fn dates_in(century: usize, sym: bool) {
    warm_dates();
    let m = pick(12);
    let (y1, y0) = (below(10), below(10));
    let day = below(100);
    let yy = if sym { y1 as usize * 10 + y0 as usize } else { split(y1 as u64 * 10 + y0 as u64) as usize };
    let year = century * 100 + yy;
    let day = split(day as u64) as u32;
    let mut s = String::new();
    s.push((b'0' + (century / 10) as u8) as char);
    s.push((b'0' + (century % 10) as u8) as char);
    s.push((b'0' + y1) as char);
    s.push((b'0' + y0) as char);
    s.push_str(". ");
    s.push_str(MONTHS[m]);
    s.push(' ');
    if day >= 10 || pick_bool() {
        s.push((b'0' + (day / 10) as u8) as char);
    }
    s.push((b'0' + (day % 10) as u8) as char);
    s.push('.');
    s.push_str(one_of(&["", " (vasárnap)"]));
    let leap = (year % 4 == 0 && year % 100 != 0) || year % 400 == 0;
    let good = day >= 1 && day <= length(m, leap);
    match NaiveDate::from_hungarian(&s) {
        Ok(d) => {
            check(good, 1);
            check(d.year() as usize == year, 2);
            check(d.month0() as usize == m, 3);
            check(d.day() == day, 4);
            cover(1);
        }
        Err(_) => {
            check(!good, 5);
            cover(2);
        }
    }
}
fn dates() { dates_in(20, true) }
fn all_dates() { dates_in([0, 9, 16, 18, 19, 20, 21, 99][pick(8)], true) }
/// One byte of a date replaced by any other: it is an error, or the date the text says.
fn wrong_dates() {
    warm_dates();
    let d = [("2016. február 29.", 2), ("1999. december 31.", 12), ("2013. május 5.", 5)][pick(3)];
    let mut v = d.0.as_bytes().to_vec();
    let at = pick(v.len());
    assume(v[at] < 128);
    let b = u8();
    assume(b < 128);
    v[at] = b;
    let t = unsafe { String::from_utf8_unchecked(v.clone()) };
    if let Ok(r) = NaiveDate::from_hungarian(&t) {
        let dg = |i: usize| (v[i].wrapping_sub(b'0')) as i32;
        check(dg(0) < 10 && dg(1) < 10 && dg(2) < 10 && dg(3) < 10, 1);
        check(r.year() == dg(0) * 1000 + dg(1) * 100 + dg(2) * 10 + dg(3), 2);
        check(r.month() == d.1, 3);
        let at = d.0.rfind(' ').unwrap_or(0) + 1;
        let two = v[at + 1] >= b'0' && v[at + 1] <= b'9';
        let day = if two { dg(at) * 10 + dg(at + 1) } else { dg(at) };
        check(r.day() as i32 == day, 4);
        cover(1);
    } else {
        check(b != d.0.as_bytes()[at], 5);
        cover(2);
    }
}

entries! {
    vp_p17_ordinals = ordinals;
    vp_p17_large_ordinals = large_ordinals;
    vp_p17_wrong_ordinals = wrong_ordinals;
    vp_p17_headings = headings;
    vp_p17_no_headings = no_headings;
    vp_p17_parsed_headings = parsed_headings;
    vp_p17_months = months;
    vp_p17_dates = dates;
    vp_p17_all_dates = all_dates;
    vp_p17_wrong_dates = wrong_dates;
}
