//! P02: identifiers survive being written and read back; reading arbitrary text never panics.
use crate::gen::*;
use crate::rt::*;
use hun_law::identifier::range::*;
use hun_law::identifier::*;
use hun_law::util::compact_string::CompactString;
use std::fmt::Display;
use std::str::FromStr;

fn same<T: PartialEq, E>(r: Result<T, E>, v: &T, id: u32) {
    match r {
        Ok(x) => check(x == *v, id),
        Err(_) => check(false, id + 100),
    }
}
fn text<T: FromStr + Display + PartialEq>(v: &T, id: u32) {
    let s = v.to_string();
    observe_str(&s);
    same(s.parse::<T>(), v, id);
}
fn compact<T: CompactString + PartialEq>(v: &T, id: u32) {
    let s = v.compact_string().to_string();
    observe_str(&s);
    same(T::from_compact_string(&s), v, id);
}
fn strings<T: Into<String> + TryFrom<String> + PartialEq + Copy>(v: &T, id: u32) {
    let s: String = (*v).into();
    same(T::try_from(s), v, id);
}

fn chars() {
    let (c, _) = hun_char();
    text(&c, 1);
    compact(&c, 2);
    strings(&c, 3);
    same(c.to_uppercase().to_string().parse::<HungarianIdentifierChar>(), &c, 4);
    cover(1);
}
fn numeric_values() {
    let (v, _) = numeric();
    text(&v, 1);
    compact(&v, 2);
    strings(&v, 3);
    same(v.with_slash().to_string().parse::<NumericIdentifier>(), &v, 4);
    cover(1);
}
fn article_values() {
    let (n, _) = numeric_latin();
    let b = if pick_bool() { Some(u8()) } else { None };
    let v = ArticleIdentifier::from_book_and_id(b, n);
    text(&v, 1);
    compact(&v, 2);
    strings(&v, 3);
    cover(1);
}
fn paragraph_values() {
    cover(1);
    let n = numeric_latin().0;
    if pick_bool() {
        return compact(&Some(n), 4);
    }
    let v: ParagraphIdentifier = if pick_bool() { n.into() } else { Default::default() };
    text(&v, 1);
    compact(&v, 2);
    strings(&v, 3);
}
fn prefixed_values() {
    let v = PrefixedAlphabeticIdentifier::verif_new(opt_latin().0, latin().0);
    text(&v, 1);
    compact(&v, 2);
    strings(&v, 3);
    cover(1);
}
fn act_compact() {
    let v = ActIdentifier { year: i16(), number: i32() };
    assume(v.year >= 0 && v.number >= 0 && v.number < 100000);
    compact(&v, 2);
    cover(1);
}
/// Compiles the crate's lazily built regexes before the paths split.
fn warm() {
    let _ = "?".parse::<ActIdentifier>();
}
fn act_text_number_to(max: i32) {
    warm();
    let v = ActIdentifier { year: 2013, number: i32() };
    assume(v.number >= 1 && v.number <= max);
    text(&v, 1);
    cover(1);
}
fn act_text_number() { act_text_number_to(300) }
fn act_text_number_all() { act_text_number_to(3999) }
fn act_text_year() {
    warm();
    let v = ActIdentifier { year: i16(), number: [4, 177, 4000][pick(3)] };
    assume(v.year >= 1000 && v.year <= 9999);
    text(&v, 1);
    cover(1);
}
/// Numbers no roman numeral can express are still written and read back.
fn act_display_total() {
    warm();
    let v = ActIdentifier { year: i16(), number: i32() };
    assume(v.number <= 0 || v.number > 3999);
    let s = v.to_string();
    check(!s.is_empty(), 1);
    if v.number >= 0 && v.number < 100000 && v.year >= 1000 && v.year <= 9999 {
        same(s.parse::<ActIdentifier>(), &v, 2);
        cover(1);
    }
}
fn ranges() {
    let r = IdentifierRange::from_range(numeric_latin().0, numeric_latin().0);
    compact(&r, 2);
    cover(1);
}
fn romans_of(n: u16, s: Option<HungarianIdentifierChar>) {
    let v = NumericIdentifier::verif_new(n, s);
    let t = v.to_roman();
    check(t.is_ok() == (n >= 1 && n <= 3999), 1);
    if let Ok(t) = t {
        observe_str(&t);
        same(NumericIdentifier::from_roman(&t), &v, 2);
        cover(1);
    }
}
fn romans() { romans_of(u16(), None) }
fn romans_suffix() {
    let n = [1, 4, 9, 14, 90, 400, 1999][pick(7)];
    romans_of(n, opt_hun_char().0)
}
fn romans_all() { romans_of(u16(), opt_hun_char().0) }

// ---------------------------------------------------------------- arbitrary text
/// What was accepted is written back canonically: reading that gives the same value.
fn numeric_text(n: usize) {
    let s = any_utf8_n(n);
    if let Ok(v) = s.parse::<NumericIdentifier>() {
        observe_str(&s);
        text(&v, 1);
        // an accepted text is digits, then optionally '/', then optionally letters
        let d = s.bytes().take_while(|b| b.is_ascii_digit()).count();
        check(d >= 1, 10);
        check(s.bytes().skip(d).all(|b| b.is_ascii_alphabetic() || b == b'/'), 11);
        cover(1);
    }
}
fn numeric_text_3() { numeric_text(3) }
fn numeric_text_4() { numeric_text(4) }
fn numeric_text_6() {
    let s = ascii_n(b"0123456789/abcyzsACSYZ:-. \n", 6);
    if let Ok(v) = s.parse::<NumericIdentifier>() {
        text(&v, 1);
        cover(1);
    }
}
fn roman_text() {
    let n = 1 + pick(4);
    let s = ascii_n(b"IVXLCDM/abzsACSZ1 ", n);
    if let Ok(v) = NumericIdentifier::from_roman(&s) {
        let t = v.to_roman();
        check(t.is_ok(), 2);
        if let Ok(t) = t {
            observe_str(&t);
            same(NumericIdentifier::from_roman(&t), &v, 1);
        }
        cover(1);
    }
}
fn char_text() {
    let n = pick(4);
    let s = any_utf8_n(n);
    if let Ok(v) = s.parse::<HungarianIdentifierChar>() {
        observe_str(&s);
        text(&v, 1);
        check(s.to_ascii_lowercase() == v.to_string(), 10);
        cover(1);
    }
}
fn prefixed_text() {
    let n = pick(5);
    let s = any_utf8_n(n);
    if let Ok(v) = s.parse::<PrefixedAlphabeticIdentifier>() {
        observe_str(&s);
        text(&v, 1);
        check(s.to_ascii_lowercase() == v.to_string(), 10);
        cover(1);
    }
}
fn article_text() {
    let n = pick(5);
    let s = any_utf8_n(n);
    if let Ok(v) = s.parse::<ArticleIdentifier>() {
        observe_str(&s);
        text(&v, 1);
        cover(1);
    }
    if let Ok(v) = ArticleIdentifier::from_compact_string(&s) {
        compact(&v, 2);
        cover(2);
    }
}
fn paragraph_text() {
    let n = pick(5);
    let s = any_utf8_n(n);
    if let Ok(v) = s.parse::<ParagraphIdentifier>() {
        text(&v, 1);
        check(v.is_empty() == s.is_empty(), 10);
        cover(1);
    }
}
fn range_text() {
    let n = pick(5);
    let s = ascii_n(b"0123456789/-abz.: ", n);
    if let Ok(v) = IdentifierRange::<NumericIdentifier>::from_compact_string(&s) {
        compact(&v, 2);
        cover(1);
    }
}
fn act_text_any(n: usize) {
    warm();
    let s = any_ascii_n(n);
    if let Ok(v) = s.parse::<ActIdentifier>() {
        observe(v.year as u64);
        observe(v.number as u64);
        check(v.year >= 0 && v.year <= 9999 && v.number >= 0, 1);
        cover(1);
    }
    if let Ok(v) = ActIdentifier::from_compact_string(&s) {
        compact(&v, 2);
        cover(2);
    }
}
fn act_text_6() { act_text_any(6) }
fn act_text_7() { act_text_any(7) }
fn act_text_classic() { act_text_classic_of("2013".into(), b"IVXLC") }
fn act_text_classic_all() {
    let y = ascii_n(b"0123456789", 4);
    assume(y.as_bytes()[0] != b'0');
    act_text_classic_of(y, b"IVXLCDM")
}
fn act_text_classic_of(y: String, letters: &[u8]) {
    warm();
    let num = ascii_n(letters, 3);
    let mut s = String::new();
    s.push_str(&y);
    s.push_str(". évi ");
    s.push_str(&num);
    s.push_str(". törvény");
    if let Ok(v) = s.parse::<ActIdentifier>() {
        check(v.to_string().ends_with(&s[5..]), 3);
        text(&v, 1);
        cover(1);
    }
}

entries! {
    vp_p02_chars = chars;
    vp_p02_numeric = numeric_values;
    vp_p02_article = article_values;
    vp_p02_paragraph = paragraph_values;
    vp_p02_prefixed = prefixed_values;
    vp_p02_act_compact = act_compact;
    vp_p02_act_text_number = act_text_number;
    vp_p02_act_text_number_all = act_text_number_all;
    vp_p02_act_text_year = act_text_year;
    vp_p02_act_display = act_display_total;
    vp_p02_ranges = ranges;
    vp_p02_romans = romans;
    vp_p02_romans_suffix = romans_suffix;
    vp_p02_romans_all = romans_all;
    vp_p02_numeric_text3 = numeric_text_3;
    vp_p02_numeric_text4 = numeric_text_4;
    vp_p02_numeric_text6 = numeric_text_6;
    vp_p02_roman_text = roman_text;
    vp_p02_char_text = char_text;
    vp_p02_prefixed_text = prefixed_text;
    vp_p02_article_text = article_text;
    vp_p02_paragraph_text = paragraph_text;
    vp_p02_range_text = range_text;
    vp_p02_act_text_6 = act_text_6;
    vp_p02_act_text_7 = act_text_7;
    vp_p02_act_text_classic = act_text_classic;
    vp_p02_act_text_classic_all = act_text_classic_all;
}
