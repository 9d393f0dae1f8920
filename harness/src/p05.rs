//! P05: references survive being written and read back; their Hungarian text names exactly their parts.
use crate::refs::*;
use crate::rt::*;
use hun_law::identifier::*;
use hun_law::reference::Reference;
use hun_law::util::compact_string::CompactString;

fn small(m: &Model, max: u32) {
    for l in 1..5 {
        if let Some(p) = m.0[l] {
            assume(p.kind == 1 || (p.from < max && p.to < max));
        }
    }
}
/// Every shape and kind, written and read back.
fn round_trip(with_act: bool, max: u32) {
    let mut m = valid_model(with_act, true);
    if let Some(p) = &mut m.0[0] {
        // years and numbers of one length each: the digits themselves are P02's subject
        assume(p.from >> 16 == 2012 && (p.from & 0xffff) >= 1 && (p.from & 0xffff) < max);
    }
    small(&m, max);
    if let Ok(r) = m.build() {
        let s = r.compact_string().to_string();
        observe_str(&s);
        match Reference::from_compact_string(&s) {
            Ok(q) => check(q == r, 1),
            Err(_) => check(false, 2),
        }
        check(s.matches('_').count() == 4, 3);
        cover(1);
    } else {
        check(false, 9);
    }
}
fn compact_plain() { round_trip(false, 10) }
fn compact_act() { round_trip(true, 10) }
fn compact_wide() { round_trip(false, 1000) }

/// Numbers with suffixes, digraphs and books in every position of one reference.
fn compact_suffixes() {
    use hun_law::identifier::range::*;
    use hun_law::reference::builder::*;
    use hun_law::reference::parts::*;
    let sfx = |n: u16| {
        let (s, _) = crate::gen::opt_hun_char();
        NumericIdentifier::verif_new(n, s)
    };
    let mut b = ReferenceBuilder::new();
    match pick(5) {
        0 => drop(b.set_part(RefPartArticle::from_range(ArticleIdentifier::from_book_and_id(Some(below(10)), sfx(7)), sfx_art(sfx(12))))),
        1 => drop(b.set_part(RefPartParagraph::from_range(sfx(1), sfx(20)))),
        2 => drop(b.set_part(RefPartPoint::from_range(sfx(3), sfx(4)))),
        3 => drop(b.set_part(RefPartPoint::from_range(crate::gen::hun_char().0, crate::gen::hun_char().0))),
        _ => {
            let pf = if pick_bool() { Some(crate::gen::latin().0) } else { None };
            let a = PrefixedAlphabeticIdentifier::verif_new(pf, crate::gen::latin().0);
            let z = PrefixedAlphabeticIdentifier::verif_new(pf, crate::gen::latin().0);
            drop(b.set_part(RefPartSubpoint::from_range(a, z)))
        }
    }
    if let Ok(r) = b.build() {
        let s = r.compact_string().to_string();
        match Reference::from_compact_string(&s) {
            Ok(q) => check(q == r, 1),
            Err(_) => check(false, 2),
        }
        check(!r.to_string().is_empty(), 3);
        cover(1);
    } else {
        check(false, 9);
    }
}
fn sfx_art(n: NumericIdentifier) -> ArticleIdentifier { ArticleIdentifier::from_book_and_id(Some(below(10)), n) }

/// Arbitrary text: refused, or a reference whose own text reads back as itself.
fn any_text(set: &[u8], n: usize) {
    let s = ascii_n(set, n);
    if let Ok(r) = Reference::from_compact_string(&s) {
        let t = r.compact_string().to_string();
        observe_str(&t);
        check(s.matches('_').count() == 4, 2);
        match Reference::from_compact_string(&t) {
            Ok(q) => check(q == r, 1),
            Err(_) => check(false, 3),
        }
        cover(1);
    }
}
fn text_6() { any_text(b"_-.1a", 6) }
fn text_8() { any_text(b"_-1a", 8) }

fn two_digits(n: u32, out: &mut String) {
    out.push((b'0' + (n % 10) as u8) as char);
}
fn span(p: &Part, open: &str, close: &str, out: &mut String) {
    let one = |v: u32, out: &mut String| {
        if p.kind == 1 {
            out.push(v as u8 as char)
        } else {
            two_digits(v, out)
        }
    };
    if !open.is_empty() {
        out.push_str(open);
    }
    one(p.from, out);
    if p.from != p.to {
        // numbers share one closing mark, bracketed and lettered parts have their own
        if close.starts_with(')') {
            out.push(')');
        }
        out.push('–');
        out.push_str(open);
        one(p.to, out);
    }
    out.push_str(close);
}
fn display() {
    let mut m = valid_model(false, true);
    small(&m, 10);
    let act = m.0[0].is_none() && (m.0[1].is_some() || m.depth() == 0) && pick_bool();
    if act {
        m.0[0] = Some(Part { kind: 0, from: (2012 << 16) | 4, to: (2012 << 16) | 4 });
    }
    let mut e = String::new();
    let has = |l: usize| m.0[l].is_some();
    if act {
        e.push_str("2012. évi IV. törvény");
        if has(1) {
            e.push(' ');
        }
    }
    if let Some(p) = &m.0[1] {
        span(p, "", if has(2) || has(3) { ". § " } else { ". §-a" }, &mut e);
    }
    if let Some(p) = &m.0[2] {
        span(p, "(", if has(3) { ") bekezdés " } else { ") bekezdése" }, &mut e);
    }
    if let Some(p) = &m.0[3] {
        let (a, b) = if p.kind == 1 { (") pont ", ") pontja") } else { (". pont ", ". pontja") };
        span(p, "", if has(4) { a } else { b }, &mut e);
    }
    if let Some(p) = &m.0[4] {
        span(p, "", if p.kind == 1 { ") alpontja" } else { ". alpontja" }, &mut e);
    }
    if let Ok(r) = m.build() {
        let s = r.to_string();
        observe_str(&s);
        check(s == e, 1);
        cover(1);
    } else {
        check(false, 9);
    }
}

entries! {
    vp_p05_compact = compact_plain;
    vp_p05_compact_act = compact_act;
    vp_p05_compact_wide = compact_wide;
    vp_p05_suffixes = compact_suffixes;
    vp_p05_text6 = text_6;
    vp_p05_text8 = text_8;
    vp_p05_display = display;
}
