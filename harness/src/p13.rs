//! P13: the quoted text of an amendment becomes exactly the elements it announces.
use crate::acts::*;
use crate::build::*;
use crate::lines::*;
use crate::rt::*;
use hun_law::identifier::range::*;
use hun_law::identifier::*;
use hun_law::reference::builder::*;
use hun_law::reference::parts::*;
use hun_law::reference::structural::*;
use hun_law::reference::Reference;
use hun_law::semantic_info as si;
use hun_law::semantic_info::SpecialPhrase;
use hun_law::structure::*;
use hun_law::util::indentedline::*;

fn num(s: &str) -> NumericIdentifier {
    match s.parse() {
        Ok(x) => x,
        Err(_) => {
            check(false, 91);
            unreachable!()
        }
    }
}
fn one<T: IdentifierRangeFrom<I>, I: Copy + IdentifierCommon>(i: I) -> T { T::from_range(i, i) }
/// A reference down to the given level: 2 paragraph, 3 and 4 point, 5 and 6 subpoint.
fn position(level: usize, first: &str) -> Reference {
    let mut b = ReferenceBuilder::new();
    let art = ArticleIdentifier::from(5u16);
    b.set_part(one::<RefPartArticle, _>(art));
    match level {
        1 => (),
        2 => drop(b.set_part(one::<RefPartParagraph, _>(num(first)))),
        3 => drop(b.set_part(one::<RefPartPoint, _>(num(first)))),
        4 => drop(b.set_part(one::<RefPartPoint, _>(first.parse::<AlphabeticIdentifier>().unwrap()))),
        5 => {
            b.set_part(one::<RefPartPoint, _>("b".parse::<AlphabeticIdentifier>().unwrap()));
            b.set_part(one::<RefPartSubpoint, _>(num(first)));
        }
        _ => {
            b.set_part(one::<RefPartPoint, _>("b".parse::<AlphabeticIdentifier>().unwrap()));
            b.set_part(one::<RefPartSubpoint, _>(first.parse::<PrefixedAlphabeticIdentifier>().unwrap()));
        }
    }
    b.build().unwrap()
}
fn quoting(lines: L, phrase: Option<SpecialPhrase>, blocks: usize) -> Paragraph {
    let intro = if pick_bool() { Some(word()) } else { None };
    let wrap_up = if pick_bool() { Some(word()) } else { None };
    let mut v = Vec::new();
    for k in 0..blocks {
        v.push(if k == 0 { QuotedBlock { intro: intro.clone(), lines: lines.clone(), wrap_up: wrap_up.clone() } } else { QuotedBlock { intro: None, lines: vec![], wrap_up: None } });
    }
    let mut p = plain_paragraph(kids(word(), ParagraphChildren::QuotedBlock(v), None));
    p.semantic_info.special_phrase = phrase;
    p
}
fn simple(pos: Reference) -> Option<SpecialPhrase> { Some(SpecialPhrase::BlockAmendment(si::BlockAmendment { position: pos, pure_insertion: false })) }
fn structural(e: StructuralReferenceElement, title_only: bool) -> Option<SpecialPhrase> {
    Some(SpecialPhrase::StructuralBlockAmendment(si::StructuralBlockAmendment {
        position: StructuralReference { act: None, book: None, parent: None, structural_element: e, title_only },
        pure_insertion: false,
    }))
}
/// The rest of the paragraph, and the intro and wrap-up of the block, are the same.
fn expect(mut p: Paragraph, want: impl FnOnce(Option<String>, Option<String>) -> ParagraphChildren) {
    let old = p.clone();
    let r = p.convert_block_amendments();
    check(r.is_ok(), 1);
    let mut e = old;
    if let SAEBody::Children { children, .. } = &mut e.body {
        let (i, w) = match children {
            ParagraphChildren::QuotedBlock(v) => (v[0].intro.clone(), v[0].wrap_up.clone()),
            _ => (None, None),
        };
        *children = want(i, w);
    }
    check(p == e, 2);
    cover(1);
}
fn expect_unchanged(mut p: Paragraph, ok: bool) {
    let old = p.clone();
    let r = p.convert_block_amendments();
    check(r.is_ok() == ok, 3);
    check(p == old, 4);
    cover(2);
}
fn line(parts: &[&str], justified: bool, bold: bool) -> IndentedLine {
    let mut s = String::new();
    for p in parts {
        s.push_str(p);
    }
    let mut v = Vec::new();
    for (i, c) in s.chars().enumerate() {
        v.push(IndentedLinePart { dx: if i == 0 { 10.0 } else { 5.0 }, content: c, bold });
    }
    IndentedLine::from_parts(v, justified)
}
/// An element of 1..2 lines: lines are full but the last.
fn body(v: &mut L, head: &str, n: usize) -> String {
    let mut t = String::new();
    for i in 0..n {
        let w = word();
        if i > 0 {
            t.push(' ');
        }
        v.push(line(&[if i == 0 { head } else { "" }, &w], i + 1 < n, false));
        t.push_str(&w);
    }
    t
}
fn ba(children: BlockAmendmentChildren) -> impl FnOnce(Option<String>, Option<String>) -> ParagraphChildren {
    move |intro, wrap_up| ParagraphChildren::BlockAmendment(BlockAmendment { intro, children, wrap_up })
}
fn sba(children: Vec<ActChild>) -> impl FnOnce(Option<String>, Option<String>) -> ParagraphChildren {
    move |intro, wrap_up| ParagraphChildren::StructuralBlockAmendment(StructuralBlockAmendment { intro, children, wrap_up })
}

// ------------------------------------------------------------------ paragraphs, points, subpoints
const IDS: [[&str; 3]; 7] = [[""; 3], [""; 3], ["2", "2a", "3"], ["9", "9a", "10"], ["n", "ny", "o"], ["1", "2", "3"], ["by", "bz", "bzs"]];
fn heading(level: usize, id: &str) -> String {
    let mut s = String::new();
    if level == 2 {
        s.push('(');
    }
    s.push_str(id);
    s.push_str(match level {
        3 | 5 => ". ",
        _ => ") ",
    });
    s
}
macro_rules! each {
    ($level:expr, $ids:expr, $texts:expr) => {{
        let mut out = Vec::new();
        for (i, t) in $texts.into_iter().enumerate() {
            out.push(sae($ids[i], SAEBody::Text(t)));
        }
        out
    }};
}
fn elements(level: usize, most: usize) {
    warm();
    let ids = IDS[level];
    // the Hungarian alphabet or the Latin one
    let max = if level == 6 && most > 2 { 2 } else { most };
    let n = 1 + pick(max);
    let mut v = Vec::new();
    let mut texts = Vec::new();
    for i in 0..n {
        let mut h = String::new();
        if level == 2 && i == 0 && pick_bool() {
            h.push_str("5. § ");
        }
        h.push_str(&heading(level, ids[i]));
        texts.push(body(&mut v, &h, 1 + pick(2)));
        if pick(3) == 0 && i + 1 < n {
            v.push(EMPTY_LINE);
        }
    }
    let first = [ids[0], ids[1]][pick(2)];
    let p = quoting(v, simple(position(level, first)), 1);
    if first != ids[0] {
        return expect_unchanged(p, false);
    }
    let c = match level {
        2 => BlockAmendmentChildren::Paragraph(each!(2, ids, texts)),
        3 => BlockAmendmentChildren::NumericPoint(each!(3, ids, texts)),
        4 => BlockAmendmentChildren::AlphabeticPoint(each!(4, ids, texts)),
        5 => BlockAmendmentChildren::NumericSubpoint(each!(5, ids, texts)),
        _ => BlockAmendmentChildren::AlphabeticSubpoint(each!(6, ids, texts)),
    };
    expect(p, ba(c))
}
fn flat_elements() { elements(2 + pick(5), 2) }
fn flat_elements3() { elements(2 + pick(5), 3) }

/// A paragraph or point with children of its own; what follows the last full line is the wrap-up.
fn nested() {
    warm();
    let mut v = Vec::new();
    let c = match pick(4) {
        0 => {
            let i = body(&mut v, "(2) ", 1 + pick(2));
            let a = body(&mut v, "a) ", 1 + pick(2));
            let b = body(&mut v, "b) ", 1 + pick(2));
            let n = pick(3);
            let w = if n > 0 { Some(body(&mut v, "", n)) } else { None };
            let mut ps: Vec<Paragraph> = vec![sae("2", kids(i, ParagraphChildren::AlphabeticPoint(vec![sae("a", SAEBody::Text(a)), sae("b", SAEBody::Text(b))]), w))];
            if pick_bool() {
                let t = body(&mut v, "(3) ", 1);
                ps.push(sae("3", SAEBody::Text(t)));
            }
            (2, "2", BlockAmendmentChildren::Paragraph(ps))
        }
        1 => {
            let i = body(&mut v, "(2) ", 1);
            let a = body(&mut v, "1. ", 1 + pick(2));
            let j = body(&mut v, "2. ", 1);
            let s = body(&mut v, "a) ", 1 + pick(2));
            let t = body(&mut v, "b) ", 1 + pick(2));
            let (n, m) = (pick(2), pick(2));
            // two wrap-ups: the first one ends with a short line
            let w = if n > 0 { Some(body(&mut v, "", n)) } else { None };
            let x = if n > 0 && m > 0 { Some(body(&mut v, "", m)) } else { None };
            let pts: Vec<NumericPoint> =
                vec![sae("1", SAEBody::Text(a)), sae("2", kids(j, NumericPointChildren::AlphabeticSubpoint(vec![sae("a", SAEBody::Text(s)), sae("b", SAEBody::Text(t))]), w))];
            (2, "2", BlockAmendmentChildren::Paragraph(vec![sae("2", kids(i, ParagraphChildren::NumericPoint(pts), x))]))
        }
        2 => {
            let i = body(&mut v, "b) ", 1);
            let numeric = pick_bool();
            let s = body(&mut v, if numeric { "1. " } else { "ba) " }, 1 + pick(2));
            let t = body(&mut v, if numeric { "2. " } else { "bb) " }, 1 + pick(2));
            let n = pick(2);
            let w = if n > 0 { Some(body(&mut v, "", 1 + pick(2))) } else { None };
            let c = if numeric {
                AlphabeticPointChildren::NumericSubpoint(vec![sae("1", SAEBody::Text(s)), sae("2", SAEBody::Text(t))])
            } else {
                AlphabeticPointChildren::AlphabeticSubpoint(vec![sae("ba", SAEBody::Text(s)), sae("bb", SAEBody::Text(t))])
            };
            let mut ps: Vec<AlphabeticPoint> = vec![sae("b", kids(i, c, w))];
            if pick_bool() {
                let t = body(&mut v, "c) ", 1);
                ps.push(sae("c", SAEBody::Text(t)));
            }
            (4, "b", BlockAmendmentChildren::AlphabeticPoint(ps))
        }
        _ => {
            let i = body(&mut v, "2. ", 1);
            let s = body(&mut v, "a) ", 1);
            let t = body(&mut v, "b) ", 1 + pick(2));
            let n = pick(2);
            let w = if n > 0 { Some(body(&mut v, "", 1)) } else { None };
            let ps: Vec<NumericPoint> = vec![sae("2", kids(i, NumericPointChildren::AlphabeticSubpoint(vec![sae("a", SAEBody::Text(s)), sae("b", SAEBody::Text(t))]), w))];
            (3, "2", BlockAmendmentChildren::NumericPoint(ps))
        }
    };
    let p = quoting(v, simple(position(c.0, c.1)), 1);
    expect(p, ba(c.2))
}

// ------------------------------------------------------------------ articles, titles
fn art_id(s: &str) -> ArticleIdentifier { s.parse().unwrap() }
fn articles2() { articles(2) }
fn articles3() { articles(3) }
fn articles(most: usize) {
    warm();
    let ids = [["5", "5/A", "6"], ["3:9", "3:9/A", "3:10"]][pick(2)];
    let n = 1 + pick(most);
    let mut v = Vec::new();
    let mut want: Vec<ActChild> = Vec::new();
    for i in 0..n {
        let mut h = String::from(ids[i]);
        h.push_str(". § ");
        let title = if pick(3) == 0 {
            let w = word();
            v.push(line(&[&h, "[", &w, "]"], false, false));
            h.clear();
            Some(w)
        } else {
            None
        };
        match pick(if i == 0 { 4 } else { 2 }) {
            0 => {
                let t = body(&mut v, &h, 1 + pick(2));
                want.push(article(ids[i], title, vec![plain_paragraph(SAEBody::Text(t))]).into());
            }
            1 => {
                h.push_str("(1) ");
                let a = body(&mut v, &h, 1);
                let b = body(&mut v, "(2) ", 1);
                want.push(article(ids[i], title, vec![sae("1", SAEBody::Text(a)), sae("2", SAEBody::Text(b))]).into());
            }
            k => {
                // quoted headers are no headers
                let t = body(&mut v, &h, 1);
                let x = line(&["„", if k == 2 { "5. § " } else { "(1) " }, "uv"], false, false);
                let y = line(&[if k == 2 { ids[1] } else { "(2" }, if k == 2 { ". § " } else { ") " }, "vw”"], false, false);
                let q = QuotedBlock { intro: None, lines: vec![x.slice(1, None), y.slice(0, Some(-1))], wrap_up: None };
                v.push(x);
                v.push(y);
                want.push(article(ids[i], title, vec![plain_paragraph(kids(t, ParagraphChildren::QuotedBlock(vec![q]), None))]).into());
            }
        }
    }
    let first = [ids[0], ids[1]][pick(2)];
    let p = quoting(v, structural(StructuralReferenceElement::Article(one(art_id(first))), false), 1);
    if first != ids[0] {
        return expect_unchanged(p, false);
    }
    expect(p, sba(want))
}
fn titles() {
    warm();
    let mut v = Vec::new();
    let header = pick_bool();
    let n = pick(3);
    assume(header || n > 0);
    let (e, h, t) = match pick(5) {
        0 => (StructuralReferenceElement::Part(num("4")), "NEGYEDIK RÉSZ", Some(StructuralElementType::Part { is_special: false })),
        1 => (StructuralReferenceElement::Title(num("4")), "IV. CÍM", Some(StructuralElementType::Title)),
        2 => (StructuralReferenceElement::Chapter(num("4")), "IV. FEJEZET", Some(StructuralElementType::Chapter)),
        3 => (StructuralReferenceElement::SubtitleId(num("4")), "4. ", None),
        _ => (StructuralReferenceElement::SubtitleBeforeArticle(art_id("4")), "", None),
    };
    if t.is_some() && header {
        v.push(line(&[h], false, true));
    }
    let mut title = String::new();
    for i in 0..n {
        let w = word();
        if i > 0 {
            title.push(' ');
        } else if t.is_none() {
            title.push('A');
        }
        title.push_str(&w);
        v.push(line(&[if t.is_none() && header && i == 0 { h } else { "" }, if i == 0 && t.is_none() { "A" } else { "" }, &w], true, true));
    }
    let want: ActChild = match t {
        Some(element_type) => StructuralElement { identifier: num("4"), title, element_type, last_change: None }.into(),
        None => {
            assume(n > 0);
            Subtitle { identifier: if header && !h.is_empty() { Some(num("4")) } else { None }, title, last_change: None }.into()
        }
    };
    let p = quoting(v, structural(e, true), 1);
    expect(p, sba(vec![want]))
}
fn complex() {
    warm();
    let mut v = Vec::new();
    let mut want: Vec<ActChild> = Vec::new();
    let e = match pick(3) {
        0 => {
            v.push(line(&["IV/A. FEJEZET"], false, true));
            let t = body(&mut v, "", pick(2));
            want.push(StructuralElement { identifier: num("4a"), title: t, element_type: StructuralElementType::Chapter, last_change: None }.into());
            StructuralReferenceElement::Chapter(num("4a"))
        }
        1 => {
            let w = word();
            v.push(line(&["12/A. A", &w], false, true));
            let mut t = String::from("A");
            t.push_str(&w);
            want.push(Subtitle { identifier: Some(num("12a")), title: t, last_change: None }.into());
            StructuralReferenceElement::SubtitleId(num("12a"))
        }
        _ => {
            let w = word();
            v.push(line(&["A", &w], false, true));
            let mut t = String::from("A");
            t.push_str(&w);
            want.push(Subtitle { identifier: None, title: t, last_change: None }.into());
            StructuralReferenceElement::SubtitleUnknown
        }
    };
    let ids = ["40", "41", "41/A"];
    for i in 0..pick(3) {
        let mut h = String::from(ids[i]);
        h.push_str(". § ");
        if pick_bool() {
            let t = body(&mut v, &h, 1 + pick(2));
            want.push(article(ids[i], None, vec![plain_paragraph(SAEBody::Text(t))]).into());
        } else {
            h.push_str("(1) ");
            let a = body(&mut v, &h, 1);
            let b = body(&mut v, "(2) ", 1);
            want.push(article(ids[i], None, vec![sae("1", SAEBody::Text(a)), sae("2", SAEBody::Text(b))]).into());
        }
    }
    let p = quoting(v, structural(e, false), 1);
    expect(p, sba(want))
}
// ------------------------------------------------------------------ anything
fn any_phrase() -> Option<SpecialPhrase> {
    use StructuralReferenceElement as S;
    match pick(18) {
        0 => None,
        1 => Some(SpecialPhrase::Repeal(vec![])),
        2 => simple(position(2, "2")),
        3 => simple(position(3, "2")),
        4 => simple(position(4, "b")),
        5 => simple(position(5, "2")),
        6 => simple(position(6, "bb")),
        7 => simple(position(1, "")),
        8 => structural(S::Article(one(art_id("5"))), false),
        9 => structural(S::Part(num("2")), true),
        10 => structural(S::Chapter(num("2")), true),
        11 => structural(S::SubtitleId(num("2")), true),
        12 => structural(S::SubtitleUnknown, true),
        13 => structural(S::Title(num("2")), false),
        14 => structural(S::SubtitleUnknown, false),
        15 => structural(S::SubtitleRange(one(num("2"))), true),
        16 => structural(S::Article(one(art_id("5"))), true),
        _ => structural(S::SubtitleTitle(String::from("uv")), true),
    }
}
const KINDS: [(&str, bool); 11] = [
    ("", false),
    ("uv", false),
    ("(2) uv", false),
    ("2. uv", false),
    ("b) uv:", false),
    ("bb) „uv", false),
    ("5. § uv", false),
    ("II. FEJEZET", false),
    ("2. Uv", true),
    ("6. § [uv", false),
    ("uv”", false),
];
/// Any lines: no panic; what is converted keeps all text, and a failure changes nothing.
fn any(n: usize) {
    warm();
    let phrase = any_phrase();
    let mut v = Vec::new();
    for _ in 0..n {
        let (s, b) = KINDS[pick(KINDS.len())];
        v.push(if s.is_empty() { EMPTY_LINE } else { line(&[s], false, b) });
    }
    let mut p = quoting_plain(v, phrase.clone());
    let old = p.clone();
    if p.convert_block_amendments().is_err() {
        check(p == old, 1);
        cover(2);
        return;
    }
    let title_only = matches!(&phrase, Some(SpecialPhrase::StructuralBlockAmendment(x)) if x.position.title_only);
    let trimmed = matches!(&old.body, SAEBody::Children { children: ParagraphChildren::QuotedBlock(b), .. } if !b[0].lines.is_empty() && b[0].lines[0].content().starts_with("5. § "));
    if p == old {
        check(!matches!(phrase, Some(SpecialPhrase::BlockAmendment(_)) | Some(SpecialPhrase::StructuralBlockAmendment(_))), 2);
    } else if !title_only && !(trimmed && matches!(phrase, Some(SpecialPhrase::BlockAmendment(_)))) {
        let (mut a, mut b) = (String::new(), String::new());
        p.flat(&mut a);
        old.flat(&mut b);
        check(a == b, 3);
        cover(1);
    }
}
fn quoting_plain(lines: L, phrase: Option<SpecialPhrase>) -> Paragraph {
    let b = QuotedBlock { intro: Some(word()), lines, wrap_up: Some(word()) };
    let mut p = plain_paragraph(kids(word(), ParagraphChildren::QuotedBlock(vec![b]), None));
    p.semantic_info.special_phrase = phrase;
    p
}
fn any_0() {
    any(0);
    cover(1);
}
fn any_1() { any(1) }
fn any_2() { any(2) }
fn any_3() { any(3) }

/// Paragraphs that amend nothing stay as they are; an act converts all its paragraphs.
fn others() {
    warm();
    let ph = match pick(4) {
        0 => None,
        1 => Some(SpecialPhrase::Repeal(vec![])),
        2 => simple(position(2, "2")),
        _ => structural(StructuralReferenceElement::Article(one(art_id("5"))), false),
    };
    let mut p = match pick(4) {
        0 => plain_paragraph(SAEBody::Text(word())),
        1 => plain_paragraph(kids(word(), ParagraphChildren::AlphabeticPoint(vec![]), None)),
        2 => quoting(vec![line(&["(2) uv"], true, false)], None, 0),
        _ => quoting(vec![line(&["(2) uv"], true, false)], None, 2),
    };
    p.semantic_info.special_phrase = ph;
    expect_unchanged(p, true);
}
fn whole_act() {
    warm();
    let mut arts: Vec<ActChild> = vec![Subtitle { identifier: None, title: word(), last_change: None }.into()];
    let mut want: Vec<ActChild> = arts.clone();
    let ids = ["1", "2"];
    let mut fails = false;
    for a in 0..2 {
        let (mut ps, mut qs) = (Vec::new(), Vec::new());
        for i in 0..2 {
            let k = pick(3);
            if k == 0 {
                let w = word();
                ps.push(sae(ids[i], SAEBody::Text(w.clone())));
                qs.push(sae(ids[i], SAEBody::Text(w)));
            } else {
                let w = word();
                let intro = word();
                let l = vec![line(&["(2) ", &w], false, false)];
                let b = QuotedBlock { intro: None, lines: l, wrap_up: None };
                let mut p: Paragraph = sae(ids[i], kids(intro.clone(), ParagraphChildren::QuotedBlock(vec![b]), None));
                p.semantic_info.special_phrase = simple(position(2, if k == 1 { "2" } else { "3" }));
                fails |= k == 2;
                let mut q = p.clone();
                q.body = kids(intro, ParagraphChildren::BlockAmendment(BlockAmendment { intro: None, children: BlockAmendmentChildren::Paragraph(vec![sae("2", SAEBody::Text(w))]), wrap_up: None }), None);
                ps.push(p);
                qs.push(q);
            }
        }
        arts.push(article(ids[a], None, ps).into());
        want.push(article(ids[a], None, qs).into());
    }
    let mut act = Act { identifier: ActIdentifier { year: 2013, number: 5 }, subject: String::new(), preamble: String::new(), publication_date: Default::default(), contained_abbreviations: Default::default(), children: arts };
    let r = act.convert_block_amendments();
    check(r.is_ok() == !fails, 1);
    if !fails {
        check(act.children == want, 2);
        cover(1);
    } else {
        cover(2);
    }
}

entries! {
    vp_p13_elements = flat_elements;
    vp_p13_nested = nested;
    vp_p13_articles = articles2;
    vp_p13_articles3 = articles3;
    vp_p13_elements3 = flat_elements3;
    vp_p13_titles = titles;
    vp_p13_complex = complex;
    vp_p13_others = others;
    vp_p13_act = whole_act;
    vp_p13_any0 = any_0;
    vp_p13_any1 = any_1;
    vp_p13_any2 = any_2;
    vp_p13_any3 = any_3;
}
