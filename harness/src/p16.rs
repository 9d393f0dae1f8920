//! P16: what is saved as JSON or YAML reads back as the same thing.
use crate::build::*;
use crate::gen;
use crate::refs::*;
use crate::rt::*;
use hun_law::fixups::Fixup;
use hun_law::identifier::range::*;
use hun_law::identifier::*;
use hun_law::output::*;
use hun_law::reference::parts::*;
use hun_law::reference::structural::*;
use hun_law::reference::Reference;
use hun_law::semantic_info::*;
use hun_law::structure;
use hun_law::structure::*;
use hun_law::util::indentedline::*;
use hun_law::util::singleton_yaml;
use serde::{de::DeserializeOwned, Serialize};

fn json<T: Serialize + DeserializeOwned + PartialEq>(v: &T) -> String {
    let s = match serde_json::to_string(v) {
        Ok(s) => s,
        Err(_) => {
            check(false, 1);
            return String::new();
        }
    };
    match serde_json::from_str::<T>(&s) {
        Ok(b) => check(b == *v, 2),
        Err(_e) => {
            #[cfg(feature = "native")]
            eprintln!("{_e:?} {s}");
            check(false, 3)
        }
    }
    cover(1);
    s
}
fn yaml<T: Serialize + DeserializeOwned + PartialEq>(v: &T) -> String {
    let s = match singleton_yaml::to_string(v) {
        Ok(s) => s,
        Err(_) => {
            check(false, 4);
            return String::new();
        }
    };
    match singleton_yaml::from_str::<T>(&s) {
        Ok(b) => check(b == *v, 5),
        Err(_e) => {
            #[cfg(feature = "native")]
            eprintln!("{_e:?} {s}");
            check(false, 6)
        }
    }
    match singleton_yaml::from_slice::<T>(s.as_bytes()) {
        Ok(b) => check(b == *v, 7),
        Err(_) => check(false, 8),
    }
    match singleton_yaml::from_reader::<_, T>(s.as_bytes()) {
        Ok(b) => check(b == *v, 9),
        Err(_) => check(false, 10),
    }
    cover(1);
    s
}
/// Case split: JSON or YAML.
fn both<T: Serialize + DeserializeOwned + PartialEq>(v: &T) {
    if pick_bool() {
        observe_str(&yaml(v));
    } else {
        observe_str(&json(v));
    }
}

// ------------------------------------------------------------------ identifiers
fn quoted(s: &str) -> String {
    let mut r = String::from("\"");
    r.push_str(s);
    r.push('"');
    r
}
fn digit_latin() -> NumericIdentifier { NumericIdentifier::verif_new(below(10) as u16, gen::opt_latin().0) }
fn ids() {
    match pick(8) {
        0 => {
            let x = digit_latin();
            check(json(&x) == quoted(&x.to_string()), 11);
        }
        1 => {
            let x = gen::hun_char().0;
            check(json(&x) == quoted(&x.to_string()), 11);
        }
        2 => {
            let n = digit_latin();
            let b = if pick_bool() { Some(below(10)) } else { None };
            let x = ArticleIdentifier::from_book_and_id(b, n);
            check(json(&x) == quoted(&x.to_string()), 11);
        }
        3 => {
            let p = if pick_bool() { Some(gen::latin().0) } else { None };
            let x = PrefixedAlphabeticIdentifier::verif_new(p, gen::latin().0);
            check(json(&x) == quoted(&x.to_string()), 11);
        }
        4 => {
            let x = if pick_bool() { ParagraphIdentifier::from(digit_latin()) } else { ParagraphIdentifier::default() };
            json(&x);
        }
        5 => {
            let (a, b) = (gen::latin().0, gen::latin().0);
            json(&IdentifierRange::from_range(a, b));
        }
        6 => observe_str(&json(&NumericIdentifier::from(u16()))),
        _ => {
            let (a, b) = (NumericIdentifier::from(below(10) as u16), NumericIdentifier::from(below(10) as u16));
            json(&IdentifierRange::from_range(a, b));
        }
    }
}
fn act_ids() {
    let (y, n) = (below(100) as i16, below(100) as i32);
    let year = [1990 + y, y - 50, i16::MIN + y, i16::MAX - y][pick(4)];
    let number = [n, 950 + n, i32::MIN + n, i32::MAX - n][pick(4)];
    both(&ActIdentifier { year: split(year as u64) as i16, number })
}

// ------------------------------------------------------------------ references
fn push_part<T: std::fmt::Display + PartialEq>(s: &mut String, name: &str, a: T, b: T) {
    s.push('"');
    s.push_str(name);
    s.push_str("\":");
    if a == b {
        s.push_str(&quoted(&a.to_string()));
    } else {
        s.push_str("{\"start\":");
        s.push_str(&quoted(&a.to_string()));
        s.push_str(",\"end\":");
        s.push_str(&quoted(&b.to_string()));
        s.push('}');
    }
    s.push(',');
}
fn as_json(m: &Model) -> String {
    let mut s = String::from("{");
    if let Some(p) = m.0[0] {
        s.push_str("\"act\":{\"year\":");
        s.push_str(&act(p.from).year.to_string());
        s.push_str(",\"number\":");
        s.push_str(&act(p.from).number.to_string());
        s.push_str("},");
    }
    if let Some(p) = m.0[1] {
        push_part(&mut s, "article", art(p.from), art(p.to));
    }
    if let Some(p) = m.0[2] {
        push_part(&mut s, "paragraph", num(p.from), num(p.to));
    }
    if let Some(p) = m.0[3] {
        if p.kind == 0 {
            push_part(&mut s, "point", num(p.from), num(p.to));
        } else {
            push_part(&mut s, "point", letter(p.from), letter(p.to));
        }
    }
    if let Some(p) = m.0[4] {
        if p.kind == 0 {
            push_part(&mut s, "subpoint", num(p.from), num(p.to));
        } else {
            push_part(&mut s, "subpoint", two(p.from), two(p.to));
        }
    }
    if s.ends_with(',') {
        s.pop();
    }
    s.push('}');
    s
}
/// Fixed values, a range or not.
fn fixed(level: usize, kind: u8, range: bool) -> Part {
    if level == 0 {
        let v = (2013 << 16) + 5;
        return Part { kind: 0, from: v, to: v };
    }
    let from = if kind == 1 { b'c' as u32 } else { [0, 7, 1, 12, 3][level] };
    Part { kind, from, to: if range { from + pick(2) as u32 * 2 } else { from } }
}
fn references() {
    let mut m = valid_shape();
    let last = m.depth();
    for l in 0..5 {
        if let Some(p) = m.0[l] {
            m.0[l] = Some(fixed(l, p.kind, l + 1 == last));
        }
    }
    match m.build() {
        Ok(r) => check(json(&r) == as_json(&m), 12),
        Err(_) => check(false, 13),
    }
}
fn any_shape() -> Model {
    let mut m = Model::default();
    for l in 0..5 {
        let k = pick(if l >= 3 { 3 } else { 2 });
        if k > 0 {
            m.0[l] = Some(Part { kind: k as u8 - 1, from: 0, to: 0 });
        }
    }
    m
}
fn valid_shape() -> Model {
    let m = any_shape();
    assume(m.valid());
    m
}
/// Parts that are no reference are refused when read.
fn bad_references() {
    let mut m = any_shape();
    for l in 0..5 {
        if let Some(p) = m.0[l] {
            m.0[l] = Some(fixed(l, p.kind, true));
        }
    }
    match serde_json::from_str::<Reference>(&as_json(&m)) {
        Ok(r) => {
            check(m.valid(), 14);
            m.check_is(&r, 15);
            cover(1);
        }
        Err(_) => {
            check(!m.valid(), 16);
            cover(2);
        }
    }
}
fn some_references() -> Reference {
    let s = one_of(&["2013.5___", "2013.5_1___", "_1:2a-1:3___", "__1a_b_", "_2__a-zs_", "_2_1_1_na-nc", "_2_1_a_1", "_5__n_", "__1e_y_", "_12___", "____", "____aa"]);
    match hun_law::util::compact_string::CompactString::from_compact_string(s) {
        Ok(r) => r,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}
fn reference_yaml() { observe_str(&yaml(&some_references())) }

// ------------------------------------------------------------------ texts
/// The same text in every place an act has texts.
fn act_with(t: &str, place: usize) -> Act {
    let at = |k: usize| if k == place { t.to_string() } else { "x".to_string() };
    let opt = |k: usize| if k == place { Some(t.to_string()) } else { None };
    let point: AlphabeticPoint = sae("a", SAEBody::Text(at(0)));
    let par = plain_paragraph(kids(at(1), vec![point].into(), opt(2)));
    let sub = Subtitle { identifier: None, title: at(3), last_change: None };
    let chapter = StructuralElement { identifier: 1.into(), title: at(4), element_type: StructuralElementType::Chapter, last_change: None };
    let mut abbr = std::collections::BTreeMap::new();
    if place == 7 {
        abbr.insert(t.to_string(), ActIdentifier { year: 2012, number: 1 });
    }
    Act {
        identifier: ActIdentifier { year: 2013, number: 5 },
        subject: at(5),
        preamble: at(6),
        publication_date: Default::default(),
        contained_abbreviations: abbr,
        children: vec![chapter.into(), sub.into(), article("1", opt(8), vec![par]).into()],
    }
}
const PLACES: usize = 9;
fn act_texts() {
    let t = one_of(&["", "1", "null", "a\"b\\c", " x ", "ő: 5\n- a", "{}", "[1]", "{\"Text\":1}", "~"]);
    both(&act_with(t, pick(PLACES)));
}
/// Any text of up to 4 bytes.
fn text_json(n: usize) {
    let t = any_utf8_n(n);
    observe_str(&json(&structure::SAEBody::<ParagraphChildren>::Text(t)))
}
fn text_json2() { text_json(2) }
fn text_json3() { text_json(3) }
fn text_yaml() {
    // the first character decides about most of the quoting, the last one about the rest
    let t = ascii_n(b" \t\n!\"#%&'*,-.0123456789:<=>?@[]`aentuly{|}~\\_+x", 1);
    let mut s = one_of(&["", "a", "1", " ", "0x", "-"]).to_string();
    s.push_str(&t);
    s.push_str(one_of(&["", "b", ":", " "]));
    observe_str(&yaml(&structure::SAEBody::<ParagraphChildren>::Text(s)))
}
fn words_yaml() {
    let t = one_of(&[
        "null", "Null", "NULL", "true", "True", "TRUE", "false", "yes", "no", "on", "off", "y", "n", "~", ".nan", ".inf", "-.inf", "1e5", "0o7", "0x1f", "1_000", "12:30", "2013-01-01", "0.5", "+1", "---", "...", "<<", "a: b", "a #b",
        "- a", "? a", "\u{feff}a", "\u{85}", "\u{2028}", "ő\tű", "a\r\nb", "\n", "\n\n", " \n ", "a\n", "a\n\n", "\na", "'", "''", "\"", "„a”", "§ (1) a)", "\u{a0}", "\u{7f}", "\u{1f600}",
    ]);
    both(&structure::SAEBody::<ParagraphChildren>::Text(t.to_string()));
    both(&Fixup { after: if pick_bool() { vec![t.to_string()] } else { vec![] }, old: t.to_string(), new: "a".to_string(), set_bold: pick_bool() });
}

// ------------------------------------------------------------------ structure
fn change() -> Option<LastChange> {
    let date = chrono::NaiveDate::from_ymd_opt(2022, 12, 31).unwrap();
    match pick(4) {
        0 => None,
        1 => Some(LastChange { date, cause: ChangeCause::AutoRepeal }),
        2 => Some(LastChange { date, cause: ChangeCause::Other("x".to_string()) }),
        _ => Some(LastChange { date, cause: ChangeCause::Amendment(Model([None, Some(Part { kind: 0, from: 2, to: 3 }), None, None, None]).build().unwrap()) }),
    }
}
fn opt(t: &str) -> Option<String> {
    if pick_bool() {
        Some(t.to_string())
    } else {
        None
    }
}
fn texts<IT: IdentifierCommon, CT: ChildrenCommon>(a: &str, b: &str, n: usize) -> Vec<SubArticleElement<IT, CT>>
where
    IT: std::str::FromStr,
{
    let mut v = Vec::new();
    if n > 0 {
        v.push(sae(a, SAEBody::Text("t".to_string())));
    }
    if n > 1 {
        v.push(sae(b, SAEBody::Text("u".to_string())));
    }
    v
}
fn point_a() -> AlphabeticPoint {
    match pick(3) {
        0 => sae("dz", SAEBody::Text("t".to_string())),
        1 => sae("b", kids("i".to_string(), AlphabeticPointChildren::AlphabeticSubpoint(texts("ba", "bc", pick(3))), opt("w"))),
        _ => sae("c", kids("i".to_string(), AlphabeticPointChildren::NumericSubpoint(texts("1", "2a", pick(3))), opt("w"))),
    }
}
fn quoted_line() -> IndentedLine {
    IndentedLine::from_parts(vec![IndentedLinePart { dx: 10.25, content: 'ő', bold: pick_bool() }, IndentedLinePart { dx: 0.1, content: '"', bold: false }], pick_bool())
}
fn paragraph_children() -> ParagraphChildren {
    match pick(5) {
        0 => ParagraphChildren::AlphabeticPoint(vec![point_a()]),
        1 => ParagraphChildren::NumericPoint(vec![if pick_bool() { sae("1a", SAEBody::Text("t".to_string())) } else { sae("2", kids("i".to_string(), NumericPointChildren::AlphabeticSubpoint(texts("a", "b", pick(3))), opt("w"))) }]),
        2 => ParagraphChildren::QuotedBlock(vec![structure::QuotedBlock { intro: opt("i"), lines: if pick_bool() { vec![quoted_line(), EMPTY_LINE] } else { vec![] }, wrap_up: opt("w") }]),
        3 => {
            let n = pick(3);
            let children = match pick(5) {
                0 => BlockAmendmentChildren::Paragraph((0..n).map(|_| sae("3", SAEBody::Text("t".to_string()))).collect()),
                1 => BlockAmendmentChildren::AlphabeticPoint(texts("a", "b", n)),
                2 => BlockAmendmentChildren::NumericPoint(texts("1", "2", n)),
                3 => BlockAmendmentChildren::AlphabeticSubpoint(texts("aa", "ab", n)),
                _ => BlockAmendmentChildren::NumericSubpoint(texts("1", "2", n)),
            };
            ParagraphChildren::BlockAmendment(structure::BlockAmendment { intro: opt("i"), children, wrap_up: opt("w") })
        }
        _ => {
            let c: Vec<ActChild> = match pick(3) {
                0 => vec![],
                1 => vec![article("2", None, vec![]).into()],
                _ => vec![element()],
            };
            ParagraphChildren::StructuralBlockAmendment(structure::StructuralBlockAmendment { intro: opt("i"), children: c, wrap_up: opt("w") })
        }
    }
}
fn element() -> ActChild {
    match pick(6) {
        0 => Subtitle { identifier: if pick_bool() { Some(NumericIdentifier::from(3)) } else { None }, title: "t".to_string(), last_change: change() }.into(),
        k => {
            let t = [
                StructuralElementType::Book,
                StructuralElementType::Part { is_special: false },
                StructuralElementType::Part { is_special: true },
                StructuralElementType::Title,
                StructuralElementType::Chapter,
            ];
            StructuralElement { identifier: 3.into(), title: "t".to_string(), element_type: t[k - 1], last_change: change() }.into()
        }
    }
}
fn act_of(children: Vec<ActChild>) -> Act {
    Act { identifier: ActIdentifier { year: 2013, number: 5 }, subject: "s".to_string(), preamble: String::new(), publication_date: Default::default(), contained_abbreviations: Default::default(), children }
}
fn acts() {
    let mut p = plain_paragraph(kids("i".to_string(), paragraph_children(), None));
    if pick_bool() {
        p.identifier = NumericIdentifier::from(1).into();
    }
    both(&act_of(vec![article("1:2", None, vec![p]).into()]));
}
fn elements() { both(&act_of(vec![element()])) }
fn articles() {
    let n = pick(3);
    let mut v: Vec<ActChild> = Vec::new();
    for i in 0..n {
        if i == 1 {
            // the second one only has to be kept apart from the first one
            v.push(article("3", opt("u"), vec![plain_paragraph(SAEBody::Text("v".to_string()))]).into());
            break;
        }
        let mut a = article(one_of(&["1", "2:1a"]), opt("t"), vec![]);
        let k = pick(3);
        if k > 0 {
            let mut p = plain_paragraph(SAEBody::Text("t".to_string()));
            p.last_change = change();
            if k == 2 {
                p.identifier = NumericIdentifier::from(7).into();
            }
            a.children.push(p);
        } else {
            a.last_change = change();
        }
        v.push(a.into());
    }
    both(&act_of(v));
}
/// The command line formats are these ones.
fn output() {
    let act = act_of(vec![element()]);
    let (j, y) = (json(&act), yaml(&act));
    let mut b: Vec<u8> = Vec::new();
    if pick_bool() {
        check(act.cli_output(80, OutputFormat::Json, &mut b).is_ok(), 17);
        check(b == j.as_bytes(), 18);
    } else {
        check(act.cli_output(80, OutputFormat::Yaml, &mut b).is_ok(), 17);
        check(b == y.as_bytes(), 18);
    }
}

// ------------------------------------------------------------------ semantic information
fn structural() -> StructuralReference {
    let n = NumericIdentifier::from(2);
    let a = ArticleIdentifier::from(4);
    let range = IdentifierRange::from_range(n, NumericIdentifier::from(2 + pick(2) as u16));
    StructuralReference {
        act: if pick_bool() { Some(ActIdentifier { year: 2013, number: 5 }) } else { None },
        book: if pick_bool() { Some(n) } else { None },
        parent: match pick(7) {
            0 => None,
            1 => Some(StructuralReferenceParent::Part(n)),
            2 => Some(StructuralReferenceParent::Title(n)),
            3 => Some(StructuralReferenceParent::Chapter(n)),
            4 => Some(StructuralReferenceParent::SubtitleId(n)),
            5 => Some(StructuralReferenceParent::SubtitleRange(range)),
            _ => Some(StructuralReferenceParent::SubtitleTitle("t".to_string())),
        },
        structural_element: element_reference(n, a, range),
        title_only: pick_bool(),
    }
}
fn element_reference(n: NumericIdentifier, a: ArticleIdentifier, range: IdentifierRange<NumericIdentifier>) -> StructuralReferenceElement {
    match pick(11) {
        0 => StructuralReferenceElement::Part(n),
        1 => StructuralReferenceElement::Title(n),
        2 => StructuralReferenceElement::Chapter(n),
        3 => StructuralReferenceElement::SubtitleId(n),
        4 => StructuralReferenceElement::SubtitleRange(range),
        5 => StructuralReferenceElement::SubtitleTitle("t".to_string()),
        6 => StructuralReferenceElement::SubtitleAfterArticle(a),
        7 => StructuralReferenceElement::SubtitleBeforeArticle(a),
        8 => StructuralReferenceElement::SubtitleBeforeArticleInclusive(a),
        9 => StructuralReferenceElement::SubtitleUnknown,
        _ => StructuralReferenceElement::Article(IdentifierRange::from_single(a)),
    }
}
fn simple_structural() -> StructuralReference {
    let n = NumericIdentifier::from(2);
    StructuralReference { act: None, book: None, parent: None, structural_element: element_reference(n, ArticleIdentifier::from(4), IdentifierRange::from_range(n, NumericIdentifier::from(3))), title_only: pick_bool() }
}
fn structural_references() {
    let r = structural();
    observe_str(&json(&r));
}
fn reference1() -> Reference { Model([None, Some(Part { kind: 0, from: 2, to: 2 }), None, None, None]).build().unwrap() }
fn phrase() -> SpecialPhrase {
    let date = chrono::NaiveDate::from_ymd_opt(2022, 2, 28).unwrap();
    match pick(5) {
        0 => SpecialPhrase::BlockAmendment(hun_law::semantic_info::BlockAmendment { position: reference1(), pure_insertion: pick_bool() }),
        1 => SpecialPhrase::StructuralBlockAmendment(hun_law::semantic_info::StructuralBlockAmendment { position: simple_structural(), pure_insertion: pick_bool() }),
        2 => SpecialPhrase::Repeal(match pick(3) {
            0 => vec![],
            1 => vec![RepealReference::Reference(reference1())],
            _ => vec![RepealReference::StructuralReference(simple_structural()), RepealReference::Reference(reference1())],
        }),
        3 => SpecialPhrase::TextAmendment(vec![TextAmendment {
            reference: match pick(5) {
                0 => TextAmendmentReference::SAE { reference: reference1(), amended_part: TextAmendmentSAEPart::All },
                1 => TextAmendmentReference::SAE { reference: reference1(), amended_part: TextAmendmentSAEPart::IntroOnly },
                2 => TextAmendmentReference::SAE { reference: reference1(), amended_part: TextAmendmentSAEPart::WrapUpOnly },
                3 => TextAmendmentReference::Structural(simple_structural()),
                _ => TextAmendmentReference::ArticleTitle(reference1()),
            },
            from: "a".to_string(),
            to: String::new(),
        }]),
        _ => SpecialPhrase::EnforcementDate(EnforcementDate {
            positions: if pick_bool() { vec![reference1()] } else { vec![] },
            structural_positions: if pick_bool() { vec![simple_structural()] } else { vec![] },
            is_default: pick_bool(),
            date: match pick(4) {
                0 => EnforcementDateType::Date(date),
                1 => EnforcementDateType::DaysAfterPublication(8),
                2 => EnforcementDateType::DayInMonthAfterPublication { month: None, day: 1 },
                _ => EnforcementDateType::DayInMonthAfterPublication { month: Some(2), day: 15 },
            },
            inline_repeal: if pick_bool() { Some(date) } else { None },
        }),
    }
}
fn semantic() {
    let mut p = plain_paragraph(SAEBody::Text("t".to_string()));
    match pick(3) {
        0 => p.semantic_info.special_phrase = Some(phrase()),
        1 => p.semantic_info.outgoing_references.push(OutgoingReference { start: 1, end: 3, reference: some_references() }),
        _ => drop(p.semantic_info.new_abbreviations.insert("Btk.".to_string(), ActIdentifier { year: 2012, number: 100 })),
    }
    check(!p.semantic_info.is_empty(), 19);
    both(&p);
}

entries! {
    vp_p16_ids = ids;
    vp_p16_act_ids = act_ids;
    vp_p16_references = references;
    vp_p16_bad_references = bad_references;
    vp_p16_reference_yaml = reference_yaml;
    vp_p16_act_texts = act_texts;
    vp_p16_text_json2 = text_json2;
    vp_p16_text_json3 = text_json3;
    vp_p16_text_yaml = text_yaml;
    vp_p16_words_yaml = words_yaml;
    vp_p16_acts = acts;
    vp_p16_elements = elements;
    vp_p16_articles = articles;
    vp_p16_output = output;
    vp_p16_structural_references = structural_references;
    vp_p16_semantic = semantic;
}
