//! Acts: symbolic body lines, flattening of parsed acts, and the numbering rules.
#![allow(dead_code)]
use crate::lines::*;
use crate::rt::*;
use hun_law::identifier::*;
use hun_law::parser::mk_act_section::ActRawText;
use hun_law::parser::structure::parse_act_structure;
use hun_law::structure::*;
use hun_law::util::indentedline::*;

pub fn parse(body: Vec<IndentedLine>) -> anyhow::Result<Act> {
    let raw = ActRawText {
        identifier: ActIdentifier { year: 2013, number: 5 },
        subject: String::new(),
        publication_date: Default::default(),
        body,
    };
    parse_act_structure(&raw)
}
/// Compiles every regex of the structure parser before the paths split.
pub fn warm() {
    let l = |s: &str, b: bool| text_line_at(s, 10.0, b);
    let _ = parse(vec![
        l("x", false),
        l("ELSŐ KÖNYV", false),
        l("ÁLTALÁNOS RÉSZ", false),
        l("I. CÍM", false),
        l("I. FEJEZET", false),
        l("1. Alma", true),
        l("1. § (1) a:", false),
        l("1. x:", false),
        l("a) x", false),
        l("b) x", false),
        l("2. x", false),
        l("(2) a:", false),
        l("a) x:", false),
        l("aa) x", false),
        l("ab) x", false),
        l("b) x:", false),
        l("1. x", false),
        l("2. x", false),
        l("(3) „a”", false),
    ]);
}

// ------------------------------------------------------------------ lines
pub fn digit() -> char {
    let b = u8();
    assume(b >= b'0' && b <= b'9');
    b as char
}
/// d1 + symbolic letter + ..., as one line.
pub fn mk(parts: &[&str], bold: bool, indent: f64) -> IndentedLine {
    let mut s = String::new();
    for p in parts {
        s.push_str(p);
    }
    text_line_at(&s, indent, bold)
}
pub fn st(c: char) -> String {
    let mut s = String::new();
    s.push(c);
    s
}

// ------------------------------------------------------------------ flattening
/// Only what carries text: spaces and the bracketing the parser takes off are left out.
pub fn flat_str(s: &str, out: &mut String) {
    for c in s.chars() {
        match c {
            ' ' | '(' | ')' | '[' | ']' | '„' | '“' | '”' => (),
            c => out.push(c),
        }
    }
}
pub fn flat_lines(ls: &[IndentedLine]) -> String {
    let mut o = String::new();
    for l in ls {
        flat_str(l.content(), &mut o);
    }
    o
}
fn flat_opt(s: &Option<String>, out: &mut String) {
    if let Some(s) = s {
        flat_str(s, out)
    }
}
pub trait Flat {
    fn flat(&self, o: &mut String);
}
impl<T: Flat> Flat for Vec<T> {
    fn flat(&self, o: &mut String) {
        for x in self {
            x.flat(o)
        }
    }
}
impl Flat for QuotedBlock {
    fn flat(&self, o: &mut String) {
        flat_opt(&self.intro, o);
        for l in &self.lines {
            flat_str(l.content(), o);
        }
        flat_opt(&self.wrap_up, o);
    }
}
impl Flat for AlphabeticSubpointChildren {
    fn flat(&self, _: &mut String) { match *self {} }
}
impl Flat for NumericSubpointChildren {
    fn flat(&self, _: &mut String) { match *self {} }
}
impl Flat for NumericPointChildren {
    fn flat(&self, o: &mut String) {
        match self {
            NumericPointChildren::AlphabeticSubpoint(x) => x.flat(o),
        }
    }
}
impl Flat for AlphabeticPointChildren {
    fn flat(&self, o: &mut String) {
        match self {
            AlphabeticPointChildren::AlphabeticSubpoint(x) => x.flat(o),
            AlphabeticPointChildren::NumericSubpoint(x) => x.flat(o),
        }
    }
}
impl Flat for ParagraphChildren {
    fn flat(&self, o: &mut String) {
        match self {
            ParagraphChildren::AlphabeticPoint(x) => x.flat(o),
            ParagraphChildren::NumericPoint(x) => x.flat(o),
            ParagraphChildren::QuotedBlock(x) => x.flat(o),
            ParagraphChildren::BlockAmendment(x) => {
                flat_opt(&x.intro, o);
                match &x.children {
                    BlockAmendmentChildren::Paragraph(c) => c.flat(o),
                    BlockAmendmentChildren::AlphabeticPoint(c) => c.flat(o),
                    BlockAmendmentChildren::NumericPoint(c) => c.flat(o),
                    BlockAmendmentChildren::AlphabeticSubpoint(c) => c.flat(o),
                    BlockAmendmentChildren::NumericSubpoint(c) => c.flat(o),
                }
                flat_opt(&x.wrap_up, o);
            }
            ParagraphChildren::StructuralBlockAmendment(x) => {
                flat_opt(&x.intro, o);
                x.children.flat(o);
                flat_opt(&x.wrap_up, o);
            }
        }
    }
}
fn flat_sae<IT: IdentifierCommon, CT: ChildrenCommon + Flat>(e: &SubArticleElement<IT, CT>, head: String, o: &mut String) {
    flat_str(&head, o);
    match &e.body {
        SAEBody::Text(t) => flat_str(t, o),
        SAEBody::Children { intro, children, wrap_up } => {
            flat_str(intro, o);
            children.flat(o);
            flat_opt(wrap_up, o);
        }
    }
}
macro_rules! flat_sae_for {
    ($($t:ident)*) => { $(impl Flat for $t {
        fn flat(&self, o: &mut String) { flat_sae(self, self.header_string(), o) }
    })* };
}
flat_sae_for!(Paragraph NumericPoint AlphabeticPoint NumericSubpoint AlphabeticSubpoint);
impl Flat for Article {
    fn flat(&self, o: &mut String) {
        flat_str(&self.header_string(), o);
        flat_opt(&self.title, o);
        self.children.flat(o);
    }
}
impl Flat for ActChild {
    fn flat(&self, o: &mut String) {
        match self {
            ActChild::StructuralElement(e) => {
                flat_str(&e.header_string().unwrap_or_default(), o);
                flat_str(&e.title, o);
            }
            ActChild::Subtitle(s) => {
                if let Some(i) = s.identifier {
                    flat_str(&i.with_slash().to_string(), o);
                    o.push('.');
                }
                flat_str(&s.title, o);
            }
            ActChild::Article(a) => a.flat(o),
        }
    }
}
pub fn flat_act(a: &Act) -> String {
    let mut o = String::new();
    flat_str(&a.preamble, &mut o);
    a.children.flat(&mut o);
    o
}

// ------------------------------------------------------------------ numbering
/// Siblings start with the first identifier, follow each other, and are at least two.
fn siblings<IT: IdentifierCommon, CT: ChildrenCommon>(v: &[SubArticleElement<IT, CT>], id: u32) {
    check(v.len() >= 2, id);
    for i in 0..v.len() {
        if i == 0 {
            check(v[0].identifier.is_first(), id + 1);
        } else {
            check(v[i].identifier.is_next_from(v[i - 1].identifier), id + 2);
        }
    }
}
fn subpoints_of(prefix: Option<AlphabeticIdentifier>, v: &[AlphabeticSubpoint]) {
    siblings(v, 30);
    for s in v {
        check(s.identifier.prefix_is(prefix), 33);
    }
}
pub fn numbering(a: &Act) {
    let mut last: Option<ArticleIdentifier> = None;
    for art in a.articles() {
        match last {
            None => check(art.identifier.is_first(), 10),
            Some(l) => check(art.identifier.is_next_from(l), 11),
        }
        last = Some(art.identifier);
        article_numbering(art);
    }
}
pub fn article_numbering(art: &Article) {
    check(!art.children.is_empty(), 12);
    if art.children.len() == 1 {
        check(art.children[0].identifier.is_empty(), 13);
    } else {
        siblings(&art.children, 14);
    }
    for p in &art.children {
        if let SAEBody::Children { children, .. } = &p.body {
            match children {
                ParagraphChildren::AlphabeticPoint(v) => {
                    siblings(v, 20);
                    for x in v {
                        match &x.body {
                            SAEBody::Children { children: AlphabeticPointChildren::AlphabeticSubpoint(s), .. } => subpoints_of(Some(x.identifier), s),
                            SAEBody::Children { children: AlphabeticPointChildren::NumericSubpoint(s), .. } => siblings(s, 36),
                            SAEBody::Text(_) => (),
                        }
                    }
                }
                ParagraphChildren::NumericPoint(v) => {
                    siblings(v, 24);
                    for x in v {
                        if let SAEBody::Children { children: NumericPointChildren::AlphabeticSubpoint(s), .. } = &x.body {
                            subpoints_of(None, s)
                        }
                    }
                }
                ParagraphChildren::QuotedBlock(v) => check(!v.is_empty(), 28),
                _ => check(false, 29),
            }
        }
    }
}
