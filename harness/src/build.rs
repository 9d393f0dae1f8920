//! Building lines and the structure they should parse to, side by side.
#![allow(dead_code)]
use crate::acts::*;
use crate::rt::*;
use hun_law::identifier::*;
use hun_law::structure::*;
use hun_law::util::indentedline::*;

pub type L = Vec<IndentedLine>;

/// Two letters that are no part of any header.
pub fn word() -> String { ascii_n(b"uvwx", 2) }
/// Emits `n` lines, the first with a prefix and at its own indentation; returns the text without the prefix.
pub fn text(v: &mut L, prefix: &str, indent: f64, n: usize, rest_indent: f64) -> String {
    let mut t = String::new();
    for i in 0..n {
        let w = word();
        if i == 0 {
            v.push(mk(&[prefix, &w], false, indent));
        } else {
            t.push(' ');
            v.push(mk(&[&w], false, rest_indent));
        }
        t.push_str(&w);
    }
    t
}
/// Lines of a wrap-up: none, one or two.
pub fn wrap(v: &mut L, n: usize, indent: f64) -> Option<String> {
    if n == 0 {
        None
    } else {
        Some(text(v, "", indent, n, indent))
    }
}
pub fn sae<IT: IdentifierCommon, CT: ChildrenCommon>(id: &str, body: SAEBody<CT>) -> SubArticleElement<IT, CT>
where
    IT: std::str::FromStr,
{
    let identifier = match id.parse() {
        Ok(i) => i,
        Err(_) => {
            check(false, 90);
            unreachable!()
        }
    };
    SubArticleElement { identifier, body, semantic_info: Default::default(), last_change: None }
}
pub fn kids<CT: ChildrenCommon>(intro: String, children: CT, wrap_up: Option<String>) -> SAEBody<CT> {
    SAEBody::Children { intro, children, wrap_up }
}
pub fn article(id: &str, title: Option<String>, children: Vec<Paragraph>) -> Article {
    Article { identifier: id.parse().unwrap(), title, children, last_change: None }
}
pub fn plain_paragraph(body: SAEBody<ParagraphChildren>) -> Paragraph {
    SubArticleElement { identifier: ParagraphIdentifier::default(), body, semantic_info: Default::default(), last_change: None }
}
pub fn same(v: L, preamble: &str, want: Vec<ActChild>) {
    match parse(v) {
        Ok(act) => {
            check(act.preamble == preamble, 2);
            check(act.children.len() == want.len(), 3);
            check(act.children == want, 4);
            check(act.identifier == (ActIdentifier { year: 2013, number: 5 }), 5);
            observe(act.children.len() as u64);
            cover(1);
        }
        Err(_) => check(false, 1),
    }
}
