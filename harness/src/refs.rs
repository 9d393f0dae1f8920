//! References: a plain model of their parts, and symbolic references of every shape.
#![allow(dead_code)]
use crate::rt::*;
use hun_law::identifier::range::*;
use hun_law::identifier::*;
use hun_law::reference::builder::*;
use hun_law::reference::parts::*;
use hun_law::reference::Reference;

/// One level of a reference: the kind separates number points from letter points.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Part {
    pub kind: u8,
    pub from: u32,
    pub to: u32,
}
/// act, article, paragraph, point, subpoint
#[derive(Clone, Copy, PartialEq, Eq, Default)]
pub struct Model(pub [Option<Part>; 5]);

pub fn num(n: u32) -> NumericIdentifier { NumericIdentifier::from(n as u16) }
pub fn letter(n: u32) -> AlphabeticIdentifier { HungarianIdentifierChar::Latin(n as u8) }
pub fn two(n: u32) -> PrefixedAlphabeticIdentifier { PrefixedAlphabeticIdentifier::verif_new(None, letter(n)) }
pub fn art(n: u32) -> ArticleIdentifier { ArticleIdentifier::from(n as u16) }

impl Model {
    pub fn set(&self, b: &mut ReferenceBuilder, level: usize) {
        if let Some(p) = self.0[level] {
            match (level, p.kind) {
                (0, _) => drop(b.set_part(act(p.from))),
                (1, _) => drop(b.set_part(RefPartArticle::from_range(art(p.from), art(p.to)))),
                (2, _) => drop(b.set_part(RefPartParagraph::from_range(num(p.from), num(p.to)))),
                (3, 0) => drop(b.set_part(RefPartPoint::from_range(num(p.from), num(p.to)))),
                (3, _) => drop(b.set_part(RefPartPoint::from_range(letter(p.from), letter(p.to)))),
                (_, 0) => drop(b.set_part(RefPartSubpoint::from_range(num(p.from), num(p.to)))),
                _ => drop(b.set_part(RefPartSubpoint::from_range(two(p.from), two(p.to)))),
            }
        }
    }
    pub fn build(&self) -> anyhow::Result<Reference> {
        let mut b = ReferenceBuilder::new();
        for l in 0..5 {
            self.set(&mut b, l);
        }
        b.build()
    }
    /// The documented guarantee: no gaps but for a missing paragraph, and only the last part is a range.
    pub fn valid(&self) -> bool {
        let m = &self.0;
        let mut last = 0;
        let mut first = 5;
        for l in 0..5 {
            if m[l].is_some() {
                last = l;
                if first == 5 {
                    first = l;
                }
            }
        }
        for l in first..last {
            let ok = m[l].is_some() || (l == 2 && m[1].is_some() && m[3].is_some());
            if !ok {
                return false;
            }
        }
        let mut ranges_ok = true;
        for l in 0..last {
            if let Some(p) = m[l] {
                ranges_ok &= p.from == p.to;
            }
        }
        ranges_ok
    }
    pub fn depth(&self) -> usize {
        (0..5).rev().find(|l| self.0[*l].is_some()).map_or(0, |l| l + 1)
    }
    /// The reference has exactly these parts, read through its public interface.
    pub fn check_is(&self, r: &Reference, id: u32) {
        let mut r = r.clone();
        for l in (0..5).rev() {
            if let Some(p) = self.0[l] {
                check(p.is(l, &r.get_last_part()), id);
                if l == 0 {
                    check(r.act() == Some(act(p.from)), id);
                }
                if l == 1 {
                    check(r.article() == Some(RefPartArticle::from_range(art(p.from), art(p.to))), id);
                }
                r = r.parent();
            }
        }
        check(r == Reference::default() && r.get_last_part() == AnyReferencePart::Empty, id);
        check(r.act().is_none() && r.article().is_none(), id);
    }
}
impl Part {
    fn is(&self, level: usize, p: &AnyReferencePart) -> bool {
        match (level, self.kind, p) {
            (0, _, AnyReferencePart::Act(a)) => *a == act(self.from),
            (1, _, AnyReferencePart::Article(x)) => same(x, art(self.from), art(self.to)),
            (2, _, AnyReferencePart::Paragraph(x)) => same(x, num(self.from), num(self.to)),
            (3, 0, AnyReferencePart::Point(RefPartPoint::Numeric(x))) => same(x, num(self.from), num(self.to)),
            (3, 1, AnyReferencePart::Point(RefPartPoint::Alphabetic(x))) => same(x, letter(self.from), letter(self.to)),
            (4, 0, AnyReferencePart::Subpoint(RefPartSubpoint::Numeric(x))) => same(x, num(self.from), num(self.to)),
            (4, 1, AnyReferencePart::Subpoint(RefPartSubpoint::Alphabetic(x))) => same(x, two(self.from), two(self.to)),
            _ => false,
        }
    }
}
fn same<T: IdentifierCommon>(x: &IdentifierRange<T>, a: T, b: T) -> bool { (x.first_in_range() == a) & (x.last_in_range() == b) }
pub fn act(n: u32) -> ActIdentifier { ActIdentifier { year: (n >> 16) as i16, number: (n & 0xffff) as i32 } }

fn value(letter: bool) -> u32 {
    if letter {
        let b = u8();
        assume(b >= b'a' && b <= b'z');
        b as u32
    } else {
        u16() as u32
    }
}
/// A symbolic part of the given level: presence and kind are case splits, values are symbolic.
pub fn any_part(level: usize, range: bool) -> Option<Part> {
    let k = pick(if level >= 3 { 3 } else { 2 });
    if k == 0 {
        return None;
    }
    Some(some_part(level, k as u8 - 1, range))
}
pub fn some_part(level: usize, kind: u8, range: bool) -> Part {
    if level == 0 {
        let v = u32();
        return Part { kind: 0, from: v, to: v };
    }
    let from = value(kind == 1);
    let to = if range { value(kind == 1) } else { from };
    Part { kind, from, to }
}
/// Any parts at all, valid or not.
pub fn any_model() -> Model {
    let mut m = Model::default();
    for l in 0..5 {
        m.0[l] = any_part(l, true);
    }
    m
}
/// Every shape of valid reference: the last part may be a range.
pub fn valid_model(with_act: bool, kinds: bool) -> Model {
    // presence of article, paragraph, point, subpoint
    const SHAPES: [[usize; 4]; 13] = [
        [0, 0, 0, 0], [1, 0, 0, 0], [1, 1, 0, 0], [1, 0, 1, 0], [1, 1, 1, 0], [1, 0, 1, 1], [1, 1, 1, 1],
        [0, 1, 0, 0], [0, 1, 1, 0], [0, 1, 1, 1], [0, 0, 1, 0], [0, 0, 1, 1], [0, 0, 0, 1],
    ];
    let mut m = Model::default();
    let act = with_act && pick_bool();
    let s = SHAPES[pick(if act { 7 } else { 13 })];
    if act {
        m.0[0] = Some(some_part(0, 0, false));
    }
    let last = (0..4).rev().find(|i| s[*i] == 1);
    for i in 0..4 {
        if s[i] == 1 {
            let kind = if i >= 2 && kinds { pick(2) as u8 } else { 0 };
            let p = some_part(i + 1, kind, last == Some(i));
            assume(p.from <= p.to);
            m.0[i + 1] = Some(p);
        }
    }
    m
}
