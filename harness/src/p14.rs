//! P14: walking an act meets every element once, in order, under its own reference.
use crate::acts::*;
use crate::build::*;
use crate::gen;
use crate::rt::*;
use anyhow::{bail, Result};
use hun_law::identifier::range::*;
use hun_law::identifier::*;
use hun_law::reference::builder::*;
use hun_law::reference::parts::*;
use hun_law::reference::to_element::ReferenceToElement;
use hun_law::reference::Reference;
use hun_law::structure::*;
use hun_law::util::walker::*;

/// What a visitor should see: entering or leaving, where, what kind of element, and its text.
#[derive(Clone, PartialEq)]
struct Event {
    enter: bool,
    at: Reference,
    kind: &'static str,
    text: String,
}
fn text_of<IT: IdentifierCommon, CT: ChildrenCommon>(e: &SubArticleElement<IT, CT>) -> String {
    match &e.body {
        SAEBody::Text(t) => t.clone(),
        SAEBody::Children { intro, .. } => intro.clone(),
    }
}

// ------------------------------------------------------------------ acts with symbolic identifiers
/// The path from the act down to an element, kept as parts and built by the reference builder.
#[derive(Clone, Default)]
struct Path {
    act: Option<ActIdentifier>,
    article: Option<ArticleIdentifier>,
    paragraph: Option<NumericIdentifier>,
    point: Option<RefPartPoint>,
    subpoint: Option<RefPartSubpoint>,
}
impl Path {
    fn reference(&self) -> Reference {
        let mut b = ReferenceBuilder::new();
        if let Some(x) = self.act {
            b.set_part(x);
        }
        if let Some(x) = self.article {
            b.set_part(RefPartArticle::from_range(x, x));
        }
        if let Some(x) = self.paragraph {
            b.set_part(RefPartParagraph::from_range(x, x));
        }
        if let Some(x) = self.point {
            b.set_part(x);
        }
        if let Some(x) = self.subpoint {
            b.set_part(x);
        }
        b.build().unwrap()
    }
}
struct World {
    n: usize,
    sym: bool,
    events: Vec<Event>,
}
impl World {
    /// Any number, or the next one.
    fn num(&mut self) -> u16 {
        self.n += 1;
        if self.sym {
            u16()
        } else {
            self.n as u16
        }
    }
    fn letter(&mut self) -> AlphabeticIdentifier {
        self.n += 1;
        HungarianIdentifierChar::Latin(b'a' + self.n as u8)
    }
    fn text(&mut self) -> String {
        self.n += 1;
        let mut s = String::from("t");
        s.push((b'A' + self.n as u8) as char);
        s
    }
    fn note(&mut self, enter: bool, p: &Path, kind: &'static str, text: &str) { self.events.push(Event { enter, at: p.reference(), kind, text: text.to_string() }) }
    fn leaf<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, p: &Path, kind: &'static str, identifier: IT) -> SubArticleElement<IT, CT> {
        let t = self.text();
        self.note(true, p, kind, &t);
        self.note(false, p, kind, &t);
        SubArticleElement { identifier, body: SAEBody::Text(t), semantic_info: Default::default(), last_change: None }
    }
    fn node<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, p: &Path, kind: &'static str, identifier: IT, inner: impl FnOnce(&mut World) -> CT) -> SubArticleElement<IT, CT> {
        let t = self.text();
        self.note(true, p, kind, &t);
        let children = inner(self);
        self.note(false, p, kind, &t);
        SubArticleElement { identifier, body: SAEBody::Children { intro: t, children, wrap_up: None }, semantic_info: Default::default(), last_change: None }
    }
}
fn subs_a(w: &mut World, p: &Path, n: usize) -> Vec<AlphabeticSubpoint> {
    let mut v = Vec::new();
    for _ in 0..n {
        let id = PrefixedAlphabeticIdentifier::verif_new(if v.is_empty() { None } else { Some(w.letter()) }, w.letter());
        let mut q = p.clone();
        q.subpoint = Some(RefPartSubpoint::from_range(id, id));
        v.push(w.leaf(&q, "AlphabeticSubpoint", id));
    }
    v
}
fn subs_n(w: &mut World, p: &Path, n: usize) -> Vec<NumericSubpoint> {
    let mut v = Vec::new();
    for _ in 0..n {
        let id = NumericIdentifier::from(w.num());
        let mut q = p.clone();
        q.subpoint = Some(RefPartSubpoint::from_range(id, id));
        v.push(w.leaf(&q, "NumericSubpoint", id));
    }
    v
}
/// Kinds of bodies: 0 text, 1 and 2 subpoints.
fn point_a(w: &mut World, p: &Path, kind: usize, n: usize) -> AlphabeticPoint {
    let id = w.letter();
    let mut q = p.clone();
    q.point = Some(RefPartPoint::from_range(id, id));
    match kind {
        0 => w.leaf(&q, "AlphabeticPoint", id),
        1 => w.node(&q, "AlphabeticPoint", id, |w| subs_a(w, &q, n).into()),
        _ => w.node(&q, "AlphabeticPoint", id, |w| subs_n(w, &q, n).into()),
    }
}
fn point_n(w: &mut World, p: &Path, kind: usize, n: usize) -> NumericPoint {
    let id = NumericIdentifier::from(w.num());
    let mut q = p.clone();
    q.point = Some(RefPartPoint::from_range(id, id));
    match kind {
        0 => w.leaf(&q, "NumericPoint", id),
        _ => w.node(&q, "NumericPoint", id, |w| subs_a(w, &q, n).into()),
    }
}
fn quoted() -> ParagraphChildren {
    let p = |t: &str| -> Paragraph { plain_paragraph(SAEBody::Text(t.to_string())) };
    match pick(3) {
        0 => ParagraphChildren::QuotedBlock(vec![QuotedBlock { intro: None, lines: vec![mk(&["q"], false, 10.0)], wrap_up: None }]),
        1 => ParagraphChildren::BlockAmendment(BlockAmendment { intro: None, children: BlockAmendmentChildren::Paragraph(vec![p("b"), p("c")]), wrap_up: None }),
        _ => ParagraphChildren::StructuralBlockAmendment(StructuralBlockAmendment { intro: None, children: vec![article("2", None, vec![p("b")]).into()], wrap_up: None }),
    }
}
fn paragraph(w: &mut World, p: &Path, id: Option<NumericIdentifier>, kind: usize, n: usize, deep: bool) -> Paragraph {
    let mut q = p.clone();
    q.paragraph = id;
    let pid = match id {
        Some(i) => ParagraphIdentifier::from(i),
        None => ParagraphIdentifier::default(),
    };
    match kind {
        0 => w.leaf(&q, "Paragraph", pid),
        1 => w.node(&q, "Paragraph", pid, |w| {
            let mut v = Vec::new();
            for _ in 0..n {
                let k = if deep { pick(3) } else { 0 };
                v.push(point_a(w, &q, k, 1 + (k == 1) as usize));
            }
            v.into()
        }),
        2 => w.node(&q, "Paragraph", pid, |w| {
            let mut v = Vec::new();
            for _ in 0..n {
                let k = if deep { pick(2) } else { 0 };
                v.push(point_n(w, &q, k, 2));
            }
            v.into()
        }),
        _ => w.node(&q, "Paragraph", pid, |_| quoted()),
    }
}
fn act_id() -> ActIdentifier { ActIdentifier { year: u16() as i16, number: u16() as i32 } }
fn act_of(identifier: ActIdentifier, children: Vec<ActChild>) -> Act {
    Act { identifier, subject: String::new(), preamble: String::new(), publication_date: Default::default(), contained_abbreviations: Default::default(), children }
}
fn other_child(k: usize) -> ActChild {
    match k {
        0 => StructuralElement { identifier: NumericIdentifier::from(u16()), title: String::new(), element_type: StructuralElementType::Chapter, last_change: None }.into(),
        _ => Subtitle { identifier: None, title: String::new(), last_change: None }.into(),
    }
}
/// One article with one paragraph of any depth.
fn deep_act(sym: bool) -> (Act, World) {
    let mut w = World { n: 0, events: vec![], sym };
    let id = if sym { act_id() } else { ActIdentifier { year: 2013, number: 5 } };
    let aid = ArticleIdentifier::from(w.num());
    let p = Path { act: Some(id), article: Some(aid), ..Default::default() };
    let pid = if pick_bool() { Some(NumericIdentifier::from(w.num())) } else { None };
    let kind = pick(4);
    let n = if kind == 1 || kind == 2 { 1 + pick(2) } else { 0 };
    let par = paragraph(&mut w, &p, pid, kind, n, true);
    let art = Article { identifier: aid, title: None, children: vec![par], last_change: None };
    (act_of(id, vec![art.into()]), w)
}
/// Several children of an act and several paragraphs.
fn wide_act(most: usize) -> (Act, World) {
    let mut w = World { n: 0, events: vec![], sym: true };
    let id = act_id();
    let mut ch: Vec<ActChild> = Vec::new();
    let n = pick(most + 1);
    for _ in 0..n {
        let k = pick(5);
        if k < 2 {
            ch.push(other_child(k));
            continue;
        }
        let aid = ArticleIdentifier::from(u16());
        let p = Path { act: Some(id), article: Some(aid), ..Default::default() };
        let mut ps = Vec::new();
        for i in 0..k - 2 {
            let pid = Some(NumericIdentifier::from(u16()));
            ps.push(paragraph(&mut w, &p, pid, [0, 1, 3][pick(if i == 0 { 3 } else { 2 })], 1, false));
        }
        ch.push(Article { identifier: aid, title: None, children: ps, last_change: None }.into());
    }
    (act_of(id, ch), w)
}

// ------------------------------------------------------------------ visiting
struct Seen {
    events: Vec<Event>,
    fail_at: usize,
    cut_at: usize,
}
impl Seen {
    fn push<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, enter: bool, at: &Reference, e: &SubArticleElement<IT, CT>) -> Result<()> {
        self.events.push(Event { enter, at: at.clone(), kind: CT::parent_type_name(), text: text_of(e) });
        if self.events.len() == self.fail_at {
            bail!("stop")
        }
        Ok(())
    }
}
impl SAEVisitor for Seen {
    fn on_enter<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, at: &Reference, e: &SubArticleElement<IT, CT>) -> Result<()> { self.push(true, at, e) }
    fn on_exit<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, at: &Reference, e: &SubArticleElement<IT, CT>) -> Result<()> { self.push(false, at, e) }
}
impl SAEVisitorMut for Seen {
    fn on_enter<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, at: &Reference, e: &mut SubArticleElement<IT, CT>) -> Result<()> {
        self.push(true, at, e)?;
        if self.events.len() == self.cut_at {
            e.body = SAEBody::Text(text_of(e));
        }
        Ok(())
    }
    fn on_exit<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, at: &Reference, e: &mut SubArticleElement<IT, CT>) -> Result<()> {
        self.push(false, at, e)?;
        match &mut e.body {
            SAEBody::Text(t) => t.push('!'),
            SAEBody::Children { intro, .. } => intro.push('!'),
        }
        Ok(())
    }
}
fn compare(seen: &[Event], want: &[Event], id: u32) {
    check(seen.len() == want.len(), id);
    for i in 0..seen.len().min(want.len()) {
        check(seen[i].enter == want[i].enter && seen[i].kind == want[i].kind && seen[i].text == want[i].text, id + 1);
        check(seen[i].at == want[i].at, id + 2);
    }
}
fn visit((act, w): (Act, World)) {
    let mut s = Seen { events: vec![], fail_at: 0, cut_at: 0 };
    check(act.walk_saes(&mut s).is_ok(), 1);
    compare(&s.events, &w.events, 2);
    observe(s.events.len() as u64);
    cover(1);
}
fn deep() { visit(deep_act(true)) }
fn wide() { visit(wide_act(2)) }
fn wide3() { visit(wide_act(3)) }
/// An error of the visitor ends the walk at once and is what the walk returns.
fn failing() {
    let (mut act, w) = deep_act(false);
    let k = 1 + pick(w.events.len().max(1));
    assume(k <= w.events.len());
    let mut s = Seen { events: vec![], fail_at: k, cut_at: 0 };
    let old = act.clone();
    check(act.walk_saes(&mut s).is_err(), 1);
    compare(&s.events, &w.events[..k], 2);
    check(act == old, 5);
    let mut s = Seen { events: vec![], fail_at: k, cut_at: 0 };
    check(act.walk_saes_mut(&mut s).is_err(), 6);
    compare(&s.events, &w.events[..k], 7);
    cover(1);
}
// marks the text of every element outside of quotes
fn mark_sae<IT: IdentifierCommon, CT: ChildrenCommon>(e: &mut SubArticleElement<IT, CT>, inner: impl FnOnce(&mut CT)) {
    match &mut e.body {
        SAEBody::Text(t) => t.push('!'),
        SAEBody::Children { intro, children, .. } => {
            intro.push('!');
            inner(children)
        }
    }
}
fn mark_paragraph(p: &mut Paragraph) {
    mark_sae(p, |c| match c {
        ParagraphChildren::AlphabeticPoint(v) => {
            for x in v {
                mark_sae(x, |c| match c {
                    AlphabeticPointChildren::AlphabeticSubpoint(v) => v.iter_mut().for_each(|s| mark_sae(s, |_| ())),
                    AlphabeticPointChildren::NumericSubpoint(v) => v.iter_mut().for_each(|s| mark_sae(s, |_| ())),
                })
            }
        }
        ParagraphChildren::NumericPoint(v) => {
            for x in v {
                mark_sae(x, |c| match c {
                    NumericPointChildren::AlphabeticSubpoint(v) => v.iter_mut().for_each(|s| mark_sae(s, |_| ())),
                })
            }
        }
        _ => (),
    })
}
fn changing((mut act, w): (Act, World)) {
    let mut want = act.clone();
    let mut s = Seen { events: vec![], fail_at: 0, cut_at: 0 };
    check(act.walk_saes_mut(&mut s).is_ok(), 1);
    compare(&s.events, &w.events, 2);
    for c in &mut want.children {
        if let ActChild::Article(a) = c {
            for p in &mut a.children {
                mark_paragraph(p)
            }
        }
    }
    check(act == want, 5);
    cover(1);
}
fn changing_deep() { changing(deep_act(true)) }
fn changing_wide() { changing(wide_act(2)) }
/// An element that loses its children on entering has none to walk.
fn cutting() {
    let (mut act, w) = deep_act(true);
    let mut enters = Vec::new();
    for (i, e) in w.events.iter().enumerate() {
        if e.enter {
            enters.push(i);
        }
    }
    let k = enters[pick(enters.len())];
    let mut s = Seen { events: vec![], fail_at: 0, cut_at: k + 1 };
    check(act.walk_saes_mut(&mut s).is_ok(), 1);
    // everything between entering and leaving the element is gone
    let mut want = w.events[..=k].to_vec();
    let mut exit = k + 1;
    while w.events[exit].enter || w.events[exit].text != w.events[k].text {
        exit += 1;
    }
    want.extend_from_slice(&w.events[exit..]);
    compare(&s.events, &want, 2);
    cover(1);
}

// ------------------------------------------------------------------ finding articles
fn finding2() { finding(2) }
fn finding3() { finding(3) }
fn finding(most: usize) {
    let n = pick(most + 1);
    let mut ch: Vec<ActChild> = Vec::new();
    let mut ids: Vec<(ArticleIdentifier, u64)> = Vec::new();
    for i in 0..n {
        if pick(3) == 0 {
            ch.push(other_child(0));
        }
        let (id, rank) = if i == 0 {
            gen::article()
        } else {
            let n = u16();
            (ArticleIdentifier::from(n), n as u64 * 64)
        };
        let mut t = String::from("t");
        t.push((b'0' + i as u8) as char);
        ids.push((id, rank));
        ch.push(Article { identifier: id, title: Some(t), children: vec![], last_change: None }.into());
    }
    let (id, rank) = if pick_bool() {
        let n = u16();
        (ArticleIdentifier::from(n), n as u64 * 64)
    } else {
        gen::article()
    };
    let mut act = act_of(ActIdentifier { year: 2013, number: 5 }, ch);
    check(act.articles().count() == n, 1);
    for (i, a) in act.articles().enumerate() {
        check(a.identifier == ids[i].0 && a.title.as_deref().map(|t| t.as_bytes()[1]) == Some(b'0' + i as u8), 2);
    }
    check(act.articles_mut().count() == n, 3);
    let want = ids.iter().position(|x| x.1 == rank);
    let place = |a: &Article| (a.title.as_deref().unwrap().as_bytes()[1] - b'0') as usize;
    check(act.article(id).map(place) == want, 4);
    check(act.article_mut(id).map(|a| place(a)) == want, 5);
    if want.is_some() {
        cover(1)
    } else {
        cover(2)
    }
}

// ------------------------------------------------------------------ references to elements, emptiness
fn own_references() {
    let mut w = World { n: 0, events: vec![], sym: true };
    let none = Path::default();
    let id = act_id();
    check(act_of(id, vec![]).reference() == Path { act: Some(id), ..none.clone() }.reference(), 1);
    let a = gen::article().0;
    let art = Article { identifier: a, title: None, children: vec![], last_change: None };
    check(art.reference() == Path { article: Some(a), ..none.clone() }.reference(), 2);
    let n = gen::numeric_latin().0;
    let p = paragraph(&mut w, &none, Some(n), 0, 0, false);
    check(p.reference() == Path { paragraph: Some(n), ..none.clone() }.reference(), 3);
    check(paragraph(&mut w, &none, None, 0, 0, false).reference() == none.reference(), 4);
    let p = point_a(&mut w, &none, 0, 0);
    check(p.reference() == Path { point: Some(RefPartPoint::from_range(p.identifier, p.identifier)), ..none.clone() }.reference(), 5);
    let p = point_n(&mut w, &none, 0, 0);
    check(p.reference() == Path { point: Some(RefPartPoint::from_range(p.identifier, p.identifier)), ..none.clone() }.reference(), 6);
    let p = &subs_a(&mut w, &none, 1)[0];
    check(p.reference() == Path { subpoint: Some(RefPartSubpoint::from_range(p.identifier, p.identifier)), ..none.clone() }.reference(), 7);
    let p = &subs_n(&mut w, &none, 1)[0];
    check(p.reference() == Path { subpoint: Some(RefPartSubpoint::from_range(p.identifier, p.identifier)), ..none.clone() }.reference(), 8);
    cover(1);
}
/// A text of no or one character; whether it is empty.
fn body_text() -> (String, bool) {
    if pick_bool() {
        (String::new(), true)
    } else {
        (String::from("x"), false)
    }
}
fn leaf<IT: IdentifierCommon + std::str::FromStr, CT: ChildrenCommon>(id: &str, empty: &mut bool) -> SubArticleElement<IT, CT> {
    let (t, e) = body_text();
    *empty &= e;
    sae(id, SAEBody::Text(t))
}
fn emptiness() {
    let mut empty = true;
    let intro = body_text().0;
    let wrap_up = if pick_bool() { Some(String::from("w")) } else { None };
    let n = pick(3);
    let ids = ["a", "b"];
    let nums = ["1", "2"];
    let c: ParagraphChildren = match pick(8) {
        0 => {
            let mut v = Vec::new();
            for i in 0..n {
                v.push(match pick(3) {
                    0 => leaf(ids[i], &mut empty),
                    1 => sae(ids[i], kids(intro.clone(), AlphabeticPointChildren::AlphabeticSubpoint(vec![leaf("aa", &mut empty), leaf("ab", &mut empty)]), wrap_up.clone())),
                    _ => sae(ids[i], kids(intro.clone(), AlphabeticPointChildren::NumericSubpoint(vec![leaf("1", &mut empty)]), None)),
                });
            }
            ParagraphChildren::AlphabeticPoint(v)
        }
        1 => {
            let mut v = Vec::new();
            for i in 0..n {
                v.push(match pick(2) {
                    0 => leaf(nums[i], &mut empty),
                    _ => sae(nums[i], kids(intro.clone(), NumericPointChildren::AlphabeticSubpoint(vec![leaf("a", &mut empty), leaf("b", &mut empty)]), None)),
                });
            }
            ParagraphChildren::NumericPoint(v)
        }
        2 => {
            let mut v = Vec::new();
            for _ in 0..n {
                v.push(QuotedBlock { intro: None, lines: vec![], wrap_up: None });
            }
            empty = n == 0;
            ParagraphChildren::QuotedBlock(v)
        }
        3 => {
            let mut v = Vec::new();
            for i in 0..n {
                v.push(leaf(nums[i], &mut empty));
            }
            ParagraphChildren::BlockAmendment(BlockAmendment { intro: Some(intro.clone()), children: BlockAmendmentChildren::Paragraph(v), wrap_up: wrap_up.clone() })
        }
        4 => {
            let mut v = Vec::new();
            for i in 0..n {
                v.push(leaf(ids[i], &mut empty));
            }
            ParagraphChildren::BlockAmendment(BlockAmendment { intro: Some(intro.clone()), children: BlockAmendmentChildren::AlphabeticPoint(v), wrap_up: wrap_up.clone() })
        }
        5 => {
            let mut v = Vec::new();
            for i in 0..n {
                v.push(leaf(nums[i], &mut empty));
            }
            ParagraphChildren::BlockAmendment(BlockAmendment { intro: None, children: BlockAmendmentChildren::NumericPoint(v), wrap_up: wrap_up.clone() })
        }
        6 => {
            let mut v = Vec::new();
            for i in 0..n {
                v.push(leaf(ids[i], &mut empty));
            }
            ParagraphChildren::BlockAmendment(BlockAmendment { intro: None, children: BlockAmendmentChildren::AlphabeticSubpoint(v), wrap_up: wrap_up.clone() })
        }
        _ => {
            let mut v = Vec::new();
            for i in 0..n {
                v.push(leaf(nums[i], &mut empty));
            }
            ParagraphChildren::BlockAmendment(BlockAmendment { intro: None, children: BlockAmendmentChildren::NumericSubpoint(v), wrap_up: wrap_up.clone() })
        }
    };
    let p = plain_paragraph(kids(intro, c, wrap_up));
    check(p.is_empty() == empty, 1);
    let (t, e) = body_text();
    check(plain_paragraph(SAEBody::Text(t)).is_empty() == e, 2);
    cover(1);
}

entries! {
    vp_p14_deep = deep;
    vp_p14_wide = wide;
    vp_p14_failing = failing;
    vp_p14_changing_deep = changing_deep;
    vp_p14_changing_wide = changing_wide;
    vp_p14_cutting = cutting;
    vp_p14_finding = finding2;
    vp_p14_finding3 = finding3;
    vp_p14_wide3 = wide3;
    vp_p14_references = own_references;
    vp_p14_emptiness = emptiness;
}
