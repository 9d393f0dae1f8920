//! P12: the text output shows every header and text of an act, in order, wrapped and indented by depth.
use crate::acts::*;
use crate::build::*;
use crate::lines::*;
use crate::rt::*;
use hun_law::identifier::*;
use hun_law::output::*;
use hun_law::reference::Reference;
use hun_law::semantic_info::{OutgoingReference, SpecialPhrase};
use hun_law::structure::*;
use hun_law::util::indentedline::*;

// ------------------------------------------------------------------ the expected text
struct Page {
    out: String,
    width: usize,
    fresh: bool,
}
impl Page {
    fn nl(&mut self) {
        self.out.push('\n');
        self.fresh = true;
    }
    fn pad(&mut self, level: usize) {
        if self.fresh {
            for _ in 0..level * 5 {
                self.out.push(' ');
            }
        }
        self.fresh = false;
    }
    /// The beginning of a line: filled up to a width.
    fn head(&mut self, level: usize, h: &str, fill: usize) {
        self.pad(level);
        self.out.push_str(h);
        for _ in h.chars().count()..fill {
            self.out.push(' ');
        }
    }
    /// Words, as many in a line as fit; words longer than a line are cut.
    fn text(&mut self, level: usize, lead: usize, t: &str) {
        let room = self.width.saturating_sub(level * 5);
        let mut used = 0;
        let mut any = false;
        self.pad(level);
        let mut gap = 0;
        if lead > 0 {
            for _ in 0..lead {
                self.out.push(' ');
            }
            used = lead;
            any = true;
        }
        for w in t.split(' ') {
            let n = w.chars().count();
            let mut left = n;
            let mut it = w.chars();
            while left > 0 {
                let m = if n > room { left.min(room.max(1)) } else { left };
                if any && used + gap + m > room {
                    if lead > 0 && used == lead {
                        // nothing but the lead: it stays in front of an empty line
                        let n = self.out.len() - lead;
                        self.out.truncate(n);
                    }
                    self.nl();
                    self.pad(level);
                    used = 0;
                    gap = 0;
                }
                for _ in 0..gap {
                    self.out.push(' ');
                }
                for _ in 0..m {
                    if let Some(c) = it.next() {
                        self.out.push(c)
                    }
                }
                used += gap + m;
                any = true;
                gap = 0;
                left -= m;
            }
            gap = 1;
        }
        self.nl();
    }
    fn line(&mut self, level: usize, h: &str, fill: usize, deeper: usize, t: &str) {
        self.head(level, h, fill);
        self.text(level + deeper, 0, t);
    }
}
fn start(width: usize, subject: &str, preamble: &str) -> Page {
    let mut p = Page { out: String::new(), width, fresh: true };
    p.head(1, "2013. évi V. törvény ", 0);
    p.out.push_str(subject);
    p.nl();
    p.nl();
    p.text(1, 0, preamble);
    p.nl();
    p
}
fn act_of(subject: &str, preamble: &str, children: Vec<ActChild>) -> Act {
    Act {
        identifier: ActIdentifier { year: 2013, number: 5 },
        subject: subject.to_string(),
        preamble: preamble.to_string(),
        publication_date: Default::default(),
        contained_abbreviations: Default::default(),
        children,
    }
}
fn print(a: Act, width: usize, f: OutputFormat) -> String {
    let mut v: Vec<u8> = Vec::new();
    match a.cli_output(width, f, &mut v) {
        Ok(()) => (),
        Err(_) => check(false, 1),
    }
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => {
            check(false, 2);
            String::new()
        }
    }
}
fn without_colors(s: &str) -> String {
    let mut o = String::new();
    let mut inside = false;
    for c in s.chars() {
        match c {
            '\x1b' => inside = true,
            'm' if inside => inside = false,
            c if !inside => o.push(c),
            _ => (),
        }
    }
    o
}
fn decide(a: Act, p: Page) {
    let w = p.width;
    let s = print(a.clone(), w, OutputFormat::Plain);
    observe(s.len() as u64);
    check(s == p.out, 3);
    let c = print(a, w, OutputFormat::Colored);
    check(without_colors(&c) == s, 4);
    cover(1);
}
fn word_of(n: usize) -> String { ascii_n(b"uvwx", n) }
fn sentence(lens: &[usize], max: usize) -> String {
    let n = 1 + pick(max);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(&word_of(lens[pick(lens.len())]));
    }
    s
}
// ------------------------------------------------------------------ wrapping
fn wrapping(widths: &[usize], lens: &[usize], max: usize) {
    let width = widths[pick(widths.len())];
    let t = sentence(lens, max);
    let mut p = start(width, "uv", "vw");
    p.head(1, "1. §", 10);
    p.line(3, "(1)", 5, 1, &t);
    p.line(3, "(2)", 5, 1, "u");
    let a = article("1", None, vec![sae("1", SAEBody::Text(t)), sae("2", SAEBody::Text("u".into()))]);
    decide(act_of("uv", "vw", vec![a.into()]), p)
}
fn wrap_fit() { wrapping(&[24, 25, 26, 27, 28, 30], &[1, 3, 4], 3) }
fn wrap_narrow() { wrapping(&[0, 1, 4, 5, 9, 10, 14, 15, 16, 19, 20, 21, 22], &[1, 3], 2) }
fn wrap_any() { wrapping(&[20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 80], &[1, 2, 3, 5, 8], 4) }

// ------------------------------------------------------------------ elements
fn sub_alpha(level: usize, p: &mut Page) -> Vec<AlphabeticSubpoint> {
    let (a, b) = (word(), word());
    p.line(level, "aa)", 5, 1, &a);
    p.line(level, "ab)", 5, 1, &b);
    vec![sae("aa", SAEBody::Text(a)), sae("ab", SAEBody::Text(b))]
}
fn sub_num(level: usize, p: &mut Page) -> Vec<NumericSubpoint> {
    let a = word();
    p.line(level, "1.", 5, 1, &a);
    vec![sae("1", SAEBody::Text(a))]
}
fn wrap_up(level: usize, p: &mut Page) -> Option<String> {
    if pick_bool() {
        let w = word();
        p.text(level, 0, &w);
        Some(w)
    } else {
        None
    }
}
fn opt(f: impl FnOnce(&str)) -> Option<String> {
    if pick_bool() {
        let w = word();
        f(&w);
        Some(w)
    } else {
        None
    }
}
fn alpha_points(level: usize, p: &mut Page) -> Vec<AlphabeticPoint> {
    let a = word();
    p.line(level, "a)", 5, 1, &a);
    let i = word();
    p.line(level, "b)", 5, 1, &i);
    let c = if pick_bool() { AlphabeticPointChildren::AlphabeticSubpoint(sub_alpha(level + 1, p)) } else { AlphabeticPointChildren::NumericSubpoint(sub_num(level + 1, p)) };
    let w = wrap_up(level + 1, p);
    vec![sae("a", SAEBody::Text(a)), sae("b", kids(i, c, w))]
}
fn num_points(level: usize, p: &mut Page) -> Vec<NumericPoint> {
    let a = word();
    p.line(level, "1.", 5, 1, &a);
    let i = word();
    p.line(level, "2.", 5, 1, &i);
    let c = NumericPointChildren::AlphabeticSubpoint(sub_alpha(level + 1, p));
    let w = wrap_up(level + 1, p);
    vec![sae("1", SAEBody::Text(a)), sae("2", kids(i, c, w))]
}
fn quoted(level: usize, p: &mut Page) -> QuotedBlock {
    let intro = opt(|w| p.text(level, 0, w));
    p.text(level, 0, "„");
    let mut lines = Vec::new();
    for i in 0..pick(4) {
        p.pad(level);
        p.out.push_str("     ");
        if i == 2 {
            lines.push(EMPTY_LINE);
        } else {
            let w = word();
            let shift = i;
            for _ in 0..shift {
                p.out.push(' ');
            }
            p.out.push_str(&w);
            lines.push(mk(&[&w], false, 10.5 + 5.0 * shift as f64));
        }
        p.nl();
    }
    p.text(level, 0, "”");
    let wrap_up = opt(|w| p.text(level, 0, w));
    QuotedBlock { intro, lines, wrap_up }
}
fn bracketed(level: usize, p: &mut Page) -> Option<String> {
    opt(|w| {
        let mut s = String::from("(");
        s.push_str(w);
        s.push(')');
        p.text(level, 0, &s)
    })
}
fn paragraph_kids(level: usize, p: &mut Page) -> ParagraphChildren {
    match pick(5) {
        0 => ParagraphChildren::AlphabeticPoint(alpha_points(level, p)),
        1 => ParagraphChildren::NumericPoint(num_points(level, p)),
        2 => {
            let mut v = vec![quoted(level, p)];
            if pick_bool() {
                p.text(level, 0, "„");
                p.text(level, 0, "”");
                v.push(QuotedBlock { intro: None, lines: vec![], wrap_up: None });
            }
            ParagraphChildren::QuotedBlock(v)
        }
        3 => {
            let intro = bracketed(level, p);
            p.text(level, 0, "„");
            let children = match pick(5) {
                0 => BlockAmendmentChildren::AlphabeticPoint(alpha_points(level + 1, p)),
                1 => BlockAmendmentChildren::NumericPoint(num_points(level + 1, p)),
                2 => BlockAmendmentChildren::AlphabeticSubpoint(sub_alpha(level + 1, p)),
                3 => BlockAmendmentChildren::NumericSubpoint(sub_num(level + 1, p)),
                _ => {
                    let a = word();
                    p.line(level + 1, "(2a)", 5, 1, &a);
                    let mut id = ParagraphIdentifier::default();
                    if let Ok(x) = "2a".parse() {
                        id = x
                    }
                    let q = SubArticleElement { identifier: id, body: SAEBody::Text(a), semantic_info: Default::default(), last_change: None };
                    BlockAmendmentChildren::Paragraph(vec![q])
                }
            };
            p.text(level, 0, "”");
            let wrap_up = bracketed(level, p);
            ParagraphChildren::BlockAmendment(BlockAmendment { intro, children, wrap_up })
        }
        _ => {
            let intro = bracketed(level, p);
            p.text(level, 0, "„");
            let mut children = Vec::new();
            for k in 0..pick(3) {
                children.push(child(level + 1, p, if k == 0 { pick(5) } else { 4 }));
            }
            p.text(level, 0, "”");
            let wrap_up = bracketed(level, p);
            ParagraphChildren::StructuralBlockAmendment(StructuralBlockAmendment { intro, children, wrap_up })
        }
    }
}
fn st_el(n: u16, t: StructuralElementType, title: String) -> ActChild {
    StructuralElement { identifier: n.into(), title, element_type: t, last_change: None }.into()
}
/// Elements of an act other than articles with structure: 0..4 (4: a simple article).
fn child(level: usize, p: &mut Page, k: usize) -> ActChild {
    match k {
        0 => {
            let (h, n, t) = match pick(4) {
                0 => ("MÁSODIK KÖNYV", 2, StructuralElementType::Book),
                1 => ("KÜLÖNÖS RÉSZ", 2, StructuralElementType::Part { is_special: true }),
                2 => ("IV. CÍM", 4, StructuralElementType::Title),
                _ => ("IX. FEJEZET", 9, StructuralElementType::Chapter),
            };
            p.text(level, 0, h);
            let mut title = String::new();
            if pick_bool() {
                title = word();
                p.text(level, 0, &title);
            }
            st_el(n, t, title)
        }
        1 => {
            let w = word();
            p.text(level, 0, &w);
            Subtitle { identifier: None, title: w, last_change: None }.into()
        }
        2 => {
            let w = word();
            let mut s = String::from("12/A. ");
            s.push_str(&w);
            p.text(level, 0, &s);
            Subtitle { identifier: "12a".parse().ok(), title: w, last_change: None }.into()
        }
        3 => {
            p.head(level, "1:2/A. §", 10);
            p.nl();
            article("1:2/A", None, vec![]).into()
        }
        _ => {
            let w = word();
            p.head(level, "3. §", 10);
            p.line(level + 2, "", 5, 1, &w);
            article("3", None, vec![plain_paragraph(SAEBody::Text(w))]).into()
        }
    }
}
fn elements() {
    let mut p = start(80, "uv", "");
    let mut v = Vec::new();
    let mut last = true;
    for _ in 0..3 {
        let k = pick(6);
        let this = k >= 3;
        if k == 5 {
            break;
        }
        if !last || !this {
            p.nl();
        }
        last = this;
        v.push(child(1, &mut p, k));
    }
    decide(act_of("uv", "", v), p)
}
fn nested() {
    let mut p = start(80, "uv", "vw");
    p.head(1, "1. §", 10);
    let title = if pick_bool() {
        let w = word();
        let mut s = String::from("[");
        s.push_str(&w);
        s.push(']');
        p.text(3, 5, &s);
        Some(w)
    } else {
        None
    };
    let i = word();
    p.line(3, "", 5, 1, &i);
    let c = paragraph_kids(4, &mut p);
    let w = wrap_up(4, &mut p);
    let a = article("1", title, vec![plain_paragraph(kids(i, c, w))]);
    decide(act_of("uv", "vw", vec![a.into()]), p)
}
// ------------------------------------------------------------------ colours
/// References anywhere in the text: the text stays whole.
fn colors() {
    let width = [22, 25, 80][pick(3)];
    let t = sentence(&[1, 4], 2);
    let n = t.len();
    let mut refs = Vec::new();
    let mut at = 0;
    for _ in 0..pick(3) {
        let s = at + pick(3);
        let e = s + pick(3) * 2;
        assume(e <= n);
        refs.push(OutgoingReference { start: s, end: e, reference: Reference::default() });
        at = e;
    }
    let special = pick_bool();
    let mut p = start(width, "uv", "vw");
    p.head(1, "1. §", 10);
    p.line(3, "", 5, 1, &t);
    let mut q = plain_paragraph(SAEBody::Text(t));
    q.semantic_info.outgoing_references = refs;
    if special {
        q.semantic_info.special_phrase = Some(SpecialPhrase::Repeal(vec![]));
    }
    let a = article("1", None, vec![q]);
    decide(act_of("uv", "vw", vec![a.into()]), p)
}
/// The format with markers reads back as the same line.
fn marked() {
    let n = pick(4);
    let bold = pick_bool();
    let just = pick_bool();
    let w = word_of(n);
    let mut parts = Vec::new();
    let ind = pick(16);
    for (i, c) in w.chars().enumerate() {
        parts.push(IndentedLinePart { dx: if i == 0 { ind as f64 * 5.0 + 0.5 } else { 5.0 }, content: c, bold });
    }
    let l = IndentedLine::from_parts(parts, just);
    let plain = quick_display_indented_line(&l, false);
    let mut e = String::new();
    if n > 0 {
        for _ in 0..ind {
            e.push(' ');
        }
    }
    e.push_str(&w);
    check(plain == e, 1);
    let m = quick_display_indented_line(&l, true);
    let r = IndentedLine::from_test_str(&m);
    check(r.content() == w, 2);
    if n > 0 {
        check(r.is_bold() == bold, 3);
        if ind >= 10 {
            check((r.indent() - (ind as f64 * 5.0 + 10.0)).abs() < 0.01, 5);
        }
    }
    check(r.is_justified() == just, 4);
    cover(1);
}
/// Pages and raw acts: every line once, in order, as it is displayed alone.
fn pages() {
    let fmt = [OutputFormat::Plain, OutputFormat::Colored, OutputFormat::TestPlain][pick(3)];
    let tags = fmt == OutputFormat::TestPlain;
    let mut want = String::new();
    let mut out: Vec<u8> = Vec::new();
    let raw = pick_bool();
    let mut some_lines = |want: &mut String| {
        let mut v = Vec::new();
        for _ in 0..pick(3) {
            let w = word_of(pick(2) * 2);
            let mut parts = Vec::new();
            let bold = pick_bool();
            for (i, c) in w.chars().enumerate() {
                parts.push(IndentedLinePart { dx: if i == 0 { 60.5 } else { 5.0 }, content: c, bold });
            }
            let n = parts.len();
            let l = IndentedLine::from_parts(parts, !tags);
            if n > 0 {
                if tags {
                    want.push_str(if bold { "<BOLD><NJ>  " } else { "<NJ>        " });
                } else {
                    want.push_str("            ");
                }
                want.push_str(&w);
            } else if tags {
                want.push_str("<NJ>");
            }
            want.push('\n');
            v.push(l);
        }
        v
    };
    let ok = if raw {
        want.push_str("Act ID: 2013. évi V. törvény - targy\nPub date: 2013-02-03\n\n");
        let body = some_lines(&mut want);
        hun_law::parser::mk_act_section::ActRawText {
            identifier: ActIdentifier { year: 2013, number: 5 },
            subject: "targy".to_string(),
            publication_date: chrono::NaiveDate::from_ymd_opt(2013, 2, 3).unwrap_or_default(),
            body,
        }
        .cli_output(80, fmt, &mut out)
        .is_ok()
    } else {
        let n = pick(3);
        let mut v = Vec::new();
        for i in 0..n {
            want.push_str("\n------- page ");
            want.push(['1', '2'][i]);
            want.push('/');
            want.push(['0', '1', '2'][n]);
            want.push_str(" -------\n\n");
            v.push(hun_law::parser::pdf::PageOfLines { lines: some_lines(&mut want) });
        }
        v.cli_output(80, fmt, &mut out).is_ok()
    };
    check(ok, 6);
    check(out == want.as_bytes(), 7);
    cover(1);
}

entries! {
    vp_p12_pages = pages;
    vp_p12_wrap_fit = wrap_fit;
    vp_p12_wrap_narrow = wrap_narrow;
    vp_p12_wrap_any = wrap_any;
    vp_p12_elements = elements;
    vp_p12_nested = nested;
    vp_p12_colors = colors;
    vp_p12_marked = marked;
}
