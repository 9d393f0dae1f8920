//! P09: quoted text is kept as it is and never becomes structure; unbalanced quotes are an error.
use crate::acts::*;
use crate::build::*;
use crate::lines::*;
use crate::rt::*;
use hun_law::structure::*;
use hun_law::util::indentedline::*;
use hun_law::util::QuoteCheck;

// ------------------------------------------------------------------ the level
fn quote_line(max: usize) -> (IndentedLine, i64) {
    let n = pick(max + 1);
    let mut s = String::new();
    let mut d = 0;
    for _ in 0..n {
        match pick(4) {
            0 => s.push(small_letter()),
            1 => {
                s.push('„');
                d += 1
            }
            2 => {
                s.push('“');
                d += 1
            }
            _ => {
                s.push('”');
                d -= 1
            }
        }
    }
    (text_line(&s), d)
}
fn level(n: usize, max: usize) {
    let mut q = QuoteCheck::default();
    let mut l = 0i64;
    for _ in 0..n {
        let (line, d) = quote_line(max);
        let begin = l > 0;
        l += d;
        let r = q.update(&line);
        check(r.is_ok() == (l >= 0), 1);
        if l < 0 {
            cover(2);
            return;
        }
        check(q.beginning_is_quoted == begin, 2);
        check(q.end_is_quoted == (l > 0), 3);
        check(q.quote_level == l, 4);
    }
    cover(1);
    check(q.check_end().is_ok() == (l == 0), 5);
}
fn level_2() { level(2, 3) }
fn level_3() { level(3, 2) }

// ------------------------------------------------------------------ blocks
const INSIDE: [&str; 8] = ["", "2. § ", "(2) ", "a) ", "1. ", "III. FEJEZET ", "„", "("];

/// Lines of one block, `n` of them, the second of kind `k`; what the block should hold is returned.
fn block(v: &mut L, prefix: &str, n: usize, k: usize) -> Vec<IndentedLine> {
    let mut out = Vec::new();
    // what stands before the opening quote moves the text to the right
    let shift = prefix.chars().count() as f64 * 5.0 + 5.0;
    for i in 0..n {
        let mut s = String::new();
        if i == 0 {
            s.push_str(prefix);
            s.push('„');
        }
        let mut t = String::new();
        if i == 1 && k == 8 {
            v.push(EMPTY_LINE);
            out.push(EMPTY_LINE);
        }
        if i + 1 == n || i == 1 {
            t.push_str(INSIDE[k % 8]);
        }
        t.push_str(&word());
        if k == 6 && (i + 1 == n || i == 1) {
            t.push('”');
        }
        s.push_str(&t);
        if i + 1 == n {
            s.push('”');
        }
        v.push(mk(&[&s], false, 10.0));
        out.push(mk(&[&t], false, if i == 0 { 10.0 + shift } else { 10.0 }));
    }
    out
}
fn blocks() {
    warm();
    let mut v = Vec::new();
    let numbered = pick_bool();
    let colon = pick_bool();
    let empty_intro = pick(4) == 0;
    let head = if numbered { "1. § (1) " } else { "1. § " };
    let mut intro = String::new();
    if !empty_intro {
        let w = word();
        intro.push_str(&w);
        if colon {
            intro.push(':');
        }
        v.push(mk(&[head, &intro], false, 10.0));
    }
    let mut bi = None;
    if colon && !empty_intro {
        match pick(3) {
            0 => (),
            1 => {
                let w = word();
                v.push(mk(&["(", &w, ")"], false, 10.0));
                bi = Some(w);
            }
            _ => {
                let (a, b) = (word(), word());
                v.push(mk(&["[", &a], false, 10.0));
                v.push(mk(&[&b, "]"], false, 10.0));
                bi = Some([&a[..], " ", &b].concat());
            }
        }
    }
    let nb = 1 + pick(2);
    let mut bs: Vec<QuotedBlock> = Vec::new();
    for b in 0..nb {
        let n = 1 + pick(if b == 0 { 3 } else { 1 });
        // numbered paragraphs do not keep empty lines
        let k = if b == 0 { pick(if numbered { 8 } else { 9 }) } else { 0 };
        let prefix = if b == 0 && empty_intro { head } else { "" };
        let lines = block(&mut v, prefix, n, k);
        bs.push(QuotedBlock { intro: None, lines, wrap_up: None });
        if b == 0 && pick_bool() {
            v.push(EMPTY_LINE);
        }
    }
    bs[0].intro = bi;
    if pick_bool() {
        let w = word();
        v.push(mk(&["(", &w, ")"], false, 10.0));
        bs[nb - 1].wrap_up = Some(w);
    }
    let n = pick(2);
    let wrap_up = wrap(&mut v, n, 10.0);
    let body = kids(intro, bs.into(), wrap_up);
    let ps = if numbered {
        let t = text(&mut v, "(2) ", 10.0, 1, 10.0);
        vec![sae("1", body), sae("2", t.into())]
    } else {
        vec![plain_paragraph(body)]
    };
    same(v, "", vec![article("1", None, ps).into()])
}

/// Lines of a bracketed remark, possibly with a quotation broken over its lines; returns its text.
fn remark(v: &mut L) -> String {
    let (open, close) = [("(", ")"), ("[", "]")][pick(2)];
    let mut s = open.to_string();
    let mut t = word();
    let n = pick(3);
    let quoted = n > 0 && pick_bool();
    if quoted {
        t.push_str([" „", " “", " „(", "„"][pick(4)]);
        t.push_str(&word());
    }
    let mut level = quoted as usize;
    s.push_str(&t);
    for i in 0..n {
        v.push(mk(&[&s], false, 10.0));
        s = word();
        if i + 1 < n && level > 0 {
            // brackets do not count inside of quotations
            match pick(5) {
                0 => s.push(')'),
                1 => s.push(']'),
                2 => s.insert(0, '('),
                3 => {
                    s.push('”');
                    level -= 1;
                }
                _ => (),
            }
        } else if i + 1 < n && pick_bool() {
            s.push_str("),");
        }
        if i + 1 == n && level > 0 {
            s.push_str(["”", ")”", "” a"][pick(3)]);
        }
        t.push(' ');
        t.push_str(&s);
    }
    s.push_str(close);
    v.push(mk(&[&s], false, 10.0));
    t
}
fn remarks() {
    warm();
    let mut v = Vec::new();
    let w = word();
    let intro = [&w[..], ":"].concat();
    v.push(mk(&["1. § ", &intro], false, 10.0));
    let before = pick_bool();
    let bi = if before { Some(remark(&mut v)) } else { None };
    let lines = block(&mut v, "", 1, 0);
    let bw = if before { None } else { Some(remark(&mut v)) };
    let wrap_up = wrap(&mut v, pick(2), 10.0);
    let t2 = text(&mut v, "2. § ", 10.0, 1, 10.0);
    let q = QuotedBlock { intro: bi, lines, wrap_up: bw };
    same(v, "", vec![article("1", None, vec![plain_paragraph(kids(intro, vec![q].into(), wrap_up))]).into(), article("2", None, vec![plain_paragraph(t2.into())]).into()])
}

// ------------------------------------------------------------------ quotations within the text
/// Whatever stands in a quotation that begins within a line stays text.
fn inside() {
    warm();
    const K: [(&str, bool); 14] = [
        ("2. § ", false), ("1. § ", false), ("(2) ", false), ("a) ", false), ("1. ", false), ("aa) ", false), ("1. Á", true), ("Á", true), ("ELSŐ KÖNYV", false), ("MÁSODIK RÉSZ", false), ("ÁLTALÁNOS RÉSZ", false), ("X. CÍM", false), ("I. FEJEZET", false), ("[", false),
    ];
    let mut v = Vec::new();
    let mut t = String::new();
    let (a, b) = (word(), word());
    let open = ["„", "“"][pick(2)];
    v.push(mk(&["1. § ", &a, " ", open, &b], false, 10.0));
    t.push_str(&[&a[..], " ", open, &b].concat());
    for _ in 0..1 + pick(2) {
        let (pre, bold) = K[pick(14)];
        let w = if pre.ends_with(' ') || pre == "Á" || pre == "[" || bold { word() } else { String::new() };
        v.push(mk(&[pre, &w], bold, 10.0));
        t.push_str(&[" ", pre, &w].concat());
    }
    let c = word();
    v.push(mk(&[&c, "”"], false, 10.0));
    t.push_str(&[" ", &c[..], "”"].concat());
    let t2 = text(&mut v, "2. § ", 10.0, 1, 10.0);
    same(v, "", vec![article("1", None, vec![plain_paragraph(t.into())]).into(), article("2", None, vec![plain_paragraph(t2.into())]).into()])
}
/// Lines whose quote marks do not match never give an act.
fn unbalanced(n: usize) {
    warm();
    const K: [(&str, &str, i64); 8] = [("", "", 0), ("„", "", 1), ("“", "", 1), ("", "”", -1), ("„", "”", 0), ("(2) ", "„", 1), ("2. § „", "", 1), ("”", "„", 0)];
    let mut v = vec![mk(&["1. § ", &word()], false, 10.0)];
    let mut l = 0;
    let mut bad = false;
    for _ in 0..n {
        let (a, b, d) = K[pick(8)];
        v.push(mk(&[a, &word(), b], false, 10.0));
        l += d;
        bad |= l < 0;
    }
    let r = parse(v);
    if bad || l != 0 {
        check(r.is_err(), 1);
        cover(1);
    } else {
        check(r.is_ok(), 2);
        cover(2);
    }
}
fn unbalanced_3() { unbalanced(3) }
fn unbalanced_4() { unbalanced(4) }

entries! {
    vp_p09_level2 = level_2;
    vp_p09_level3 = level_3;
    vp_p09_blocks = blocks;
    vp_p09_remarks = remarks;
    vp_p09_inside = inside;
    vp_p09_unbalanced3 = unbalanced_3;
    vp_p09_unbalanced4 = unbalanced_4;
}
