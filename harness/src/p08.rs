//! P08: a well-formed act, laid out as lines, parses to exactly that act.
//!
//! The generators below build the lines and the expected structure side by side.
use crate::acts::*;
use crate::build::*;
use crate::rt::*;
use hun_law::identifier::*;
use hun_law::structure::*;
use hun_law::util::indentedline::*;

// ------------------------------------------------------------------ the levels above articles
fn act_children(n: usize, preamble: usize) {
    warm();
    let mut v = Vec::new();
    let mut want: Vec<ActChild> = Vec::new();
    let p = if preamble > 0 { text(&mut v, "", 10.0, preamble, 10.0) } else { String::new() };
    // article ids that follow each other
    let ids: [&str; 4] = [["1", "2", "3", "4"], ["1", "1/A", "1/B", "2"], ["1:1", "1:2", "2:1", "2:2"], ["1", "1/A", "2", "2/A"]][pick(4)];
    let mut next = 0;
    for i in 0..n {
        let k = pick(8);
        // an empty line before the element: needed by unnumbered subtitles, harmless elsewhere
        if k == 6 || (i == 1 && pick_bool()) {
            v.push(EMPTY_LINE);
        }
        let two = i == 0 && pick_bool();
        match k {
            0..=4 => {
                let (head, t, id) = match k {
                    0 => ("NEGYEDIK KÖNYV", StructuralElementType::Book, 4u16),
                    1 => ("TIZENKETTEDIK RÉSZ", StructuralElementType::Part { is_special: false }, 12),
                    2 => ("KÜLÖNÖS RÉSZ", StructuralElementType::Part { is_special: true }, 2),
                    3 => ("XIV. CÍM", StructuralElementType::Title, 14),
                    _ => (if two { "IX. Fejezet" } else { "IX. FEJEZET" }, StructuralElementType::Chapter, 9),
                };
                v.push(mk(&[head], false, 10.0));
                let title = text(&mut v, "", 10.0, if two { 2 } else { 1 }, 10.0);
                want.push(StructuralElement { identifier: id.into(), title, element_type: t, last_change: None }.into());
            }
            5 | 6 => {
                let w = word();
                let (pre, id) = if k == 5 { ("12/A. ", "12/A".parse().ok()) } else { ("", None) };
                v.push(mk(&[pre, "Á", &w], true, 10.0));
                let mut title = String::from("Á");
                title.push_str(&w);
                if two {
                    let w = word();
                    v.push(mk(&["Á", &w], true, 10.0));
                    title.push_str(" Á");
                    title.push_str(&w);
                }
                want.push(Subtitle { identifier: id, title, last_change: None }.into());
            }
            _ => {
                let t = text(&mut v, &[ids[next], ". § "].concat(), 10.0, if two { 2 } else { 1 }, 5.0);
                want.push(article(ids[next], None, vec![plain_paragraph(t.into())]).into());
                next += 1;
            }
        }
    }
    same(v, &p, want)
}
fn act_2() { act_children(2, pick(3)) }
fn act_3() { act_children(3, 1) }
fn act_4() { act_children(4, 0) }

// ------------------------------------------------------------------ articles and paragraphs
fn titled() {
    warm();
    let mut v = Vec::new();
    let tl = pick(4);
    let mut head = String::from("1. § ");
    let mut title = None;
    match tl {
        0 => (),
        1 => {
            let w = word();
            v.push(mk(&["1. § [", &w, "]"], false, 10.0));
            title = Some(w);
        }
        2 => {
            let (a, b) = (word(), word());
            v.push(mk(&["1. § [", &a], false, 10.0));
            v.push(mk(&[&b, "]"], false, 10.0));
            title = Some([&a[..], " ", &b].concat());
        }
        _ => {
            let (a, b, c) = (word(), word(), word());
            v.push(mk(&["1. § [", &a], false, 10.0));
            v.push(mk(&[&b], false, 10.0));
            v.push(mk(&[&c, "]"], false, 10.0));
            title = Some([&a[..], " ", &b, " ", &c].concat());
        }
    }
    if tl > 0 {
        head.clear();
        if pick_bool() {
            v.push(EMPTY_LINE);
        }
    }
    let ids: &[&str] = [&["1", "2"][..], &["1", "1a", "2"], &["1", "2", "3", "4"]][pick(3)];
    let mut ps = Vec::new();
    if pick_bool() {
        let n = 1 + pick(2);
        let t = text(&mut v, &head, 10.0, n, 5.0);
        ps.push(plain_paragraph(t.into()));
    } else {
        for (i, id) in ids.iter().enumerate() {
            let n = 1 + pick(2);
            let pre = if i == 0 { [&head[..], "(1) "].concat() } else { ["(", id, ") "].concat() };
            let t = text(&mut v, &pre, 10.0, n, 5.0);
            ps.push(sae(id, t.into()));
            if i == 0 && pick_bool() {
                v.push(EMPTY_LINE);
            }
        }
    }
    same(v, "", vec![article("1", title, ps).into()])
}

// ------------------------------------------------------------------ points
const ALPHA: [&str; 34] = [
    "a", "b", "c", "cs", "d", "dz", "e", "f", "g", "gy", "h", "i", "j", "k", "l", "ly", "m", "n", "ny", "o", "p", "q", "r", "s", "sz", "t", "ty", "u", "v", "w", "x", "y", "z", "zs",
];
const NUMS: [&str; 13] = ["1", "2", "2a", "2b", "3", "4", "5", "6", "7", "8", "9", "10", "11"];

/// `n` points with `extra` additional lines in point `at`, followed by a wrap-up.
fn alpha(v: &mut L, ids: &[&str], indent: f64, at: usize, extra: usize) -> Vec<AlphabeticPoint> {
    let mut out = Vec::new();
    for (i, id) in ids.iter().enumerate() {
        let n = if i == at { 1 + extra } else { 1 };
        let t = text(v, &[id, ") "].concat(), indent, n, indent + 10.0);
        out.push(sae(id, t.into()));
    }
    out
}
fn nums(v: &mut L, ids: &[&str], indent: f64, at: usize, extra: usize) -> Vec<NumericPoint> {
    let mut out = Vec::new();
    for (i, id) in ids.iter().enumerate() {
        let n = if i == at { 1 + extra } else { 1 };
        let t = text(v, &[id, ". "].concat(), indent, n, indent + 10.0);
        out.push(sae(id, t.into()));
    }
    out
}
/// Paragraphs with points: which kind, how many, line breaks and wrap-ups.
fn points_one() { points(false, false) }
fn points_two() { points(true, false) }
fn points_two_full() { points(true, true) }
fn points(two: bool, full: bool) {
    warm();
    let mut v = Vec::new();
    let mut ps = Vec::new();
    for p in 0..if two { 2 } else { 1 } {
        let pre = match (two, p) {
            (false, _) => "1. § ",
            (true, 0) => "1. § (1) ",
            _ => "(2) ",
        };
        let il = if p == 0 { 1 + pick(2) } else { 1 };
        let intro = text(&mut v, pre, 10.0, il, 5.0);
        let more = p == 0 || full;
        let n = if more { 2 + pick(2) } else { 2 };
        let at = if more { pick(n) } else { 0 };
        let extra = if more { pick(2) } else { 0 };
        let kind = pick_bool();
        // points are indented as their paragraph or more
        let indent = if p == 0 { [10.0, 20.0][pick(2)] } else { 20.0 };
        let children: ParagraphChildren = if kind { alpha(&mut v, &ALPHA[..n], indent, at, extra).into() } else { nums(&mut v, &NUMS[..n], indent, at, extra).into() };
        let w = if p == 0 { pick(3) } else { 1 };
        let wrap_up = wrap(&mut v, w, if more && pick_bool() { indent } else { indent - 8.0 });
        let body = kids(intro, children, wrap_up);
        ps.push(if two { sae(["1", "2"][p], body) } else { plain_paragraph(body) });
    }
    same(v, "", vec![article("1", None, ps).into()])
}
/// Long lists: every length up to the end of the alphabet, with and without the digraphs.
fn long_alpha() {
    warm();
    let mut v = Vec::new();
    let mut ids: Vec<&str> = ALPHA.to_vec();
    if pick_bool() {
        ids.retain(|i| i.len() == 1);
    }
    let n = 2 + pick(ids.len() - 1);
    let intro = text(&mut v, "1. § ", 10.0, 1, 10.0);
    let c = alpha(&mut v, &ids[..n], 20.0, n - 1, 1);
    let wrap_up = wrap(&mut v, 1, 20.0);
    same(v, "", vec![article("1", None, vec![plain_paragraph(kids(intro, c.into(), wrap_up))]).into()])
}
fn long_num() {
    warm();
    let mut v = Vec::new();
    let n = 2 + pick(NUMS.len() - 1);
    if pick_bool() {
        let intro = text(&mut v, "1. § ", 10.0, 1, 10.0);
        let c = nums(&mut v, &NUMS[..n], 20.0, n - 1, 1);
        let wrap_up = wrap(&mut v, 1, 20.0);
        same(v, "", vec![article("1", None, vec![plain_paragraph(kids(intro, c.into(), wrap_up))]).into()])
    } else {
        let mut ps = Vec::new();
        for (i, id) in NUMS[..n].iter().enumerate() {
            let pre = if i == 0 { "1. § (1) ".to_string() } else { ["(", id, ") "].concat() };
            ps.push(sae(id, text(&mut v, &pre, 10.0, 1, 10.0).into()));
        }
        same(v, "", vec![article("1", None, ps).into()])
    }
}

// ------------------------------------------------------------------ subpoints
/// Subpoints below point `j` of two or three; wrap-ups at both levels.
fn subpoints() {
    warm();
    let mut v = Vec::new();
    let intro = text(&mut v, "1. § ", 10.0, 1, 10.0);
    let n = 2 + pick(2);
    let j = pick(n);
    let kind = pick(3);
    let sub_n = 2 + pick(2);
    let at = pick(sub_n);
    let sub_wrap = pick(2);
    let sub_intro_lines = 1 + pick(2);
    let mut ap: Vec<AlphabeticPoint> = Vec::new();
    let mut np: Vec<NumericPoint> = Vec::new();
    for i in 0..n {
        let id = if kind == 0 { NUMS[i] } else { ALPHA[i] };
        let pre = [id, if kind == 0 { ". " } else { ") " }].concat();
        if i != j {
            let t = text(&mut v, &pre, 20.0, 1, 30.0);
            if kind == 0 {
                np.push(sae(id, t.into()));
            } else {
                ap.push(sae(id, t.into()));
            }
            continue;
        }
        let si = text(&mut v, &pre, 20.0, sub_intro_lines, 30.0);
        let mut asp: Vec<AlphabeticSubpoint> = Vec::new();
        let mut nsp: Vec<NumericSubpoint> = Vec::new();
        for k in 0..sub_n {
            let lines = if k == at { 2 } else { 1 };
            let sid = match kind {
                0 => ALPHA[k].to_string(),
                1 => NUMS[k].to_string(),
                _ => [id, ALPHA[k]].concat(),
            };
            let t = text(&mut v, &[&sid[..], if kind == 1 { ". " } else { ") " }].concat(), 30.0, lines, 40.0);
            if kind == 1 {
                nsp.push(sae(&sid, t.into()));
            } else {
                asp.push(sae(&sid, t.into()));
            }
        }
        let sw = wrap(&mut v, sub_wrap, 30.0);
        match kind {
            0 => np.push(sae(id, kids(si, asp.into(), sw))),
            1 => ap.push(sae(id, kids(si, nsp.into(), sw))),
            _ => ap.push(sae(id, kids(si, asp.into(), sw))),
        }
    }
    let n = pick(2);
    let wrap_up = wrap(&mut v, n, 20.0);
    let children: ParagraphChildren = if kind == 0 { np.into() } else { ap.into() };
    same(v, "", vec![article("1", None, vec![plain_paragraph(kids(intro, children, wrap_up))]).into()])
}

// ------------------------------------------------------------------ what is no header
/// A line that looks like a header but is none, because it is out of sequence, too far to the
/// right, names a unit, stands alone or is not of the right form: it stays part of the text.
fn decoys() {
    warm();
    let mut v = Vec::new();
    let two = pick_bool();
    let decoy = |v: &mut L, t: &mut String, ds: &[(&str, f64)]| {
        let (d, x) = ds[pick(ds.len())];
        let w = word();
        v.push(mk(&[d, &w], false, x));
        t.push(' ');
        t.push_str(d);
        t.push_str(&w);
    };
    if !two {
        let mut t = text(&mut v, "1. § ", 10.0, 1, 10.0);
        decoy(&mut v, &mut t, &[("(1) ", 10.0), ("1. ", 10.0), ("a) ", 10.0), ("3. § ", 10.0), ("2. § ", 11.0), ("1. § ", 10.0), ("2/A. § ", 10.0), ("2:1. § ", 10.0), ("2. §", 10.0), ("(2) ", 10.0), ("b) ", 10.0), ("2. ", 10.0), ("RÉSZ ", 10.0), ("I. FEJEZET ", 10.0)]);
        same(v, "", vec![article("1", None, vec![plain_paragraph(t.into())]).into()])
    } else {
        let intro = text(&mut v, "1. § (1) ", 10.0, 1, 10.0);
        let mut a = text(&mut v, "a) ", 20.0, 1, 30.0);
        decoy(&mut v, &mut a, &[
            ("b) ", 21.0), ("c) ", 20.0), ("a) ", 20.0), ("b) pont", 20.0), ("b) alpont ", 20.0), ("b)", 20.0), ("B) ", 20.0), ("b. ", 20.0), ("1. ", 20.0), ("aa) ", 20.0), ("(1) ", 20.0), ("(3) ", 10.0), ("(2) ", 36.0), ("(2) bekezdés", 10.0), ("(2a) ", 10.0), ("2. ", 20.0), ("3. § ", 10.0),
        ]);
        let b = text(&mut v, "b) ", 20.9, 1, 30.0);
        let c: Vec<AlphabeticPoint> = vec![sae("a", a.into()), sae("b", b.into())];
        let p2 = text(&mut v, "(2) ", 35.9, 1, 10.0);
        same(v, "", vec![article("1", None, vec![sae("1", kids(intro, c.into(), None)), sae("2", p2.into())]).into()])
    }
}
/// The same one level up: the next article begins after the decoy.
fn article_decoys() {
    warm();
    let mut v = Vec::new();
    let mut t = text(&mut v, "1. § ", 10.0, 1, 10.0);
    let (d, x) = [("3. § ", 10.0), ("1. § ", 10.0), ("2. § ", 11.0), ("2/A. § ", 10.0), ("2:1. § ", 10.0), ("1:1. § ", 10.0), ("2. §", 10.0), ("0. § ", 10.0), ("12. § ", 10.0), ("a 2. § ", 10.0)][pick(10)];
    let w = word();
    v.push(mk(&[d, &w], false, x));
    t.push(' ');
    t.push_str(d);
    t.push_str(&w);
    let id = ["2", "1/A"][pick(2)];
    let t2 = text(&mut v, &[id, ". § "].concat(), [10.0, 10.9, 3.0][pick(3)], 1, 10.0);
    same(v, "", vec![article("1", None, vec![plain_paragraph(t.into())]).into(), article(id, None, vec![plain_paragraph(t2.into())]).into()])
}
/// A header begins an article unless it is further right than the header before it.
fn indents() {
    warm();
    const X: [f64; 6] = [3.0, 8.0, 10.0, 10.9, 11.1, 15.0];
    let mut v = Vec::new();
    let mut want: Vec<(u16, String)> = Vec::new();
    let mut at = X[pick(6)];
    let mut id = 1;
    let t = text(&mut v, "1. § ", at, 1, at);
    want.push((1, t));
    for _ in 0..3 {
        let x = X[pick(6)];
        let w = word();
        let head = ["", "1. § ", "2. § ", "3. § ", "4. § "][id + 1];
        v.push(mk(&[head, &w], false, x));
        if x < at + 1.0 {
            at = x;
            id += 1;
            want.push((id as u16, w));
        } else {
            let l = &mut want.last_mut().unwrap().1;
            l.push(' ');
            l.push_str(head);
            l.push_str(&w);
        }
    }
    cover(2);
    same(v, "", want.into_iter().map(|(i, t)| Article { identifier: i.into(), title: None, children: vec![plain_paragraph(t.into())], last_change: None }.into()).collect())
}

entries! {
    vp_p08_indents = indents;
    vp_p08_act2 = act_2;
    vp_p08_act3 = act_3;
    vp_p08_act4 = act_4;
    vp_p08_titled = titled;
    vp_p08_points = points_one;
    vp_p08_points2 = points_two;
    vp_p08_points2_full = points_two_full;
    vp_p08_long_alpha = long_alpha;
    vp_p08_long_num = long_num;
    vp_p08_subpoints = subpoints;
    vp_p08_decoys = decoys;
    vp_p08_article_decoys = article_decoys;
}
