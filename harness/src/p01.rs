//! P01: identifiers are totally ordered in document order; succession is exact.
use crate::gen::*;
use crate::rt::*;
use hun_law::identifier::range::*;
use hun_law::identifier::*;
use std::cmp::Ordering;

/// Agreement of every comparison operator with the ranks: implies a total order consistent with ==.
fn order<T: Ord + Copy>(a: T, b: T, ra: u64, rb: u64) {
    check((a == b) == (ra == rb), 1);
    check((a != b) == (ra != rb), 2);
    check((a < b) == (ra < rb), 3);
    check((a > b) == (ra > rb), 4);
    check((a <= b) == (ra <= rb), 5);
    check((a >= b) == (ra >= rb), 6);
    let c = a.cmp(&b);
    check((c == Ordering::Less) == (ra < rb), 7);
    check((c == Ordering::Equal) == (ra == rb), 8);
    check(a.partial_cmp(&b) == Some(c), 9);
    observe(c as i8 as u8 as u64);
}

/// b directly follows a: only the optional letters (digraphs and q) may be left out.
fn char_succ(ra: u32, rb: u32) -> bool {
    // ranks of the letters that a drafter may skip
    let mut ok = rb == ra + 1;
    for (_, d, _) in DIGRAPHS {
        let r = letter_rank(d) + 1;
        ok |= rb == r + 1 && ra + 1 == r;
    }
    let q = letter_rank(b'q');
    ok |= rb == q + 1 && ra + 1 == q;
    ok
}
/// Succession of numbered identifiers; n, s: number and suffix rank (0: none).
fn num_succ(a: (u32, u32), b: (u32, u32)) -> bool {
    let (na, sa, nb, sb) = (a.0, a.1, b.0, b.1);
    if sb == 0 {
        nb == na + 1
    } else if sa == 0 {
        nb == na && sb == 1
    } else {
        nb == na && char_succ(sa - 1, sb - 1)
    }
}
fn split_rank(r: u32) -> (u32, u32) { (r / 64, r % 64) }

fn chars() {
    let (a, ra) = hun_char();
    let (b, rb) = hun_char();
    order(a, b, ra as u64, rb as u64);
    let n = b.is_next_from(a);
    check(n == char_succ(ra, rb), 20);
    check(!n || a < b, 21);
    check(a.is_first() == (ra == 0), 22);
    check(!a.is_empty(), 23);
    if n {
        cover(1)
    }
    if a.is_first() {
        cover(2)
    }
}
fn numeric_ids() {
    let (a, ra) = numeric();
    let (b, rb) = numeric();
    order(a, b, ra as u64, rb as u64);
    let n = b.is_next_from(a);
    check(n == num_succ(split_rank(ra), split_rank(rb)), 20);
    check(!n || a < b, 21);
    check(a.is_first() == (ra == 64), 22);
    if n {
        cover(1)
    }
}
fn article_ids() {
    let (a, ra) = article();
    let (b, rb) = article();
    order(a, b, ra, rb);
    let n = b.is_next_from(a);
    let (ba, bb) = (ra >> 32, rb >> 32); // 0: no book, otherwise book + 1
    let (xa, xb) = (split_rank(ra as u32), split_rank(rb as u32));
    let expected = if ba == bb {
        num_succ(xa, xb)
    } else {
        ba != 0 && bb == ba + 1 && xb == (1, 0)
    };
    check(n == expected, 20);
    check(!n || a < b, 21);
    check(a.is_first() == (xa == (1, 0) && (ba == 0 || ba == 2)), 22);
    if n {
        cover(1);
        if ba != bb {
            cover(2)
        }
    }
}
fn paragraph_ids() {
    let (a, ra): (ParagraphIdentifier, u64) = if pick_bool() { let (n, r) = numeric_latin(); (n.into(), r as u64 + 1) } else { (Default::default(), 0) };
    let (b, rb): (ParagraphIdentifier, u64) = if pick_bool() { let (n, r) = numeric_latin(); (n.into(), r as u64 + 1) } else { (Default::default(), 0) };
    order(a, b, ra, rb);
    let n = b.is_next_from(a);
    let expected = ra != 0 && rb != 0 && num_succ(split_rank((ra - 1) as u32), split_rank((rb - 1) as u32));
    check(n == expected, 20);
    check(!n || a < b, 21);
    check(a.is_first() == (ra == 65), 22);
    check(a.is_empty() == (ra == 0), 23);
    if n {
        cover(1)
    }
}
fn prefixed_ids() {
    let (pa, rpa) = opt_hun_char();
    let (ca, rca) = latin();
    let (pb, rpb) = opt_hun_char();
    let (cb, rcb) = latin();
    let a = PrefixedAlphabeticIdentifier::verif_new(pa, ca);
    let b = PrefixedAlphabeticIdentifier::verif_new(pb, cb);
    order(a, b, rpa as u64 * 64 + rca as u64, rpb as u64 * 64 + rcb as u64);
    let n = b.is_next_from(a);
    check(n == (rpa == rpb && char_succ(rca, rcb)), 20);
    check(!n || a < b, 21);
    check(a.is_first() == (rca == 0), 22);
    check(a.get_prefix() == pa && a.prefix_is(pa) && (a.prefix_is(pb) == (rpa == rpb)), 23);
    if n {
        cover(1)
    }
}
fn act_ids() {
    let a = ActIdentifier { year: i16(), number: i32() };
    let b = ActIdentifier { year: i16(), number: i32() };
    let key = |x: &ActIdentifier| (((x.year as i64 + 32768) << 32) + (x.number as i64 + (1 << 31))) as u64;
    order(a, b, key(&a), key(&b));
}
/// Ranges contain exactly what lies between their ends.
fn ranges() {
    let (s, rs) = numeric_latin();
    let (e, re) = numeric_latin();
    let (x, rx) = numeric_latin();
    let r = IdentifierRange::from_range(s, e);
    check(r.first_in_range() == s && r.last_in_range() == e, 30);
    check(r.is_range() == (rs != re), 31);
    check(r.contains(x) == (rs <= rx && rx <= re), 32);
    let one = IdentifierRange::from_single(x);
    check(!one.is_range() && one.contains(x) && one.contains(s) == (rs == rx), 33);
    let r2 = IdentifierRange::from_range(x, e);
    order(r, r2, ((rs as u64) << 32) | re as u64, ((rx as u64) << 32) | re as u64);
    cover(1);
}

entries! {
    vp_p01_chars = chars;
    vp_p01_numeric = numeric_ids;
    vp_p01_article = article_ids;
    vp_p01_paragraph = paragraph_ids;
    vp_p01_prefixed = prefixed_ids;
    vp_p01_act = act_ids;
    vp_p01_ranges = ranges;
}
