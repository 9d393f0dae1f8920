//! P04: containment and relative references agree with the tree of parts.
use crate::refs::*;
use crate::rt::*;

/// What containment means: the container is the whole of `other`, an ancestor of it, or a range
/// its part lies in.
fn inside(a: &Model, b: &Model) -> bool {
    if a.0[0] != b.0[0] {
        return false;
    }
    let d = a.depth();
    let mut k = 1;
    while k < d {
        match (a.0[k], b.0[k]) {
            (None, None) => (),
            (Some(x), Some(y)) => {
                let within = (x.kind == y.kind) & (x.from <= y.from) & (y.to <= x.to);
                if !within {
                    return false;
                }
                if x.from != x.to {
                    return true;
                }
            }
            _ => return false,
        }
        k += 1;
    }
    true
}
fn ancestor(a: &Model, b: &Model) -> bool {
    let d = a.depth();
    (0..5).all(|k| if k < d || k == 0 { a.0[k] == b.0[k] } else { true }) && a != b
}
fn relations(a: Model, b: Model) {
    if let (Ok(ra), Ok(rb)) = (a.build(), b.build()) {
        let c = inside(&a, &b);
        check(ra.contains(&rb) == c, 1);
        check(ra.is_parent_of(&rb) == ancestor(&a, &b), 2);
        if c {
            cover(1);
        } else {
            cover(2);
        }
    } else {
        check(false, 9);
    }
}
fn relations_plain() { relations(valid_model(false, false), valid_model(false, false)) }
fn relations_act() {
    let mut a = valid_model(false, false);
    let mut b = valid_model(false, false);
    assume(a.0[1].is_some() || a.depth() == 0);
    assume(b.0[1].is_some() || b.depth() == 0);
    a.0[0] = any_part(0, false);
    b.0[0] = any_part(0, false);
    relations(a, b)
}
fn relations_kinds() {
    // same base, points and subpoints of both kinds
    let mut a = Model::default();
    a.0[1] = Some(some_part(1, 0, false));
    let mut b = a;
    for m in [&mut a, &mut b] {
        let deep = pick_bool();
        let p = some_part(3, pick(2) as u8, !deep);
        assume(p.from <= p.to);
        m.0[3] = Some(p);
        if deep {
            let p = some_part(4, pick(2) as u8, true);
            assume(p.from <= p.to);
            m.0[4] = Some(p);
        }
    }
    relations(a, b)
}
fn relations_all() { relations(valid_model(true, true), valid_model(true, true)) }

/// A relative reference keeps its own parts and takes everything above from its base.
fn relative(a: Model, b: Model) {
    if let (Ok(ra), Ok(rb)) = (a.build(), b.build()) {
        let mut m = a;
        let top = (0..5).find(|k| a.0[*k].is_some()).unwrap_or(5);
        for k in 0..top {
            m.0[k] = b.0[k];
        }
        let r = ra.relative_to(&rb);
        check(r.is_ok() == m.valid(), 1);
        if let Ok(r) = r {
            m.check_is(&r, 2);
            cover(1);
        } else {
            cover(2);
        }
    } else {
        check(false, 9);
    }
}
fn relative_any() { relative(valid_model(true, false), valid_model(true, false)) }
fn relative_kinds() { relative(valid_model(true, true), valid_model(true, true)) }

/// Every part a reference goes through contains it; going up never leaves the container.
fn chain() {
    let m = valid_model(true, true);
    if let Ok(r) = m.build() {
        check(r.contains(&r), 1);
        check(!r.is_parent_of(&r), 2);
        let mut p = r.clone();
        for _ in 0..5 {
            let q = p.parent();
            if m.0[0].is_some() && q.act().is_none() {
                break;
            }
            check(q.contains(&r), 3);
            check(q == r || q.is_parent_of(&r), 4);
            p = q;
        }
        check(r.contains(&r.first_in_range()) && r.contains(&r.last_in_range()), 5);
        cover(1);
    }
}
/// Containment is transitive (numbered shapes).
fn transitive() {
    let (a, b, c) = (valid_model(false, false), valid_model(false, false), valid_model(false, false));
    if let (Ok(ra), Ok(rb), Ok(rc)) = (a.build(), b.build(), c.build()) {
        if ra.contains(&rb) && rb.contains(&rc) {
            check(ra.contains(&rc), 1);
            cover(1);
        }
    }
}

entries! {
    vp_p04_plain = relations_plain;
    vp_p04_act = relations_act;
    vp_p04_kinds = relations_kinds;
    vp_p04_all = relations_all;
    vp_p04_relative = relative_any;
    vp_p04_relative_kinds = relative_kinds;
    vp_p04_chain = chain;
    vp_p04_transitive = transitive;
}
