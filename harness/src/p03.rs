//! P03: every reference that can be made is well formed, and has the parts it was made from.
use crate::refs::*;
use crate::rt::*;
use hun_law::reference::builder::*;
use hun_law::reference::Reference;

/// Parts set from the top down, any combination.
fn build() {
    let m = any_model();
    let r = m.build();
    check(r.is_ok() == m.valid(), 1);
    if let Ok(r) = r {
        m.check_is(&r, 2);
        check(r.is_act_only() == m.0[1].is_none(), 3);
        let w = r.without_act();
        let mut n = m;
        n.0[0] = None;
        n.check_is(&w, 4);
        cover(1);
    } else {
        cover(2);
    }
}
/// A builder used for several references: each part replaces its level and everything below.
fn builder_history(steps: usize) {
    let mut b = ReferenceBuilder::new();
    let mut m = Model::default();
    for _ in 0..steps {
        let op = pick(9);
        if op < 5 {
            let kind = if op >= 3 { pick(2) as u8 } else { 0 };
            for l in op..5 {
                m.0[l] = None;
            }
            m.0[op] = Some(some_part(op, kind, true));
            m.set(&mut b, op);
        } else {
            let l = op - 4;
            for k in l..5 {
                m.0[k] = None;
            }
            match l {
                1 => drop(b.reset_article()),
                2 => drop(b.reset_paragraph()),
                3 => drop(b.reset_point()),
                _ => drop(b.reset_subpoint()),
            }
        }
    }
    let r = b.build();
    check(r.is_ok() == m.valid(), 1);
    if let Ok(r) = r {
        m.check_is(&r, 2);
        cover(1);
    }
}
fn history_3() { builder_history(3) }
fn history_4() { builder_history(4) }

/// The ends of a reference, and its parent.
fn ends() {
    let m = valid_model(true, true);
    let r = match m.build() {
        Ok(r) => r,
        Err(_) => return check(false, 1),
    };
    let mut f = m;
    let mut l = m;
    for k in 0..5 {
        if let Some(p) = m.0[k] {
            f.0[k] = Some(Part { to: p.from, ..p });
            l.0[k] = Some(Part { from: p.to, ..p });
        }
    }
    f.check_is(&r.first_in_range(), 2);
    l.check_is(&r.last_in_range(), 3);
    let mut p = m;
    let d = m.depth();
    if d > 0 {
        p.0[d - 1] = None;
        check(p.valid(), 4);
    }
    p.check_is(&r.parent(), 5);
    cover(1);
}
/// A range of two references runs from the beginning of the first to the end of the second.
fn make_range(a: Model, b: Model) {
    if let (Ok(ra), Ok(rb)) = (a.build(), b.build()) {
        // comparable: equal above the last level, and both have the same last level and kind
        let (da, db) = (a.depth(), b.depth());
        let mut ok = da == db;
        for k in 0..5 {
            ok &= match (a.0[k], b.0[k]) {
                (None, None) => true,
                (Some(x), Some(y)) => x.kind == y.kind && (x == y || (k + 1 == da && k > 0)),
                _ => false,
            };
        }
        let r = Reference::make_range(&ra, &rb);
        check(r.is_ok() == ok, 1);
        if let Ok(r) = r {
            let mut m = a;
            if da > 0 {
                let y = b.0[da - 1].unwrap();
                m.0[da - 1].as_mut().unwrap().to = y.to;
            }
            m.check_is(&r, 2);
            check(m.valid(), 3);
            cover(1);
        } else {
            cover(2);
        }
    } else {
        check(false, 4);
    }
}
fn range_same_shape() {
    let a = valid_model(true, true);
    let mut b = a;
    for k in 0..5 {
        if let Some(p) = a.0[k] {
            let q = some_part(k, p.kind, k + 1 == a.depth());
            assume(q.from <= q.to);
            b.0[k] = Some(q);
        }
    }
    make_range(a, b)
}
fn range_any_shape() { make_range(valid_model(false, false), valid_model(false, false)) }
fn range_any_kind() { make_range(valid_model(true, true), valid_model(true, true)) }

entries! {
    vp_p03_build = build;
    vp_p03_history3 = history_3;
    vp_p03_history4 = history_4;
    vp_p03_ends = ends;
    vp_p03_range_same = range_same_shape;
    vp_p03_range_any = range_any_shape;
    vp_p03_range_any_kind = range_any_kind;
}
