use crate::segs::*;
use i_overlay::verif_order::*;
use kit::geo::{cross, sgn, Meet, Pt};
use kit::{ensure, Component, Ctx, Src};
use std::cmp::Ordering;

fn o(v: i32) -> Ordering { v.cmp(&0) }
/// is a below b over their common x range? None when they cross there
fn truth(a: (Pt, Pt), b: (Pt, Pt)) -> Option<Ordering> {
    // positive: the point is above the segment
    let above = |s: (Pt, Pt), p: Pt| sgn(cross(s.0, s.1, p));
    let l = if a.0 .0 >= b.0 .0 { -above(b, a.0) } else { above(a, b.0) };
    let r = if a.1 .0 <= b.1 .0 { -above(b, a.1) } else { above(a, b.1) };
    if l * r < 0 { return None; }
    Some(o(-(if l != 0 { l } else { r })))
}
fn pair(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let (a, mut b) = gen_pair(s);
    if s.chance(1, 3) { b.0 = if s.bool() { a.0 } else { b.0 }; }
    if b.0 >= b.1 { return Ok(()); }
    // both non-vertical, in the sweep at the same time, not crossing
    if a.0 .0 == a.1 .0 || b.0 .0 == b.1 .0 || a.0 .0.max(b.0 .0) >= a.1 .0.min(b.1 .0) { return Ok(()); }
    let t = match truth(a, b) { Some(t) => t, None => return Ok(()) };
    cx.desc(|| format!("{:?} and {:?}", a, b));
    if t == Ordering::Equal {
        cx.label("on one line");
        if a == b { ensure!(order(seg(a), seg(b)) == Ordering::Equal, "a segment differs from itself"); }
        return Ok(());
    }
    cx.nontrivial(true);
    let m = kit::geo::meet(a.0, a.1, b.0, b.1);
    cx.label_if(!matches!(m, Meet::None), "touching");
    let (x, y) = (order(seg(a), seg(b)), order(seg(b), seg(a)));
    ensure!(x == t.reverse() || x == t, "no order: {:?}", x);
    ensure!(x == t, "order {:?}, the first is {:?} than the second", x, t);
    ensure!(y == t.reverse(), "order the other way {:?} and {:?}", x, y);
    if matches!(m, Meet::None) || a.0 == b.0 {
        ensure!(under_segment(seg(a), seg(b)) == (t == Ordering::Less), "is under: {}", under_segment(seg(a), seg(b)));
        ensure!(under_segment(seg(b), seg(a)) == (t == Ordering::Greater), "is under the other way");
    }
    if a.0 == b.0 {
        // counterclockwise around the common start: the lower first
        ensure!(by_angle(seg(a), seg(b)) == t && by_angle(seg(b), seg(a)) == t.reverse(), "by angle {:?}, the first is {:?}", by_angle(seg(a), seg(b)), t);
    }
    Ok(())
}
fn point(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let (a, b) = gen_pair(s);
    let p = match s.raw(4) { 0 => b.0, 1 => b.1, 2 => a.0, _ => a.1 };
    let r = *s.pick(&[0i64, 1, 2]);
    let p = cl((p.0 + s.zrange(-r, r), p.1 + s.zrange(-r, r)));
    if p == a.0 || p == a.1 || p.0 < a.0 .0 || p.0 > a.1 .0 || a.0 .0 == a.1 .0 { return Ok(()); }
    cx.nontrivial(true);
    cx.desc(|| format!("{:?} and point {:?}", a, p));
    let want = o(-sgn(cross(a.0, a.1, p)));
    cx.label_if(want == Ordering::Equal, "on the segment");
    let got = under_point(seg(a), ip(p));
    ensure!(got == want, "segment is {:?} than the point, expected {:?}", got, want);
    Ok(())
}
pub fn components() -> Vec<Component> {
    vec![
        Component { name: "order", quick: 3_000_000, thorough: 250_000_000, rule: "two non-crossing segments over a common x range (touching, sharing ends, nearly coincident, extents 1..2^30): which is lower, against exact orientation; non-trivial: not on one line", run: pair },
        Component { name: "point", quick: 1_500_000, thorough: 100_000_000, rule: "a segment and a point over it (near or on it) against exact orientation; non-trivial: all", run: point },
    ]
}
