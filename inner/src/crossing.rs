use crate::segs::*;
use i_overlay::verif_cross::{collinear, cross};
use kit::geo::Pt;
use kit::{ensure, Component, Ctx, Src};

fn orient(a: Pt, b: Pt, c: Pt) -> i32 { kit::geo::sgn(kit::geo::cross(a, b, c)) }
/// |v*den - num| <= tol*den without overflow
fn within(v: i64, num: i128, den: i128, base: i64) -> (bool, bool) {
    let d = ((v - base) as i128 * den - num).abs();
    (d <= den.abs(), d == 0)
}
fn pair(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let (t, o) = gen_pair(s);
    let e = *s.pick(&[0u32, 1, 2, 4, 8]);
    let radius = 1i64 << e;
    cx.desc(|| format!("target {:?} other {:?} radius {}", t, o, radius));
    let r = cross(seg(t), seg(o), radius);
    let q = [orient(t.0, t.1, o.0), orient(t.0, t.1, o.1), orient(o.0, o.1, t.0), orient(o.0, o.1, t.1)];
    let zeros = q.iter().filter(|&&v| v == 0).count();
    let show = |r: &Option<i_overlay::verif_cross::Cross>| r.as_ref().map(|c| format!("kind {} point ({},{}) rounded {}", c.kind, c.point.x, c.point.y, c.is_round)).unwrap_or("none".into());
    if zeros == 4 {
        cx.label("on one line");
        ensure!(matches!(&r, Some(c) if c.kind == 3), "collinear segments reported as {}", show(&r));
        // strictly inside: between the ends on the line, in lexicographic order
        let ins = |p: Pt, s: (Pt, Pt)| s.0 < p && p < s.1;
        let want = [ins(t.0, o), ins(t.1, o), ins(o.0, t), ins(o.1, t)];
        cx.nontrivial(want.iter().any(|v| *v));
        let got = collinear(seg(t), seg(o));
        ensure!(got == want, "ends inside the opposite segment {:?}, expected {:?}", got, want);
        return Ok(());
    }
    ensure!(!matches!(&r, Some(c) if c.kind == 3), "reported as collinear");
    let apart = q[0] * q[1] > 0 || q[2] * q[3] > 0;
    if apart || zeros > 1 {
        cx.label(if apart { "apart" } else { "common end" });
        ensure!(r.is_none(), "segments that meet at most in a common end: {}", show(&r));
        return Ok(());
    }
    cx.nontrivial(true);
    let c = match &r { Some(c) => c, None => return Err("crossing missed".into()) };
    let p = (c.point.x as i64, c.point.y as i64);
    if zeros == 1 {
        let k = q.iter().position(|v| *v == 0).unwrap();
        let want = [o.0, o.1, t.0, t.1][k];
        cx.label("end inside the other");
        ensure!(c.kind == if k < 2 { 2 } else { 1 } && p == want && !c.is_round, "end {:?} lies inside the other segment: {}", want, show(&r));
        return Ok(());
    }
    // crossing inside both: t.0 + dt * num / den
    let (dt, dq) = ((t.1 .0 - t.0 .0, t.1 .1 - t.0 .1), (o.1 .0 - o.0 .0, o.1 .1 - o.0 .1));
    let den = dt.0 as i128 * dq.1 as i128 - dt.1 as i128 * dq.0 as i128;
    let num = (o.0 .0 - t.0 .0) as i128 * dq.1 as i128 - (o.0 .1 - t.0 .1) as i128 * dq.0 as i128;
    // dt * num needs up to 31 + 64 bits
    let (nx, ny) = (dt.0 as i128 * num, dt.1 as i128 * num);
    let (inx, exx) = within(p.0, nx, den, t.0 .0);
    let (iny, exy) = within(p.1, ny, den, t.0 .1);
    let grid = nx % den == 0 && ny % den == 0;
    if grid {
        cx.label("crossing in a grid point");
        ensure!(c.kind == 0 && exx && exy && !c.is_round, "the crossing is a grid point: {}", show(&r));
        return Ok(());
    }
    cx.label("rounded crossing");
    ensure!(c.is_round, "the crossing is no grid point but is not marked as rounded: {}", show(&r));
    let ends = if c.kind == 1 { vec![t.0, t.1] } else if c.kind == 2 { vec![o.0, o.1] } else { vec![] };
    if c.kind == 0 {
        ensure!(inx && iny, "point ({},{}) is more than a unit away from the crossing at {:?} + ({},{})/{}", p.0, p.1, t.0, nx, ny, den);
        let bb = |s: (Pt, Pt)| p.0 >= s.0 .0 && p.0 <= s.1 .0 && p.1 >= s.0 .1.min(s.1 .1) && p.1 <= s.0 .1.max(s.1 .1);
        ensure!(bb(t) && bb(o), "point {:?} outside the box of a segment", p);
        ensure!(![t.0, t.1, o.0, o.1].contains(&p), "point {:?} is an end but the crossing is reported inside both", p);
    } else {
        cx.label("snapped to an end");
        ensure!(ends.contains(&p), "kind {} but {:?} is not an end of that segment", c.kind, p);
        // the end lies within the radius of a point at most a unit (in each coordinate) from the crossing
        let (dx, dy) = (((p.0 - t.0 .0) as f64 - nx as f64 / den as f64).abs(), ((p.1 - t.0 .1) as f64 - ny as f64 / den as f64).abs());
        let d = (dx * dx + dy * dy).sqrt();
        ensure!(d <= (radius as f64).sqrt() + 1.5, "snapped over {} units with squared radius {}", d, radius);
    }
    Ok(())
}
fn swapped(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    // the same two segments moved and mirrored: the same kind of crossing
    let (t, o) = gen_pair(s);
    let m = s.raw(4);
    let f = |p: Pt| match m { 0 => (-p.0, p.1), 1 => (p.0, -p.1), 2 => (p.1, p.0), _ => (-p.0, -p.1) };
    let g = |s: (Pt, Pt)| ord(f(s.0), f(s.1));
    cx.desc(|| format!("target {:?} other {:?} map {}", t, o, m));
    let (a, b, c) = (cross(seg(t), seg(o), 1), cross(seg(o), seg(t), 1), cross(seg(g(t)), seg(g(o)), 1));
    cx.nontrivial(a.is_some());
    ensure!(a.is_some() == b.is_some() && a.is_some() == c.is_some(), "found {} swapped {} mirrored {}", a.is_some(), b.is_some(), c.is_some());
    if let (Some(a), Some(b), Some(c)) = (a, b, c) {
        ensure!(a.is_round == b.is_round && a.is_round == c.is_round, "rounded {} swapped {} mirrored {}", a.is_round, b.is_round, c.is_round);
        if !a.is_round && a.kind != 3 {
            ensure!(a.point == b.point && f((a.point.x as i64, a.point.y as i64)) == (c.point.x as i64, c.point.y as i64), "points {} {} {}", a.point, b.point, c.point);
            ensure!(c.kind == a.kind && b.kind == [0, 2, 1][a.kind as usize], "kinds {} {} {}", a.kind, b.kind, c.kind);
        }
    }
    Ok(())
}
pub fn components() -> Vec<Component> {
    vec![
        Component { name: "pair", quick: 8_000_000, thorough: 600_000_000, rule: "two segments (any, nearly coincident, an end on or near the other, on one line, crossing in a grid point, crossing near an end) at extents 1..2^30 against exact 128-bit orientation and crossing; non-trivial: they meet in more than a common end", run: pair },
        Component { name: "swapped", quick: 2_000_000, thorough: 100_000_000, rule: "the same pair swapped, mirrored, transposed: same answer; non-trivial: they meet", run: swapped },
    ]
}
