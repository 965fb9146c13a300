use super::c17;
use crate::common::*;
use crate::lat::*;
use crate::util::*;
use i_overlay::core::overlay_rule::OverlayRule;
use kit::geo::*;
use kit::{ensure, Component, Ctx, Property, Src};

fn half(d: Pt) -> i32 { if d.1 > 0 || d.1 == 0 && d.0 > 0 { 0 } else { 1 } }
fn cr(a: Pt, b: Pt) -> i128 { a.0 as i128 * b.1 as i128 - a.1 as i128 * b.0 as i128 }
fn cmp(a: Pt, b: Pt) -> std::cmp::Ordering { half(a).cmp(&half(b)).then(0i128.cmp(&cr(a, b))) }

/// triangles around one node, each alone in its angle
fn pinwheel(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let e = *s.pick(&[5i64, 100, 1_000_000, MAXC - 2]);
    let c = (s.zrange(-e / 2, e / 2), s.zrange(-e / 2, e / 2));
    let n = s.usize(2, 24);
    let mut dirs: Vec<Pt> = vec![];
    for _ in 0..3 * n {
        if dirs.len() >= n { break; }
        let d = if !dirs.is_empty() && s.chance(1, 2) {
            let b = *s.pick(&dirs);
            let r = *s.pick(&[0i64, 1, 3]);
            let k = if s.chance(1, 3) { -1 } else { 1 };
            (k * b.0 + s.zrange(-r, r), k * b.1 + s.zrange(-r, r))
        } else { (s.zrange(-e, e) - c.0, s.zrange(-e, e) - c.1) };
        let p = (c.0 + d.0, c.1 + d.1);
        if d == (0, 0) || p.0.abs() > e || p.1.abs() > e || dirs.iter().any(|b| cmp(*b, d).is_eq()) { continue; }
        dirs.push(d);
    }
    dirs.sort_by(|a, b| cmp(*a, *b));
    let turn = s.usize(0, dirs.len().max(1) - 1);
    if !dirs.is_empty() { dirs.rotate_left(turn); }
    let mut tri: Vec<Vec<Pt>> = vec![];
    let mut i = 0;
    while i + 1 < dirs.len() {
        // the triangle fills the angle between neighbours, or is left out
        if cr(dirs[i], dirs[i + 1]) > 0 { tri.push(vec![c, (c.0 + dirs[i].0, c.1 + dirs[i].1), (c.0 + dirs[i + 1].0, c.1 + dirs[i + 1].1)]); i += 2; } else { i += 1; }
    }
    if tri.is_empty() { return Ok(()); }
    let want: Vec<Vec<Vec<Pt>>> = { let mut v: Vec<_> = tri.iter().map(|t| vec![rot(t)]).collect(); v.sort(); v };
    let area: i128 = tri.iter().map(|t| area2(t)).sum();
    let mut input = tri.clone();
    s.shuffle(&mut input);
    for t in input.iter_mut() { let r = s.usize(0, 2); t.rotate_left(r); }
    let solver = gen_solver_prog(s);
    let is = to_ints(&input);
    cx.desc(|| format!("{} {}", show_i(&is), show_solver(&solver)));
    cx.nontrivial(tri.len() > 1);
    cx.label_if(tri.len() > 4, "more than 4 triangles around the node");
    let out = overlay(&is, &[], OverlayRule::Subject, *s.pick(&[FILLS[0], FILLS[1]]), CCW, true, 0, solver);
    let got = canon(&out);
    ensure!(got == want, "triangles around one node became {}", show_shapes(&out));
    // the rest of a rectangle around them
    let r = vec![(-e - 1, -e - 1), (e + 1, -e - 1), (e + 1, e + 1), (-e - 1, e + 1)];
    let out = overlay(&to_ints(&[r.clone()]), &is, OverlayRule::Difference, FILLS[1], CCW, true, 0, solver);
    ensure!(out.len() == 1, "a rectangle without triangles around one node became {} shapes: {}", out.len(), show_shapes(&out));
    let f = flat(&out);
    let a: i128 = f.iter().map(|c| area2(c)).sum();
    ensure!(a == area2(&r) - area, "twice the area of the rectangle without the triangles is {} instead of {}: {}", a, area2(&r) - area, show_shapes(&out));
    let mut es: Vec<(Pt, Pt)> = crate::structure::edges_of(&f);
    let mut ws: Vec<(Pt, Pt)> = crate::structure::edges_of(&tri).iter().map(|e| (e.1, e.0)).chain(crate::structure::edges_of(&[r])).collect();
    es.sort();
    ws.sort();
    ensure!(es == ws, "the edges of the rectangle without the triangles are not those given: {}", show_shapes(&out));
    Ok(())
}
/// a pile of long flat triangles, none crossing, nearly parallel: the sweep must keep their order
fn pile(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let e = *s.pick(&[50i64, 10_000, 100_000_000, MAXC - 2]);
    let n = s.usize(2, 20);
    let flip = s.bool();
    let a = s.zrange(-e / 2, e / 2);
    let slope = s.zrange(-e / 2, e / 2);
    let mut tri: Vec<Vec<Pt>> = vec![];
    // each between two lines through (-e, y) and (e, y + slope): strictly higher than the one before
    let mut y = a;
    for _ in 0..n {
        let hm = *s.pick(&[2, 2, 5, 1 + e / 50]);
        let h = s.range(1, hm);
        let line = |x: i64, y: i64| y + ((x + e) as i128 * slope as i128).div_euclid(2 * e as i128) as i64;
        let (x0, x1) = { let x = s.range(-e, e - 2); (x, s.range(x + 1, e)) };
        // floor of the line plus 1 stays above the line, plus h + 1 stays under the line h + 2 higher
        let p = (x0, line(x0, y) + 1);
        let q = (x1, line(x1, y) + 1);
        let xm = s.range(x0, x1);
        let r = (xm, line(xm, y) + 1 + h);
        let t = vec![p, q, r];
        y += h + 2;
        if t.iter().any(|p| p.1.abs() > e) { break; }
        if area2(&t) <= 0 { continue; }
        tri.push(t);
    }
    if tri.is_empty() { return Ok(()); }
    // a frame around all, so that every triangle becomes a hole bound by the sweep
    let r = vec![(-e - 1, -e - 1), (e + 1, -e - 1), (e + 1, e + 1), (-e - 1, e + 1)];
    let sw = |c: &Vec<Pt>| -> Vec<Pt> { if flip { c.iter().rev().map(|p| (p.1, p.0)).collect() } else { c.clone() } };
    let tri: Vec<Vec<Pt>> = tri.iter().map(sw).collect();
    let mut input = tri.clone();
    s.shuffle(&mut input);
    let is = to_ints(&input);
    let solver = gen_solver_prog(s);
    cx.desc(|| format!("{} frame {} {}", show_i(&is), e + 1, show_solver(&solver)));
    cx.nontrivial(tri.len() > 1);
    let mut want: Vec<Vec<Vec<Pt>>> = tri.iter().map(|t| vec![rot(t)]).collect();
    want.sort();
    let out = overlay(&is, &[], OverlayRule::Subject, FILLS[1], CCW, true, 0, solver);
    ensure!(canon(&out) == want, "a pile of separate triangles became {}", show_shapes(&out));
    let out = overlay(&to_ints(&[r.clone()]), &is, OverlayRule::Difference, FILLS[1], CCW, true, 0, solver);
    let mut holes: Vec<Vec<Pt>> = tri.iter().map(|t| rot(&t.iter().rev().copied().collect::<Vec<_>>())).collect();
    holes.sort();
    let mut w = vec![rot(&r)];
    w.extend(holes);
    ensure!(canon(&out) == vec![w], "a frame without a pile of triangles became {}", show_shapes(&out));
    Ok(())
}
/// polygons with vertical edges and tips on common columns: what the fragment grid treats apart
fn columns(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let l = 1i64 << s.range(0, 24);
    let cols = s.range(2, 24).min((MAXC / l).max(2));
    let n = *s.pick(&[6usize, 12, 30, 80]);
    let n = s.usize(2, n);
    let h = *s.pick(&[6i64, 20, 200]);
    let k = if s.bool() { 1 } else { (MAXC / h / 4).min(l) };
    let x0 = s.range(-MAXC, MAXC - cols * l);
    let y0 = s.zrange(-MAXC / 2, MAXC / 2 - h * k);
    let mut r = kit::Rng::new(s.raw(1 << 60));
    let mut rnd = |lo: i64, hi: i64| if hi <= lo { lo } else { lo + (r.next() % (hi - lo + 1) as u64) as i64 };
    let off = s.chance(1, 3);
    let mut cs: Vec<Vec<Pt>> = vec![];
    for _ in 0..n {
        let (i, j) = { let i = rnd(0, cols - 1); (i, rnd(i + 1, cols.min(i + 6))) };
        let (a, b) = { let a = rnd(0, h - 2); (a, rnd(a + 1, h.min(a + 12))) };
        let m = rnd(0, h);
        let x = |i: i64| x0 + i * l;
        let y = |j: i64| y0 + j * k;
        // sometimes beside the column
        let e = if off && l > 4 { rnd(-2, 2) } else { 0 };
        let f = |v: i64| (v + e).clamp(x0, x0 + cols * l);
        cs.push(match rnd(0, 5) {
            0 | 1 => vec![(x(i), y(a)), (x(j), y(a)), (x(j), y(b)), (x(i), y(b))],
            2 => vec![(f(x(i)), y(a)), (x(j), y(m)), (f(x(i)), y(b))],
            3 => vec![(x(i), y(m)), (f(x(j)), y(a)), (f(x(j)), y(b))],
            4 => vec![(x(i), y(a)), (x(j), y(b)), (x(rnd(i, j)), y(m))],
            _ => vec![(x(i), y(a)), (x(j), y(m)), (x(j), y(m + 1)), (x(i), y(b))],
        });
    }
    let m = s.usize(0, n / 2);
    let clip = cs.split_off(n - m);
    let mut solver = gen_solver_prog(s);
    if s.chance(3, 4) { solver.strategy = i_overlay::core::solver::Strategy::Frag; }
    let fill = *s.pick(&FILLS);
    let (is, ic) = (to_ints(&cs), to_ints(&clip));
    cx.desc(|| if n < 14 { format!("subject {} clip {} {:?} {}", show_i(&is), show_i(&ic), fill, show_solver(&solver)) } else { format!("{} + {} polygons on {} columns of {} from {}, {:?} {}", cs.len(), clip.len(), cols, l, x0, fill, show_solver(&solver)) });
    let sep = build(&is, &ic).into_separate_vectors(fill, solver);
    let ed: Vec<(Pt, Pt)> = sep.iter().map(|e| (pt(&e.a), pt(&e.b))).collect();
    cx.nontrivial(ed.len() > 8);
    cx.label_if(ed.len() > 100, "more than 100 edges");
    if let Some((i, j, m)) = first_conflict(&ed, true) { return Err(format!("edges {:?} and {:?} were not split where they meet: {:?}", ed[i], ed[j], m)); }
    Ok(())
}
pub fn property() -> Property {
    Property { id: "C18", components: vec![
        Component { name: "pinwheel", quick: 400_000, thorough: 20_000_000, rule: "up to 12 triangles around one node at extents 5..2^30 with nearly equal and opposite directions: each comes back as a shape of its own, and a rectangle without them has exactly their edges; non-trivial: two or more", run: pinwheel },
        Component { name: "pile", quick: 300_000, thorough: 15_000_000, rule: "up to 20 flat, nearly parallel, disjoint triangles: returned as they are, and as holes of one frame; non-trivial: two or more", run: pile },
        Component { name: "columns", quick: 150_000, thorough: 8_000_000, rule: "2-80 rectangles, tips and triangles on columns of 2^0..2^24 units, mostly with the fragment strategy: no two of the separate edges cross, overlap or touch between their ends; non-trivial: more than 8 edges", run: columns },
        Component { name: "arrangement", quick: 2_500, thorough: 200_000, rule: "2-40 + 0-20 polygons of any size, mostly with the tree and fragment strategies: every crossing alone within 64 units is a vertex of the separate vectors; non-trivial: there is one", run: c17::many },
    ] }
}
