use crate::common::*;
use crate::lat::*;
use crate::util::*;
use i_overlay::core::divide::ContourDecomposition;
use i_overlay::i_shape::int::shape::IntContour;
use kit::geo::*;
use kit::{ensure, Component, Ctx, Property, Rng, Src};
use std::collections::HashMap;

fn edges(cs: &[Vec<Pt>]) -> HashMap<(Pt, Pt), i32> {
    let mut m = HashMap::new();
    for c in cs { for i in 0..c.len() { *m.entry((c[i], c[(i + 1) % c.len()])).or_insert(0) += 1; } }
    m
}
fn check(c: &IntContour, cx: &mut Ctx) -> Result<(), String> {
    let p = to_pts(c);
    let mut seen = HashMap::new();
    for q in &p { *seen.entry(*q).or_insert(0) += 1; }
    let rep = seen.values().filter(|&&n| n > 1).count();
    cx.nontrivial(rep > 0 && p.len() > 3);
    let got = c.decompose_contours();
    if rep == 0 || p.len() < 3 {
        // None is "as is"
        ensure!(got.is_none(), "a contour without repeated vertices is split into {}", show_i(&got.unwrap()));
        cx.label("no repeated vertex");
        return Ok(());
    }
    let out = match got { Some(o) => o, None => return Err(format!("the contour visits {} vertices more than once but is not split", rep)) };
    let parts: Vec<Vec<Pt>> = out.iter().map(|c| to_pts(c)).collect();
    for q in &parts {
        ensure!(!q.is_empty(), "an empty contour in {}", show_i(&out));
        let s: std::collections::HashSet<_> = q.iter().collect();
        ensure!(s.len() == q.len(), "contour {:?} visits a vertex twice; decomposition {}", q, show_i(&out));
    }
    let (a, b) = (edges(std::slice::from_ref(&p)), edges(&parts));
    ensure!(a == b, "edges differ: decomposition {}", show_i(&out));
    let (x, y): (i128, i128) = (area2(&p), parts.iter().map(|q| area2(q)).sum());
    ensure!(x == y, "signed area {} became {}", x, y);
    cx.label_if(parts.len() > 2, "three or more loops");
    for q in &out { ensure!(q.decompose_contours().is_none(), "decomposing a part again splits it: {}", show_i(&out)); }
    Ok(())
}
fn walk(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    // any sequence over few points, no zero-length edge
    let k = s.range(2, 9);
    let n = s.usize(3, 24);
    let e = *s.pick(&[3i64, 100, MAXC - 1]);
    let names: Vec<Pt> = { let mut v: Vec<Pt> = vec![]; while (v.len() as i64) < k { let p = (s.zrange(-e, e), s.zrange(-e, e)); if !v.contains(&p) { v.push(p); } else { v.push((v.len() as i64 + e + 1, 0)); } } v };
    let mut c: Vec<Pt> = vec![];
    for _ in 0..n { let p = *s.pick(&names); if c.last() != Some(&p) { c.push(p); } }
    while c.len() > 1 && c.first() == c.last() { c.pop(); }
    let c = to_int(&c);
    cx.desc(|| show_i(std::slice::from_ref(&c)));
    check(&c, cx)
}
fn results(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    // contours the library itself returns
    let c = LatCase::sized(s, 8, 5);
    let (fill, rule, solver) = (*s.pick(&FILLS), *s.pick(&RULES), gen_solver(s));
    let dir = if s.bool() { CCW } else { CW };
    let out = overlay(&c.is, &c.ic, rule, fill, dir, s.bool(), 0, solver);
    let all: Vec<&IntContour> = out.iter().flatten().collect();
    if all.is_empty() { cx.desc(|| format!("{} gives nothing", c.show())); return Ok(()); }
    // one that touches itself when there is any
    let rep: Vec<&IntContour> = all.iter().copied().filter(|c| { let mut v = to_pts(c); v.sort(); v.windows(2).any(|w| w[0] == w[1]) }).collect();
    let pool = if rep.is_empty() || s.chance(1, 8) { &all } else { &rep };
    let k = s.usize(0, pool.len() - 1);
    let mut t = pool[k].clone();
    let r = s.usize(0, t.len() - 1);
    t.rotate_left(r);
    cx.desc(|| format!("contour {} of a result", show_i(std::slice::from_ref(&t))));
    check(&t, cx)
}
fn long(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let mut r = Rng::new(s.raw(1 << 60));
    let n = s.usize(100, 3000);
    let g = s.range(3, 60) as u64;
    let mut c: Vec<Pt> = vec![];
    for _ in 0..n { let p = ((r.next() % g) as i64, (r.next() % g) as i64); if c.last() != Some(&p) { c.push(p); } }
    while c.len() > 1 && c.first() == c.last() { c.pop(); }
    cx.desc(|| format!("{} points on a {}x{} grid", c.len(), g, g));
    check(&to_int(&c), cx)
}
pub fn property() -> Property {
    Property { id: "C16", components: vec![
        Component { name: "walk", quick: 2_000_000, thorough: 30_000_000, rule: "closed walks over 2 to 9 points in any order (nested, crosswise, repeated edges), no zero-length edge: no part repeats a vertex, directed edges and area equal, None only when no vertex repeats; non-trivial: a vertex repeats", run: walk },
        Component { name: "results", quick: 500_000, thorough: 6_000_000, rule: "contours of overlay results, at any rotation; non-trivial: a vertex repeats", run: results },
        Component { name: "long", quick: 2_000, thorough: 40_000, rule: "walks of 100 to 3000 points; non-trivial: a vertex repeats", run: long },
    ] }
}
