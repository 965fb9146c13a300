use super::c10::Fl;
use super::c13::*;
use crate::gen;
use crate::lat::*;
use crate::offset::*;
use crate::structure::edges_of;
use crate::util::*;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay::ContourDirection;
use i_overlay::core::overlay_rule::OverlayRule;
use i_overlay::core::solver::Solver;
use i_overlay::float::filter::ContourFilter;
use i_overlay::mesh::outline::offset::OutlineOffset;
use i_overlay::mesh::style::OutlineStyle;
use kit::geo::{area2, first_conflict, Pt};
use kit::{ensure, Component, Ctx, Property, Src};
use std::f64::consts::PI;

fn star(s: &mut Src, c: Pt, r: f64) -> Vec<Pt> {
    let n = s.usize(3, 12);
    let ph = s.unit() * 2.0 * PI;
    let deep = 0.1 + 0.9 * s.unit();
    (0..n).map(|i| {
        let a = ph + 2.0 * PI * (i as f64 + 0.7 * s.unit()) / n as f64;
        let q = r * (deep + (1.0 - deep) * s.unit());
        ((c.0 as f64 + q * a.cos()).round() as i64, (c.1 as f64 + q * a.sin()).round() as i64)
    }).collect()
}
/// A contour can touch itself in a vertex so that its loops wind in opposite ways (rounding pinches small stars): no valid polygon
fn winds_one_way(c: &[Pt]) -> bool {
    let f: Vec<V> = c.iter().map(|p| [p.0 as f64, p.1 as f64]).collect();
    let sign = if area2(c) > 0 { 1 } else { -1 };
    (0..f.len()).all(|i| {
        let (a, b) = (f[i], f[(i + 1) % f.len()]);
        let l = len(sub(b, a));
        if l == 0.0 { return true; }
        let (m, t) = (mul(add(a, b), 0.5), mul(left(sub(b, a)), 0.01 / (l * l)));
        [add(m, t), sub(m, t)].iter().all(|&p| { let w = kit::geo::winding_f(&f, p); w == 0 || w == sign })
    })
}
/// polygons with holes: contours in any order, outer ones counterclockwise, holes clockwise; none cross
fn gen_polygon(s: &mut Src, e: i64) -> Option<Vec<Vec<Pt>>> {
    let mut cs: Vec<Vec<Pt>> = match s.weighted(&[3, 3, 3, 3, 3, 1]) {
        5 => {
            // a needle: the two directions at its tip are opposite but for rounding
            let (x, y) = (s.range(e / 2, e), s.zrange(-e, e));
            let h = s.range(1, 3);
            let d = if x > y.abs() { (0, h) } else { (-h, 0) };
            vec![vec![(0, 0), (x, y), d]]
        }
        0 => vec![star(s, (0, 0), e as f64)],
        1 => { let mut v = vec![star(s, (0, 0), e as f64)]; let k = 0.1 + 0.6 * s.unit(); let mut h = star(s, (0, 0), e as f64 * k); h.reverse(); v.push(h); v }
        2 => {
            // the union of random contours
            let (a, b) = gen::gen_pair(s, e.min(300), 3);
            flat(&overlay(&to_ints(&a), &to_ints(&b), OverlayRule::Xor, FillRule::EvenOdd, CCW, true, 0, Solver::AUTO))
        }
        3 => {
            let g = s.range(2, 7) as i32;
            let c = gen_contours(s, g, g, 1, 4);
            let k = (e / (2 * g as i64)).max(1);
            let q = Affine { a: k, b: if s.chance(1, 4) { k / 3 } else { 0 }, c: 0, d: k, tx: 0, ty: 0 };
            flat(&overlay(&q.contours(&c), &[], OverlayRule::Subject, *s.pick(&FILLS), CCW, true, 0, Solver::AUTO))
        }
        _ => {
            // a folded band: zigzag, comb or staircase of some thickness
            let n = s.usize(2, 7);
            let th = s.range(1, e / 3 + 1);
            let mut up = vec![];
            let mut x = -e;
            for i in 0..n { up.push((x, if i % 2 == 0 { 0 } else { s.zrange(-e, e) })); x += s.range(1, 2 * e / n as i64 + 1); if s.bool() { let y = up[up.len() - 1].1; up.push((x, y)); x += 1; } }
            let mut c: Vec<Pt> = up.iter().map(|p| (p.0, p.1 - th)).collect();
            c.extend(up.iter().rev());
            vec![c]
        }
    };
    for c in cs.iter_mut() { c.dedup(); while c.len() > 1 && c[0] == c[c.len() - 1] { c.pop(); } }
    cs.retain(|c| c.len() >= 3 && area2(c) != 0);
    let n: usize = cs.iter().map(|c| c.len()).sum();
    if cs.is_empty() || n > 60 || first_conflict(&edges_of(&cs), true).is_some() || !cs.iter().all(|c| winds_one_way(c)) { return None; }
    // further points on straight edges, repeated points, another start, another order of the contours
    for c in cs.iter_mut() {
        if s.chance(1, 4) {
            let i = s.usize(0, c.len() - 1);
            let (a, b) = (c[i], c[(i + 1) % c.len()]);
            let m = ((a.0 + b.0) / 2, (a.1 + b.1) / 2);
            if (a.0 + b.0) % 2 == 0 && (a.1 + b.1) % 2 == 0 && m != a && m != b { c.insert(i + 1, m); } else { c.insert(i, a); }
        }
        let k = s.usize(0, c.len() - 1);
        c.rotate_left(k);
    }
    if s.bool() { s.shuffle(&mut cs); }
    Some(cs)
}
fn gen_offset(s: &mut Src, e: i64) -> f64 {
    let m = match s.raw(5) { 0 => 0.0, 1 => s.range(1, e) as f64, 2 => e as f64 * 0.3 * s.unit(), 3 => e as f64 * 10f64.powf(s.unit() * 3.0 - 2.5), _ => e as f64 * 0.05 * s.unit() };
    if s.bool() { m } else { -m }
}
struct Case<T: Fl> { cs: Vec<C<T>>, outer: T, inner: T, join: Join, dir: ContourDirection, clean: bool }
impl<T: Fl> Case<T> {
    fn gen(s: &mut Src) -> Option<Case<T>> {
        let e = *s.pick(&[8i64, 40, 300, 2000, 40_000]);
        let cs = gen_polygon(s, e)?;
        let u = Units::gen::<T>(s, e);
        let a = gen_offset(s, e);
        let b = if s.bool() { a } else { gen_offset(s, e) };
        let join = gen_join(s);
        let c = Case { cs: cs.iter().map(|c| c.iter().map(|&p| u.pt(p)).collect()).collect(), outer: T::of(u.len(a)), inner: T::of(u.len(b)), join, dir: if s.bool() { CCW } else { CW }, clean: s.bool() };
        // spikes too sharp for the number type to tell their side
        let lim = if T::F32 { 1e-5 } else { 1e-12 };
        for p in &c.cs {
            let p: Vec<V> = { let mut v = vs(p); v.dedup(); v };
            let n = p.len();
            for i in 0..n {
                let (d0, d1) = (sub(p[(i + 1) % n], p[i]), sub(p[(i + 2) % n], p[(i + 1) % n]));
                if len(d0) == 0.0 || len(d1) == 0.0 { continue; }
                let (d0, d1) = (unit(d0), unit(d1));
                if dot(d0, d1) < 0.0 && crs(d0, d1).abs() < lim { return None; }
            }
        }
        Some(c)
    }
    fn filter(&self) -> ContourFilter<T> { ContourFilter { min_area: T::of(0.0), simplify_contour: false, clean_result: self.clean } }
    fn run(&self, style_kind: u64) -> Sh<T> {
        let j = line_join(self.join);
        let style = match style_kind {
            0 => OutlineStyle { outer_offset: self.outer, inner_offset: self.inner, join: j },
            1 => OutlineStyle::new(self.outer).inner_offset(self.inner).line_join(j),
            _ => OutlineStyle::default().offset(self.inner).outer_offset(self.outer).line_join(j),
        };
        self.cs.outline_custom(style, self.dir, self.filter())
    }
    fn show(&self) -> String { format!("{} contours {:?} outer {:?} inner {:?} {:?} {:?} clean {}", std::any::type_name::<T>(), self.cs, self.outer, self.inner, self.join, self.dir, self.clean) }
    /// outer contours and holes, each moved
    fn model(&self) -> (Vec<(Offset, bool)>, Env) {
        let k = match self.join { Join::Miter(a) => 1.2 / (0.5 * a.clamp(0.01 * PI, 0.99 * PI)).sin(), _ => 1.2 };
        let ext = k * (self.outer.f().abs() + self.inner.f().abs());
        let pts: Vec<V> = self.cs.iter().flatten().map(v).collect();
        let e = env::<T>(&pts, ext);
        let m = self.cs.iter().map(|c| {
            let mut p = vs(c);
            if kit::geo::area_f(&p) > 0.0 { (Offset::new(&e, &p, self.outer.f(), self.join), false) } else { p.reverse(); (Offset::new(&e, &p, -self.inner.f(), self.join), true) }
        }).collect();
        (m, e)
    }
}
/// covered by more outer contours than holes
fn decide(m: &[(Offset, bool)], p: V) -> Option<bool> {
    let mut n = 0;
    for (o, hole) in m { if o.at(p)? { n += if *hole { -1 } else { 1 }; } }
    Some(n > 0)
}
fn distance<T: Fl>(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let Some(c) = Case::<T>::gen(s) else { cx.label("discarded"); return Ok(()); };
    let kind = s.raw(3);
    cx.desc(|| c.show());
    let (m, e) = c.model();
    let o = c.run(kind);
    let out = flatf(&o);
    let prims: Vec<&Prim> = m.iter().flat_map(|x| x.0.prims.iter().chain(std::iter::once(&x.0.body))).collect();
    let bb = bbox(&prims.iter().flat_map(|p| p.inner.iter()).copied().collect::<Vec<V>>());
    let single_hole = m.len() == 1 && m[0].1;
    cx.label_if(c.cs.len() > 1, "several contours");
    cx.label_if(m.iter().any(|x| x.1), "hole");
    cx.label_if(c.outer.f() > 0.0, "outer grows");
    cx.label_if(c.outer.f() < 0.0, "outer shrinks");
    cx.label_if(c.outer.f() == 0.0, "zero");
    cx.nontrivial(c.outer.f() != 0.0 || c.inner.f() != 0.0);
    check_dirs(&o, c.dir, 64.0 * e.grid * (bb[2] - bb[0] + bb[3] - bb[1]), 64.0 * e.grid)?;
    let (mut ins, mut outs) = (0, 0);
    for _ in 0..60 {
        let p = probe(s, &prims, bb, e.grid);
        let want = match decide(&m, p) { Some(w) => w && !single_hole, None => continue };
        let w = out_winding::<T>(&out, c.dir, p);
        if want { ins += 1; ensure!(w == 1, "{:?} belongs to the outline, the result {:?} winds {} times around it", p, o, w); }
        else { outs += 1; ensure!(w == 0, "{:?} does not belong to the outline, the result {:?} winds {} times around it", p, o, w); }
    }
    cx.label_if(ins > 0 && outs > 0, "points on both sides");
    Ok(())
}
fn distance_f64(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { distance::<f64>(s, cx) }
fn distance_f32(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { distance::<f32>(s, cx) }
/// rectilinear polygons: the moved boundary is known exactly
fn lattice(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let big = s.chance(1, 150);
    let g = if big { s.range(30, 80) } else { s.range(2, 9) } as i32;
    let m = 5;
    let (w, h) = (g + 2 * m, g + 2 * m);
    // the region of a few rectangles, drawn as the contours of its boundary
    let rects: Vec<LPath> = (0..if big { s.usize(100, 700) } else { s.usize(1, 4) }).map(|_| { let a = rpt(s, g, g); let b = if big { ((a.0 + 2 * s.range(1, 6) as i32).min(2 * g), (a.1 + 2 * s.range(1, 6) as i32).min(2 * g)) } else { rpt(s, g, g) }; let o = 2 * m; vec![(a.0 + o, a.1 + o), (b.0 + o, a.1 + o), (b.0 + o, b.1 + o), (a.0 + o, b.1 + o)] }).collect();
    let id = Affine { a: 1, b: 0, c: 0, d: 1, tx: 0, ty: 0 };
    let mut cs: Vec<LPath> = overlay(&id.contours(&rects), &[], OverlayRule::Subject, FillRule::EvenOdd, CCW, true, 0, Solver::AUTO).iter().flatten().map(|c| c.iter().map(|p| (p.x, p.y)).collect()).collect();
    if cs.is_empty() { cx.label("discarded"); return Ok(()); }
    if s.chance(1, 100) { let i = s.usize(0, cs.len() - 1); let c = cs[i].clone(); for _ in 0..s.usize(1, 300) { cs.push(c.clone()); } }
    s.shuffle(&mut cs);
    for c in cs.iter_mut() { let k = s.usize(0, c.len() - 1); c.rotate_left(k); if s.chance(1, 5) { let p = c[0]; c.push(p); } }
    let outer = s.zrange(-3, 3) as i32;
    let inner = if s.bool() { outer } else { s.zrange(-3, 3) as i32 };
    let miter = s.bool();
    let join = if miter { Join::Miter(0.05 + 1.45 * s.unit()) } else { Join::Bevel };
    let dir = if s.bool() { CCW } else { CW };
    let cn = Centred::new(s, cs.iter().flatten());
    let kind = s.raw(3);
    cx.label_if(big, "many contours");
    cx.desc(|| format!("lattice contours {:?} (times {}) outer {} inner {} {:?} {:?}", cs, cn.u, 2 * outer, 2 * inner, join, dir));
    let mut sum = vec![[0i32; 4]; (w * h) as usize];
    for c in &cs {
        let hole = area2l(c) < 0;
        let p = { let mut p = c.clone(); p.dedup(); while p.len() > 1 && p[0] == p[p.len() - 1] { p.pop(); } ccw(p) };
        let k = 2 * if hole { -inner } else { outer };
        let (grow, r) = (k > 0, k.abs());
        let n = p.len();
        let mut loops = vec![];
        if r > 0 { for i in 0..n {
            let (a, b, c) = (p[i], p[(i + 1) % n], p[(i + 2) % n]);
            let d = ldir(a, b);
            let t = if grow { lm((d.1, -d.0), r) } else { lm((-d.1, d.0), r) };
            loops.push(ccw(vec![a, b, la(b, t), la(a, t)]));
            if let Some((l, left)) = lwedge(b, d, ldir(b, c), r, miter) { if left == grow { loops.push(l); } }
        } }
        let body = Field::from_contours(w, h, std::slice::from_ref(&p)).windings();
        let add = Field::from_contours(w, h, &loops).windings();
        for i in 0..sum.len() { for q in 0..4 {
            let x = if grow { body[i][q] > 0 || add[i][q] > 0 } else { body[i][q] > 0 && add[i][q] == 0 };
            if x { sum[i][q] += if hole { -1 } else { 1 }; }
        } }
    }
    let single_hole = cs.len() == 1 && area2l(&cs[0]) < 0;
    let want: Fill = sum.iter().map(|t| std::array::from_fn(|q| t[q] > 0 && !single_hole)).collect();
    let input: Vec<C<f64>> = cs.iter().map(|p| p.iter().map(|&q| cn.pt(q)).collect()).collect();
    let (o, i, j) = (2.0 * outer as f64 * cn.u, 2.0 * inner as f64 * cn.u, line_join(join));
    let style = match kind { 0 => OutlineStyle { outer_offset: o, inner_offset: i, join: j }, 1 => OutlineStyle::new(o).inner_offset(i).line_join(j), _ => OutlineStyle::default().offset(i).outer_offset(o).line_join(j) };
    let out = input.outline_custom(style, dir, Default::default());
    cx.nontrivial(count(&want) > 0 && (outer, inner) != (0, 0));
    cx.label_if(cs.len() > 1, "several contours");
    cx.label_if((outer, inner) == (0, 0), "zero");
    cx.label_if(count(&want) == 0, "nothing left");
    let shapes = cn.back(&out).map_err(|m| format!("{}; output {:?}", m, out))?;
    check_boundary(w, h, &shapes, &want, dir == CCW).map_err(|m| format!("{}; output {:?}", m, shapes))?;
    let (lab, n) = components(w as usize, h as usize, &want, None);
    check_shapes(w, h, &shapes, &lab, n, dir == CCW)
}
/// defaults, direction, minimal area
fn options<T: Fl>(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let Some(mut c) = Case::<T>::gen(s) else { cx.label("discarded"); return Ok(()); };
    c.clean = false;
    let k = s.raw(3);
    cx.desc(|| format!("{} check {}", c.show(), k));
    let style = || OutlineStyle { outer_offset: c.outer, inner_offset: c.inner, join: line_join(c.join) };
    let o = c.run(0);
    cx.nontrivial(!o.is_empty());
    match k {
        0 => {
            ensure!(c.cs.outline(style()) == c.cs.outline_custom(style(), CCW, Default::default()), "outline differs from outline_custom with its documented defaults");
            let (a, b) = (OutlineStyle::<T>::default(), OutlineStyle::new(T::of(1.0)));
            ensure!(c.cs.outline(a) == c.cs.outline(b), "OutlineStyle::default() is not an offset of one");
        }
        1 => {
            // shapes given separately
            let nested: Vec<Vec<C<T>>> = c.cs.iter().map(|x| vec![x.clone()]).collect();
            ensure!(nested.outline_custom(style(), c.dir, c.filter()) == o, "contours given as separate shapes give another outline");
        }
        _ => {
            if o.is_empty() { return Ok(()); }
            let areas: Vec<f64> = o.iter().flatten().map(|x| kit::geo::area_f(&vs(x)).abs()).collect();
            let min = s.pick(&areas) * if s.bool() { 0.9 } else { 1.1 };
            let (_, e) = c.model();
            // the library measures on its grid, here the rounded output is measured
            let slack = |x: &C<T>| 8.0 * e.grid * (1.0 + (0..x.len()).map(|i| len(sub(v(&x[i]), v(&x[(i + 1) % x.len()])))).sum::<f64>());
            if o.iter().flatten().any(|x| (kit::geo::area_f(&vs(x)).abs() - min).abs() <= slack(x) + 1e-5 * min) { cx.label("too close"); return Ok(()); }
            let f = ContourFilter { min_area: T::of(min), simplify_contour: false, clean_result: false };
            let got = c.cs.outline_custom(style(), c.dir, f);
            let keep = |x: &C<T>| kit::geo::area_f(&vs(x)).abs() >= min;
            let want: Sh<T> = o.iter().filter(|sh| keep(&sh[0])).map(|sh| sh.iter().filter(|x| keep(x)).cloned().collect()).collect();
            cx.label_if(want != o, "minimal area drops a contour");
            ensure!(got == want, "min_area {}: got {:?}, the full result is {:?}", min, got, o);
        }
    }
    Ok(())
}
fn options_f64(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { options::<f64>(s, cx) }
fn options_f32(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { options::<f32>(s, cx) }
pub fn property() -> Property {
    Property { id: "C12", components: vec![
        Component { name: "distance_f64", quick: 300_000, thorough: 1_500_000, rule: "polygons with holes (stars, rings, results of random overlays, rectilinear regions, folded bands; straight and repeated points), outer and inner offsets of both signs and from tiny to larger than the polygon, every join, in f64; 60 points around the moved edges and corners and anywhere, each decided by distance and the definition of the joins; non-trivial: some offset is not zero", run: distance_f64 },
        Component { name: "distance_f32", quick: 200_000, thorough: 1_500_000, rule: "the same in f32", run: distance_f32 },
        Component { name: "lattice", quick: 250_000, thorough: 3_000_000, rule: "rectilinear polygons with holes, offsets of both signs in lattice units, miter or bevel joins: exact boundary, shapes, holes and directions; offset zero reproduces the polygon; non-trivial: something is left of a polygon that moved", run: lattice },
        Component { name: "options_f64", quick: 100_000, thorough: 600_000, rule: "documented defaults, contours as shapes, minimal area (contours kept exactly when large enough); non-trivial: result not empty", run: options_f64 },
        Component { name: "options_f32", quick: 60_000, thorough: 600_000, rule: "the same in f32", run: options_f32 },
    ] }
}
