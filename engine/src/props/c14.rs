use super::c07::gen_strings;
use super::c10::Fl;
use super::c13::{bbox, env, flatf, gen_join, gen_path, line_cap, line_join, C, Sh};
use crate::common::*;
use crate::gen;
use crate::lat::*;
use crate::offset::{dist, Cap, Join};
use crate::util::*;
use i_overlay::core::divide::ContourDecomposition;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay::{ContourDirection, Overlay, ShapeType};
use i_overlay::core::simplify::Simplify;
use i_overlay::core::solver::Solver;
use i_overlay::float::clip::FloatClip;
use i_overlay::float::filter::ContourFilter;
use i_overlay::float::overlay::FloatOverlay;
use i_overlay::float::simplify::SimplifyShape;
use i_overlay::float::single::SingleFloatOverlay;
use i_overlay::float::slice::FloatSlice;
use i_overlay::float::string_overlay::FloatStringOverlay;
use i_overlay::i_float::int::point::IntPoint;
use i_overlay::i_shape::int::shape::{IntContour, IntShapes};
use i_overlay::mesh::outline::offset::OutlineOffset;
use i_overlay::mesh::stroke::offset::StrokeOffset;
use i_overlay::mesh::style::{LineCap, OutlineStyle, StrokeStyle};
use i_overlay::string::clip::{ClipRule, IntClip};
use i_overlay::string::overlay::StringOverlay;
use i_overlay::string::rule::StringRule;
use i_overlay::string::slice::IntSlice;
use i_overlay::vector::edge::ToPath;
use kit::geo::Pt;
use kit::{ensure, Component, Ctx, Property, Src};

/// points and contours without area, or without points, near the others or at the ends of the range
fn junk(s: &mut Src, e: i64, near: &[Vec<Pt>]) -> Vec<Pt> {
    let pool: Vec<Pt> = near.iter().flatten().copied().collect();
    let mut p = |s: &mut Src| if pool.is_empty() || s.chance(1, 3) { gen::rp(s, e) } else { let q = *s.pick(&pool); if s.chance(1, 4) { ((q.0 + s.zrange(-1, 1)).clamp(-e, e), (q.1 + s.zrange(-1, 1)).clamp(-e, e)) } else { q } };
    let (a, b, c) = (p(s), p(s), p(s));
    match s.raw(10) {
        0 => vec![],
        1 => vec![a],
        2 => vec![a, b],
        3 => vec![a; s.usize(2, 5)],
        4 => vec![a, b, a],
        5 => vec![a, b, b, a, a],
        6 => vec![a, b, c, b],
        7 => { let x = b.0; vec![(x, a.1), (x, c.1), (x, b.1)] }
        8 => vec![a, (a.0, c.1), a, (b.0, a.1)],
        _ => vec![a, a, b, b, c, c, a],
    }
}
fn limit(s: &mut Src, c: &mut [Vec<Pt>], e: i64) {
    // whole contours pushed to the limits, or single coordinates
    for p in c.iter_mut().flatten() {
        if s.chance(1, 6) { p.0 = if p.0 < 0 { -e } else { e }; }
        if s.chance(1, 6) { p.1 = if p.1 < 0 { -e } else { e }; }
    }
}
fn messy(s: &mut Src, max: usize) -> (i64, Vec<Vec<Pt>>, Vec<Vec<Pt>>) {
    let e = gen::gen_extent(s);
    let (mut a, mut b) = gen::gen_pair(s, e, max);
    if s.chance(1, 6) { a.clear(); }
    if s.chance(1, 4) { limit(s, &mut a, e); limit(s, &mut b, e); }
    for _ in 0..s.small(0, 4) {
        let all: Vec<Vec<Pt>> = a.iter().chain(&b).cloned().collect();
        let j = junk(s, e, &all);
        let v = if s.bool() { &mut a } else { &mut b };
        let k = s.usize(0, v.len());
        v.insert(k, j);
    }
    // repeated points inside contours
    for c in a.iter_mut().chain(b.iter_mut()) { if !c.is_empty() && s.chance(1, 4) { let k = s.usize(0, c.len() - 1); let p = c[k]; for _ in 0..s.usize(1, 3) { c.insert(k, p); } } }
    (e, a, b)
}
fn look(o: &IntShapes) -> Result<(), String> {
    for sh in o { ensure!(!sh.is_empty(), "a shape without contours"); for c in sh { ensure!(c.len() >= 3, "a contour of {} points", c.len()); } }
    Ok(())
}
fn lookf<T: Fl>(o: &Sh<T>) -> Result<(), String> {
    for sh in o { ensure!(!sh.is_empty(), "a shape without contours"); for c in sh { ensure!(c.len() >= 3, "a contour of {} points", c.len()); for p in c { ensure!(p[0].f().is_finite() && p[1].f().is_finite(), "a point {:?}", p); } } }
    Ok(())
}
fn gen_min(s: &mut Src) -> usize { match s.raw(4) { 0 => 0, 1 => 1, 2 => 1 << s.range(0, 62), _ => usize::MAX } }
fn int_run(s: &mut Src, cx: &mut Ctx, a: &[IntContour], b: &[IntContour], solver: Solver) -> Result<(), String> {
    let fill = *s.pick(&FILLS);
    let rule = *s.pick(&RULES);
    let dir = if s.bool() { CCW } else { CW };
    let (simp, min) = (s.bool(), gen_min(s));
    let clip = ClipRule { invert: s.bool(), boundary_included: s.bool() };
    let op = s.raw(8);
    cx.desc(|| format!("op {} {:?} {:?} {:?} simplify {} min {} {:?} {}", op, fill, rule, dir, simp, min, clip, show_solver(&solver)));
    let strings = |a: &[IntContour], b: &[IntContour]| { let mut o = StringOverlay::with_shape_contours(a); o.add_string_contours(b); o.add_string_paths(&b.to_vec()); o };
    match op {
        0 => look(&overlay(a, b, rule, fill, dir, simp, min, solver))?,
        1 => { let g = build(a, b).into_graph_with_solver(fill, solver); g.validate(); for r in RULES { look(&g.extract_shapes_custom(r, dir, simp, min))?; g.extract_shape_vectors(r); } g.extract_separate_vectors(); }
        2 => { for v in build(a, b).into_shape_vectors(fill, rule, solver) { for c in v { c.to_path(); } } build(a, b).into_separate_vectors(fill, solver); }
        3 => { let g = strings(a, b).into_graph_with_solver(fill, solver); look(&g.extract_shapes(StringRule::Slice))?; look(&g.extract_shapes_custom(StringRule::Slice, dir, min))?; }
        4 => { for p in strings(a, b).clip_string_lines_with_solver(fill, clip, solver) { ensure!(p.len() >= 2, "a clipped path of {} points", p.len()); } }
        5 => { look(&a.simplify(fill, dir, simp, min))?; for c in a.iter().take(6) { look(&c.simplify(fill, dir, simp, min))?; } }
        6 => {
            let shape = a.to_vec();
            look(&IntSlice::slice_by_paths(&shape, b, fill))?;
            for p in b.iter().take(6) { look(&shape.slice_by_path(p, fill))?; shape.clip_path(p, fill, clip); if p.len() >= 2 { shape.slice_by_line([p[0], p[1]], fill); shape.clip_line([p[0], p[1]], fill, clip); } }
            IntClip::clip_paths(&shape, b, fill, clip);
        }
        _ => {
            for c in a.iter().chain(b) { c.decompose_contours(); }
            let r = overlay(a, b, rule, fill, dir, simp, min, solver);
            for c in r.iter().flatten() { c.decompose_contours(); }
            look(&r.simplify(fill, dir, simp, min))?;
        }
    }
    Ok(())
}
fn int_ops(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let (_, a, b) = messy(s, 4);
    let (a, b) = (to_ints(&a), to_ints(&b));
    cx.desc(|| format!("{} and {}", show_i(&a), show_i(&b)));
    cx.nontrivial(a.iter().chain(&b).any(|c| c.len() > 2));
    cx.label_if(a.iter().chain(&b).flatten().any(|p| p.x.unsigned_abs().max(p.y.unsigned_abs()) >= (MAXC - 1) as u32), "at the limits");
    let solver = gen_solver_prog(s);
    int_run(s, cx, &a, &b, solver)
}
fn int_clouds(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = GenCase::cloud(s, 20, 400);
    let mut a = c.is.clone();
    for _ in 0..s.small(0, 6) { let j = junk(s, c.e, &c.subj[..3]); let k = s.usize(0, a.len()); a.insert(k, to_int(&j)); }
    cx.desc(|| c.show());
    cx.nontrivial(true);
    let solver = gen_solver_big(s);
    int_run(s, cx, &a, &c.ic, solver)
}
/// dozens of segments as long as the range allows: the grid of the solver cuts each into many fragments
fn long_segments(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let e = if s.chance(1, 3) { gen::gen_extent(s) } else { MAXC - 1 };
    let style = s.raw(4);
    let mk = |s: &mut Src, n: usize| -> IntContour {
        let d = (e / n as i64).max(1);
        (0..n as i64).map(|i| {
            let side = if i % 2 == 0 { -e } else { e };
            let j = s.range(0, e / 8);
            let q = side - side.signum() * j;
            ip(match style {
                0 => gen::rp(s, e),
                // from side to side: flat, steep, or along the diagonals
                1 => (q, s.zrange(-e, e)),
                2 => (s.zrange(-e, e), q),
                _ => { let t = -e / 2 + i * d; if s.bool() { (q, (q + t).clamp(-e, e)) } else { (q, (t - q).clamp(-e, e)) } }
            })
        }).collect()
    };
    let max = if s.chance(1, 8) { 100 } else { 30 };
    let a: Vec<IntContour> = (0..s.usize(1, 2)).map(|_| { let n = s.usize(6, max); mk(s, n) }).collect();
    let b: Vec<IntContour> = (0..s.usize(0, 2)).map(|_| { let n = s.usize(3, 20); mk(s, n) }).collect();
    cx.desc(|| format!("{} and {}", show_i(&a), show_i(&b)));
    cx.nontrivial(a.iter().chain(&b).map(|c| c.len()).sum::<usize>() >= 16);
    let solver = gen_solver_big(s);
    int_run(s, cx, &a, &b, solver)
}
/// bundles: many edges along one or two lines, whose ends are rounded to the grid, so they meet at tiny angles
fn bundles(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let e = if s.chance(1, 3) { gen::gen_extent(s) } else { MAXC - 1 };
    let mut pts: Vec<Pt> = vec![];
    let big = s.chance(1, 6);
    for _ in 0..s.usize(1, 2) {
        let (p, q) = (gen::rp(s, e), gen::rp(s, e));
        let m = s.range(2, 1000);
        let j = s.range(0, 2);
        for _ in 0..s.usize(4, if big { 30 } else { 14 }) {
            let k = s.range(0, m);
            let t = ((q.0 - p.0) as i128 * k as i128 / m as i128, (q.1 - p.1) as i128 * k as i128 / m as i128);
            pts.push(((p.0 + t.0 as i64 + s.zrange(-j, j)).clamp(-e, e), (p.1 + t.1 as i64 + s.zrange(-j, j)).clamp(-e, e)));
        }
    }
    let max = if big { 10 } else { 8 };
    let mk = |s: &mut Src, lo: usize| -> Vec<IntContour> { (0..s.usize(lo, 4)).map(|_| (0..s.usize(3, max)).map(|_| ip(*s.pick(&pts))).collect()).collect() };
    let a = mk(s, 1);
    let b = mk(s, 0);
    cx.desc(|| format!("{} and {}", show_i(&a), show_i(&b)));
    cx.nontrivial(a.iter().chain(&b).map(|c| c.len()).sum::<usize>() >= 8);
    let solver = gen_solver_prog(s);
    int_run(s, cx, &a, &b, solver)
}
/// low pictures (the sweep structures change below a height of 32), most of it traced forth and back a unit apart,
/// so rounding makes much or all of it vanish
fn flat(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let h = s.range(0, 40);
    let w = *s.pick(&[3i64, 10, 40, 1000, 1_000_000, MAXC - 1]);
    let turn = s.chance(1, 4);
    let p = |s: &mut Src| -> Pt { let q = (s.zrange(-w, w), s.range(0, h) - h / 2); if turn { (q.1, q.0) } else { q } };
    let mk = |s: &mut Src, lo: usize| -> Vec<IntContour> {
        (0..s.usize(lo, 3)).map(|_| {
            let there: Vec<Pt> = (0..s.usize(1, 5)).map(|_| p(s)).collect();
            let mut c = there.clone();
            for q in there.iter().rev() { if !s.chance(1, 5) { c.push((q.0 + s.zrange(-1, 1), q.1 + s.zrange(-1, 1))); } }
            if s.chance(1, 4) { c.push(p(s)); }
            c.iter().map(|q| ip((q.0.clamp(-MAXC, MAXC), q.1.clamp(-MAXC, MAXC)))).collect()
        }).collect()
    };
    let a = mk(s, 1);
    let b = mk(s, 0);
    cx.desc(|| format!("{} and {}", show_i(&a), show_i(&b)));
    cx.nontrivial(a.iter().chain(&b).any(|c| c.len() > 2));
    let solver = gen_solver_prog(s);
    int_run(s, cx, &a, &b, solver)
}
/// pictures of a few units: everything rounds, and often all of it vanishes in the middle of an operation
fn tiny(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let (w, h) = (s.range(1, 8), s.range(1, 8));
    let mk = |s: &mut Src, lo: usize| -> Vec<IntContour> { (0..s.small(lo, 2)).map(|_| (0..s.usize(3, 7)).map(|_| ip((s.range(0, w), s.range(0, h)))).collect()).collect() };
    let a = mk(s, 1);
    let b = mk(s, 0);
    cx.desc(|| format!("{} and {}", show_i(&a), show_i(&b)));
    cx.nontrivial(true);
    let solver = gen_solver_prog(s);
    int_run(s, cx, &a, &b, solver)
}
/// few points shared by many edges: dense coincidences, every pattern of overlap
fn int_dense(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let k = s.usize(2, 9);
    let e = gen::gen_extent(s);
    let pts: Vec<Pt> = (0..k).map(|_| gen::rp(s, e)).collect();
    let mk = |s: &mut Src| -> Vec<IntContour> { (0..s.usize(0, 6)).map(|_| (0..s.usize(0, 9)).map(|_| ip(*s.pick(&pts))).collect()).collect() };
    let (a, b) = (mk(s), mk(s));
    cx.desc(|| format!("{} and {}", show_i(&a), show_i(&b)));
    cx.nontrivial(a.iter().chain(&b).any(|c| c.len() > 2));
    let solver = gen_solver_prog(s);
    int_run(s, cx, &a, &b, solver)
}
/// the precision that never widens the snap radius by itself, on contours that nearly coincide
fn fixed_radius(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let e = if s.bool() { s.range(10_000_000, MAXC - 1) } else { gen::gen_extent(s) };
    let mut v: Vec<Vec<Pt>> = vec![if s.bool() { gen::gen_random_poly(s, e) } else { gen::gen_star(s, e) }];
    let j = s.range(1, 3);
    let c: Vec<Pt> = v[0].iter().map(|p| ((p.0 + s.zrange(-j, j)).clamp(-e, e), (p.1 + s.zrange(-j, j)).clamp(-e, e))).collect();
    v.push(c);
    for _ in 0..s.usize(0, 3) { let c = match s.raw(3) { 0 => gen::gen_star(s, e), 1 => gen::gen_rect(s, e), _ => gen::gen_random_poly(s, e) }; v.push(c); }
    let k = s.usize(1, v.len());
    let b = to_ints(&v.split_off(k));
    let a = to_ints(&v);
    let (fill, rule, mut solver) = (*s.pick(&FILLS), *s.pick(&RULES), gen_solver(s));
    solver.precision = i_overlay::core::solver::Precision::ABSOLUTE;
    cx.desc(|| format!("{} and {} {:?} {:?} {}", show_i(&a), show_i(&b), fill, rule, show_solver(&solver)));
    cx.nontrivial(true);
    look(&overlay(&a, &b, rule, fill, CCW, s.bool(), 0, solver))
}
/// coordinates of the caller: scaled, shifted, of very different sizes, or all alike
fn floats<T: Fl>(s: &mut Src, v: &[Vec<Pt>], e: i64, m: &Mapping) -> Vec<C<T>> {
    let _ = e;
    v.iter().map(|c| c.iter().map(|p| [T::of(m.one(s, p.0 as f64, m.sx)), T::of(m.one(s, p.1 as f64, m.sy))]).collect()).collect()
}
struct Mapping { k: f64, sx: f64, sy: f64, wild: bool }
impl Mapping {
    fn gen<T: Fl>(s: &mut Src, e: i64) -> Mapping {
        let r = if T::F32 { 20 } else { 200 };
        let k = match s.raw(3) { 0 => 1.0, 1 => 2f64.powi(s.zrange(-r, r) as i32), _ => (0.5 + s.unit()) * 10f64.powi((s.zrange(-r, r) / 4) as i32) };
        let sh = |s: &mut Src| match s.raw(3) { 0 => 0.0, 1 => s.zrange(-e, e) as f64, _ => e as f64 * 10f64.powi(s.range(0, if T::F32 { 8 } else { 17 }) as i32) * (s.unit() - 0.5) };
        Mapping { k, sx: sh(s), sy: sh(s), wild: s.chance(1, 6) }
    }
    fn one(&self, s: &mut Src, x: f64, sh: f64) -> f64 { let y = (x + sh) * self.k; if self.wild { y * 2f64.powi(s.zrange(-30, 30) as i32) } else { y } }
}
fn gen_filter<T: Fl>(s: &mut Src, unit: f64) -> ContourFilter<T> {
    let a = match s.raw(4) { 0 => 0.0, 1 => unit * unit * s.unit(), 2 => unit * unit * 1e6, _ => unit * unit * 1e-6 };
    ContourFilter { min_area: T::of(if a.is_finite() { a } else { 0.0 }), simplify_contour: s.bool(), clean_result: s.bool() }
}
fn float_ops<T: Fl>(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let (e, a, b) = messy(s, 3);
    let m = Mapping::gen::<T>(s, e);
    let (a, b): (Vec<C<T>>, Vec<C<T>>) = (floats(s, &a, e, &m), floats(s, &b, e, &m));
    let (fill, rule, solver) = (*s.pick(&FILLS), *s.pick(&RULES), gen_solver_prog(s));
    let dir = if s.bool() { CCW } else { CW };
    let flt: ContourFilter<T> = gen_filter(s, e as f64 * m.k);
    let clip = ClipRule { invert: s.bool(), boundary_included: s.bool() };
    let op = s.raw(7);
    cx.desc(|| format!("op {} {:?} and {:?} {:?} {:?} {:?} min {:?} {} {} {:?} {}", op, a, b, fill, rule, dir, flt.min_area, flt.simplify_contour, flt.clean_result, clip, show_solver(&solver)));
    cx.nontrivial(a.iter().chain(&b).any(|c| c.len() > 2));
    let path = |v: &[Vec<[T; 2]>]| -> Result<(), String> { for p in v { ensure!(p.len() >= 2, "a clipped path of {} points", p.len()); } Ok(()) };
    match op {
        0 => lookf(&FloatOverlay::with_subj_and_clip(&a, &b).overlay_custom(rule, fill, dir, flt, solver)),
        1 => { lookf(&a.overlay(&b, rule, fill))?; lookf(&FloatOverlay::with_subj(&a).overlay(rule, fill)) }
        2 => { let g = FloatOverlay::with_subj_and_clip(&a, &b).into_graph_with_solver(fill, solver); for r in RULES { lookf(&g.extract_shapes_custom(r, dir, flt))?; } lookf(&g.extract_shapes(rule)) }
        3 => { lookf(&a.simplify_shape(fill, dir, flt.min_area))?; lookf(&a.simplify_shape_with_solver(fill, dir, flt.min_area, solver))?; for c in &a { lookf(&c.simplify_shape(fill, dir, flt.min_area))?; } Ok(()) }
        4 => { lookf(&a.slice_by(&b, fill))?; lookf(&a.slice_custom_by(&b, fill, dir, flt, solver)) }
        5 => { path(&b.clip_by(&a, fill, clip))?; path(&b.clip_by_with_solver(&a, fill, clip, solver)) }
        _ => { let g = FloatStringOverlay::with_shape_and_string(&a, &b).into_graph_with_solver(fill, solver); lookf(&g.extract_shapes(StringRule::Slice))?; lookf(&g.extract_shapes_custom(StringRule::Slice, dir, flt)) }
    }
}
fn float_ops_f64(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { float_ops::<f64>(s, cx) }
fn float_ops_f32(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { float_ops::<f32>(s, cx) }

fn any_angle(s: &mut Src) -> f64 { *s.pick(&[0.3, 0.0, -1.0, 1e-9, 1e9, 3.15, 0.02, 6.3]) }
fn any_join(s: &mut Src) -> Join { if s.bool() { gen_join(s) } else { match s.raw(3) { 0 => Join::Bevel, 1 => Join::Miter(any_angle(s)), _ => Join::Round(any_angle(s)) } } }
fn any_cap(s: &mut Src) -> Cap {
    match s.raw(5) {
        0 => Cap::Butt, 1 => Cap::Square, 2 => Cap::Round(any_angle(s)), 3 => Cap::Custom(vec![]),
        _ => { let n = s.usize(1, 6); let z = *s.pick(&[1.0, 1e-9, 100.0]); Cap::Custom((0..n).map(|_| [s.zrange(-8, 8) as f64 * 0.25 * z, s.zrange(-8, 8) as f64 * 0.25 * z]).collect()) }
    }
}
fn mesh<T: Fl>(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let e = if s.bool() { *s.pick(&[4i64, 100, 40_000]) } else { gen::gen_extent(s) };
    let n = s.usize(0, 3);
    let mut p: Vec<Vec<Pt>> = vec![];
    for _ in 0..n { let c = if s.chance(1, 3) { junk(s, e, &p) } else if s.bool() { gen_path(s, e) } else { gen::gen_contour(s, e, &p) }; p.push(c); }
    let m = Mapping::gen::<T>(s, e);
    let paths: Vec<C<T>> = floats(s, &p, e, &m);
    let len = |s: &mut Src| -> T { let l = e as f64 * m.k; let l = match s.raw(6) { 0 => 0.0, 1 => l * s.unit(), 2 => l * 1e-9, 3 => l * 100.0 * s.unit(), 4 => l * 1e-4, _ => l * 0.1 }; T::of(if s.chance(1, 3) { -l } else { l }) };
    let join = any_join(s);
    let dir = if s.bool() { CCW } else { CW };
    let flt: ContourFilter<T> = gen_filter(s, e as f64 * m.k);
    // a picture that the float type itself resolves to less than a thousandth is outside the claim
    let fine = |d: f64| { let pts: Vec<[f64; 2]> = paths.iter().flatten().map(|q| [q[0].f(), q[1].f()]).collect(); if pts.is_empty() { return true; } let b = bbox(&pts); let big = pts.iter().map(|p| p[0].abs().max(p[1].abs())).fold(0.0, f64::max); let eps = if T::F32 { f32::EPSILON as f64 } else { f64::EPSILON }; eps * big * 1000.0 <= (b[2] - b[0]).max(b[3] - b[1]) + d.abs() };
    cx.nontrivial(paths.iter().any(|c| c.len() > 1));
    if s.bool() {
        let (w, c0, c1) = (len(s), any_cap(s), any_cap(s));
        let mk = || StrokeStyle { width: w, start_cap: line_cap(&c0), end_cap: line_cap(&c1), join: line_join(join) };
        let st = mk();
        let closed = s.bool();
        cx.label("stroke");
        cx.desc(|| format!("stroke of {:?} closed {} width {:?} {:?} caps {} {} {:?} min {:?}", paths, closed, st.width, join, cap_text(&st.start_cap), cap_text(&st.end_cap), dir, flt.min_area));
        if !fine(w.f()) { cx.nontrivial = false; return Ok(()); }
        lookf(&paths.stroke(mk(), closed))?;
        lookf(&paths.stroke_custom(st, closed, dir, flt))
    } else {
        let (d0, d1) = (len(s), len(s));
        let mk = || OutlineStyle { outer_offset: d0, inner_offset: d1, join: line_join(join) };
        let st = mk();
        cx.label("outline");
        cx.desc(|| format!("outline of {:?} offsets {:?} {:?} {:?} {:?} min {:?}", paths, st.outer_offset, st.inner_offset, join, dir, flt.min_area));
        if !fine(d0.f().abs().min(d1.f().abs())) { cx.nontrivial = false; return Ok(()); }
        lookf(&paths.outline(mk()))?;
        lookf(&paths.outline_custom(st, dir, flt))
    }
}
fn cap_text<T: Fl>(c: &LineCap<[T; 2], T>) -> String { match c { LineCap::Butt => "butt".into(), LineCap::Square => "square".into(), LineCap::Round(a) => format!("round {:?}", a), LineCap::Custom(q) => format!("custom {:?}", q) } }
fn mesh_f64(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { mesh::<f64>(s, cx) }
fn mesh_f32(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { mesh::<f32>(s, cx) }

// ---------------------------------------------------------------- degenerate parts contribute nothing

/// a closed lattice contour that winds around nothing
fn lat_junk(s: &mut Src, w: i32, h: i32) -> (LPath, bool) {
    // (contour, adds no segment at all)
    let p = |s: &mut Src| (2 * s.range(0, w as i64) as i32, 2 * s.range(0, h as i64) as i32);
    let a = p(s);
    // straight steps the lattice can follow
    let step = |s: &mut Src, a: L| -> L { let c = gen_contour(s, w, h, &[]); let q = c[0]; match s.raw(2) { 0 => (a.0, q.1), _ => (q.0, a.1) } };
    match s.raw(7) {
        0 => (vec![], true),
        1 => (vec![a], true),
        2 => (vec![a; s.usize(2, 5)], true),
        3 => { let b = step(s, a); (vec![a, b], true) }
        4 => { let b = step(s, a); (vec![a, b, a], true) }
        5 => { let b = step(s, a); let c = step(s, b); (vec![a, b, c, b], false) }
        _ => { let b = step(s, a); let c = step(s, b); let d = step(s, c); (vec![a, b, c, d, c, b], false) }
    }
}
/// contours interleaved in random order; repeated points; junk
fn dirty(s: &mut Src, w: i32, h: i32, v: &[LPath], plain: &mut bool) -> Vec<LPath> {
    let mut out: Vec<LPath> = v.iter().map(|c| { let mut c = c.clone(); if !c.is_empty() { for _ in 0..s.small(0, 3) { let k = s.usize(0, c.len() - 1); let p = c[k]; c.insert(k, p); } if s.chance(1, 4) { c.push(c[0]); } } c }).collect();
    for _ in 0..s.small(0, 4) {
        let k = s.usize(0, out.len());
        let (j, p) = lat_junk(s, w, h);
        *plain &= p;
        out.insert(k, j);
    }
    if s.chance(1, 4) {
        // a contour and the same one backwards cancel
        let c = gen_contour(s, w, h, v);
        let mut d = c.clone(); d.reverse();
        *plain = false;
        let k = s.usize(0, out.len()); out.insert(k, c);
        let k = s.usize(0, out.len()); out.insert(k, d);
    }
    out
}
fn degenerate(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = LatCase::small(s);
    let mut plain = true;
    let da = dirty(s, c.w, c.h, &c.subj, &mut plain);
    let db = dirty(s, c.w, c.h, &c.clip, &mut plain);
    let (ia, ib) = (c.q.contours(&da), c.q.contours(&db));
    let (fill, rule, solver) = (*s.pick(&FILLS), *s.pick(&RULES), gen_solver(s));
    let dir = if s.bool() { CCW } else { CW };
    let simp = s.bool();
    cx.desc(|| format!("{} as subject {} clip {} {:?} {:?} {:?} simplify {} {}", c.show(), show_i(&ia), show_i(&ib), fill, rule, dir, simp, show_solver(&solver)));
    let want = overlay(&c.is, &c.ic, rule, fill, dir, simp, 0, solver);
    let got = overlay(&ia, &ib, rule, fill, dir, simp, 0, solver);
    cx.nontrivial(!want.is_empty() && (ia != c.is || ib != c.ic));
    if plain { cx.label("no segments added"); ensure!(want == got, "with degenerate parts {} without {}", show_shapes(&got), show_shapes(&want)); }
    // exactly the region of the parts that are not degenerate
    let f = combine(&c.fill_subj(fill), &c.fill_clip(fill), rule);
    let l = decode_shapes(&c.q, &got)?;
    check_boundary(c.w, c.h, &l, &f, c.ccw(dir)).map_err(|m| format!("{}; output {}", m, show_shapes(&got)))?;
    let (lab, n) = components(c.w as usize, c.h as usize, &f, None);
    check_shapes(c.w, c.h, &l, &lab, n, c.ccw(dir)).map_err(|m| format!("{}; output {}", m, show_shapes(&got)))
}
fn degenerate_strings(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = LatCase::sized(s, 8, 3);
    let strings = gen_strings(s, c.w, c.h, &c.subj, 4);
    let mut paths: Vec<IntContour> = strings.into_iter().map(|(mut p, cl)| { if cl && !p.is_empty() { p.push(p[0]); } c.q.contour(&p) }).collect();
    paths.retain(|p| p.len() > 1);
    let mut plain = true;
    let mut shape: Vec<IntContour> = vec![];
    for x in &c.is { let mut x = x.clone(); if s.chance(1, 3) && !x.is_empty() { let k = s.usize(0, x.len() - 1); let p = x[k]; x.insert(k, p); } shape.push(x); }
    for _ in 0..s.small(0, 3) { let k = s.usize(0, shape.len()); let (j, p) = loop { let j = lat_junk(s, c.w, c.h); if j.1 { break j; } else if s.chance(1, 2) { break (vec![], true); } }; plain &= p; shape.insert(k, c.q.contour(&j)); }
    let mut dp: Vec<IntContour> = vec![];
    for p in &paths { let mut p = p.clone(); for _ in 0..s.small(0, 2) { let k = s.usize(0, p.len() - 1); let q = p[k]; p.insert(k, q); } dp.push(p); }
    for _ in 0..s.small(0, 3) { let k = s.usize(0, dp.len()); let q = paths.first().map(|p| p[0]).unwrap_or(IntPoint::ZERO); let j = match s.raw(3) { 0 => vec![], 1 => vec![q], _ => vec![q, q] }; dp.insert(k, j); }
    let (fill, solver) = (*s.pick(&FILLS), gen_solver(s));
    let clip = ClipRule { invert: s.bool(), boundary_included: s.bool() };
    cx.desc(|| format!("shape {} as {} strings {} as {} {:?} {:?} {}", show_i(&c.is), show_i(&shape), show_i(&paths), show_i(&dp), fill, clip, show_solver(&solver)));
    let mk = |a: &[IntContour], p: &[IntContour]| { let mut o = StringOverlay::with_shape_contours(a); o.add_string_paths(&p.to_vec()); o };
    let (x, y) = (mk(&c.is, &paths).into_graph_with_solver(fill, solver).extract_shapes(StringRule::Slice), mk(&shape, &dp).into_graph_with_solver(fill, solver).extract_shapes(StringRule::Slice));
    cx.nontrivial(!x.is_empty() && (shape != c.is || dp != paths));
    ensure!(x == y, "slicing with degenerate parts gives {}, without {}", show_shapes(&y), show_shapes(&x));
    let (x, y) = (mk(&c.is, &paths).clip_string_lines_with_solver(fill, clip, solver), mk(&shape, &dp).clip_string_lines_with_solver(fill, clip, solver));
    ensure!(x == y, "clipping with degenerate parts gives {}, without {}", show_i(&y), show_i(&x));
    Ok(())
}
fn degenerate_mesh<T: Fl>(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let e = *s.pick(&[4i64, 100, 40_000]);
    let k = 2f64.powi(s.zrange(-8, 8) as i32);
    let stroke = s.bool();
    let n = s.usize(1, 3);
    let mut p: Vec<Vec<Pt>> = (0..n).map(|_| if stroke { let mut p = gen_path(s, e); p.dedup(); p } else if s.chance(1, 3) { gen::gen_rect(s, e) } else { gen::gen_star(s, e) }).collect();
    for c in p.iter_mut() { c.dedup(); while c.len() > 1 && c[0] == c[c.len() - 1] { c.pop(); } }
    p.retain(|c| c.len() > if stroke { 1 } else { 2 });
    if p.is_empty() { return Ok(()); }
    let pool: Vec<Pt> = p.iter().flatten().copied().collect();
    let mut d: Vec<Vec<Pt>> = p.iter().map(|c| { let mut c = c.clone(); for _ in 0..s.small(0, 3) { let k = s.usize(0, c.len() - 1); let q = c[k]; c.insert(k, q); } c }).collect();
    let closed = s.bool();
    if closed && stroke { for c in d.iter_mut() { if s.chance(1, 3) { c.push(c[0]); } } }
    for _ in 0..s.small(0, 3) { let k = s.usize(0, d.len()); let q = *s.pick(&pool); let j = match s.raw(3) { 0 => vec![], 1 => vec![q], _ => vec![q; s.usize(2, 4)] }; d.insert(k, j); }
    let mk = |v: &[Vec<Pt>]| -> Vec<C<T>> { v.iter().map(|c| c.iter().map(|p| [T::of(p.0 as f64 * k), T::of(p.1 as f64 * k)]).collect()).collect() };
    let (a, b) = (mk(&p), mk(&d));
    let w = T::of(e as f64 * k * (0.02 + s.unit()));
    let join = gen_join(s);
    cx.nontrivial(a != b);
    if stroke {
        let c0 = any_cap(s);
        let mk = || StrokeStyle::new(w).line_join(line_join(join)).start_cap(line_cap(&c0)).end_cap(line_cap(&Cap::Round(0.3)));
        let st = mk();
        cx.desc(|| format!("stroke of {:?} as {:?} closed {} width {:?} {:?} start cap {}", a, b, closed, w, join, cap_text(&st.start_cap)));
        let (x, y) = (a.stroke(mk(), closed), b.stroke(st, closed));
        ensure!(x == y, "stroking with degenerate parts gives {:?}, without {:?}", y, x);
    } else {
        let w = if s.bool() { T::of(-0.2 * w.f()) } else { w };
        let mk = || OutlineStyle::new(w).line_join(line_join(join));
        let st = mk();
        cx.desc(|| format!("outline of {:?} as {:?} offset {:?} {:?}", a, b, w, join));
        let (x, y) = (a.outline(mk()), b.outline(st));
        if p.len() > 1 || d.len() == 1 { ensure!(x == y, "outlining with degenerate parts gives {:?}, without {:?}", y, x); return Ok(()); }
        // a single path and several are computed in different ways: the same boundary up to rounding
        cx.label("single path");
        let (fx, fy) = (flatf(&x), flatf(&y));
        let pts: Vec<[f64; 2]> = a.iter().flatten().map(|q| [q[0].f(), q[1].f()]).collect();
        let ext = w.f().abs() * 80.0;
        let tol = env::<T>(&pts, ext).grid * 64.0;
        let per: f64 = fx.iter().flat_map(|c| (0..c.len()).map(|i| crate::offset::len(crate::offset::sub(c[i], c[(i + 1) % c.len()])))).sum();
        let area = |f: &[Vec<[f64; 2]>]| f.iter().map(|c| kit::geo::area_f(c)).sum::<f64>();
        ensure!((area(&fx) - area(&fy)).abs() <= tol * (per + tol), "outlining with degenerate parts gives area {}, without {}: {:?} and {:?}", area(&fy), area(&fx), y, x);
        for (u, v) in [(&fx, &fy), (&fy, &fx)] { for q in u.iter().flatten() { ensure!(v.iter().any(|c| dist(c, *q) <= tol), "outlining with degenerate parts: {:?} lies on one boundary only: {:?} and {:?}", q, y, x); } }
    }
    Ok(())
}
fn degenerate_mesh_f64(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { degenerate_mesh::<f64>(s, cx) }
fn degenerate_mesh_f32(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { degenerate_mesh::<f32>(s, cx) }
#[allow(unused)]
fn unused(_: FillRule, _: ContourDirection, _: Overlay, _: ShapeType) {}

pub fn property() -> Property {
    Property { id: "C14", components: vec![
        Component { name: "int_ops", quick: 250_000, thorough: 4_000_000, rule: "random, near-coincident and degenerate contours of every magnitude up to the limits, through every integer operation, all solvers with a progressing precision, with overflow checks: no panic, no hang; non-trivial: some contour has three points", run: int_ops },
        Component { name: "int_dense", quick: 300_000, thorough: 4_000_000, rule: "contours over 2 to 9 common points, in any order, repeated at will", run: int_dense },
        Component { name: "fixed_radius", quick: 100_000, thorough: 6_000_000, rule: "two nearly coincident contours among others, with the precision that keeps the snap radius at 1: ends without failure", run: fixed_radius },
        Component { name: "long_segments", quick: 12_000, thorough: 400_000, rule: "at least 16 segments from one side of the range to the other", run: long_segments },
        Component { name: "bundles", quick: 40_000, thorough: 3_000_000, rule: "at least 8 edges between points (nearly) on one or two lines", run: bundles },
        Component { name: "flat", quick: 500_000, thorough: 20_000_000, rule: "a contour of three points or more, in a picture at most 40 high", run: flat },
        Component { name: "tiny", quick: 1_000_000, thorough: 50_000_000, rule: "every case: contours of 3 to 7 points in a box of at most 8 by 8", run: tiny },
        Component { name: "int_clouds", quick: 500, thorough: 20_000, rule: "20 to 800 contours with degenerate ones among them", run: int_clouds },
        Component { name: "float_ops_f64", quick: 200_000, thorough: 2_000_000, rule: "the same inputs scaled, shifted, or with coordinates of very different sizes, through every f64 operation; output finite", run: float_ops_f64 },
        Component { name: "float_ops_f32", quick: 150_000, thorough: 1_500_000, rule: "the same in f32", run: float_ops_f32 },
        Component { name: "mesh_f64", quick: 300_000, thorough: 2_000_000, rule: "stroke and outline of any paths (degenerate, self-crossing, wrong direction), any size and sign of width and offset, any join and cap parameter; non-trivial: some path has two points", run: mesh_f64 },
        Component { name: "mesh_f32", quick: 300_000, thorough: 2_000_000, rule: "the same in f32", run: mesh_f32 },
        Component { name: "degenerate", quick: 300_000, thorough: 3_000_000, rule: "lattice contours with repeated points, and empty, pointlike, flat and cancelling contours mixed in: the exact region of the rest, and the identical result where no segment is added; non-trivial: result not empty and something degenerate added", run: degenerate },
        Component { name: "degenerate_strings", quick: 200_000, thorough: 2_000_000, rule: "the same for slicing and clipping by paths with repeated points, empty and pointlike paths", run: degenerate_strings },
        Component { name: "degenerate_mesh_f64", quick: 150_000, thorough: 1_500_000, rule: "stroke and outline with repeated points and pointlike paths mixed in: identical to the result without", run: degenerate_mesh_f64 },
        Component { name: "degenerate_mesh_f32", quick: 100_000, thorough: 1_000_000, rule: "the same in f32", run: degenerate_mesh_f32 },
    ] }
}
