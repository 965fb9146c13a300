use super::c07::{check_pieces, gen_strings};
use super::c08::kept;
use crate::common::*;
use crate::gen;
use crate::lat::*;
use crate::structure::*;
use crate::util::*;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay::ContourDirection;
use i_overlay::core::overlay_rule::OverlayRule;
use i_overlay::float::clip::FloatClip;
use i_overlay::float::filter::ContourFilter;
use i_overlay::float::overlay::FloatOverlay;
use i_overlay::float::simplify::SimplifyShape;
use i_overlay::float::single::SingleFloatOverlay;
use i_overlay::float::slice::FloatSlice;
use i_overlay::float::string_overlay::FloatStringOverlay;
use i_overlay::i_float::float::compatible::FloatPointCompatible;
use i_overlay::i_float::float::number::FloatNumber;
use i_overlay::i_float::int::point::IntPoint;
use i_overlay::i_shape::int::shape::{IntContour, IntShapes};
use i_overlay::string::clip::ClipRule;
use i_overlay::string::rule::StringRule;
use kit::geo::*;
use kit::{ensure, Component, Ctx, Property, Src};
use std::collections::HashSet;

pub trait Fl: FloatNumber + std::fmt::Debug + 'static { const F32: bool; fn of(x: f64) -> Self; fn f(self) -> f64; }
impl Fl for f64 { const F32: bool = false; fn of(x: f64) -> Self { x } fn f(self) -> f64 { self } }
impl Fl for f32 { const F32: bool = true; fn of(x: f64) -> Self { x as f32 } fn f(self) -> f64 { self as f64 } }
type C<T> = Vec<[T; 2]>;
type Sh<T> = Vec<Vec<C<T>>>;

/// exact image of a lattice case: integer coordinates times 2^k plus a multiple of 2^k
struct Ex { k: i32, ox: i64, oy: i64 }
impl Ex {
    fn gen<T: Fl>(s: &mut Src) -> Ex {
        let (kr, bits) = if T::F32 { (24, 13) } else { (120, 50) };
        let k = if s.chance(1, 3) { 0 } else { s.zrange(-kr, kr) as i32 };
        let mut o = |s: &mut Src| if s.bool() { 0 } else { let b = s.range(1, bits); s.zrange(-(1 << b), 1 << b) };
        Ex { k, ox: o(s), oy: o(s) }
    }
    fn unit(&self) -> f64 { 2f64.powi(self.k) }
    fn pt<T: Fl>(&self, p: &IntPoint) -> [T; 2] { [T::of((p.x as i64 + self.ox) as f64 * self.unit()), T::of((p.y as i64 + self.oy) as f64 * self.unit())] }
    fn of<T: Fl>(&self, c: &[IntContour]) -> Vec<C<T>> { c.iter().map(|c| c.iter().map(|p| self.pt(p)).collect()).collect() }
    fn back_pt<T: Fl>(&self, p: &[T; 2]) -> Result<IntPoint, String> {
        let (x, y) = (p[0].f() / self.unit() - self.ox as f64, p[1].f() / self.unit() - self.oy as f64);
        if x.fract() != 0.0 || y.fract() != 0.0 || x.abs() > 2e9 || y.abs() > 2e9 { return Err(format!("output point {:?} (in units of the input {:?}) is not a vertex of the arrangement", p, (x, y))); }
        Ok(IntPoint::new(x as i32, y as i32))
    }
    fn back<T: Fl>(&self, o: &Sh<T>) -> Result<IntShapes, String> { o.iter().map(|s| s.iter().map(|c| c.iter().map(|p| self.back_pt(p)).collect()).collect()).collect() }
}
/// lattice case whose coordinates fit the float type exactly, with room for halving
fn case<T: Fl>(s: &mut Src, grid: i64, n: usize) -> LatCase {
    if !T::F32 { return LatCase::narrow(s, grid, n); }
    let (w, h) = (s.range(1, grid) as i32, s.range(1, grid) as i32);
    let subj = crate::lat::gen_contours(s, w, h, 1, n);
    let clip = crate::lat::gen_contours(s, w, h, 0, n);
    let e = ((1 << 12) / (4 * w.max(h) as i64)).max(1);
    let e = 1i64.max(e >> s.range(0, 8));
    let mut q = Affine { a: s.zrange(-e, e), b: s.zrange(-e, e), c: s.zrange(-e, e), d: s.zrange(-e, e), tx: 0, ty: 0 };
    if q.det() == 0 { q = Affine { a: e, b: 0, c: 0, d: -e, tx: 0, ty: 0 }; }
    LatCase::new(w, h, subj, clip, q)
}
fn gen_filter<T: Fl>(s: &mut Src) -> ContourFilter<T> { ContourFilter { min_area: T::of(0.0), simplify_contour: s.bool(), clean_result: s.bool() } }
fn showf<T: Fl>(o: &Sh<T>) -> String { format!("{:?}", o) }

fn overlay_lattice<T: Fl>(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = case::<T>(s, 8, 4);
    let e = Ex::gen::<T>(s);
    let (fill, rule, solver) = (*s.pick(&FILLS), *s.pick(&RULES), gen_solver(s));
    let dir = if s.bool() { CCW } else { CW };
    let mut flt = gen_filter::<T>(s);
    let route = s.raw(4);
    cx.desc(|| format!("{} shifted by {:?} times 2^{} as {} {:?} {:?} {} {:?} simplify {} clean {} route {}", c.show(), (e.ox, e.oy), e.k, std::any::type_name::<T>(), fill, rule, show_solver(&solver), dir, flt.simplify_contour, flt.clean_result, route));
    let (a, b): (Vec<C<T>>, Vec<C<T>>) = (e.of(&c.is), e.of(&c.ic));
    let run = |flt: ContourFilter<T>| -> (Sh<T>, ContourDirection) { match route {
        0 => (FloatOverlay::with_subj_and_clip(&a, &b).overlay_custom(rule, fill, dir, flt, solver), dir),
        1 => (FloatOverlay::with_subj_and_clip(&a, &b).into_graph_with_solver(fill, solver).extract_shapes_custom(rule, dir, flt), dir),
        2 => (a.overlay(&b, rule, fill), CCW),
        _ => (FloatOverlay::with_subj_and_clip(&a, &b).into_graph(fill).extract_shapes(rule), CCW),
    } };
    let (out, used) = run(flt);
    let want = combine(&c.fill_subj(fill), &c.fill_clip(fill), rule);
    cx.nontrivial(count(&want) > 0);
    cx.label_if(e.k != 0, "scaled");
    cx.label_if((e.ox, e.oy) != (0, 0), "shifted");
    let ints = e.back(&out).map_err(|m| format!("{}; output {}", m, showf(&out)))?;
    check_contours(&ints, used, flt.simplify_contour && route < 2)?;
    check_boundary(c.w, c.h, &decode_shapes(&c.q, &ints)?, &want, c.ccw(used))?;
    // minimal area in the caller's units
    if route < 2 && !ints.is_empty() {
        let areas: Vec<i128> = ints.iter().flatten().map(|c| area2(&to_pts(c)).abs()).collect();
        let pick = *s.pick(&areas);
        let exact = !T::F32 && areas.iter().all(|&a| a < 1 << 52);
        let mode = s.raw(3);
        let f = [1.0, 0.9, 1.1][if exact { mode as usize } else { 1 + (mode % 2) as usize }];
        let min2 = pick as f64 * f;
        let near = |a: i128| a as f64 != min2 && (a as f64 - min2).abs() < 1e-5 * min2;
        if areas.iter().any(|&a| near(a)) { return Ok(()); }
        flt.min_area = T::of(min2 * 0.5 * e.unit() * e.unit());
        let keep = |c: &IntContour| area2(&to_pts(c)).abs() as f64 >= min2;
        let got = e.back(&run(flt).0)?;
        let want: IntShapes = ints.iter().filter(|s| keep(&s[0])).map(|s| s.iter().filter(|c| keep(c)).cloned().collect()).collect();
        cx.label_if(want.iter().flatten().count() < areas.len(), "minimal area drops a contour");
        ensure!(canon(&got) == canon(&want), "min_area {:?} ({} times a contour's area): got {}, expected {} (in the input's units)", flt.min_area, f, show_shapes(&got), show_shapes(&want));
    }
    Ok(())
}
fn strings_lattice<T: Fl>(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = case::<T>(s, 8, 4);
    let e = Ex::gen::<T>(s);
    let mut lines: Vec<LPath> = gen_strings(s, c.w, c.h, &c.subj, 5).into_iter().map(|(mut p, closed)| { if closed && !p.is_empty() { p.push(p[0]); } p }).collect();
    lines.retain(|p| !p.is_empty());
    let (fill, solver) = (*s.pick(&FILLS), gen_solver(s));
    let (a, l): (Vec<C<T>>, Vec<C<T>>) = (e.of(&c.is), e.of(&lines.iter().map(|p| c.q.contour(p)).collect::<Vec<_>>()));
    let op = s.raw(5);
    let dir = if s.bool() { CCW } else { CW };
    let flt = gen_filter::<T>(s);
    let rule = ClipRule { invert: s.bool(), boundary_included: s.bool() };
    cx.desc(|| format!("shapes {} lines {:?} (lattice) map {:?} shifted by {:?} times 2^{} as {} {:?} {} {:?} {:?} operation {}", show_i(&c.is), lines, c.q, (e.ox, e.oy), e.k, std::any::type_name::<T>(), fill, show_solver(&solver), dir, rule, op));
    let region = c.fill_subj(fill);
    let f = Field::new(c.w, c.h);
    if op < 3 {
        let (out, used): (Sh<T>, _) = match op {
            0 => (a.slice_by(&l, fill), CCW),
            1 => (a.slice_custom_by(&l, fill, dir, flt, solver), dir),
            _ => (FloatStringOverlay::with_shape_and_string(&a, &l).into_graph_with_solver(fill, solver).extract_shapes_custom(StringRule::Slice, dir, flt), dir),
        };
        let mut cut = HashSet::new();
        for p in &lines { for k in p.windows(2) { f.trace(k[0], k[1], |u, _| { cut.insert(u); })?; } }
        let is_cut = |u: Unit| cut.contains(&u);
        let (lab, n) = components(c.w as usize, c.h as usize, &region, Some(&is_cut));
        cx.nontrivial(n > 1);
        let ints = e.back(&out).map_err(|m| format!("{}; output {}", m, showf(&out)))?;
        return check_pieces(&c, &ints, &region, &lab, n, used).map_err(|m| format!("{}; pieces {}", m, show_shapes(&ints)));
    }
    let out: Vec<C<T>> = if op == 3 { l.clip_by(&a, fill, rule) } else { l.clip_by_with_solver(&a, fill, rule, solver) };
    let given = unit_steps(c.w, c.h, &lines)?;
    let mut want = std::collections::BTreeSet::new();
    for &(u, d) in given.keys() {
        let (l, r) = f.sides(u);
        let n = fill_at(c.w as usize, &region, l) as usize + fill_at(c.w as usize, &region, r) as usize;
        if kept(n, rule) { want.insert((u, d)); }
    }
    cx.nontrivial(!want.is_empty() && want.len() < given.len());
    let ints = e.back(&vec![out]).map_err(|m| format!("clip: {}", m))?;
    let d: Result<Vec<LPath>, String> = ints.iter().flatten().map(|p| decode(&c.q, p)).collect();
    let got = unit_steps(c.w, c.h, &d?)?;
    ensure!(got.keys().copied().collect::<std::collections::BTreeSet<_>>() == want && got.values().all(|&m| m == 1), "clip returned the steps {:?}, expected {:?}", got.iter().map(|(k, m)| (unit_ends(k.0), k.1, m)).collect::<Vec<_>>(), want.iter().map(|k| (unit_ends(k.0), k.1)).collect::<Vec<_>>());
    Ok(())
}
fn overlay_f64(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { overlay_lattice::<f64>(s, cx) }
fn overlay_f32(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { overlay_lattice::<f32>(s, cx) }
fn strings_f64(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { strings_lattice::<f64>(s, cx) }
fn strings_f32(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { strings_lattice::<f32>(s, cx) }

/// Arbitrary floats. Everything is carried to a grid sixteen times finer than the library's own, centred on the input.
struct Fine { o: [f64; 2], g: f64, half: i64 }
const FINE: f64 = 16.0;
impl Fine {
    fn new<T: Fl>(cs: &[&[C<T>]]) -> Option<Fine> {
        let (mut lo, mut hi) = ([f64::INFINITY; 2], [f64::NEG_INFINITY; 2]);
        for p in cs.iter().flat_map(|x| x.iter()).flatten() { for i in 0..2 { lo[i] = lo[i].min(p[i].f()); hi[i] = hi[i].max(p[i].f()); } }
        let half = ((hi[0] - lo[0]).max(hi[1] - lo[1])) / 2.0;
        if !(half > 0.0) { return None; }
        // the coarsest step the documentation allows: extent over 2^29
        let g = half / 2f64.powf(28.5) / FINE;
        Some(Fine { o: [(lo[0] + hi[0]) / 2.0, (lo[1] + hi[1]) / 2.0], g, half: (half / g) as i64 + 1 })
    }
    fn c<T: Fl>(&self, c: &[[T; 2]]) -> Vec<Pt> { c.iter().map(|p| (((p[0].f() - self.o[0]) / self.g).round() as i64, ((p[1].f() - self.o[1]) / self.g).round() as i64)).collect() }
    fn cs<T: Fl>(&self, c: &[C<T>]) -> Vec<Vec<Pt>> { c.iter().map(|c| self.c(c)).collect() }
    /// grid steps plus the float type's own resolution at these coordinates
    fn tol<T: Fl>(&self, units: f64) -> f64 {
        let m = self.o[0].abs().max(self.o[1].abs()) + self.half as f64 * self.g;
        units * FINE + 6.0 * m * if T::F32 { f32::EPSILON as f64 } else { f64::EPSILON } / self.g
    }
}
fn floats<T: Fl>(s: &mut Src, all: &[Vec<Pt>], e: i64) -> (Vec<C<T>>, f64) {
    let kr = if T::F32 { 20 } else { 150 };
    let m = 2f64.powi(s.zrange(-kr, kr) as i32) * (1.0 + s.unit());
    let shift = |s: &mut Src| match s.raw(3) { 0 => 0.0, 1 => m * (2.0 * s.unit() - 1.0), _ => m * 2f64.powi(s.range(0, if T::F32 { 6 } else { 16 }) as i32) * (2.0 * s.unit() - 1.0) };
    let (ox, oy) = (shift(s), shift(s));
    (all.iter().map(|c| c.iter().map(|p| [T::of(ox + m * p.0 as f64 / e as f64), T::of(oy + m * p.1 as f64 / e as f64)]).collect()).collect(), m)
}
fn general<T: Fl>(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = GenCase::small(s, 4);
    let mut all = c.all();
    let nl = s.usize(0, 3);
    let lines: Vec<Vec<Pt>> = (0..nl).map(|_| { let k = s.usize(2, 4); (0..k).map(|_| gen::rp(s, c.e)).collect() }).collect();
    all.extend(lines.iter().cloned());
    let (fl, _) = floats::<T>(s, &all, c.e);
    let (a, rest) = fl.split_at(c.subj.len());
    let (b, l) = rest.split_at(c.clip.len());
    let (a, b, l) = (a.to_vec(), b.to_vec(), l.to_vec());
    let (fill, rule, solver) = (*s.pick(&FILLS), *s.pick(&RULES), gen_solver_prog(s));
    let dir = if s.bool() { CCW } else { CW };
    let sign = if dir == CCW { 1 } else { -1 };
    let mut flt = gen_filter::<T>(s);
    if T::F32 { flt.clean_result = true; }
    let crule = ClipRule { invert: s.bool(), boundary_included: s.bool() };
    let op = s.raw(4);
    cx.desc(|| format!("subject {:?} clip {:?} lines {:?} {:?} {:?} {} {:?} simplify {} clean {} {:?} operation {}", a, b, l, fill, rule, show_solver(&solver), dir, flt.simplify_contour, flt.clean_result, crule, op));
    let used: Vec<&[C<T>]> = match op { 0 => vec![&a, &b], 1 => vec![&a], _ => vec![&a, &l] };
    let Some(fine) = Fine::new(&used) else { return Ok(()) };
    let (fa, fb, ll) = (fine.cs(&a), fine.cs(&b), fine.cs(&l));
    let tol = fine.tol::<T>(14.0);
    let e = fine.half;
    if tol * 20.0 > e as f64 { return Ok(()); }
    match op {
        0 | 1 | 2 => {
            let out: Sh<T> = match op {
                0 => FloatOverlay::with_subj_and_clip(&a, &b).overlay_custom(rule, fill, dir, flt, solver),
                1 => a.simplify_shape_with_solver(fill, dir, T::of(0.0), solver),
                _ => a.slice_custom_by(&l, fill, dir, flt, solver),
            };
            let rule = if op == 0 { rule } else { OverlayRule::Subject };
            cx.nontrivial(!out.is_empty());
            let fo: Vec<Vec<Vec<Pt>>> = out.iter().map(|s| fine.cs(s)).collect();
            let mut near: Vec<Vec<Pt>> = fa.clone();
            if op == 0 { near.extend(fb.iter().cloned()); }
            let edge = |p: Pt| dist_edges(&near, p, true).min(if op == 2 { dist_edges(&ll, p, false) } else { f64::INFINITY });
            for sh in &fo { ensure!(!sh.is_empty(), "a shape without contours"); for k in sh {
                ensure!(k.len() >= 3, "a contour of {} points", k.len());
                for p in k { ensure!(edge(*p) < tol, "output vertex {:?} is {:.1} grid steps from every input edge", p, edge(*p) / FINE); }
            } }
            let refs: Vec<&Vec<Pt>> = near.iter().chain(if op == 2 { ll.iter() } else { [].iter() }).collect();
            let mut inside = 0;
            for _ in 0..16 {
                let p = gen::gen_probe(s, e, &refs, tol as i64 + 1);
                if edge(p) < tol { continue; }
                let (Some(x), Some(y)) = (winding_all(&fa, p), if op == 0 { winding_all(&fb, p) } else { Some(0) }) else { continue };
                let want = ruled(filled(x, fill), filled(y, fill), rule);
                inside += want as usize;
                let per: Vec<i32> = fo.iter().map(|s| winding_all(s, p).unwrap_or(99)).collect();
                let tot: i32 = per.iter().sum();
                ensure!(tot == sign * want as i32, "at {:?} (windings {} {}): the result winds {} times, expected {}", p, x, y, tot, sign * want as i32);
            }
            cx.label_if(inside > 0, "probes inside");
        }
        _ => {
            let out: Vec<C<T>> = l.clip_by_with_solver(&a, fill, crule, solver);
            let fo = fine.cs(&out);
            let side = |p: Pt| -> Option<bool> { if dist_edges(&fa, p, true) < tol { None } else { winding_all(&fa, p).map(|w| filled(w, fill) != crule.invert) } };
            let on = |a: Pt, b: Pt, t: i64| (a.0 + ((b.0 - a.0) as i128 * t as i128 / 64) as i64, a.1 + ((b.1 - a.1) as i128 * t as i128 / 64) as i64);
            let (mut ins, mut outs) = (0, 0);
            for q in &ll { for k in q.windows(2).filter(|k| dist_seg(k[0], k[1], k[1]) > tol) { for _ in 0..6 {
                let p = on(k[0], k[1], s.range(0, 64));
                match side(p) {
                    Some(true) => { ins += 1; ensure!(dist_edges(&fo, p, false) < tol, "the point {:?} of a line should be kept but no returned path passes there", p); }
                    Some(false) => outs += 1,
                    None => {}
                }
            } } }
            cx.nontrivial(ins > 0 && outs > 0);
            for q in &fo {
                ensure!(q.len() >= 2, "a returned path has {} points", q.len());
                for k in q.windows(2) { for t in [0, s.range(0, 64), 64] {
                    let p = on(k[0], k[1], t);
                    ensure!(dist_edges(&ll, p, false) < tol, "returned point {:?} lies on no line", p);
                    ensure!(side(p) != Some(false), "returned point {:?} lies on the wrong side", p);
                } }
            }
        }
    }
    Ok(())
}
fn general_f64(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { general::<f64>(s, cx) }
fn general_f32(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { general::<f32>(s, cx) }

/// scaling by a power of two and exact translation carry over to the output
fn moved<T: Fl>(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = GenCase::small(s, 4);
    let all = c.all();
    // integers of at most 40 (f32: 18) bits
    let bits = if T::F32 { 16 } else { 38 };
    let k = s.range(6, bits) as u32;
    let q: Vec<Vec<Pt>> = all.iter().map(|v| v.iter().map(|p| (((p.0 as i128) << k) as i128 / c.e as i128, ((p.1 as i128) << k) as i128 / c.e as i128)).map(|p| (p.0 as i64, p.1 as i64)).collect()).collect();
    let translate = s.bool();
    let j = if translate { 0 } else { s.zrange(if T::F32 { -30 } else { -200 }, if T::F32 { 20 } else { 200 }) as i32 };
    let tb = if T::F32 { 20 } else { 48 };
    let t = if translate { (s.zrange(-(1 << tb), 1 << tb), s.zrange(-(1 << tb), 1 << tb)) } else { (0, 0) };
    let (fill, rule, solver) = (*s.pick(&FILLS), *s.pick(&RULES), gen_solver_prog(s));
    let dir = if s.bool() { CCW } else { CW };
    let mut flt = gen_filter::<T>(s);
    // what "clean" merges may depend on the float's resolution, which a shift changes
    if translate { flt.clean_result = false; }
    let u = 2f64.powi(j);
    let mk = |u: f64, t: Pt| -> (Vec<C<T>>, Vec<C<T>>) {
        let v: Vec<C<T>> = q.iter().map(|c| c.iter().map(|p| [T::of((p.0 + t.0) as f64 * u), T::of((p.1 + t.1) as f64 * u)]).collect()).collect();
        (v[..c.subj.len()].to_vec(), v[c.subj.len()..].to_vec())
    };
    let area = if s.bool() { 2f64.powi(s.range(0, 2 * k as i64) as i32) * 1.37 } else { 0.0 };
    cx.desc(|| format!("subject {:?} clip {:?} {:?} {:?} {} {:?} simplify {} clean {} min_area {} moved by {:?} times 2^{} as {}", &q[..c.subj.len()], &q[c.subj.len()..], fill, rule, show_solver(&solver), dir, flt.simplify_contour, flt.clean_result, area, t, j, std::any::type_name::<T>()));
    // the grid is chosen from the extent's logarithm; next to its rounding point the two inputs may get different grids
    let pts = || q.iter().flatten();
    let ext = |f: fn(&Pt) -> i64| pts().map(f).max().unwrap_or(0) - pts().map(f).min().unwrap_or(0);
    let h = ext(|p| p.0).max(ext(|p| p.1)) as f64 / 2.0;
    if h <= 0.0 || ((h.log2().fract()) - 0.5).abs() < 1e-3 { return Ok(()); }
    let run = |u: f64, t: Pt| -> Sh<T> { let (a, b) = mk(u, t); let mut f = flt; f.min_area = T::of(area * u * u); FloatOverlay::with_subj_and_clip(&a, &b).overlay_custom(rule, fill, dir, f, solver) };
    let base = run(1.0, (0, 0));
    let got = run(u, t);
    cx.nontrivial(!base.is_empty());
    cx.label(if translate { "translated" } else { "scaled" });
    // resolution of the float at the shifted place
    let tol = if translate { 2f64.powi(tb as i32 + 2) * if T::F32 { f32::EPSILON as f64 } else { f64::EPSILON } } else { 0.0 };
    let shape = |o: &Sh<T>| -> Vec<Vec<usize>> { o.iter().map(|s| s.iter().map(|c| c.len()).collect()).collect() };
    ensure!(shape(&base) == shape(&got), "the moved input gives contours {:?}, the original {:?}", shape(&got), shape(&base));
    for (p, q) in base.iter().flatten().flatten().zip(got.iter().flatten().flatten()) {
        for i in 0..2 {
            let want = (p[i].f() + [t.0, t.1][i] as f64) * u;
            ensure!((q[i].f() - want).abs() <= tol, "output coordinate {:?} became {:?}, expected {:?}", p[i], q[i], want);
        }
    }
    Ok(())
}
fn moved_f64(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { moved::<f64>(s, cx) }
fn moved_f32(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { moved::<f32>(s, cx) }
#[allow(dead_code)]
fn _used(_: FillRule) where [f64; 2]: FloatPointCompatible<f64> {}
pub fn property() -> Property {
    Property { id: "C10", components: vec![
        Component { name: "overlay_f64", quick: 300_000, thorough: 3_000_000, rule: "lattice contours times 2^k (|k| up to 120) shifted by up to 2^50 units, as f64, direct, graph and SingleFloatOverlay, all filters: exact boundary, minimal area exact in the caller's units; non-trivial: region not empty", run: overlay_f64 },
        Component { name: "overlay_f32", quick: 200_000, thorough: 2_000_000, rule: "the same in f32 with coordinates the type holds exactly; non-trivial: region not empty", run: overlay_f32 },
        Component { name: "strings_f64", quick: 200_000, thorough: 2_000_000, rule: "FloatSlice and FloatClip on scaled and shifted lattice input: exact pieces and exact unit steps; non-trivial: several pieces, or some steps kept and some not", run: strings_f64 },
        Component { name: "strings_f32", quick: 100_000, thorough: 1_000_000, rule: "the same in f32", run: strings_f32 },
        Component { name: "general_f64", quick: 200_000, thorough: 2_000_000, rule: "arbitrary floats of any scale and shift: overlay, simplify, slice and clip against winding probes farther than 14 grid steps (extent/2^29.5) from every edge; non-trivial: result not empty", run: general_f64 },
        Component { name: "general_f32", quick: 150_000, thorough: 1_500_000, rule: "the same in f32, tolerance widened by the type's resolution", run: general_f32 },
        Component { name: "moved_f64", quick: 200_000, thorough: 2_000_000, rule: "the same input times a power of two or shifted exactly: the same contours, moved, with min_area scaled along; non-trivial: result not empty", run: moved_f64 },
        Component { name: "moved_f32", quick: 150_000, thorough: 1_500_000, rule: "the same in f32", run: moved_f32 },
    ] }
}
