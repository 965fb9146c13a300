use super::c10::Fl;
use crate::gen;
use crate::lat::*;
use crate::offset::*;
use crate::util::*;
use i_overlay::core::overlay::ContourDirection;
use i_overlay::float::filter::ContourFilter;
use i_overlay::mesh::stroke::offset::StrokeOffset;
use i_overlay::mesh::style::{LineCap, LineJoin, StrokeStyle};
use kit::{ensure, Component, Ctx, Property, Src};
use std::f64::consts::PI;

pub type C<T> = Vec<[T; 2]>;
pub type Sh<T> = Vec<Vec<C<T>>>;
pub fn v<T: Fl>(p: &[T; 2]) -> V { [p[0].f(), p[1].f()] }
pub fn vs<T: Fl>(c: &[[T; 2]]) -> Vec<V> { c.iter().map(v).collect() }
pub fn line_join<T: Fl>(j: Join) -> LineJoin<T> { match j { Join::Bevel => LineJoin::Bevel, Join::Miter(a) => LineJoin::Miter(T::of(a)), Join::Round(a) => LineJoin::Round(T::of(a)) } }
pub fn line_cap<T: Fl>(c: &Cap) -> LineCap<[T; 2], T> { match c { Cap::Butt => LineCap::Butt, Cap::Square => LineCap::Square, Cap::Round(a) => LineCap::Round(T::of(*a)), Cap::Custom(q) => LineCap::Custom(q.iter().map(|p| [T::of(p[0]), T::of(p[1])]).collect()) } }

/// angle parameter: within the accepted range, at its ends, outside
pub fn gen_angle(s: &mut Src, hi: f64) -> f64 {
    match s.raw(6) {
        0 => 0.25 * PI,
        1 => *s.pick(&[0.1, 0.2, 0.5, 1.0, 0.0, -1.0, 3.0, 0.01, 10.0]),
        _ => 0.01 * PI + (hi - 0.01 * PI) * s.unit(),
    }
}
pub fn gen_join(s: &mut Src) -> Join { match s.raw(3) { 0 => Join::Bevel, 1 => Join::Miter(gen_angle(s, 0.99 * PI)), _ => Join::Round(gen_angle(s, 0.25 * PI)) } }
fn gen_cap(s: &mut Src) -> Cap {
    match s.raw(4) {
        0 => Cap::Butt,
        1 => Cap::Square,
        2 => Cap::Round(gen_angle(s, 0.25 * PI)),
        _ => match s.raw(4) {
            0 => Cap::Custom(vec![]),
            1 => Cap::Custom(vec![[s.zrange(-4, 12) as f64 * 0.25, 0.0]]), // arrow head or notch
            2 => Cap::Custom(vec![[0.0, -2.0], [3.0, 0.0], [0.0, 2.0]]),
            _ => { let n = s.usize(1, 5); Cap::Custom((0..n).map(|_| [s.zrange(-4, 16) as f64 * 0.25, s.zrange(-12, 12) as f64 * 0.25]).collect()) }
        },
    }
}
pub fn gen_path(s: &mut Src, e: i64) -> Vec<kit::geo::Pt> {
    let n = s.usize(2, 9);
    let mut p = vec![gen::rp(s, e)];
    let step = (e >> s.range(0, 6)).max(1);
    let style = s.raw(4);
    while p.len() < n {
        let a = p[p.len() - 1];
        let kind = if style == 0 { 0 } else { s.weighted(&[3, 2, 3, 2, 2, 1, 1]) };
        let q = match kind {
            0 => gen::rp(s, e),
            1 => (a.0 + s.zrange(-step, step), a.1 + s.zrange(-step, step)),
            2 => if s.bool() { (a.0 + s.zrange(-step, step), a.1) } else { (a.0, a.1 + s.zrange(-step, step)) },
            3 if p.len() > 1 => { let b = p[p.len() - 2]; let k = s.range(1, 4); (a.0 + (a.0 - b.0) * k / 2, a.1 + (a.1 - b.1) * k / 2) } // straight on
            4 if p.len() > 1 => { let b = p[p.len() - 2]; let k = s.range(1, 4); (a.0 - (a.0 - b.0) * k / 2, a.1 - (a.1 - b.1) * k / 2) } // back
            5 => a,                                                       // repeated point
            _ => *s.pick(&p),                                             // an earlier point
        };
        p.push((q.0.clamp(-e, e), q.1.clamp(-e, e)));
    }
    p
}
/// coordinates in the caller's units
pub struct Units { k: f64, sx: f64, sy: f64 }
impl Units {
    pub fn gen<T: Fl>(s: &mut Src, e: i64) -> Units {
        let k = match s.raw(4) { 0 | 1 => 1.0, 2 => 2f64.powi(s.zrange(-30, 30) as i32), _ => (0.5 + s.unit()) * 10f64.powi(s.zrange(-6, 6) as i32) };
        let m = if T::F32 { 4 * e } else { e * 10_000 };
        let (sx, sy) = if s.bool() { (0.0, 0.0) } else { (s.zrange(-m, m) as f64, s.zrange(-m, m) as f64) };
        Units { k, sx, sy }
    }
    pub fn pt<T: Fl>(&self, p: kit::geo::Pt) -> [T; 2] { [T::of((p.0 as f64 + self.sx) * self.k), T::of((p.1 as f64 + self.sy) * self.k)] }
    pub fn len(&self, l: f64) -> f64 { l * self.k }
}
pub fn bbox(pts: &[V]) -> [f64; 4] { pts.iter().fold([f64::MAX, f64::MAX, f64::MIN, f64::MIN], |b, p| [b[0].min(p[0]), b[1].min(p[1]), b[2].max(p[0]), b[3].max(p[1])]) }
/// grid size and rounding of an operation on these points with everything added within `ext` of them
pub fn env<T: Fl>(pts: &[V], ext: f64) -> Env {
    let b = bbox(pts);
    let half = 0.5 * (b[2] - b[0]).max(b[3] - b[1]) + ext;
    let m = pts.iter().map(|p| p[0].abs().max(p[1].abs())).fold(0.0, f64::max) + ext;
    let eps = if T::F32 { f32::EPSILON as f64 } else { f64::EPSILON };
    Env { grid: half * 2f64.powi(-28) + eps * m, eps }
}
/// points where the pieces decide: around their corners and edges, and anywhere
pub fn probe(s: &mut Src, prims: &[&Prim], bb: [f64; 4], grid: f64) -> V {
    let r = |s: &mut Src| s.unit() * 2.0 - 1.0;
    if s.chance(1, 3) || prims.is_empty() {
        let (w, h) = (bb[2] - bb[0], bb[3] - bb[1]);
        return [bb[0] - 0.1 * w + 1.2 * w * s.unit(), bb[1] - 0.1 * h + 1.2 * h * s.unit()];
    }
    let q = s.pick(prims);
    let c = if s.bool() { &q.inner } else { q.outer.as_ref().unwrap_or(&q.inner) };
    let i = s.usize(0, c.len() - 1);
    let (a, b) = (c[i], c[(i + 1) % c.len()]);
    let t = if s.chance(1, 4) { 0.0 } else { s.unit() };
    let m = add(a, mul(sub(b, a), t));
    // a step off the edge, from just beyond the tolerance to the size of the piece
    let size = len(sub(c[0], c[c.len() / 2])).max(4.0 * q.tol);
    let d = match s.raw(3) { 0 => 1.5 * q.tol, 1 => size * 2f64.powi(-(s.range(1, 12) as i32)), _ => grid * 64.0 };
    [m[0] + d * r(s), m[1] + d * r(s)]
}
pub fn out_winding<T: Fl>(out: &[Vec<V>], dir: ContourDirection, p: V) -> i32 {
    let w: i32 = out.iter().map(|c| kit::geo::winding_f(c, p)).sum();
    if dir == CCW { w } else { -w }
}
pub fn flatf<T: Fl>(o: &Sh<T>) -> Vec<Vec<V>> { o.iter().flatten().map(|c| vs(c)).collect() }
pub fn check_dirs<T: Fl>(o: &Sh<T>, dir: ContourDirection, slack: f64, tol: f64) -> Result<(), String> {
    for sh in o {
        ensure!(!sh.is_empty(), "empty shape in the result");
        for (i, c) in sh.iter().enumerate() {
            ensure!(c.len() >= 3, "contour of {} points", c.len());
            let a = kit::geo::area_f(&vs(c));
            if a.abs() > slack { ensure!((a > 0.0) == ((i == 0) == (dir == CCW)), "contour {} ({}) runs the wrong way: {:?}", i, if i == 0 { "outer" } else { "hole" }, c); }
        }
        // holes lie within their own outer contour
        let outer = vs(&sh[0]);
        for c in &sh[1..] { for p in vs(c) { ensure!(dist(&outer, p) <= tol || kit::geo::winding_f(&outer, p) != 0, "hole {:?} leaves its outer contour {:?} at {:?}", c, outer, p); } }
    }
    Ok(())
}
struct Case<T: Fl> { paths: Vec<C<T>>, closed: bool, width: T, join: Join, caps: [Cap; 2], dir: ContourDirection, clean: bool }
impl<T: Fl> Case<T> {
    fn gen(s: &mut Src) -> Case<T> {
        let e = *s.pick(&[4i64, 20, 100, 1000, 40_000]);
        let n = if s.chance(2, 3) { 1 } else { s.usize(2, 3) };
        let pts: Vec<Vec<kit::geo::Pt>> = (0..n).map(|_| gen_path(s, e)).collect();
        let u = Units::gen::<T>(s, e);
        let w = match s.raw(3) { 0 => s.range(1, 2 * e) as f64, 1 => e as f64 * (0.01 + s.unit()), _ => e as f64 * 10f64.powf(s.unit() * 3.0 - 2.0) };
        let join = gen_join(s);
        let c0 = gen_cap(s);
        let c1 = if s.chance(1, 3) { c0.clone() } else { gen_cap(s) };
        Case { paths: pts.iter().map(|c| c.iter().map(|&p| u.pt(p)).collect()).collect(), closed: s.bool(), width: T::of(u.len(w)), join, caps: [c0, c1], dir: if s.bool() { CCW } else { CW }, clean: s.bool() }
    }
    fn style(&self) -> StrokeStyle<[T; 2], T> { StrokeStyle::new(self.width).line_join(line_join(self.join)).start_cap(line_cap(&self.caps[0])).end_cap(line_cap(&self.caps[1])) }
    fn run(&self) -> Sh<T> { self.paths.stroke_custom(self.style(), self.closed, self.dir, self.filter()) }
    fn filter(&self) -> ContourFilter<T> { ContourFilter { min_area: T::of(0.0), simplify_contour: false, clean_result: self.clean } }
    fn show(&self) -> String { format!("{} paths {:?} closed {} width {:?} {:?} caps {:?} {:?} clean {}", std::any::type_name::<T>(), self.paths, self.closed, self.width, self.join, self.caps, self.dir, self.clean) }
    fn model(&self) -> (Vec<Prim>, Env) {
        let r = 0.5 * self.width.f();
        let mut ext = 1.5 * r;
        if let Join::Miter(a) = self.join { ext = ext.max(1.2 * r / (0.5 * a.clamp(0.01 * PI, 0.99 * PI)).sin()); }
        for c in &self.caps { if let Cap::Custom(q) = c { for p in q { ext = ext.max(4.0 * r * (p[0].abs() + p[1].abs())); } } }
        let pts: Vec<V> = self.paths.iter().flatten().map(v).collect();
        let e = env::<T>(&pts, ext);
        let mut prims = vec![];
        for p in &self.paths { stroke_prims(&e, &vs(p), self.closed, r, self.join, [&self.caps[0], &self.caps[1]], &mut prims); }
        (prims, e)
    }
}
fn band<T: Fl>(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = Case::<T>::gen(s);
    cx.desc(|| c.show());
    let (prims, e) = c.model();
    let o = c.run();
    cx.nontrivial(!prims.is_empty());
    cx.label_if(c.closed, "closed");
    cx.label(match c.join { Join::Bevel => "bevel", Join::Miter(_) => "miter", Join::Round(_) => "round" });
    if prims.is_empty() { ensure!(o.is_empty(), "paths without a segment give {:?}", o); return Ok(()); }
    let all: Vec<V> = prims.iter().flat_map(|p| p.inner.iter().chain(p.outer.iter().flatten())).copied().collect();
    let bb = bbox(&all);
    let out = flatf(&o);
    check_dirs(&o, c.dir, 64.0 * e.grid * (bb[2] - bb[0] + bb[3] - bb[1]), 64.0 * e.grid)?;
    let refs: Vec<&Prim> = prims.iter().collect();
    let (mut ins, mut outs) = (0, 0);
    for _ in 0..60 {
        let p = probe(s, &refs, bb, e.grid);
        let (lo, hi) = range(&prims, p);
        if lo <= 0 && hi > 0 { continue; }
        // close to the result's own boundary only rounding decides, but that is covered by the pieces' tolerance
        let w = out_winding::<T>(&out, c.dir, p);
        if lo > 0 { ins += 1; ensure!(w == 1, "{:?} lies in the band (in {} pieces), the result {:?} winds {} times around it", p, lo, o, w); }
        else { outs += 1; ensure!(w == 0, "{:?} lies outside the band, joins and caps, the result {:?} winds {} times around it", p, o, w); }
    }
    cx.label_if(ins > 0 && outs > 0, "points on both sides");
    Ok(())
}
fn band_f64(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { band::<f64>(s, cx) }
fn band_f32(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { band::<f32>(s, cx) }

/// lattice points as floats, centred so that the adapter's grid is a refinement of the lattice
pub struct Centred { pub u: f64, cx: f64, cy: f64 }
impl Centred {
    pub fn new<'a>(s: &mut Src, pts: impl Iterator<Item = &'a L>) -> Centred {
        let (mut x0, mut y0, mut x1, mut y1) = (i32::MAX, i32::MAX, i32::MIN, i32::MIN);
        for p in pts { x0 = x0.min(p.0); y0 = y0.min(p.1); x1 = x1.max(p.0); y1 = y1.max(p.1); }
        Centred { u: 2f64.powi(s.zrange(-40, 40) as i32), cx: (x0 + x1) as f64 * 0.5, cy: (y0 + y1) as f64 * 0.5 }
    }
    pub fn pt(&self, p: L) -> [f64; 2] { [(p.0 as f64 - self.cx) * self.u, (p.1 as f64 - self.cy) * self.u] }
    pub fn back(&self, o: &Sh<f64>) -> Result<Vec<Vec<LPath>>, String> {
        let f = |x: f64, c: f64| { let q = x / self.u + c; if (q - q.round()).abs() > 1e-6 { Err(format!("output coordinate {} is not a vertex of the arrangement (lattice {})", x, q)) } else { Ok(q.round() as i32) } };
        o.iter().map(|s| s.iter().map(|c| c.iter().map(|p| Ok((f(p[0], self.cx)?, f(p[1], self.cy)?))).collect()).collect()).collect()
    }
}
pub fn ccw(mut c: LPath) -> LPath { if area2l(&c) < 0 { c.reverse(); } c }
pub fn la(a: L, b: L) -> L { (a.0 + b.0, a.1 + b.1) }
pub fn lm(a: L, k: i32) -> L { (a.0 * k, a.1 * k) }
pub fn ldir(a: L, b: L) -> L { (sgni(b.0 - a.0), sgni(b.1 - a.1)) }
/// the wedge of a right-angled turn from d0 to d1 at v on its outer side
pub fn lwedge(v: L, d0: L, d1: L, r: i32, miter: bool) -> Option<(LPath, bool)> {
    let c = d0.0 * d1.1 - d0.1 * d1.0;
    if c == 0 { return None; }
    let n = |d: L| if c > 0 { (d.1, -d.0) } else { (-d.1, d.0) };
    let (a, b) = (la(v, lm(n(d0), r)), la(v, lm(n(d1), r)));
    Some((ccw(if miter { vec![v, a, la(a, lm(d0, r)), b] } else { vec![v, a, b] }), c > 0))
}
fn lattice(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    // now and then thousands of segments, or the same paths hundreds of times
    let big = s.chance(1, 150);
    let g = if big { s.range(40, 90) } else { s.range(6, 14) };
    let r = s.range(1, 3) as i32; // cells; twice that in lattice units
    let n = if s.chance(2, 3) { 1 } else { 2 };
    let m = 3 * r + 1;
    let mut paths: Vec<LPath> = (0..n).map(|_| {
        let mut p: Vec<(i64, i64)> = vec![(s.range(0, g), s.range(0, g))];
        let mut k = kit::Rng::new(if big { s.raw(1 << 60) } else { 0 });
        for _ in 0..if big { s.usize(300, 1500) } else { s.usize(1, 8) } {
            let (x, y) = p[p.len() - 1];
            let mut z = |lo: i64, hi: i64| if big { lo + (k.next() % (hi - lo + 1) as u64) as i64 } else { s.zrange(lo, hi) };
            let far = if z(0, 1) == 1 { g } else { 2 };
            let q = if z(0, 1) == 1 { ((x + z(-far, far)).clamp(0, g), y) } else { (x, (y + z(-far, far)).clamp(0, g)) };
            p.push(q);
        }
        p.iter().map(|q| (2 * (q.0 as i32 + m), 2 * (q.1 as i32 + m))).collect()
    }).collect();
    if s.chance(1, 100) { let p = paths[0].clone(); for _ in 0..s.usize(1, 300) { paths.push(p.clone()); } }
    let mut closed = s.bool();
    let miter = s.bool();
    let join = if miter { Join::Miter(0.05 + 1.45 * s.unit()) } else { Join::Bevel };
    let mut cap = |s: &mut Src| match s.raw(7) { 0 => Cap::Butt, 1 => Cap::Square, 2 => Cap::Custom(vec![[1.0, 0.0]]), 3 => Cap::Custom(vec![[-1.0, 0.0]]), 4 => Cap::Custom(vec![[2.0, -1.0], [2.0, 1.0]]), 5 => Cap::Custom(vec![[0.0, -2.0], [2.0, 0.0], [0.0, 2.0]]), _ => Cap::Custom(vec![]) };
    let caps = [cap(s), cap(s)];
    let dir = if s.bool() { CCW } else { CW };
    // a closed path whose closing segment is oblique stays open
    if paths.iter().any(|p| { let (a, b) = (p[0], p[p.len() - 1]); a.0 != b.0 && a.1 != b.1 }) { closed = false; }
    let cn = Centred::new(s, paths.iter().flatten());
    let (w, h) = (g as i32 + 2 * m, g as i32 + 2 * m);
    cx.label_if(big, "hundreds of segments");
    cx.desc(|| format!("lattice paths {} (times {}) half width {} closed {} {:?} caps {:?} {:?}", if big { format!("of {:?} points", paths.iter().map(|p| p.len()).collect::<Vec<_>>()) } else { format!("{:?}", paths) }, cn.u, 2 * r, closed, join, caps, dir));
    let mut loops: Vec<LPath> = vec![];
    for p in &paths {
        let mut p = p.clone();
        p.dedup();
        if closed { while p.len() > 1 && p[0] == p[p.len() - 1] { p.pop(); } }
        if p.len() < 2 { continue; }
        let n = p.len();
        let k = if closed { n } else { n - 1 };
        for i in 0..k {
            let (a, b) = (p[i], p[(i + 1) % n]);
            let d = ldir(a, b);
            let t = lm((-d.1, d.0), 2 * r);
            loops.push(ccw(vec![la(a, t), la(b, t), la(b, lm(t, -1)), la(a, lm(t, -1))]));
            if i + 1 < k || closed { loops.extend(lwedge(b, d, ldir(b, p[(i + 2) % n]), 2 * r, miter).map(|x| x.0)); }
        }
        if !closed {
            for (c, at, d) in [(&caps[0], p[0], ldir(p[1], p[0])), (&caps[1], p[n - 1], ldir(p[n - 2], p[n - 1]))] {
                let q = match c { Cap::Butt => vec![], Cap::Square => vec![[1.0, -1.0], [1.0, 1.0]], Cap::Custom(q) => q.clone(), _ => unreachable!() };
                let t = (-d.1, d.0);
                let f = |q: [f64; 2]| la(at, la(lm(d, (q[0] * 2.0) as i32 * r), lm(t, (q[1] * 2.0) as i32 * r)));
                let mut l = vec![f([0.0, -1.0])];
                l.extend(q.iter().map(|&q| f(q)));
                l.push(f([0.0, 1.0]));
                loops.push(l);
            }
        }
    }
    let want = fill_of(&Field::from_contours(w, h, &loops).windings(), i_overlay::core::fill_rule::FillRule::Positive);
    let input: Vec<C<f64>> = paths.iter().map(|p| p.iter().map(|&q| cn.pt(q)).collect()).collect();
    let style = StrokeStyle::new((4 * r) as f64 * cn.u).line_join(line_join(join)).start_cap(line_cap(&caps[0])).end_cap(line_cap(&caps[1]));
    let o = input.stroke_custom(style, closed, dir, Default::default());
    cx.nontrivial(count(&want) > 0);
    cx.label_if(closed, "closed");
    let shapes = cn.back(&o).map_err(|m| format!("{}; output {:?}", m, o))?;
    check_boundary(w, h, &shapes, &want, dir == CCW).map_err(|m| format!("{}; output {:?}", m, shapes))?;
    let (lab, n) = components(w as usize, h as usize, &want, None);
    cx.label_if(shapes.iter().any(|s| s.len() > 1), "with a hole");
    check_shapes(w, h, &shapes, &lab, n, dir == CCW)
}
/// defaults, setters, sizes that draw nothing
fn styles<T: Fl>(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = Case::<T>::gen(s);
    let k = s.raw(6);
    cx.desc(|| format!("{} check {}", c.show(), k));
    let plain = |st: StrokeStyle<[T; 2], T>| c.paths.stroke_custom(st, c.closed, CCW, Default::default());
    let o = c.paths.stroke(c.style(), c.closed);
    cx.nontrivial(!o.is_empty());
    match k {
        0 => ensure!(o == plain(c.style()), "stroke differs from stroke_custom with its documented defaults"),
        1 => {
            let lit = StrokeStyle { width: c.width, start_cap: LineCap::Butt, end_cap: LineCap::Butt, join: LineJoin::Bevel };
            let x = c.paths.stroke(lit, c.closed);
            ensure!(x == c.paths.stroke(StrokeStyle::new(c.width), c.closed), "StrokeStyle::new does not give butt caps and bevel joins");
            ensure!(x == c.paths.stroke(StrokeStyle::default().width(c.width), c.closed), "StrokeStyle::default().width() differs from StrokeStyle::new");
        }
        2 => {
            // without the setters the angles are limited all the same
            let lit = StrokeStyle { width: c.width, start_cap: line_cap(&c.caps[0]), end_cap: line_cap(&c.caps[1]), join: line_join(c.join) };
            ensure!(o == c.paths.stroke(lit, c.closed), "a style written out differs from the same style built by its setters");
        }
        3 => for w in [T::of(0.0), T::of(-c.width.f())] {
            let st = StrokeStyle { width: w, ..c.style() };
            let x = c.paths.stroke(st, c.closed);
            ensure!(x.is_empty(), "width {:?} gives {:?}", w, x);
            let x = c.paths.stroke(c.style().width(w), c.closed);
            ensure!(x.is_empty(), "width({:?}) gives {:?}", w, x);
        },
        4 => {
            // a minimal area drops the contours below it
            let f0 = ContourFilter { min_area: T::of(0.0), simplify_contour: true, clean_result: false };
            let full = c.paths.stroke_custom(c.style(), c.closed, c.dir, f0);
            if full.is_empty() { return Ok(()); }
            let areas: Vec<f64> = full.iter().flatten().map(|x| kit::geo::area_f(&vs(x)).abs()).collect();
            let min = s.pick(&areas) * if s.bool() { 0.9 } else { 1.1 };
            let (_, e) = c.model();
            // the library measures on its grid, here the rounded output is measured
            let slack = |x: &C<T>| 8.0 * e.grid * (1.0 + (0..x.len()).map(|i| len(sub(v(&x[i]), v(&x[(i + 1) % x.len()])))).sum::<f64>());
            if full.iter().flatten().any(|x| (kit::geo::area_f(&vs(x)).abs() - min).abs() <= slack(x) + 1e-5 * min) { cx.label("too close"); return Ok(()); }
            let got = c.paths.stroke_custom(c.style(), c.closed, c.dir, ContourFilter { min_area: T::of(min), ..f0 });
            let keep = |x: &C<T>| kit::geo::area_f(&vs(x)).abs() >= min;
            let want: Sh<T> = full.iter().filter(|sh| keep(&sh[0])).map(|sh| sh.iter().filter(|x| keep(x)).cloned().collect()).collect();
            cx.label_if(want != full, "minimal area drops a contour");
            ensure!(got == want, "min_area {}: got {:?}, the full result is {:?}", min, got, full);
        }
        _ => {
            // each contour of the reversed direction is the same contour run backwards
            let x = c.paths.stroke_custom(c.style(), c.closed, CW, Default::default());
            let norm = |o: &Sh<T>, flip: bool| -> Vec<Vec<Vec<[u64; 2]>>> {
                let mut v: Vec<Vec<Vec<[u64; 2]>>> = o.iter().map(|s| { let mut cs: Vec<Vec<[u64; 2]>> = s.iter().map(|c| { let mut q: Vec<[u64; 2]> = c.iter().map(|p| [p[0].f().to_bits(), p[1].f().to_bits()]).collect(); if flip { q.reverse(); } let m = (0..q.len()).min_by_key(|&i| q[i]).unwrap_or(0); q.rotate_left(m); q }).collect(); if cs.len() > 1 { cs[1..].sort(); } cs }).collect();
                v.sort();
                v
            };
            // contours that visit a point twice may be taken apart differently
            let twice = |o: &Sh<T>| o.iter().flatten().any(|c| { let mut v: Vec<[u64; 2]> = c.iter().map(|p| [p[0].f().to_bits(), p[1].f().to_bits()]).collect(); v.sort(); v.windows(2).any(|w| w[0] == w[1]) });
            let mut seen = std::collections::HashSet::new();
            let touch = o.iter().flatten().flatten().any(|p| !seen.insert([p[0].f().to_bits(), p[1].f().to_bits()]));
            // so may contours that touch an edge
            let f = flatf(&o);
            let tee = || { let b: Vec<V> = f.iter().flatten().copied().collect(); let tol = 64.0 * env::<T>(&b, 0.0).grid; f.iter().enumerate().any(|(i, c)| c.iter().enumerate().any(|(k, p)| f.iter().enumerate().any(|(j, d)| { let n = d.len(); (0..n).any(|l| !(i == j && (k == l || k == (l + 1) % n)) && kit::geo::dist_seg_f(*p, d[l], d[(l + 1) % n]) <= tol) }))) };
            if !touch && !twice(&o) && !tee() { ensure!(norm(&o, false) == norm(&x, true), "clockwise result {:?} is not the reverse of the counterclockwise one {:?}", x, o); }
        }
    }
    Ok(())
}
fn styles_f64(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { styles::<f64>(s, cx) }
fn styles_f32(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { styles::<f32>(s, cx) }

pub fn property() -> Property {
    Property { id: "C13", components: vec![
        Component { name: "band_f64", quick: 250_000, thorough: 1_500_000, rule: "1 to 3 paths (sharp turns, reversals, repeated points, short segments), open or closed, every join and cap, stroked in f64; 60 points around the edges of the band, its joins and caps and anywhere, each decided against the union of the segments' rectangles, the joins' wedges and the caps; non-trivial: some path has a segment", run: band_f64 },
        Component { name: "band_f32", quick: 200_000, thorough: 1_500_000, rule: "the same in f32", run: band_f32 },
        Component { name: "lattice", quick: 200_000, thorough: 3_000_000, rule: "rectilinear paths on a lattice with miter or bevel joins and butt, square and custom caps: the exact boundary, the shapes and their holes, contour directions; non-trivial: the stroke covers something", run: lattice },
        Component { name: "styles_f64", quick: 100_000, thorough: 600_000, rule: "defaults and setters, unlimited angles, widths of zero and below, the other direction; non-trivial: the stroke is not empty", run: styles_f64 },
        Component { name: "styles_f32", quick: 60_000, thorough: 600_000, rule: "the same in f32", run: styles_f32 },
    ] }
}
