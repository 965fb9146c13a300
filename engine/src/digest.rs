//! Operations drawn from a tape and the digests of their outputs; compiled into the engine and into /verif/plain.
use crate::common::*;
use crate::lat::*;
use crate::util::*;
use i_overlay::core::simplify::Simplify;
use i_overlay::float::clip::FloatClip;
use i_overlay::float::filter::ContourFilter;
use i_overlay::float::overlay::FloatOverlay;
use i_overlay::float::simplify::SimplifyShape;
use i_overlay::float::slice::FloatSlice;
use i_overlay::i_float::int::point::IntPoint;
use i_overlay::i_shape::int::shape::IntContour;
use i_overlay::mesh::outline::offset::OutlineOffset;
use i_overlay::mesh::stroke::offset::StrokeOffset;
use i_overlay::mesh::style::{LineCap, LineJoin, OutlineStyle, StrokeStyle};
use i_overlay::string::clip::{ClipRule, IntClip};
use i_overlay::string::slice::IntSlice;
use kit::Src;

struct H(u64);
impl H {
    fn new() -> H { H(0xcbf29ce484222325) }
    fn u(&mut self, v: u64) { self.0 = (self.0 ^ v).wrapping_mul(0x9E3779B97F4A7C15); self.0 ^= self.0 >> 29; }
    fn int(&mut self, o: &[Vec<IntContour>]) { self.u(o.len() as u64); for s in o { self.paths(s); } }
    fn paths(&mut self, s: &[IntContour]) { self.u(s.len() as u64); for c in s { self.u(c.len() as u64); for p in c { self.pt(p); } } }
    fn pt(&mut self, p: &IntPoint) { self.u(p.x as u32 as u64 | (p.y as u32 as u64) << 32); }
    fn float(&mut self, o: &[Vec<Vec<[f64; 2]>>]) { self.u(o.len() as u64); for s in o { self.fpaths(s); } }
    fn fpaths(&mut self, s: &[Vec<[f64; 2]>]) { self.u(s.len() as u64); for c in s { self.u(c.len() as u64); for p in c { self.u(p[0].to_bits()); self.u(p[1].to_bits()); } } }
}

pub fn empty() -> u64 { let mut h = H::new(); h.int(&[]); h.0 }

/// (subject, clip, large, all edges run along a lattice)
fn input(s: &mut Src) -> (Vec<IntContour>, Vec<IntContour>, bool, bool) {
    match s.weighted(&[8, 4, 1]) {
        0 => { let c = GenCase::small(s, 4); (c.is, c.ic, false, false) }
        1 => { let c = LatCase::narrow(s, 24, 16); (c.is, c.ic, false, true) }
        _ => if s.chance(1, 30) { let c = LatCase::large(s, 2400); (c.is, c.ic, true, true) } else { let c = GenCase::cloud(s, 10, 120); (c.is, c.ic, true, false) },
    }
}
/// (name of the operation, digest of its output); `note` receives the description of the case
pub fn digest(s: &mut Src, note: &mut dyn FnMut(String)) -> Vec<(&'static str, u64)> {
    let (a, b, big, lattice) = input(s);
    let solver = if big { gen_solver_big(s) } else { gen_solver_prog(s) };
    let (fill, rule) = (*s.pick(&FILLS), *s.pick(&RULES));
    let dir = if s.bool() { CCW } else { CW };
    let (simp, min) = (s.bool(), if s.bool() { 0 } else { s.usize(1, 1000) });
    let n: usize = a.iter().chain(&b).map(|c| c.len()).sum();
    note(format!("{} {:?} {:?} {} {:?} simplify {} min_area {}", if n > 300 { format!("{} + {} contours", a.len(), b.len()) } else { format!("subject {} clip {}", show_i(&a), show_i(&b)) }, fill, rule, show_solver(&solver), dir, simp, min));
    let mut out = vec![];
    let mut h = H::new();
    h.int(&build(&a, &b).overlay_custom(rule, fill, dir, simp, min, solver));
    out.push(("overlay", h.0));
    let g = build(&a, &b).into_graph_with_solver(fill, solver);
    let mut h = H::new();
    h.int(&g.extract_shapes_custom(rule, dir, simp, min));
    out.push(("graph", h.0));
    let mut h = H::new();
    for v in build(&a, &b).into_separate_vectors(fill, solver) { h.pt(&v.a); h.pt(&v.b); h.u(v.fill as u64); }
    for sh in build(&a, &b).into_shape_vectors(fill, rule, solver) { h.u(sh.len() as u64); for p in sh { h.u(p.len() as u64); for v in p { h.pt(&v.a); h.pt(&v.b); h.u(v.fill as u64); } } }
    out.push(("vectors", h.0));
    let mut h = H::new();
    h.int(&a[..].simplify(fill, dir, simp, min));
    out.push(("simplify", h.0));
    if !big {
        let mut h = H::new();
        h.int(&a.slice_by_paths(&b, fill));
        out.push(("slice", h.0));
        let mut h = H::new();
        h.paths(&a.clip_paths(&b, fill, ClipRule { invert: s.bool(), boundary_included: s.bool() }));
        out.push(("clip", h.0));
    }
    if big && lattice { return out; }
    // floats: scaled by something that is no power of two, except where that would turn shared lines into stacks of nearly coincident ones (slow)
    let k = if lattice { *s.pick(&[1.0, 0.125, 1024.0]) } else { *s.pick(&[1.0, 0.1, 1e-7, 3.7e5]) / 3.0 };
    let fl = |v: &[IntContour]| -> Vec<Vec<[f64; 2]>> { v.iter().map(|c| c.iter().map(|p| [p.x as f64 * k, p.y as f64 * k]).collect()).collect() };
    let (fa, fb) = (fl(&a), fl(&b));
    let flt = ContourFilter { min_area: if min == 0 { 0.0 } else { min as f64 * k * k }, simplify_contour: simp, clean_result: s.bool() };
    let mut h = H::new();
    h.float(&FloatOverlay::with_subj_and_clip(&fa, &fb).overlay_custom(rule, fill, dir, flt, solver));
    out.push(("float overlay", h.0));
    if big { return out; }
    let mut h = H::new();
    h.float(&fa.simplify_shape(fill, dir, 0.0));
    h.float(&fa.slice_by(&fb, fill));
    h.fpaths(&fa.clip_by(&fb, fill, ClipRule { invert: s.bool(), boundary_included: s.bool() }));
    out.push(("float simplify, slice, clip", h.0));
    if lattice { return out; }
    let e = fa.iter().flatten().map(|p| p[0].abs().max(p[1].abs())).fold(0.0, f64::max).max(k);
    let r = e * (0.01 + 0.2 * s.unit());
    let j = s.raw(3);
    let lj = || match j { 0 => LineJoin::Bevel, 1 => LineJoin::Miter(0.4), _ => LineJoin::Round(0.3) };
    let cap = |k: u64| match k { 0 => LineCap::Butt, 1 => LineCap::Square, 2 => LineCap::Round(0.3), _ => LineCap::Custom(vec![[0.0, -1.0], [1.5, 0.2], [0.0, 1.0]]) };
    let (c0, c1, closed) = (s.raw(4), s.raw(4), s.bool());
    let mut h = H::new();
    h.float(&fa.stroke_custom(StrokeStyle::new(r).line_join(lj()).start_cap(cap(c0)).end_cap(cap(c1)), closed, dir, flt));
    out.push(("stroke", h.0));
    let sign = if s.bool() { 1.0 } else { -0.3 };
    let mut h = H::new();
    h.float(&fa.outline_custom(OutlineStyle::new(r * sign).line_join(lj()), dir, flt));
    out.push(("outline", h.0));
    out
}
