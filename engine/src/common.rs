//! Cases shared by several properties.
use crate::gen;
use crate::lat::*;
use crate::util::*;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::solver::{Precision, Solver};
use i_overlay::i_shape::int::shape::IntContour;
use kit::geo::*;
use kit::Src;

pub struct LatCase { pub w: i32, pub h: i32, pub subj: Vec<LPath>, pub clip: Vec<LPath>, pub q: Affine, pub is: Vec<IntContour>, pub ic: Vec<IntContour> }
impl LatCase {
    pub fn new(w: i32, h: i32, subj: Vec<LPath>, clip: Vec<LPath>, q: Affine) -> Self {
        let (is, ic) = (q.contours(&subj), q.contours(&clip));
        LatCase { w, h, subj, clip, q, is, ic }
    }
    pub fn small(s: &mut Src) -> Self { Self::sized(s, 8, 4) }
    pub fn sized(s: &mut Src, grid: i64, n: usize) -> Self {
        let (w, h) = (s.range(1, grid) as i32, s.range(1, grid) as i32);
        let (mut subj, mut clip) = (gen_contours(s, w, h, 1, n), gen_contours(s, w, h, 0, n));
        // now and then one contour lies many times over itself: large winding numbers
        if s.chance(1, 60) { let k = s.usize(2, 300); Self::pile(s, &mut subj, &mut clip, k); }
        let q = gen_affine(s, 2 * w.max(h) as i64);
        Self::new(w, h, subj, clip, q)
    }
    fn pile(s: &mut Src, subj: &mut Vec<LPath>, clip: &mut Vec<LPath>, k: usize) {
        let v = if s.bool() && !clip.is_empty() { clip } else { subj };
        let i = s.usize(0, v.len() - 1);
        let c = v[i].clone();
        for _ in 0..k { v.push(c.clone()); }
    }
    /// contours lying up to 70,000 times over themselves
    pub fn deep(s: &mut Src) -> Self {
        let (w, h) = (s.range(1, 6) as i32, s.range(1, 6) as i32);
        let mut subj = gen_contours(s, w, h, 1, 3);
        let mut clip = gen_contours(s, w, h, 0, 3);
        for _ in 0..s.usize(1, 3) {
            let m = *s.pick(&[127i64, 128, 255, 256, 300, 1 << 15, 1 << 16]);
            let k = (m + s.zrange(-2, 2)) as usize;
            Self::pile(s, &mut subj, &mut clip, k);
            if subj.len() + clip.len() > 70_000 { break; }
        }
        let q = gen_affine(s, 2 * w.max(h) as i64);
        Self::new(w, h, subj, clip, q)
    }
    /// tens of thousands of contours
    pub fn huge(s: &mut Src) -> Self {
        let g = s.range(180, 300) as i32;
        let n = s.usize(15_000, 40_000);
        let max = s.range(1, 3) as i32;
        let subj = gen_many(s, g, g, n, max);
        let m = s.usize(0, n / 2);
        let clip = gen_many(s, g, g, m, max);
        let q = gen_affine(s, 2 * g as i64);
        Self::new(g, g, subj, clip, q)
    }
    /// extent below 2^27 or so: exact in f64 through the float adapter
    pub fn narrow(s: &mut Src, grid: i64, n: usize) -> Self {
        let (w, h) = (s.range(1, grid) as i32, s.range(1, grid) as i32);
        let subj = gen_contours(s, w, h, 1, n);
        let clip = gen_contours(s, w, h, 0, n);
        let q = gen_affine(s, 16 * w.max(h) as i64);
        Self::new(w, h, subj, clip, q)
    }
    pub fn medium(s: &mut Src) -> Self { Self::sized(s, 24, 16) }
    /// thousands of contours; enough edges to pass the strategy thresholds
    pub fn large(s: &mut Src, max_contours: usize) -> Self {
        let g = s.range(50, 110) as i32;
        let n = s.usize(max_contours / 8, max_contours);
        let max = s.range(1, 6) as i32;
        let subj = gen_many(s, g, g, n, max);
        let m = s.usize(0, n);
        let mut clip = gen_many(s, g, g, m, max);
        // a few long contours across the whole grid
        for _ in 0..s.usize(0, 4) { let c = gen_contour(s, g, g, &[]); clip.push(c); }
        let q = gen_affine(s, 2 * g as i64);
        Self::new(g, g, subj, clip, q)
    }
    pub fn fill_subj(&self, r: FillRule) -> Fill { fill_of(&Field::from_contours(self.w, self.h, &self.subj).windings(), fill_dir(r, &self.q)) }
    pub fn fill_clip(&self, r: FillRule) -> Fill { fill_of(&Field::from_contours(self.w, self.h, &self.clip).windings(), fill_dir(r, &self.q)) }
    pub fn ccw(&self, dir: i_overlay::core::overlay::ContourDirection) -> bool { (dir == CCW) == (self.q.det() > 0) }
    pub fn show(&self) -> String {
        let n: usize = self.is.iter().chain(&self.ic).map(|c| c.len()).sum();
        if n > 400 { return format!("lattice {}x{}, {} subject and {} clip contours, {} points, map {:?}{}", self.w, self.h, self.is.len(), self.ic.len(), n, self.q, if self.w > 24 { String::new() } else { format!(", distinct contours: subject {:?} clip {:?}", runs(&self.subj), runs(&self.clip)) }); }
        format!("subject {} clip {}", show_i(&self.is), show_i(&self.ic))
    }
    pub fn edges(&self) -> usize { self.is.iter().chain(&self.ic).map(|c| c.len()).sum() }
}

pub struct GenCase { pub e: i64, pub subj: Vec<Vec<Pt>>, pub clip: Vec<Vec<Pt>>, pub is: Vec<IntContour>, pub ic: Vec<IntContour> }
impl GenCase {
    pub fn new(e: i64, subj: Vec<Vec<Pt>>, clip: Vec<Vec<Pt>>) -> Self { let (is, ic) = (to_ints(&subj), to_ints(&clip)); GenCase { e, subj, clip, is, ic } }
    pub fn small(s: &mut Src, n: usize) -> Self {
        match s.raw(10) { 8 => return Self::tiny(s, n), 9 => return Self::dense(s, n), _ => {} }
        let e = gen::gen_extent(s); let (a, b) = gen::gen_pair(s, e, n); Self::new(e, a, b)
    }
    /// pictures of a few units, where everything rounds
    pub fn tiny(s: &mut Src, n: usize) -> Self {
        let (w, h) = (s.range(1, 10), s.range(1, 10));
        let mk = |s: &mut Src, lo: usize| -> Vec<Vec<Pt>> { (0..s.small(lo, n)).map(|_| (0..s.usize(3, 8)).map(|_| (s.range(0, w), s.range(0, h))).collect()).collect() };
        let a = mk(s, 1);
        let b = mk(s, 0);
        Self::new(w.max(h), a, b)
    }
    /// few points shared by many edges, some of the points a unit apart or on (nearly) one line with two others
    pub fn dense(s: &mut Src, n: usize) -> Self {
        let e = gen::gen_extent(s);
        let mut pts: Vec<Pt> = (0..s.usize(3, 7)).map(|_| gen::rp(s, e)).collect();
        for _ in 0..s.usize(0, 5) {
            let (p, q) = (*s.pick(&pts), *s.pick(&pts));
            let (x, y) = if s.bool() { p } else { let k = s.range(1, 7); (p.0 + (q.0 - p.0) * k / 8, p.1 + (q.1 - p.1) * k / 8) };
            pts.push(((x + s.zrange(-1, 1)).clamp(-e, e), (y + s.zrange(-1, 1)).clamp(-e, e)));
        }
        let mk = |s: &mut Src, lo: usize| -> Vec<Vec<Pt>> { (0..s.usize(lo, n)).map(|_| (0..s.usize(3, 9)).map(|_| *s.pick(&pts)).collect()).collect() };
        let a = mk(s, 1);
        let b = mk(s, 0);
        Self::new(e, a, b)
    }
    pub fn cloud(s: &mut Src, lo: usize, hi: usize) -> Self {
        let e = *s.pick(&[2_000i64, 30_000, 1_000_000, 100_000_000, MAXC - 1]);
        let n = s.usize(lo, hi);
        // keep the expected number of crossings moderate
        let k = s.range(1, 4) as f64;
        let size = ((e as f64 * 2.0 / (n as f64).sqrt()) * k / 2.0).max(3.0) as i64;
        let subj = gen::gen_cloud(s, e, n, size.min(e));
        let m = s.usize(0, n);
        let clip = gen::gen_cloud(s, e, m, size.min(e));
        Self::new(e, subj, clip)
    }
    pub fn all(&self) -> Vec<Vec<Pt>> { self.subj.iter().chain(&self.clip).cloned().collect() }
    pub fn show(&self) -> String {
        let n: usize = self.is.iter().chain(&self.ic).map(|c| c.len()).sum();
        if n > 400 { return format!("cloud of {} subject and {} clip contours, extent {}", self.is.len(), self.ic.len(), self.e); }
        format!("subject {} clip {}", show_i(&self.is), show_i(&self.ic))
    }
}
/// any strategy and threading; precision with progression (without it termination is not promised, see DESIGN.md)
pub fn gen_solver_prog(s: &mut Src) -> Solver {
    let mut v = gen_solver(s);
    if v.precision == Precision::ABSOLUTE { v.precision = Precision::HIGH; }
    v
}

/// Spatial index over edges for distance and winding queries on large inputs.
pub struct EdgeGrid<'a> { cs: Vec<&'a Vec<Pt>>, x0: i64, y0: i64, cell: i64, nx: usize, ny: usize, rows: Vec<Vec<(u32, u32)>>, cells: Vec<Vec<(u32, u32)>> }
impl<'a> EdgeGrid<'a> {
    pub fn new(cs: &'a [Vec<Pt>]) -> Self {
        let v: Vec<&Vec<Pt>> = cs.iter().collect();
        let pts = cs.iter().flatten();
        let (mut x0, mut y0, mut x1, mut y1) = (i64::MAX, i64::MAX, i64::MIN, i64::MIN);
        let mut n = 0usize;
        for p in pts { x0 = x0.min(p.0); y0 = y0.min(p.1); x1 = x1.max(p.0); y1 = y1.max(p.1); n += 1; }
        if n == 0 { x0 = 0; y0 = 0; x1 = 0; y1 = 0; }
        let k = ((n as f64).sqrt().ceil() as i64).clamp(1, 200);
        let cell = (((x1 - x0).max(y1 - y0)) / k + 1).max(1);
        let (nx, ny) = (((x1 - x0) / cell + 1) as usize, ((y1 - y0) / cell + 1) as usize);
        let mut g = EdgeGrid { cs: v, x0, y0, cell, nx, ny, rows: vec![vec![]; ny], cells: vec![vec![]; nx * ny] };
        for (ci, c) in cs.iter().enumerate() {
            for i in 0..c.len() {
                let (a, b) = (c[i], c[(i + 1) % c.len()]);
                let (ya, yb) = (((a.1.min(b.1) - y0) / cell) as usize, ((a.1.max(b.1) - y0) / cell) as usize);
                let (xa, xb) = (((a.0.min(b.0) - x0) / cell) as usize, ((a.0.max(b.0) - x0) / cell) as usize);
                for r in ya..=yb {
                    g.rows[r].push((ci as u32, i as u32));
                    for q in xa..=xb { g.cells[r * nx + q].push((ci as u32, i as u32)); }
                }
            }
        }
        g
    }
    fn edge(&self, e: (u32, u32)) -> (Pt, Pt) { let c = self.cs[e.0 as usize]; (c[e.1 as usize], c[(e.1 as usize + 1) % c.len()]) }
    /// is any edge closer than r? (r at most a few cells)
    pub fn near(&self, p: Pt, r: f64) -> bool {
        let ri = r.ceil() as i64;
        let f = |v: i64, o: i64, n: usize| ((v - o).div_euclid(self.cell)).clamp(0, n as i64 - 1) as usize;
        let (xa, xb, ya, yb) = (f(p.0 - ri, self.x0, self.nx), f(p.0 + ri, self.x0, self.nx), f(p.1 - ri, self.y0, self.ny), f(p.1 + ri, self.y0, self.ny));
        for y in ya..=yb { for x in xa..=xb { for &e in &self.cells[y * self.nx + x] { let (a, b) = self.edge(e); if dist_seg(p, a, b) < r { return true; } } } }
        false
    }
    /// winding number; None on an edge
    pub fn winding(&self, p: Pt) -> Option<i32> {
        let r = (p.1 - self.y0).div_euclid(self.cell);
        if r < 0 || r >= self.ny as i64 { return Some(0); }
        let mut w = 0;
        for &e in &self.rows[r as usize] {
            let (a, b) = self.edge(e);
            if a == b { if a == p { return None; } continue; }
            if on_segment(p, a, b) { return None; }
            if a.1 <= p.1 { if b.1 > p.1 && cross(a, b, p) > 0 { w += 1; } } else if b.1 <= p.1 && cross(a, b, p) < 0 { w -= 1; }
        }
        Some(w)
    }
}
/// for large random inputs: the list strategy is quadratic there and left out
pub fn gen_solver_big(s: &mut Src) -> Solver {
    let mut v = gen_solver_prog(s);
    if v.strategy == i_overlay::core::solver::Strategy::List { v.strategy = i_overlay::core::solver::Strategy::Frag; }
    v
}
/// (copies, contour) of a list with repetitions
fn runs(v: &[LPath]) -> Vec<(usize, LPath)> {
    let mut m = std::collections::BTreeMap::<&LPath, usize>::new();
    for c in v { *m.entry(c).or_default() += 1; }
    m.into_iter().map(|(c, n)| (n, c.clone())).take(40).collect()
}
