//! The exact regime. Contours live on an even grid and use only horizontal, vertical and 45-degree edges, so all edges
//! run along a fixed triangulation (each 2x2 block cut by both diagonals) and every crossing is a lattice point.
//! An integer affine map then carries the lattice to arbitrary slopes and magnitudes while crossings stay integral.
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay_rule::OverlayRule;
use i_overlay::i_float::int::point::IntPoint;
use i_overlay::i_shape::int::shape::{IntContour, IntShapes};
use kit::geo::Pt;
use kit::Src;

pub type L = (i32, i32);

/// closed or open octilinear polyline on even lattice points
pub type LPath = Vec<L>;

#[derive(Clone, Copy, Debug)]
pub struct Affine { pub a: i64, pub b: i64, pub c: i64, pub d: i64, pub tx: i64, pub ty: i64 }
impl Affine {
    pub const ID: Affine = Affine { a: 1, b: 0, c: 0, d: 1, tx: 0, ty: 0 };
    pub fn det(&self) -> i64 { self.a * self.d - self.b * self.c }
    pub fn map(&self, p: L) -> Pt { (self.a * p.0 as i64 + self.b * p.1 as i64 + self.tx, self.c * p.0 as i64 + self.d * p.1 as i64 + self.ty) }
    pub fn ip(&self, p: L) -> IntPoint { let q = self.map(p); IntPoint::new(q.0 as i32, q.1 as i32) }
    pub fn inv(&self, p: Pt) -> Option<L> {
        let det = self.det() as i128;
        let (x, y) = ((p.0 - self.tx) as i128, (p.1 - self.ty) as i128);
        let u = self.d as i128 * x - self.b as i128 * y;
        let v = -(self.c as i128) * x + self.a as i128 * y;
        if u % det != 0 || v % det != 0 { return None; }
        Some(((u / det) as i32, (v / det) as i32))
    }
    pub fn contour(&self, c: &[L]) -> IntContour { c.iter().map(|&p| self.ip(p)).collect() }
    pub fn contours(&self, cs: &[LPath]) -> Vec<IntContour> { cs.iter().map(|c| self.contour(c)).collect() }
}

pub const MAXC: i64 = (1 << 30) - 1;

/// an affine map that keeps lattice coordinates 0..=m (both axes) below 2^30 in magnitude
pub fn gen_affine(s: &mut Src, m: i64) -> Affine {
    let m = m.max(2);
    match s.weighted(&[3, 3, 3, 4, 2]) {
        0 => Affine::ID,
        1 => {
            // uniform scale with an axis symmetry and a shift
            let lim = (MAXC / 4 / m).max(1);
            let k = 1i64 << s.range(0, 24);
            let k = (k + s.range(0, k)).min(lim);
            let (a, b, c, d) = *s.pick(&[(1, 0, 0, 1), (-1, 0, 0, 1), (1, 0, 0, -1), (-1, 0, 0, -1), (0, 1, 1, 0), (0, -1, 1, 0), (0, 1, -1, 0), (0, -1, -1, 0)]);
            with_shift(s, Affine { a: a * k, b: b * k, c: c * k, d: d * k, tx: 0, ty: 0 }, m)
        }
        2 => {
            // small matrix: tight geometry, neighbouring lines a unit or less apart
            loop_affine(s, m, 5)
        }
        3 => {
            let e = 1i64 << s.range(3, 28);
            loop_affine(s, m, e.min(MAXC / 2 / m / 2).max(2))
        }
        _ => {
            // the largest extent allowed, centred
            let k = MAXC / m;
            let (e, f) = (s.range(0, k - 1), s.range(0, k - 1));
            let (a, b, c, d) = *s.pick(&[(1i64, 1i64, 1i64, -1i64), (1, -1, 1, 1), (-1, 1, 1, 1), (1, 1, -1, 1)]);
            let mut q = Affine { a: a * e, b: b * (k - e), c: c * f, d: d * (k - f), tx: 0, ty: 0 };
            if q.det() == 0 { q = Affine { a: k, b: 0, c: 0, d: -k, tx: 0, ty: 0 }; }
            with_shift(s, q, m)
        }
    }
}
fn loop_affine(s: &mut Src, m: i64, e: i64) -> Affine {
    let e = e.min(MAXC / 2 / m / 2).max(1);
    let (a, b, c, d) = (s.zrange(-e, e), s.zrange(-e, e), s.zrange(-e, e), s.zrange(-e, e));
    let mut q = Affine { a, b, c, d, tx: 0, ty: 0 };
    if q.det() == 0 { q.a += 1; }
    if q.det() == 0 { q.d += 1; }
    if q.det() == 0 { q = Affine { a: e, b: 0, c: 0, d: e, tx: 0, ty: 0 }; }
    with_shift(s, q, m)
}
fn with_shift(s: &mut Src, mut q: Affine, m: i64) -> Affine {
    let ext = |u: i64, v: i64| (0.min(u * m) + 0.min(v * m), 0.max(u * m) + 0.max(v * m));
    let (x0, x1) = ext(q.a, q.b);
    let (y0, y1) = ext(q.c, q.d);
    let mut shift = |lo: i64, hi: i64| -> i64 {
        let (a, b) = (-MAXC - lo, MAXC - hi);
        if a >= b { return a; }
        match s.weighted(&[2, 2, 1, 1, 3]) { 0 => 0i64.clamp(a, b), 1 => (-(lo + hi) / 2).clamp(a, b), 2 => a, 3 => b, _ => s.range(a, b) }
    };
    q.tx = shift(x0, x1);
    q.ty = shift(y0, y1);
    q
}

// ------------------------------------------------------------ generators (even coordinates 0..=2w, 0..=2h)

pub fn sgni(v: i32) -> i32 { v.signum() }

/// octilinear connection a -> b, as intermediate points after a (b included)
pub fn connect(s: &mut Src, a: L, b: L, out: &mut LPath) {
    if a == b { return; }
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    if dx != 0 && dy != 0 && dx.abs() != dy.abs() {
        let mid = match s.raw(4) {
            0 => (a.0 + dx, a.1),
            1 => (a.0, a.1 + dy),
            2 => { let k = dx.abs().min(dy.abs()); (a.0 + sgni(dx) * k, a.1 + sgni(dy) * k) }
            _ => { let k = dx.abs().min(dy.abs()); (b.0 - sgni(dx) * k, b.1 - sgni(dy) * k) }
        };
        if mid != a && mid != b { out.push(mid); }
    }
    out.push(b);
}

pub fn rpt(s: &mut Src, w: i32, h: i32) -> L { (2 * s.range(0, w as i64) as i32, 2 * s.range(0, h as i64) as i32) }

/// a rectangle, diamond, triangle or octagon within the grid; direction chosen
pub fn gen_block(s: &mut Src, w: i32, h: i32) -> LPath {
    let a = rpt(s, w, h);
    let b = rpt(s, w, h);
    let (x0, x1) = (a.0.min(b.0), a.0.max(b.0));
    let (y0, y1) = (a.1.min(b.1), a.1.max(b.1));
    let mut c = match s.weighted(&[6, 2, 2, 1]) {
        0 => vec![(x0, y0), (x1, y0), (x1, y1), (x0, y1)],
        1 => {
            // diamond with even radius
            let r = ((x1 - x0).min(y1 - y0) / 4) * 2;
            let (cx, cy) = (x0 + r, y0 + r);
            vec![(cx - r, cy), (cx, cy - r), (cx + r, cy), (cx, cy + r)]
        }
        2 => {
            let k = (x1 - x0).min(y1 - y0);
            match s.raw(4) {
                0 => vec![(x0, y0), (x0 + k, y0), (x0, y0 + k)],
                1 => vec![(x0, y0), (x0 + k, y0), (x0 + k, y0 + k)],
                2 => vec![(x0, y0), (x0 + k, y0 + k), (x0, y0 + k)],
                _ => vec![(x0 + k, y0), (x0 + k, y0 + k), (x0, y0 + k)],
            }
        }
        _ => {
            let k = (((x1 - x0).min(y1 - y0)) / 4) * 2;
            vec![(x0 + k, y0), (x1 - k, y0), (x1, y0 + k), (x1, y1 - k), (x1 - k, y1), (x0 + k, y1), (x0, y1 - k), (x0, y0 + k)]
        }
    };
    if s.bool() { c.reverse(); }
    c
}

/// random closed octilinear walk
pub fn gen_walk(s: &mut Src, w: i32, h: i32, max_pts: usize) -> LPath {
    let n = s.usize(2, max_pts.max(3));
    let start = rpt(s, w, h);
    let mut c = vec![start];
    let mut cur = start;
    for _ in 0..n {
        let b = if s.chance(1, 5) && c.len() > 1 { *s.pick(&c[..]) } else { rpt(s, w, h) };
        connect(s, cur, b, &mut c);
        cur = *c.last().unwrap();
    }
    connect(s, cur, start, &mut c);
    if c.len() > 1 && c[0] == c[c.len() - 1] { c.pop(); }
    c
}

/// random set of cells grown from a seed, traced as unit squares (makes many coincident edges)
pub fn gen_contour(s: &mut Src, w: i32, h: i32, prev: &[LPath]) -> LPath {
    let mut c = match s.weighted(&[5, 5, if prev.is_empty() { 0 } else { 1 }]) {
        0 => gen_block(s, w, h),
        1 => gen_walk(s, w, h, 7),
        _ => {
            let mut c: LPath = s.pick(prev).clone();
            match s.raw(3) {
                0 => {}
                1 => c.reverse(),
                _ => { let k = s.usize(0, c.len().max(1) - 1); c.rotate_left(k) }
            }
            c
        }
    };
    // degenerate decorations that do not change the region
    if s.chance(1, 6) && !c.is_empty() { decorate(s, &mut c, w, h); }
    c
}

/// inserts repeated points, collinear points and spikes
pub fn decorate(s: &mut Src, c: &mut LPath, w: i32, h: i32) {
    for _ in 0..s.usize(1, 3) {
        let i = s.usize(0, c.len() - 1);
        match s.raw(3) {
            0 => { let p = c[i]; c.insert(i, p); }
            1 => {
                let (p, q) = (c[i], c[(i + 1) % c.len()]);
                let (dx, dy) = (q.0 - p.0, q.1 - p.1);
                let n = dx.abs().max(dy.abs()) / 2;
                if n > 1 && (dx == 0 || dy == 0 || dx.abs() == dy.abs()) {
                    let k = s.range(1, n as i64 - 1) as i32 * 2;
                    c.insert(i + 1, (p.0 + sgni(dx) * k, p.1 + sgni(dy) * k));
                }
            }
            _ => {
                // spike: go somewhere and straight back
                let p = c[i];
                let d = *s.pick(&[(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (1, -1), (-1, 1), (-1, -1)]);
                let k = 2 * s.range(1, 3) as i32;
                let q = (p.0 + d.0 * k, p.1 + d.1 * k);
                if q.0 >= 0 && q.1 >= 0 && q.0 <= 2 * w && q.1 <= 2 * h { c.insert(i + 1, q); c.insert(i + 2, p); }
            }
        }
    }
}

pub fn gen_contours(s: &mut Src, w: i32, h: i32, lo: usize, hi: usize) -> Vec<LPath> {
    let n = s.usize(lo, hi);
    let mut v: Vec<LPath> = vec![];
    for _ in 0..n { let c = gen_contour(s, w, h, &v); v.push(c); }
    v
}

/// many small blocks spread over a large grid
pub fn gen_many(s: &mut Src, w: i32, h: i32, n: usize, max: i32) -> Vec<LPath> {
    // one draw per contour keeps the tape short
    (0..n).map(|_| {
        let r = s.raw(1 << 60);
        let mut k = kit::Rng::new(r);
        let bw = 1 + (k.next() % max as u64) as i32;
        let bh = 1 + (k.next() % max as u64) as i32;
        let x = 2 * (k.next() % (w - bw).max(1) as u64) as i32;
        let y = 2 * (k.next() % (h - bh).max(1) as u64) as i32;
        let (x1, y1) = (x + 2 * bw, y + 2 * bh);
        let mut c = match k.next() % 4 {
            0 | 1 => vec![(x, y), (x1, y), (x1, y1), (x, y1)],
            2 => { let q = (x1 - x).min(y1 - y); vec![(x, y), (x + q, y), (x, y + q)] }
            _ => { let q = ((x1 - x).min(y1 - y) / 4 * 2).max(2); let (cx, cy) = (x + q, y + q); vec![(cx - q, cy), (cx, cy - q), (cx + q, cy), (cx, cy + q)] }
        };
        c.retain(|p| p.0 >= 0 && p.1 >= 0 && p.0 <= 2 * w && p.1 <= 2 * h);
        if k.next() % 2 == 0 { c.reverse(); }
        c
    }).collect()
}

// ------------------------------------------------------------ the oracle

#[derive(Clone)]
pub struct Field {
    pub w: usize,
    pub h: usize,
    /// horizontal unit edges, index (i,j) i<w, j<=h ; +E
    pub eh: Vec<i32>,
    /// vertical unit edges, (i,j) i<=w, j<h ; +N
    pub ev: Vec<i32>,
    /// half diagonals of block: [sw,se,ne,nw], + = from the centre outwards
    pub ed: Vec<[i32; 4]>,
}
pub const B: usize = 0;
pub const R: usize = 1;
pub const T: usize = 2;
pub const LF: usize = 3;

/// identifies one unit edge
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Unit { H(usize, usize), V(usize, usize), D(usize, usize, u8) }

impl Field {
    pub fn new(w: i32, h: i32) -> Self {
        let (w, h) = (w as usize, h as usize);
        Field { w, h, eh: vec![0; w * (h + 1)], ev: vec![0; (w + 1) * h], ed: vec![[0; 4]; w * h] }
    }
    fn add(&mut self, u: Unit, v: i32) {
        match u {
            Unit::H(i, j) => self.eh[j * self.w + i] += v,
            Unit::V(i, j) => self.ev[j * (self.w + 1) + i] += v,
            Unit::D(i, j, k) => self.ed[j * self.w + i][k as usize] += v,
        }
    }
    pub fn get(&self, u: Unit) -> i32 {
        match u {
            Unit::H(i, j) => self.eh[j * self.w + i],
            Unit::V(i, j) => self.ev[j * (self.w + 1) + i],
            Unit::D(i, j, k) => self.ed[j * self.w + i][k as usize],
        }
    }
    /// walks a -> b along unit edges; each visit reports the unit and +1/-1 for its direction. Err when off the lattice lines.
    pub fn trace(&self, a: L, b: L, mut f: impl FnMut(Unit, i32)) -> Result<(), String> {
        let (w2, h2) = (2 * self.w as i32, 2 * self.h as i32);
        let inside = |p: L| p.0 >= 0 && p.1 >= 0 && p.0 <= w2 && p.1 <= h2 && (p.0 + p.1) % 2 == 0;
        if !inside(a) || !inside(b) { return Err(format!("edge {:?}->{:?} leaves the lattice", a, b)); }
        let (dx, dy) = (b.0 - a.0, b.1 - a.1);
        if dx == 0 && dy == 0 { return Ok(()); }
        if dy == 0 || dx == 0 {
            if a.0 % 2 != 0 || b.0 % 2 != 0 || a.1 % 2 != 0 || b.1 % 2 != 0 { return Err(format!("edge {:?}->{:?} runs off the lattice lines", a, b)); }
            if dy == 0 {
                let j = (a.1 / 2) as usize;
                let (x0, x1, v) = if dx > 0 { (a.0, b.0, 1) } else { (b.0, a.0, -1) };
                let mut x = x0;
                while x < x1 { f(Unit::H((x / 2) as usize, j), v); x += 2; }
            } else {
                let i = (a.0 / 2) as usize;
                let (y0, y1, v) = if dy > 0 { (a.1, b.1, 1) } else { (b.1, a.1, -1) };
                let mut y = y0;
                while y < y1 { f(Unit::V(i, (y / 2) as usize), v); y += 2; }
            }
            return Ok(());
        }
        if dx.abs() != dy.abs() { return Err(format!("edge {:?}->{:?} runs off the lattice lines", a, b)); }
        let (sx, sy) = (sgni(dx), sgni(dy));
        let mut p = a;
        while p != b {
            let q = (p.0 + sx, p.1 + sy);
            let bi = (p.0.min(q.0)).div_euclid(2) as usize;
            let bj = (p.1.min(q.1)).div_euclid(2) as usize;
            let (center_first, corner) = if p.0 % 2 != 0 { (true, q) } else { (false, p) };
            let right = corner.0 > 2 * bi as i32;
            let top = corner.1 > 2 * bj as i32;
            let k = match (right, top) { (false, false) => 0u8, (true, false) => 1, (true, true) => 2, (false, true) => 3 };
            f(Unit::D(bi, bj, k), if center_first { 1 } else { -1 });
            p = q;
        }
        Ok(())
    }
    pub fn add_path(&mut self, c: &[L], closed: bool) -> Result<(), String> {
        if c.len() < 2 { return Ok(()); }
        let mut list = vec![];
        let n = if closed { c.len() } else { c.len() - 1 };
        for i in 0..n { self.trace(c[i], c[(i + 1) % c.len()], |u, v| list.push((u, v)))?; }
        for (u, v) in list { self.add(u, v); }
        Ok(())
    }
    pub fn from_contours(w: i32, h: i32, cs: &[LPath]) -> Self {
        let mut f = Field::new(w, h);
        for c in cs { f.add_path(c, true).expect("generated contour on lattice"); }
        f
    }
    /// winding number of each triangle, 4 per block
    pub fn windings(&self) -> Vec<[i32; 4]> {
        let mut out = vec![[0; 4]; self.w * self.h];
        for j in 0..self.h {
            let mut cur = 0;
            for i in 0..self.w {
                cur -= self.ev[j * (self.w + 1) + i];
                let d = self.ed[j * self.w + i];
                let l = cur;
                let t = l - d[3];
                let b = l + d[0];
                let r = t - d[2];
                out[j * self.w + i] = [b, r, t, l];
                cur = r;
            }
        }
        out
    }
    pub fn units(&self) -> impl Iterator<Item = Unit> + '_ {
        let (w, h) = (self.w, self.h);
        let hs = (0..=h).flat_map(move |j| (0..w).map(move |i| Unit::H(i, j)));
        let vs = (0..h).flat_map(move |j| (0..=w).map(move |i| Unit::V(i, j)));
        let ds = (0..h).flat_map(move |j| (0..w).flat_map(move |i| (0..4u8).map(move |k| Unit::D(i, j, k))));
        hs.chain(vs).chain(ds)
    }
    /// triangles left and right of the unit edge's positive direction
    pub fn sides(&self, u: Unit) -> (Option<(usize, usize, usize)>, Option<(usize, usize, usize)>) {
        match u {
            Unit::H(i, j) => (if j < self.h { Some((i, j, B)) } else { None }, if j > 0 { Some((i, j - 1, T)) } else { None }),
            Unit::V(i, j) => (if i > 0 { Some((i - 1, j, R)) } else { None }, if i < self.w { Some((i, j, LF)) } else { None }),
            Unit::D(i, j, k) => match k {
                0 => (Some((i, j, B)), Some((i, j, LF))),
                1 => (Some((i, j, R)), Some((i, j, B))),
                2 => (Some((i, j, T)), Some((i, j, R))),
                _ => (Some((i, j, LF)), Some((i, j, T))),
            },
        }
    }
}

pub fn unit_ends(u: Unit) -> (L, L) {
    match u {
        Unit::H(i, j) => ((2 * i as i32, 2 * j as i32), (2 * i as i32 + 2, 2 * j as i32)),
        Unit::V(i, j) => ((2 * i as i32, 2 * j as i32), (2 * i as i32, 2 * j as i32 + 2)),
        Unit::D(i, j, k) => {
            let c = (2 * i as i32 + 1, 2 * j as i32 + 1);
            let d = [(-1, -1), (1, -1), (1, 1), (-1, 1)][k as usize];
            (c, (c.0 + d.0, c.1 + d.1))
        }
    }
}

pub type Fill = Vec<[bool; 4]>;

pub fn filled(w: i32, r: FillRule) -> bool {
    match r { FillRule::EvenOdd => w & 1 != 0, FillRule::NonZero => w != 0, FillRule::Positive => w > 0, FillRule::Negative => w < 0 }
}
pub fn ruled(s: bool, c: bool, r: OverlayRule) -> bool {
    match r {
        OverlayRule::Subject => s,
        OverlayRule::Clip => c,
        OverlayRule::Intersect => s && c,
        OverlayRule::Union => s || c,
        OverlayRule::Difference => s && !c,
        OverlayRule::InverseDifference => c && !s,
        OverlayRule::Xor => s != c,
    }
}
pub fn fill_of(wd: &[[i32; 4]], r: FillRule) -> Fill { wd.iter().map(|t| [filled(t[0], r), filled(t[1], r), filled(t[2], r), filled(t[3], r)]).collect() }
pub fn combine(s: &Fill, c: &Fill, r: OverlayRule) -> Fill {
    s.iter().zip(c).map(|(a, b)| [ruled(a[0], b[0], r), ruled(a[1], b[1], r), ruled(a[2], b[2], r), ruled(a[3], b[3], r)]).collect()
}
pub fn fill_at(w: usize, f: &Fill, t: Option<(usize, usize, usize)>) -> bool { t.map(|(i, j, k)| f[j * w + i][k]).unwrap_or(false) }
pub fn count(f: &Fill) -> usize { f.iter().map(|t| t.iter().filter(|x| **x).count()).sum() }

pub const RULES: [OverlayRule; 7] = [OverlayRule::Union, OverlayRule::Intersect, OverlayRule::Difference, OverlayRule::InverseDifference, OverlayRule::Xor, OverlayRule::Subject, OverlayRule::Clip];
pub const FILLS: [FillRule; 4] = [FillRule::EvenOdd, FillRule::NonZero, FillRule::Positive, FillRule::Negative];

/// lattice coordinates of the output; error when a point is not a lattice point
pub fn decode(q: &Affine, c: &[IntPoint]) -> Result<LPath, String> {
    c.iter().map(|p| q.inv((p.x as i64, p.y as i64)).ok_or_else(|| format!("output point {:?} is not an arrangement vertex", (p.x, p.y)))).collect()
}
pub fn decode_shapes(q: &Affine, shapes: &IntShapes) -> Result<Vec<Vec<LPath>>, String> {
    shapes.iter().map(|s| s.iter().map(|c| decode(q, c)).collect()).collect()
}

/// Checks that the directed boundary of `shapes` is exactly the boundary of `want`. `ccw`: outer contours are counter-clockwise
/// (in lattice coordinates: filled side on the left).
pub fn check_boundary(w: i32, h: i32, shapes: &[Vec<LPath>], want: &Fill, ccw: bool) -> Result<(), String> {
    let mut net = Field::new(w, h);
    let mut abs = Field::new(w, h);
    for s in shapes {
        for c in s {
            for i in 0..c.len() {
                let mut l = vec![];
                net.trace(c[i], c[(i + 1) % c.len()], |u, v| l.push((u, v)))?;
                for (u, v) in l { net.add(u, v); abs.add(u, 1); }
            }
        }
    }
    let wu = w as usize;
    for u in net.units() {
        let (l, r) = net.sides(u);
        let (fl, fr) = (fill_at(wu, want, l), fill_at(wu, want, r));
        let mut e = fl as i32 - fr as i32;
        if !ccw { e = -e; }
        let (n, a) = (net.get(u), abs.get(u));
        if n != e || a != e.abs() {
            return Err(format!("lattice edge {:?}: expected directed count {} but output has net {} and total {}", unit_ends(u), e, n, a));
        }
    }
    Ok(())
}

/// A mirroring map negates every winding number, which exchanges Positive and Negative.
pub fn fill_dir(r: FillRule, q: &Affine) -> FillRule {
    if q.det() > 0 { return r; }
    match r { FillRule::Positive => FillRule::Negative, FillRule::Negative => FillRule::Positive, r => r }
}

// ------------------------------------------------------------ structure of the result

/// labels the edge-connected components of the filled triangles
pub fn components(w: usize, h: usize, f: &Fill, cut: Option<&dyn Fn(Unit) -> bool>) -> (Vec<[usize; 4]>, usize) {
    let none = usize::MAX;
    let mut lab = vec![[none; 4]; w * h];
    let mut n = 0;
    let fld = Field::new(0, 0);
    let _ = fld;
    let nb = |i: usize, j: usize, k: usize| -> [(Unit, Option<(usize, usize, usize)>); 3] {
        let d = |a: u8| Unit::D(i, j, a);
        match k {
            B => [(Unit::H(i, j), if j > 0 { Some((i, j - 1, T)) } else { None }), (d(0), Some((i, j, LF))), (d(1), Some((i, j, R)))],
            R => [(Unit::V(i + 1, j), if i + 1 < w { Some((i + 1, j, LF)) } else { None }), (d(1), Some((i, j, B))), (d(2), Some((i, j, T)))],
            T => [(Unit::H(i, j + 1), if j + 1 < h { Some((i, j + 1, B)) } else { None }), (d(2), Some((i, j, R))), (d(3), Some((i, j, LF)))],
            _ => [(Unit::V(i, j), if i > 0 { Some((i - 1, j, R)) } else { None }), (d(3), Some((i, j, T))), (d(0), Some((i, j, B)))],
        }
    };
    for j in 0..h { for i in 0..w { for k in 0..4 {
        if !f[j * w + i][k] || lab[j * w + i][k] != none { continue; }
        let id = n; n += 1;
        let mut st = vec![(i, j, k)];
        lab[j * w + i][k] = id;
        while let Some((a, b, c)) = st.pop() {
            for (u, t) in nb(a, b, c) {
                if let Some((x, y, z)) = t {
                    if f[y * w + x][z] && lab[y * w + x][z] == none && !cut.map(|g| g(u)).unwrap_or(false) {
                        lab[y * w + x][z] = id;
                        st.push((x, y, z));
                    }
                }
            }
        }
    } } }
    (lab, n)
}

pub fn area2l(c: &[L]) -> i64 {
    let mut s = 0i64;
    for i in 0..c.len() { let (a, b) = (c[i], c[(i + 1) % c.len()]); s += a.0 as i64 * b.1 as i64 - a.1 as i64 * b.0 as i64; }
    s
}

/// Shapes: outer first, holes opposite; every contour encloses one edge-connected area; holes lie inside their own outer and
/// do not overlap; no edge-connected part of the region (labels `lab`) is divided between shapes.
pub fn check_shapes(w: i32, h: i32, shapes: &[Vec<LPath>], lab: &[[usize; 4]], n: usize, ccw: bool) -> Result<(), String> {
    let mut owner = vec![usize::MAX; n];
    let (wu, hu) = (w as usize, h as usize);
    for (si, s) in shapes.iter().enumerate() {
        if s.is_empty() { return Err("a shape without contours".into()); }
        let mut total = vec![[0i32; 4]; wu * hu];
        for (k, c) in s.iter().enumerate() {
            if c.len() < 3 { return Err(format!("contour with {} points", c.len())); }
            let a = area2l(c);
            if !(if (k == 0) == ccw { a > 0 } else { a < 0 }) { return Err(format!("contour {} of a shape has signed area {}/2: wrong direction or empty: {:?}", k, a, c)); }
            let wd = Field::from_contours(w, h, std::slice::from_ref(c)).windings();
            let sign = if (k == 0) == ccw { 1 } else { -1 };
            let mut f: Fill = vec![[false; 4]; wu * hu];
            for (b, t) in wd.iter().enumerate() { for q in 0..4 {
                if t[q] == 0 { continue; }
                if t[q] != sign { return Err(format!("contour winds {} times around a point: {:?}", t[q], c)); }
                f[b][q] = true;
                total[b][q] += sign;
            } }
            let (_, m) = components(wu, hu, &f, None);
            if m != 1 { return Err(format!("contour {} of a shape encloses {} separate areas: {:?}", k, m, c)); }
        }
        let want = if ccw { 1 } else { -1 };
        for (b, t) in total.iter().enumerate() { for q in 0..4 {
            if t[q] == 0 { continue; }
            if t[q] != want { return Err(format!("a hole lies outside its outer contour or two holes overlap: {:?}", s)); }
            let l = lab[b][q];
            if l == usize::MAX { return Err("a shape covers a point outside the region".into()); }
            if owner[l] == usize::MAX { owner[l] = si; } else if owner[l] != si { return Err("one connected part of the region is divided between two shapes".into()); }
        } }
    }
    Ok(())
}

pub fn max_visits(c: &[L]) -> usize {
    let mut m = std::collections::HashMap::new();
    for p in c { *m.entry(*p).or_insert(0usize) += 1; }
    m.values().copied().max().unwrap_or(0)
}

/// how often each unit edge is passed in each direction by open paths (lattice coordinates)
pub fn unit_steps(w: i32, h: i32, paths: &[LPath]) -> Result<std::collections::BTreeMap<(Unit, bool), usize>, String> {
    let f = Field { w: w as usize, h: h as usize, eh: vec![], ev: vec![], ed: vec![] };
    let mut m = std::collections::BTreeMap::new();
    for p in paths { for k in p.windows(2) { f.trace(k[0], k[1], |u, v| *m.entry((u, v > 0)).or_insert(0) += 1)?; } }
    Ok(m)
}
